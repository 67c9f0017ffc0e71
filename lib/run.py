"""Building the tool from /repo's working tree and running it on worlds."""
import os, subprocess, json, shutil, fcntl, time, tempfile, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(ROOT, '.cache'))
MOCK = os.path.join(ROOT, 'mock')
CXX = '/usr/bin/clang++-18'
CF = ['-std=c++17', '-O0', '-w', '-isystem', MOCK]


class HarnessError(Exception): pass


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def lock(name):
    os.makedirs(CACHE, exist_ok=True)
    f = open(os.path.join(CACHE, name), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build():
    """returns path of a binder built from /repo's working tree; None and output when it does not build"""
    with lock('build.lock'):
        b = os.path.join(CACHE, 'build')
        os.makedirs(b, exist_ok=True)
        env = dict(os.environ, CC='/usr/bin/gcc-13', CXX='/usr/bin/g++-13')
        if not os.path.exists(os.path.join(b, 'build.ninja')):
            r = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON', '-DLLVM_DIR=/usr/lib/llvm-14/lib/cmake/llvm',
                    '-DClang_DIR=/usr/lib/llvm-14/lib/cmake/clang', '-Wno-dev'], env=env)
            if r.returncode: raise HarnessError('cmake failed:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
        r = sh(['ninja', '-C', b, 'binder'], env=env)
        if r.returncode: raise HarnessError('the tool does not build:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
        os.makedirs(os.path.join(b, 'lib'), exist_ok=True)
        l = os.path.join(b, 'lib', 'clang')
        if not os.path.lexists(l): os.symlink('/usr/lib/llvm-14/lib/clang', l)
        return os.path.join(b, 'source', 'binder')


def pch():
    with lock('pch.lock'):
        h = os.path.join(CACHE, 'pre.hpp'); p = os.path.join(CACHE, 'pre.pch')
        src = [os.path.join(MOCK, 'pybind11/pybind11.h'), os.path.join(MOCK, 'vt_trace.hpp')]
        if os.path.exists(p) and all(os.path.getmtime(p) > os.path.getmtime(s) for s in src): return p
        with open(h, 'w') as f:
            f.write(''.join('#include <%s>\n' % x for x in ('string', 'sstream', 'ostream', 'iostream', 'functional', 'memory', 'iterator', 'map', 'vector', 'set', 'utility', 'pybind11/pybind11.h')))
        r = sh([CXX] + CF + ['-x', 'c++-header', h, '-o', p])
        if r.returncode: raise HarnessError('pch: ' + r.stdout.decode()[-2000:])
        return p


_binder = None


def set_binder(b):
    global _binder
    _binder = b


def tool(args, cwd, timeout=60, env=None):
    """(exit status or 'timeout', output)"""
    try:
        r = subprocess.run([_binder] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace')


def sources(d, out='out'):
    p = os.path.join(d, out, 'tm.sources')
    if not os.path.exists(p): return None
    return [l for l in open(p).read().split('\n') if l]


def execute(d, out='out', pchf=None, timeout=60, incs=()):
    """compile generated code in one translation unit against the recording mock and run it; returns (kind, data)"""
    o = os.path.join(d, out)
    u = os.path.join(d, 'unity_%s.cpp' % out)
    l = sources(d, out)
    if l is None: l = ['tm.cpp']
    with open(u, 'w') as f: f.write(''.join('#include "%s/%s"\n' % (out, x) for x in l))
    exe = os.path.join(d, 'a_%s.out' % out)
    r = sh([CXX] + CF + ['-I.', '-isystem', 'sys'] + (['-include-pch', pchf] if pchf else []) + [os.path.basename(u), '-o', exe], cwd=d, timeout=300)
    if r.returncode: return 'compile', r.stdout.decode('utf8', 'replace')
    evf = os.path.join(d, 'ev_%s' % out)
    if os.path.exists(evf): os.unlink(evf)
    try:
        with open(evf, 'ab') as so:  # the recorder appends its events to the same file, so that output and events stay in order
            r = subprocess.run([exe], cwd=d, stdout=so, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, MK_OUT=evf, MK_VB=os.path.join(d, 'vb')))
    except subprocess.TimeoutExpired:
        return 'hang', ''
    finally:
        if os.path.exists(exe): os.unlink(exe)
    ev = []
    with open(evf, 'rb') as f:
        for x in f.read().decode('latin1').split('\n'):
            if x.startswith('{"e":'): ev.append(json.loads(x))
            elif x: ev.append(dict(e='out', text=x))
    if r.returncode: return 'crash', 'status %s\n%s' % (r.returncode, json.dumps(ev[-1:]))
    return 'ok', dict(ev=ev, err=r.stderr.decode('utf8', 'replace'))


def alone(d, out='out', pchf=None):
    """does each generated source compile by itself? first error or ''"""
    for x in sources(d, out) or ['tm.cpp']:
        r = sh([CXX] + CF + ['-fsyntax-only', '-I.', '-isystem', 'sys'] + (['-include-pch', pchf] if pchf else []) + [os.path.join(out, x)], cwd=d, timeout=300)
        if r.returncode: return x + ' does not compile by itself: ' + r.stdout.decode('utf8', 'replace')
    return ''


def valid(d):
    """is the world itself good C++?"""
    r = sh([CXX, '-std=c++17', '-w', '-fsyntax-only', '-x', 'c++', '-I.', '-isystem', 'sys', '-isystem', MOCK, 'all.hpp'], cwd=d)
    return r.returncode == 0, r.stdout.decode('utf8', 'replace')
