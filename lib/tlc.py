"""Running TLC on the specification."""
import os, subprocess, re, json, tempfile, shutil
from run import ROOT, HarnessError
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def tlc(module, cfg, env=None, workers=8, timeout=600, mem='6g', extra=(), cont=True, cwd=None):
    """run TLC; (exit status, output). cfg: text of the configuration"""
    d = tempfile.mkdtemp(prefix='tlc_')
    try:
        c = os.path.join(d, 'm.cfg')
        with open(c, 'w') as f: f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss256m', '-Dfile.encoding=UTF-8', '-Dsun.stdout.encoding=UTF-8', '-Dstdout.encoding=UTF-8', '-cp', CP, 'tlc2.TLC', '-metadir', os.path.join(d, 'meta'), '-config', c, '-workers', str(workers), '-noGenerateSpecTE'] + \
            (['-continue'] if cont else []) + list(extra) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=cwd or SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired as e:
            raise HarnessError('TLC timed out on %s\n%s' % (module, (e.stdout or b'').decode('utf8', 'replace')[-1500:]))
        return r.returncode, r.stdout.decode('utf8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stats(out):
    """(states generated, distinct states)"""
    m = re.findall(r'^([\d,]+) states generated.*?, ([\d,]+) distinct states found', out, re.M)
    return tuple(int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)


def validate(runs, prop, workers=8, timeout=700):
    """check recorded runs against GeneratorTrace: {name: [deviations]}, {name: stats}, (states, distinct)"""
    if not runs: return {}, {}, (0, 0)
    f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', delete=False, encoding='utf8')
    try:
        for r in runs: f.write(json.dumps(r) + '\n')
        f.close()
        cfg = 'SPECIFICATION TraceSpec\nVIEW View\nCONSTANT Prop = "%s"\nINVARIANT DesignHolds\nINVARIANT Holds\nALIAS Alias\nCHECK_DEADLOCK FALSE\n' % prop
        rc, out = tlc('GeneratorTrace', cfg, dict(TRACES=f.name), workers, timeout)
    finally:
        os.unlink(f.name)
    devs, st = {}, {}
    for l in out.split('\n'):
        l = l.strip()
        if l.startswith('"@@'):
            r = json.loads(json.loads(l)[2:])
            devs[r['stats']['world']] = r['dev']; st[r['stats']['world']] = r['stats']
    miss = [r['name'] for r in runs if r['name'] not in devs]
    if miss: raise HarnessError('TLC gave no verdict for %s (status %d)\n%s' % (miss[:5], rc, out[-3000:]))
    if 'Invariant DesignHolds is violated' in out: raise HarnessError('an accepted run breaks an invariant of the design\n' + out[-3000:])
    bad = any(prop in d['p'] for v in devs.values() for d in v)
    if bad != ('Invariant Holds is violated' in out): raise HarnessError('verdict and report disagree\n' + out[-3000:])
    if rc not in (0, 12): raise HarnessError('TLC failed (%d)\n%s' % (rc, out[-3000:]))
    return devs, st, stats(out)
