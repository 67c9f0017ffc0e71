"""Histories of one output directory: generated by TLC from spec/Output.tla, executed with the real tool (file operations failing
or the tool being killed where the history says so), recorded, and validated by TLC against OutputTrace."""
import os, json, random, shutil, subprocess, tempfile, hashlib, resource, signal
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import run, world, emit, tlc
from run import HarnessError, ROOT

ALWAYS = ['tm.cpp', 'tm.sources', 'tm.modules']
MC = 'CONSTANTS Content <- MCContent\n AllFiles <- %s\n Always <- MCAlways\n'


def shim():
    with run.lock('shim.lock'):
        s, o = os.path.join(ROOT, 'mock', 'shim.c'), os.path.join(run.CACHE, 'shim.so')
        if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s):
            r = run.sh(['gcc', '-w', '-O1', '-shared', '-fPIC', '-o', o, s, '-ldl'])
            if r.returncode: raise HarnessError('shim: ' + r.stdout.decode())
        return o


# ------------------------------------------------------------------------------------------------- models
def model(c):
    c.model('MCOutput', 'SPECIFICATION FairSpec\n' + MC % 'MCFiles' + 'INVARIANTS CompleteInv QuietInv OthersInv ReportedInv CanRepair\nPROPERTY Progress\nCHECK_DEADLOCK FALSE\n', 'Output (2 versions, 3 files)')
    if not c.quick:
        c.model('MCOutput', 'SPECIFICATION Spec\n' + MC % 'MCFiles4' + 'INVARIANTS CompleteInv QuietInv OthersInv ReportedInv CanRepair\nCHECK_DEADLOCK FALSE\n', 'Output (2 versions, 3 files and a file of the user)')


def histories(n, length, seed):
    """n different histories of the model, chosen from random walks of TLC"""
    rc, out = tlc.tlc('OutputGen', 'SPECIFICATION GSpec\n' + MC % 'MCFiles4' + ' N = %d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % length, workers=1, cont=False,
                      extra=['-simulate', 'num=%d' % (4 * n), '-depth', '300', '-seed', str(seed)], timeout=300)
    hs = sorted({l.strip() for l in out.split('\n') if l.strip().startswith('"@@')})
    hs = [json.loads(json.loads(l)[2:]) for l in hs]
    if len(hs) < n: raise HarnessError('TLC generated %d histories only\n%s' % (len(hs), out[-1500:]))
    r = random.Random(seed)
    r.shuffle(hs)
    by = {}
    for h in hs: by.setdefault(json.dumps(h[:-1]), h)     # walks that differ in the last event only are emitted together
    hs = list(by.values())
    return hs[:n]


# ------------------------------------------------------------------------------------------------- the real directory
def walk(d):
    """path -> (content or 'blocked', mtime, inode)"""
    r = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            s = os.lstat(p)
            with open(p, 'rb') as h: r[os.path.relpath(p, d)] = (h.read(), s.st_mtime_ns, s.st_ino)
    return r


class Dir:
    """versions v1, v2 of an input and one output directory"""
    def __init__(self, base, ws):
        self.d = tempfile.mkdtemp(dir=base)
        self.out = os.path.join(self.d, 'out')
        self.fresh, self.args = {}, {}
        for v, w in ws.items():
            o = os.path.join(self.d, v)
            os.makedirs(o)
            emit.Emit(w).run(o)
            self.args[v] = emit.args(w, '../out')
        for v in ws:
            self.clean()
            rc, t = self.tool(v)
            if rc != 0: self.fresh = None; return
            self.fresh[v] = {f: x[0] for f, x in walk(self.out).items()}
        self.ids = {}
        for v in self.fresh:
            for f, x in self.fresh[v].items(): self.ids[(f, x)] = 'c' + hashlib.sha1(x).hexdigest()[:10]
        self.files = sorted({f for v in self.fresh for f in self.fresh[v]} | {'user.txt', 'user.cpp'})
        self.clean()

    def clean(self):
        shutil.rmtree(self.out, ignore_errors=True); os.makedirs(self.out)

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def tool(self, v, env=None, limit=None, args=None, cwd=None, timeout=60):
        def pre():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        try:
            r = subprocess.run([run._binder] + (args or self.args[v]), cwd=cwd or os.path.join(self.d, v), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})), preexec_fn=pre)
            return r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as e:
            return 'hang', (e.stdout or b'').decode('utf8', 'replace')

    def state(self):
        r = {}
        w = walk(self.out)
        for f in set(self.files) | set(w):
            if f in w: r[f] = self.ids.get((f, w[f][0]), 'user' if w[f][0] == b'keep' else 'partial')
            elif os.path.lexists(os.path.join(self.out, f)) or self.shadowed(f): r[f] = 'blocked'
            else: r[f] = 'absent'
        return r

    def shadowed(self, f):
        p = os.path.dirname(f)
        while p:
            x = os.path.join(self.out, p)
            if os.path.lexists(x) and not os.path.isdir(x): return True
            p = os.path.dirname(p)
        return False

    def rm(self, f):
        p = os.path.dirname(f)
        while p:
            x = os.path.join(self.out, p)
            if os.path.lexists(x) and not os.path.isdir(x): os.unlink(x)
            p = os.path.dirname(p)
        x = os.path.join(self.out, f)
        if os.path.isdir(x) and not os.path.islink(x): shutil.rmtree(x)
        elif os.path.lexists(x): os.unlink(x)

    def tamper(self, f, how, r):
        if how == 'blocked' and os.path.dirname(f) and r.random() < .5:     # something in the way of its directory
            top = f.split('/')[0]
            x = os.path.join(self.out, top)
            shutil.rmtree(x, ignore_errors=True)
            with open(x, 'w') as h: h.write('in the way')
        else:
            self.rm(f)
            x = os.path.join(self.out, f)
            if how == 'blocked': os.makedirs(os.path.join(x, 'in the way'))
            elif how in ('partial', 'user'):
                os.makedirs(os.path.dirname(x), exist_ok=True)
                good = [self.fresh[v][f] for v in self.fresh if f in self.fresh[v]] or [b'other']
                g = r.choice(good)
                c = r.choice([b'', g[:len(g) // 2], g[:-1], g + b'\n', g + b'tail of an older version', b'x' * len(g), g[:len(g) // 2] + b'@' + g[len(g) // 2 + 1:], g.replace(b'\n', b'\r\n'), g + b'\0', b'keep'])
                if how == 'user': c = b'keep'
                with open(x, 'wb') as h: h.write(c)
        return dict(op='tamper', v='', how=how, f=f, at='', post=self.state())

    def run(self, v, how='ok', f='', at='', k=0, limit=None):
        old = walk(self.out)
        for x in old: os.utime(os.path.join(self.out, x), ns=(10 ** 18, 10 ** 18))
        old = walk(self.out)
        log = os.path.join(self.d, 'shim.log')
        if os.path.exists(log): os.unlink(log)
        env = dict(LD_PRELOAD=shim(), SHIM_DIR=os.path.realpath(self.out), SHIM_LOG=log)
        if how != 'ok':
            env['SHIM_MODE'] = how
            if k: env['SHIM_K'] = str(k)
            else: env.update(SHIM_OP=at, SHIM_PATH='/' + f)
        rc, t = self.tool(v, env, limit)
        ops = [l.split(' ') for l in open(log).read().split('\n') if l] if os.path.exists(log) else []
        new = walk(self.out)
        del_ = int(any(o[-1] != 'ok' for o in ops))
        if limit is not None: del_ = int(any(len(x) > limit for x in self.fresh[v].values()))
        hit = next((o for o in ops if o[-1] == 'hit'), None)
        if hit and k: f, at = hit[2].lstrip('/'), hit[1]
        return dict(op='run', v=v, how=how if limit is None else 'file size limit %d' % limit, f=f, at=at, delivered=del_, rc='hang' if rc == 'hang' else '0' if rc == 0 else 'killed' if rc == -9 else '1', post=self.state(),
                    touched=sorted(x for x in new if x in old and new[x][1:] != old[x][1:])), len(ops)

    def rec(self, name, ev):
        return dict(name=name, content={v: {f: self.ids[(f, x)] for f, x in self.fresh[v].items()} for v in self.fresh}, files=self.files, always=ALWAYS, ev=ev)


# ------------------------------------------------------------------------------------------------- versions of an input
def versions(seed):
    """two inputs that differ in layout, directives or declarations"""
    r = random.Random('versions/%d' % seed)
    for i in range(60):
        s = r.randrange(10 ** 9)
        w = world.make(s, 'files')
        w['opt'].update(single=0, maxsize=r.choice([1, 300, 2000]) if r.random() < .7 else w['opt']['maxsize'], suppress=0)
        w2 = world.make(s, 'files')
        w2['opt'] = dict(w['opt'])
        k = r.choice(['flat', 'size', 'dirs', 'dirs', 'annotate', 'other'])
        if k == 'flat': w2['opt']['flat'] = 1 - w2['opt']['flat']
        elif k == 'size': w2['opt']['maxsize'] = 20000 if w['opt']['maxsize'] < 20000 else 1
        elif k == 'annotate': w2['opt'].update(annf=1 - w['opt']['annf'], trace=1 - w['opt']['trace'])
        elif k == 'dirs':
            cs = [e for e in w2['ents'] if e['k'] in ('class', 'func') and not e.get('outer')]
            if not cs: continue
            e = r.choice(cs)
            w2['dirs'] = w2['dirs'] + [dict(s='-', t='class' if e['k'] == 'class' else 'function', a=[e['gen']], ns=[])]
        else: w2 = world.make(s + 1, 'files'); w2['opt'].update(single=0, suppress=0)
        return dict(v1=w, v2=w2)


def pick(base, seed, need=3):
    """a directory whose two versions both generate, with some files of their own"""
    for i in range(80):
        try: D = Dir(base, versions(seed * 1000 + i))
        except KeyError: raise
        if D.fresh and all(len(D.fresh[v]) >= len(ALWAYS) + 1 for v in D.fresh) and max(len(D.fresh[v]) for v in D.fresh) >= len(ALWAYS) + need and D.fresh['v1'] != D.fresh['v2'] and 'tm.sources' in D.fresh['v1']: return D
        D.close()
    raise HarnessError('no suitable input found')


# ------------------------------------------------------------------------------------------------- cases (each returns (name, record))
def do_history(a):
    base, seed, h = a
    D = pick(base, seed)
    try:
        r = random.Random(seed)
        subs = sorted(set(D.fresh['v1']) & set(D.fresh['v2']) - set(ALWAYS)) or sorted(set(D.fresh['v1']) - set(ALWAYS))
        only = sorted(set(D.fresh['v1']) - set(ALWAYS) - set(subs)) or sorted(set(D.fresh['v1']) - set(ALWAYS))
        name = {'root': r.choice(ALWAYS[:1] * 3 + ALWAYS), 's1': r.choice(subs), 's2': r.choice(only), 'user': 'user.txt', '': ''}
        ev = [D.tamper('user.cpp', 'user', r)]
        for e in h:
            if e['op'] == 'tamper': ev.append(D.tamper(name[e['f']], {'partial': 'user'}.get(e['how'], e['how']) if e['f'] == 'user' else e['how'], r))
            else: ev.append(D.run(e['v'], e['how'], name[e['f']], e['at'])[0])
        for f, s in D.state().items():      # remove what is in the way, then everything must come out right
            if s == 'blocked': ev.append(D.tamper(f, 'absent', r))
        v = r.choice(['v1', 'v2'])
        ev.append(D.run(v)[0]); ev.append(D.run(v)[0]); ev.append(D.run('v2' if v == 'v1' else 'v1')[0])
        return 'history/%d' % seed, D.rec('history/%d' % seed, ev)
    finally: D.close()


def do_faults(a):
    """every file operation of a run fails in every way; then the tool runs again"""
    base, seed, start, modes, part, parts = a
    D = pick(base, seed)
    name = 'faults/%d/%s/%d' % (seed, start, part)
    try:
        def reset():
            D.clean()
            for f, x in (D.fresh['v1'] if start == 'v1' else {}).items():
                p = os.path.join(D.out, f); os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as h: h.write(x)
            return dict(op='tamper', v='', how='reset', f='', at='', post=D.state())
        ev = [reset()]
        e, n = D.run('v2')
        if e['rc'] == '0' and n == 0: raise HarnessError('no file operation was recorded')
        ev.append(e)
        for k in range(1 + part, n + 1, parts):
            for m in modes:
                ev.append(reset())
                ev.append(D.run('v2', m, k=k)[0])
                ev.append(D.run('v2')[0])
        if part == 0:
            sizes = sorted({len(x) for x in D.fresh['v2'].values()})
            for l in sorted({0, 1} | {s - 1 for s in sizes if s} | {sizes[-1]}):
                ev.append(reset()); ev.append(D.run('v2', limit=l)[0]); ev.append(D.run('v2')[0])
        return name, D.rec(name, ev)
    finally: D.close()


def permute(lines, r):
    """random order that keeps the order of the lines of each kind"""
    g = {}
    for l in lines: g.setdefault(l.split(' ')[0].lstrip('+-'), []).append(l)
    seq = [k for k in g for _ in g[k]]
    r.shuffle(seq)
    return [g[k].pop(0) for k in seq]


def do_same(a):
    """same input: again, in a dirty directory, with directives of different kinds in another order, in other places"""
    base, seed, profile = a
    d = tempfile.mkdtemp(dir=base)
    name = 'same/%s/%d' % (profile, seed)
    try:
        w = world.make(seed, profile)
        i = os.path.join(d, 'in'); os.makedirs(i)
        emit.Emit(w).run(i)
        args = emit.args(w, '../out')
        out = os.path.join(d, 'out')
        def go(how, cwd=i, args=args, keep=False):
            if not keep:
                shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            rc, t = run.tool(args, cwd)
            return rc, {f: x[0] for f, x in walk(out).items()}
        rc0, f0 = go('')
        if rc0 != 0: return name, None
        ev = []
        def cmp(how, rc, f):
            ev.append(dict(op='same', v='', how=how, f='', at='', rc='hang' if rc == 'timeout' else '0' if rc == 0 else '1', diff=sorted(x for x in set(f0) | set(f) if f0.get(x) != f.get(x)), props=[]))
        cmp('same input', *go(''))
        r = random.Random(seed)
        for f in list(f0):
            if r.random() < .5:
                with open(os.path.join(out, f), 'wb') as h: h.write(r.choice([b'', f0[f] + b'x', f0[f][:-3], b'junk\n']))
        cmp('same input in a directory with old content', *go('', keep=True))
        lines = open(os.path.join(i, 'cfg')).read().split('\n')
        lines = [l for l in lines if l]
        if len(lines) > 1:
            with open(os.path.join(i, 'cfg2'), 'w') as h: h.write('\n'.join(permute(lines, r)) + '\n')
            k = args.index('--config')
            cmp('directives of different kinds in another order', *go('', args=args[:k + 1] + ['cfg2'] + args[k + 2:]))
        j = os.path.join(d, 'elsewhere'); shutil.copytree(i, j)
        cmp('input in another place', *go('', cwd=j))
        k = args.index(next(x for x in args if x == 'all.hpp'))
        o = args[4:k]       # options; --bind and --skip in the same order among themselves
        pos, opts = 0, []
        while pos < len(o):
            n = 2 if o[pos] == '--config' else 1
            opts.append(o[pos:pos + n]); pos += n
        keep = [x for x in opts if x[0].startswith(('--bind=', '--skip='))]
        rest = [x for x in opts if x not in keep]
        r.shuffle(rest)
        for x in keep: rest.insert(r.randrange(len(rest) + 1), None)
        it = iter(keep)
        new = [y for x in rest for y in (next(it) if x is None else x)]
        cmp('options in another order', *go('', args=args[:4] + new + args[k:]))
        return name, dict(name=name, content={'v1': {'x': 'x'}}, files=['x'], always=[], ev=ev)
    finally: shutil.rmtree(d, ignore_errors=True)


def do_bad(a):
    """input, configuration or directory that can not be used"""
    base, seed = a
    d = tempfile.mkdtemp(dir=base)
    name = 'bad/%d' % seed
    try:
        r = random.Random(seed)
        i = os.path.join(d, 'in'); os.makedirs(i)
        for _ in range(20):
            w = world.make(r.randrange(10 ** 9), r.choice(['files', 'general', 'modules']))
            w['opt'].update(suppress=0, single=0)
            shutil.rmtree(i); os.makedirs(i); os.makedirs(os.path.join(d, 'out'), exist_ok=True)
            emit.Emit(w).run(i)
            args = emit.args(w, '../out')
            rc, t = run.tool(args, i)
            if rc == 0: break
        else: return name, None
        full = [f for f in ALWAYS if os.path.getsize(os.path.join(d, 'out', f))]
        cfg = open(os.path.join(i, 'cfg')).read()
        k = args.index('--config')
        def w_(f, t):
            with open(os.path.join(i, f), 'w') as h: h.write(t)
        def a_(c=None, out=None, inp=None, more=()):
            x = list(args)
            if c: x[k + 1] = c
            if out: x[3] = out
            if inp: x[x.index('all.hpp')] = inp
            return list(more) + x
        w_('syntax.hpp', '#include <all.hpp>\nnamespace broken { struct X { int a } }\n')
        w_('nohdr.hpp', '#include <all.hpp>\n#include <no/such/header.hpp>\n')
        w_('nomean.hpp', '#include <all.hpp>\nunknown_type f(int);\n')
        w_('early.hpp', 'no_such_type g();\n#include <all.hpp>\n')
        w_('unterminated.hpp', '#include <all.hpp>\nnamespace broken {\n')
        os.makedirs(os.path.join(i, 'adir'))
        w_('afile', 'text')
        cases = [('an input with a syntax error', a_(inp='syntax.hpp')), ('an input that includes a missing header', a_(inp='nohdr.hpp')), ('an input with an unknown type', a_(inp='nomean.hpp')), ('an input that begins with an error', a_(inp='early.hpp')),
                 ('an input that ends inside a namespace', a_(inp='unterminated.hpp')), ('a missing input', a_(inp='missing.hpp')), ('a directory as input', a_(inp='adir')),
                 ('a missing configuration', a_(c='missing.cfg')), ('a directory as configuration', a_(c='adir')), ('a missing output directory', a_(out='../nowhere')), ('a file as output directory', a_(out='afile')),
                 ('an unknown option', a_(more=['--no-such-option'])), ('an option value that is not a number', a_(more=['--max-file-size=many']))]
        for t, bad in (('a configuration line without sign', 'namespace x'), ('an unknown directive', '+nonsense x'), ('a directive without argument', '+namespace'), ('a line of blanks', '   ')):
            n = 'cfg%d' % len(cases)
            w_(n, r.choice([cfg + bad + '\n', bad + '\n' + cfg, cfg + bad])); cases.append((t, a_(c=n)))
        ev = []
        for t, x in cases:
            o = os.path.join(d, 'out'); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            rc, txt = run.tool(x, i)
            ev.append(dict(op='bad', v='', how=t, f='', at='', rc='hang' if rc == 'timeout' else '0' if rc == 0 else '1', props=['C20'] if 'config' in t or 'directive' in t or 'line' in t else []))
        for f in full:
            o = os.path.join(d, 'out'); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            os.symlink('/dev/full', os.path.join(o, f))
            rc, txt = run.tool(args, i)
            ev.append(dict(op='bad', v='', how='a full device behind ' + f, f='', at='', rc='hang' if rc == 'timeout' else '0' if rc == 0 else '1', props=[]))
        return name, dict(name=name, content={'v1': {'x': 'x'}}, files=['x'], always=[], ev=ev)
    finally: shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------- validation
def validate(recs, prop, workers=4):
    f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', delete=False)
    try:
        for x in recs: f.write(json.dumps(x) + '\n')
        f.close()
        rc, out = tlc.tlc('OutputTrace', 'SPECIFICATION TSpec\nCONSTANT Prop = "%s"\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n' % prop, dict(TRACES=f.name), workers)
    finally: os.unlink(f.name)
    dv = {}
    for l in out.split('\n'):
        if l.strip().startswith('"@@'):
            x = json.loads(json.loads(l.strip())[2:]); dv[x['world']] = x['dev']
    miss = [x['name'] for x in recs if x['name'] not in dv]
    if miss: raise HarnessError('TLC gave no verdict for %s (%d)\n%s' % (miss[:3], rc, out[-3000:]))
    bad = any(prop in y['p'] for v in dv.values() for y in v)
    if bad != ('Invariant Holds is violated' in out) or rc not in (0, 12): raise HarnessError('verdict and report disagree (%d)\n%s' % (rc, out[-3000:]))
    return dv, tlc.stats(out)


def execute(c, todo, label):
    """todo: [(function, argument)]; runs, validates, confirms"""
    with ProcessPoolExecutor(8) as ex:
        fs = [(f, a, ex.submit(f, a)) for f, a in todo]
        res = [(f, a, x.result()) for f, a, x in fs]
    res = [(f, a, n, x) for f, a, (n, x) in res if x]
    if not res: raise HarnessError('nothing to validate in ' + label)
    dv, (s, d) = validate([x for _, _, _, x in res], c.prop)
    c.states += d; c.trans += s; c.traces += len(res)
    c.count(label, len(res))
    c.count(label + '_events', sum(len(x['ev']) for _, _, _, x in res))
    c.count('runs_with_a_fault', sum(1 for _, _, _, x in res for e in x['ev'] if e.get('delivered')))
    x = res[len(res) // 2][3]
    c.sample(dict(case=x['name'], events=[' '.join(str(e.get(k, '')) for k in ('op', 'v', 'how', 'f', 'at', 'rc')).strip() for e in x['ev'][:8]]))
    hit = [(f, a, n, [y['s'] for y in dv[n] if c.prop in y['p']]) for f, a, n, x in res]
    hit = [h for h in hit if h[3]]
    c.log('%d %s with %d events validated by TLC, %d deviate' % (len(res), label, sum(len(x['ev']) for _, _, _, x in res), len(hit)))
    conf = 0
    for f, a, n, t in hit[:3]:
        _, x = f(a)
        t2 = [y['s'] for y in validate([x], c.prop)[0][n] if c.prop in y['p']]
        if t2:
            dd = tempfile.mkdtemp(dir=c.base)
            with open(os.path.join(dd, 'history.json'), 'w') as h: json.dump(dict(function=f.__name__, argument=a[1:], record=x), h, indent=1)
            c.violation(n, '\n'.join(t2[:6]), dd); conf += 1
    if hit and not conf: raise HarnessError('%d histories rejected, none repeated: %s' % (len(hit), hit[0][3][:2]))


def seeds(c, what, n):
    r = random.Random('%d/%s/%s' % (c.seed, what, c.prop))
    return [r.randrange(10 ** 6) for _ in range(n)]


def part_histories(q, t):
    def p(c):
        c.built(); shim()
        n = q if c.quick else t
        hs = histories(n, 6, c.seed + 17)
        execute(c, [(do_history, (c.base, s, h)) for s, h in zip(seeds(c, 'history', n), hs)], 'histories')
    return p


def part_faults(q, t):
    def p(c):
        c.built(); shim()
        todo = []
        for s in seeds(c, 'faults', q if c.quick else t):
            for st in ('empty', 'v1'):
                todo += [(do_faults, (c.base, s, st, ('kill', 'err', 'full', 'short'), i, 8)) for i in range(8)]
        execute(c, todo, 'fault_enumerations')
    return p


def part_same(q, t, profiles=('general', 'files', 'templates', 'includes', 'custom', 'directives', 'policies', 'inherit')):
    def p(c):
        c.built()
        todo = [(do_same, (c.base, s, profiles[i % len(profiles)])) for i, s in enumerate(seeds(c, 'same', q if c.quick else t))]
        execute(c, todo, 'repeated_inputs')
    return p


def part_bad(q, t):
    def p(c):
        c.built()
        execute(c, [(do_bad, (c.base, s)) for s in seeds(c, 'bad', q if c.quick else t)], 'unusable_inputs')
    return p
