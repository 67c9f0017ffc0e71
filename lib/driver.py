"""Runs the check of one property: builds the tool, model checks the design, generates inputs, executes the real tool and what it
generated, lets TLC validate the recorded runs against the specification, and writes evidence and replays."""
import os, sys, time, json, shutil, tempfile, random, re, traceback, threading
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
import run, world, pipe, tlc, plan
from run import ROOT, HarnessError

LEVEL = 'model_checking'


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.viol = []           # (name, text, replay directory)
        self.states = self.trans = self.traces = 0
        self.cov = {}
        self.samples = []
        self.known = []
        self.base = tempfile.mkdtemp(prefix='vt_')
        self.notes = []
        self.rdir = os.path.join(ROOT, 'replay', prop)
        shutil.rmtree(self.rdir, ignore_errors=True)
        self._built = None

    # ---- building, once and in parallel with model checking
    def start_build(self):
        def go():
            try:
                b = run.build(); p = run.pch(); self._built = (b, p)
            except BaseException as e:
                self._built = e
        self._bt = threading.Thread(target=go); self._bt.start()

    def built(self):
        self._bt.join()
        if isinstance(self._built, BaseException): raise self._built
        run.set_binder(self._built[0]); pipe.PCH = self._built[1]

    # ---- results
    def log(self, s):
        print('[%6.1f] %s' % (time.time() - self.t0, s), flush=True)

    def violation(self, name, text, files=None):
        """record a confirmed violation; files: directory to keep"""
        d = os.path.join(self.rdir, re.sub(r'\W', '_', name))
        os.makedirs(self.rdir, exist_ok=True)
        shutil.rmtree(d, ignore_errors=True)
        if files and os.path.isdir(files): shutil.copytree(files, d, symlinks=True)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'VIOLATION.txt'), 'w') as f: f.write('property %s\ncase %s\n%s\n' % (self.prop, name, text))
        self.viol.append((name, text, d))
        self.log('%s: %s' % (name, text[:1500]))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        if len(self.samples) < 6: self.samples.append(x)

    # ---- parts
    def model(self, module, cfg, what, workers=4, timeout=400, expect_states=1, env=None):
        """exhaustive model checking of the design; any error is an error of the model"""
        rc, out = tlc.tlc(module, cfg, env, workers=workers, timeout=timeout, cont=False)
        s, d = tlc.stats(out)
        if rc != 0 or d < expect_states: raise HarnessError('model checking of %s failed (%d, %d states)\n%s' % (what, rc, d, out[-3000:]))
        self.states += d; self.trans += s
        self.cov.setdefault('models', []).append(dict(module=what, states_generated=s, distinct_states=d))
        self.log('model %s: %d states, %d distinct, invariants hold' % (what, s, d))
        return out

    def judge(self, results, again, label='worlds'):
        """results: (name, kind, x); again(name) runs a case again and returns (kind, x, dir). TLC decides what deviates."""
        runs, bad = [], []
        for name, k, x in results:
            self.count(label)
            if k == 'run': runs.append(x)
            elif k == 'invalid': self.count('discarded_invalid')
            else: bad.append((name, k, x))
        n = len(runs) + len(bad)
        if results and n < .5 * len(results): raise HarnessError('too many of the generated inputs are not valid C++: %s' % [x for x in results if x[1] == 'invalid'][:2])
        devs, st, (s, d) = tlc.validate(runs, self.prop)
        self.states += d; self.trans += s; self.traces += len(runs)
        for r in runs:
            self.count('registrations_checked', sum(len(b.get('regs', ())) + 1 for b in r['b']))
            if r['rc'] != 0: self.count('failing_runs')
        if runs:
            r = runs[len(runs) // 2]
            self.sample(dict(case=r['name'], directives=[d['s'] + d['t'] + ' ' + ' '.join(d['a']) for d in r['w']['dirs']], entities=[e['id'] for e in r['w']['ents']],
                             registered=[b.get('cpp') or b.get('name') for b in r['b'] if b['t'] in ('class', 'enum', 'fun')], files=[s['name'] for s in r['f'].get('sub', [])] if r['f'] else [],
                             status=r['rc'], deviations=[x['s'] for x in devs[r['name']]]))
        hit = [(n, [x['s'] for x in v if self.prop in x['p']]) for n, v in devs.items()]
        hit = [(n, v) for n, v in hit if v]
        other = [(n, x) for n, v in devs.items() for x in v if self.prop not in x['p']]
        if other:
            self.count('deviations_of_other_properties', len(other))
            for n, x in other[:3]: self.log('note: %s deviates in %s: %s' % (n, x['p'], x['s'][:300]))
        self.log('%d %s, %d runs validated by TLC (%d states), %d deviate, %d did not end normally' % (len(results), label, len(runs), d, len(hit), len(bad)))
        conf = 0
        for name, k, x in bad[:4]:       # reported only when a second run repeats it
            k2, x2, dd = again(name)
            if k2 == k: self.violation(name, {'timeout': 'generation does not terminate', 'signal': 'the tool crashed', 'compile': 'the generated code does not compile', 'crash': 'executing the generated module crashed', 'hang': 'executing the generated module does not end'}.get(k, k) + ': ' + str(x), dd); conf += 1
            shutil.rmtree(dd, ignore_errors=True)
        for name, v in hit[:4]:
            k2, x2, dd = again(name)
            if k2 == 'run':
                dv, _, _ = tlc.validate([x2], self.prop, 2)
                t = [y['s'] for y in dv[x2['name']] if self.prop in y['p']]
                if t:
                    with open(os.path.join(dd, 'run.json'), 'w') as f: json.dump(x2, f, indent=1)
                    self.violation(name, '\n'.join(t), dd); conf += 1
            shutil.rmtree(dd, ignore_errors=True)
        if (bad or hit) and not conf: raise HarnessError('%d rejections, none repeated by a second run: %s' % (len(bad) + len(hit), (bad or hit)[0]))

    def worlds(self, spec):
        """spec: [(profile, count)]; seeds derive from VERIF_SEED"""
        todo = []
        for p, n in spec:
            r = random.Random('%d/%s/%s' % (self.seed, p, self.prop))
            todo += [(r.randrange(10 ** 9), p) for _ in range(n)]
        self.cases(todo, 'worlds')

    def cases(self, todo, label):
        """todo: [(seed, profile)]"""
        todo = [(s, p, self.base) for s, p in todo]
        with ProcessPoolExecutor(8) as ex:
            res = list(ex.map(pipe.random_case, todo, chunksize=2))

        def again(name):
            p, s = name.split('/')
            d = tempfile.mkdtemp(dir=self.base)
            k, x = pipe.case(name, world.make(int(s), p), d)
            return k, x, d
        self.judge(res, again, label)

    def finish(self):
        shutil.rmtree(self.base, ignore_errors=True)
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level=LEVEL, wall_s=round(time.time() - self.t0, 1), violations=len(self.viol),
                 coverage=dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.traces, samples=self.samples or ['none'], **self.cov),
                 assumptions=plan.ASSUME + plan.PLAN[self.prop].get('assume', []))
        if self.known: e['coverage']['known_findings_reproduced'] = self.known
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w') as f: json.dump(e, f, indent=1)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for n, t, d in self.viol: print('VIOLATION property=%s replay=%s' % (self.prop, d), flush=True)
        self.log('done: %d violations' % len(self.viol))
        return 1 if self.viol else 0


def main(a):
    if a == ['setup']:
        run.build(); run.pch(); return 0
    if len(a) < 2 or a[0] not in plan.PLAN: print(__import__('check').__doc__); return 2
    prop, tier = a[0], a[1]
    if tier == 'replay': return replay(prop, a[2])
    c = Check(prop, tier, int(os.environ.get('VERIF_SEED') or 1))
    try:
        c.start_build()
        for part in plan.PLAN[prop]['parts']: part(c)
        return c.finish()
    except Exception as e:
        c._bt.join()
        traceback.print_exc()
        shutil.rmtree(c.base, ignore_errors=True)
        if c.viol:          # something was already shown on the real code
            return c.finish()
        print('ERROR: ' + str(e)[:3000])
        return 2


def replay(prop, name):
    run.set_binder(run.build()); pipe.PCH = run.pch()
    p, s = name.split('/')
    d = tempfile.mkdtemp(prefix='vt_')
    k, x = pipe.case(name, world.make(int(s), p), d)
    print(k, d, x if k != 'run' else '')
    if k == 'run':
        dv, _, _ = tlc.validate([x], prop, 2)
        for y in dv[name]: print(y['p'], y['s'])
        return int(any(prop in y['p'] for y in dv[name]))
    return 2
