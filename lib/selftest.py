"""Is the binding vacuous? Recorded runs of random worlds are corrupted, one place each, and given to TLC; those that change something meaningful have to be rejected.
   python3 lib/selftest.py [number of worlds]"""
import sys, os, copy, random, tempfile, shutil, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run, pipe, tlc, world


def corrupt(r, rng):
    """(what, corrupted copy of run r) or None"""
    k = rng.choice(['drop', 'twice', 'name', 'str', 'int'])
    c = copy.deepcopy(r)
    ev = [i for i, e in enumerate(c['b']) if e.get('t') in ('class', 'enum', 'fun')]
    if not ev: return None
    i = rng.choice(ev); e = c['b'][i]
    if k == 'drop': del c['b'][i]
    elif k == 'twice': c['b'].insert(i, copy.deepcopy(e))
    elif k == 'name': e['name'] += 'x'
    else:
        # any value anywhere in the record
        L = []
        def walk(x, path):
            for a, v in (x.items() if isinstance(x, dict) else enumerate(x)):
                if isinstance(v, (dict, list)): walk(v, path + [a])
                elif isinstance(v, str) == (k == 'str') and a != 't': L.append((x, a, path + [a]))
        walk(e, [])
        if not L: return None
        x, a, path = rng.choice(L)
        x[a] = (x[a] + 'x') if k == 'str' else (1 - x[a] if x[a] in (0, 1) else x[a] + 1)
        return '%s %s' % (k, '.'.join('*' if isinstance(p, int) else p for p in [e['t']] + path)), c
    return k, c


def main(n):
    run.set_binder(run.build()); pipe.PCH = run.pch()
    base = tempfile.mkdtemp(prefix='vself_')
    rng = random.Random(1)
    bad = []
    try:
        profs = list(world.PROFILES)
        for i in range(n):
            name, k, x = pipe.random_case((90000 + i, profs[i % len(profs)], base))
            if k != 'run': continue
            if not x.get('b'): continue
            for j in range(8):
                y = corrupt(x, rng)
                if y: y[1]['name'] = '%s#%d %s' % (name, j, y[0]); bad.append(y[1])
        d, _, _ = tlc.validate(bad, 'C00')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    acc = collections.Counter(m.split(' ', 1)[1] for m, v in d.items() if not v)
    print('%d corrupted runs, %d rejected' % (len(d), sum(1 for v in d.values() if v)))
    for k, v in acc.most_common(): print('accepted: %s (%d)' % (k, v))


if __name__ == '__main__': main(int(sys.argv[1]) if len(sys.argv) > 1 else 46)
