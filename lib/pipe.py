"""One case: world -> input files -> real tool -> generated module executed against the recorder -> projected run."""
import os, shutil, tempfile, json
import world, emit, run, project

PCH = None
ALONE = False      # also compile every generated file by itself


def case(name, w, d, keep=False):
    """('run', record) or (kind, text) with kind in invalid, timeout, compile, crash, hang, empty"""
    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
    emit.Emit(w).run(d)
    rc, t = run.tool(emit.args(w, 'out'), d)
    if rc == 'timeout': return 'timeout', 'the tool did not end'
    if rc != 0:
        ok, m = run.valid(d)
        if not ok: return 'invalid', m
        if rc < 0 and rc != -6: return 'signal', 'the tool was ended by signal %d\n%s' % (-rc, t[-800:])
        return 'run', dict(name=name, w=project.wjson(w), rc=rc, b=[], f={}, log=t[-800:])
    k, x = run.execute(d, 'out', PCH)
    if k != 'ok':
        ok, m = run.valid(d)
        if not ok: return 'invalid', m
        return k, first_error(x)
    if ALONE:
        t = run.alone(d, 'out', PCH)
        if t: return 'compile', t[:1500]
    return 'run', dict(name=name, w=project.wjson(w), rc=0, b=project.blocks(x['ev']), f=project.files(d, w), log='')


def first_error(t):
    l = t.split('\n')
    e = [i for i, x in enumerate(l) if 'error:' in x]
    return '\n'.join(l[e[0]:e[0] + 4]) if e else t[-600:]


def random_case(a):
    seed, profile, base = a
    name = '%s/%d' % (profile, seed)
    d = tempfile.mkdtemp(dir=base)
    try:
        w = world.make(seed, profile)
        k, x = case(name, w, d)
        return name, k, x
    finally:
        shutil.rmtree(d, ignore_errors=True)
