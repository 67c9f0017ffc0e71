"""Which parts decide which property."""
import os, json, random
import output, config, known, shapes, project, pipe
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = 'TLA+ specification of the generator, TLC: trace validation of the real tool and of the module it generates'
NOTE = ('Every explored run of the real tool (inputs drawn from a grammar of C++ headers, configurations and options; generated code compiled and executed against a recording pybind11) is replayed by TLC as a behaviour of the '
        'specification, which decides each step; nothing is claimed for inputs outside the explored set. Trusted: the specification, the world generator\'s description of what it writes, the recorder.')
NA = {}

ASSUME = ['the recorder in mock/ stands in for pybind11: it registers and calls what pybind11 would', 'clang 18 compiles the generated code as a user\'s compiler would',
          'inputs are drawn from the world grammar in lib/world.py; declarations outside it are not exercised']


def W(*spec):
    """validate runs on random worlds: (profile, quick count, thorough count)"""
    def part(c):
        c.built()
        c.worlds([(p, q if c.quick else t) for p, q, t in spec])
    return part


def alone(c):
    """every generated file is also compiled by itself"""
    pipe.ALONE = True


def S(kind, quick):
    """a family of small inputs: TLC explores the generator on them, the real tool runs on them (thorough: all, quick: so many)"""
    def part(c):
        n = shapes.COUNT[kind]()
        idx = list(range(n))
        if c.quick: idx = sorted(random.Random('%d/%s' % (c.seed, kind)).sample(idx, min(n, quick)))
        f = os.path.join(c.base, kind + '.ndjson')
        with open(f, 'w') as h:
            for i in idx:
                if kind == 'shape-chain' and i >= 144: continue          # too many orders for TLC: these are only run
                h.write(json.dumps(project.wjson(shapes.MAKE[kind](i))) + '\n')
        c.model('MCGenerator', 'SPECIFICATION MCSpec\nVIEW MCView\nINVARIANTS Confluent OnlyUsable Needed BasesFirst ParentsFirst SkippedNowhere NeverStuck\nPROPERTIES Grows Ends\nCHECK_DEADLOCK FALSE\n',
                'Generator on %d inputs of %s' % (len(idx), kind), workers=8, timeout=900, env=dict(TRACES=f))
        c.built()
        c.cases([(i, kind) for i in idx], kind)
    return part


PLAN = {
    'C01': dict(parts=[S('shape-rules', 110), W(('namespaces', 120, 4000), ('general', 20, 800))]),
    'C02': dict(parts=[W(('directives', 170, 4000), ('templates', 30, 800))]),
    'C03': dict(parts=[W(('access', 150, 4000), ('fields', 20, 500), ('callables', 20, 500), ('members', 20, 500))]),
    'C04': dict(parts=[W(('members', 170, 4000), ('general', 30, 800))]),
    'C05': dict(parts=[S('shape-chain', 70), W(('closure', 130, 4000), ('general', 20, 800))]),
    'C06': dict(parts=[known.part, S('shape-inherit', 70), W(('inherit', 130, 4000), ('general', 20, 800))]),
    'C07': dict(parts=[S('shape-tree', 70), W(('modules', 130, 4000), ('general', 20, 800))]),
    'C08': dict(parts=[W(('files', 170, 4000), ('general', 30, 800))]),
    'C09': dict(parts=[output.model, output.part_histories(48, 1500), output.part_faults(1, 12), output.part_same(48, 1500)]),
    'C10': dict(parts=[output.model, output.part_faults(2, 20), output.part_bad(6, 80), output.part_histories(24, 600)]),
    'C11': dict(parts=[W(('callables', 170, 4000), ('members', 30, 800))]),
    'C12': dict(parts=[W(('ctors', 170, 4000), ('virtuals', 30, 800))]),
    'C13': dict(parts=[W(('fields', 170, 4000), ('members', 30, 800))]),
    'C14': dict(parts=[W(('enums', 170, 4000), ('general', 30, 800))]),
    'C15': dict(parts=[W(('operators', 170, 4000), ('members', 30, 800))]),
    'C16': dict(parts=[known.part, W(('virtuals', 170, 4000), ('inherit', 30, 800))]),
    'C17': dict(parts=[known.part, W(('templates', 170, 4000), ('directives', 30, 800))]),
    'C18': dict(parts=[W(('policies', 170, 4000), ('general', 30, 800))]),
    'C19': dict(parts=[W(('custom', 170, 4000), ('files', 30, 800))]),
    'C20': dict(parts=[config.part(True), W(('config', 110, 4000))]),
    'C21': dict(parts=[known.part, alone, W(('includes', 120, 4000), ('files', 25, 800), ('members', 15, 400), ('virtuals', 15, 400))]),
    'C22': dict(parts=[W(('docs', 170, 4000), ('general', 30, 800))]),
    'C23': dict(parts=[W(('options', 170, 4000), ('general', 30, 800))]),
    'C24': dict(parts=[W(('builtins', 170, 4000), ('general', 30, 800))]),
}
