"""Random worlds: small C++ code bases plus a binder configuration.

A world is an abstract description (plain dicts) that serves two purposes: emit.py turns it into real headers and a real
configuration for the tool, and the TLA+ specification reads the same description (as JSON) as the input of the modelled
generator.  Keys that start with '_' are for emit.py only and are not given to the specification.
"""
import random

SCALARS = ['int', 'double', 'bool', 'long', 'unsigned int', 'short']

NSPOOL = [['a'], ['ab'], ['a', 'b'], ['a', 'bb'], ['b'], ['a', 'b', 'c'], ['b', 'a'], []]
NSDEEP = NSPOOL + [['d', 'e', 'f', 'g'], ['nonlocal'], ['a', 'global'], ['nonlocal', 'x'], ['d', 'e2']]

# feature weights; a profile overrides some of them
BASE = dict(
    n=(5, 9), w_class=5, w_func=3, w_enum=1.2, w_tmpl=1.0,
    nspool=NSPOOL, n_ns=(2, 4), p_nested=.25, p_nenum=.25, p_base=.45, p_base2=.15, p_vbase=.06, p_acc=.25, p_priv=.2,
    meths=(0, 4), ctors=.6, fields=(0, 3), p_virt=.2, p_pure=.25, p_final=.05, p_static=.15, p_const=.25, p_constpair=.06,
    p_over=.2, p_dflt=.3, p_variadic=.04, p_deleted=.06, p_mtmpl=.06, p_op=.08, p_conv=.03, p_using=.25, p_uctor=.06, p_badty=.08,
    p_clsty=.35, p_enumty=.12, p_string=0., p_typedef=.08, p_fwdref=.3, p_sys=.06, p_anon=.04, p_incomplete=.08, p_unnamed=.06,
    p_doc=.05, p_str=.0, p_fconst=.12, p_fodd=.2, p_cls_odd=.15, p_dtor=.06, p_ftmpl=.08, p_fop=.03, p_retcls=.3, p_drive=.5,
    p_redecl=.05, p_anonu=.04, headers=(1, 3), p_subdir=.3, hdrstyle='plain',
    # configuration
    p_rules=.7, n_rules=(1, 3), n_dirs=(0, 2), dirkinds=['class', 'function', 'enum', 'field'], p_cfgns=.5, p_single=.3, p_flat=.2,
    p_small=.3, p_policy=.1, p_guard=.06, p_prefix=.06, p_holder=.0, p_modloc=.05, p_buffer=.03, p_smart=.0, p_cb=.0, p_builtin=.05,
    p_noise=.0, p_decor=.3, p_ms=.25, p_xc=.06, p_nfwd=.25, p_nbase=.3, p_inl=.06, p_mut=.15, p_expl=.3, p_esft=.05, p_union=.05, p_big=.05, p_rq=.05, p_elab=.08, p_nes=.4, p_unames=.12, p_mixin=.3, p_bcts=.0, p_all=.15, p_incl=.0, p_ctramp=.0, p_quote=.0, p_stl=.1, p_std=.03, p_opq=.4, p_efwd=.2,
)

def prof(**k):
    d = dict(BASE); d.update(k); return d

PROFILES = dict(
    general=prof(),
    namespaces=prof(n=(6, 11), w_class=3, w_func=3, w_enum=2, nspool=NSPOOL, n_ns=(4, 7), p_rules=1., n_rules=(1, 5), n_dirs=(0, 0), meths=(0, 1), fields=(0, 1), p_nested=.15, p_sys=.12, p_all=.12, p_clsty=.5, p_fwdref=.6, p_builtin=0),
    directives=prof(p_std=.08, p_stl=.3, n=(6, 10), n_dirs=(2, 6), w_tmpl=2.2, p_nested=.4, p_nenum=.4, p_over=.4, fields=(0, 3), p_sys=.05, p_ftmpl=.2, p_mtmpl=.15, n_rules=(1, 3), p_using=.3),
    access=prof(p_uctor=.15, n=(5, 8), p_acc=.5, p_priv=.5, p_badty=.4, p_deleted=.2, p_anon=.15, p_using=.5, p_base=.7, p_incomplete=.2, p_cls_odd=.4, p_fodd=.4, p_mtmpl=.15, p_ftmpl=.15, p_dtor=.15, w_tmpl=1.5, n_dirs=(0, 0), p_nested=.4, p_nenum=.4, p_fop=.08, p_conv=.1),
    members=prof(p_uctor=.2, p_std=.08, p_stl=.3, n=(4, 7), w_class=7, meths=(1, 6), fields=(0, 4), p_nested=.5, p_nenum=.4, p_using=.5, p_constpair=.2, p_mtmpl=.2, p_over=.4, p_op=.15, n_dirs=(0, 2), p_anonu=.15),
    closure=prof(n=(8, 13), n_ns=(4, 6), p_rules=1., n_rules=(1, 2), p_all=0, n_dirs=(0, 2), dirkinds=['class', 'function', 'enum'], p_clsty=.75, p_enumty=.2, p_fwdref=.7, p_sys=.25, p_typedef=.3, p_incomplete=.15, w_func=5, meths=(0, 3), p_builtin=.15, p_base=.5, fields=(0, 2), w_tmpl=2),
    inherit=prof(p_nbase=.7, n=(7, 12), w_class=8, w_func=1, w_tmpl=4, p_base=.85, p_base2=.4, p_vbase=.12, p_acc=.2, meths=(0, 2), fields=(0, 1), p_mixin=.85, n_rules=(1, 2), p_clsty=.6, p_fwdref=.6, n_dirs=(0, 2), dirkinds=['class'], p_small=.5, n_ns=(2, 3)),
    modules=prof(n=(5, 9), nspool=NSDEEP, n_ns=(3, 7), meths=(0, 1), fields=(0, 0), p_all=.3, p_small=.6, p_sys=.08, p_incomplete=.02),
    files=prof(n=(6, 11), headers=(3, 7), p_subdir=.6, hdrstyle='clash', meths=(0, 2), p_small=.9, p_single=.15, p_flat=.35, n_dirs=(0, 1), p_virt=.3, p_cb=.1),
    callables=prof(p_uctor=.15, p_std=.12, p_stl=.3, n=(5, 8), w_func=6, w_class=5, meths=(1, 5), p_dflt=.6, p_over=.45, p_static=.25, p_const=.35, p_constpair=.15, p_variadic=.1, p_mtmpl=.15, p_ftmpl=.2, p_prefix=.25, p_enumty=.2, p_unnamed=.12, p_string=.1, p_redecl=.15, p_typedef=.2, p_using=.35, n_dirs=(0, 1), p_virt=.15),
    ctors=prof(p_uctor=.5, n=(5, 8), w_class=8, w_func=1, ctors=.9, p_base=.6, meths=(0, 2), p_virt=.3, p_pure=.4, p_using=.5, p_cls_odd=.45, p_dflt=.5, p_fodd=.3, p_dtor=.06, n_dirs=(0, 2), p_unnamed=.1, w_tmpl=1.2, fields=(0, 2)),
    fields=prof(n=(5, 8), w_class=8, w_func=1, meths=(0, 1), fields=(2, 6), p_fconst=.25, p_fodd=.45, p_cls_odd=.45, p_using=.5, p_anonu=.25, p_acc=.3, p_base=.5, p_typedef=.25, n_dirs=(0, 2), dirkinds=['field'], w_tmpl=1.5),
    enums=prof(n=(6, 10), w_enum=7, w_class=4, w_func=2, p_nenum=.8, p_enumty=.6, meths=(0, 2), p_anon=.12, p_sys=.1, n_dirs=(0, 3), dirkinds=['enum'], p_doc=.15, p_modloc=.2, p_nested=.3),
    operators=prof(n=(4, 6), w_class=8, w_func=2, p_op=.75, meths=(2, 6), p_fop=.2, p_conv=.1, p_dflt=.2, p_nested=.3, p_virt=.12, p_base=.4, w_tmpl=1.5),
    virtuals=prof(p_std=.12, p_stl=.3, n=(5, 8), w_class=8, w_func=.6, w_tmpl=1.5, p_virt=.75, p_pure=.35, p_final=.12, p_base=.75, p_base2=.2, p_acc=.3, p_constpair=.15, meths=(1, 4), p_dflt=.2, p_ctramp=.25, p_nested=.2, p_op=.12, n_dirs=(0, 2), p_over=.3, fields=(0, 1), p_enumty=.2, p_clsty=.4, p_cls_odd=.2),
    templates=prof(n=(4, 7), w_tmpl=8, w_class=4, w_func=2, w_enum=1.5, p_ftmpl=.5, p_mtmpl=.3, meths=(0, 3), p_mixin=.3, n_dirs=(0, 2), dirkinds=['class', 'function'], p_bcts=.12, p_virt=.15, p_nested=.3),
    policies=prof(n=(5, 8), p_policy=.9, p_guard=.35, p_holder=.3, p_modloc=.5, p_buffer=.3, p_smart=.2, p_prefix=.3, p_retcls=.7, p_dtor=.2, p_static=.3, w_func=5, meths=(1, 4), p_dflt=.35, n_dirs=(0, 0), w_enum=2, p_nested=.3),
    custom=prof(n=(5, 9), p_cb=.95, w_tmpl=2.5, n_ns=(2, 4), p_small=.7, meths=(0, 2), n_dirs=(0, 0), headers=(2, 4), p_all=.4),
    includes=prof(p_std=.15, p_stl=.3, n=(6, 10), headers=(4, 8), p_subdir=.5, p_fwdref=.8, p_clsty=.7, p_enumty=.3, p_incl=.8, p_small=.8, p_single=0., p_flat=.2, n_dirs=(0, 1), p_using=.3, p_mtmpl=.1, w_tmpl=1.5, p_quote=.25, p_virt=.25, p_anon=.02),
    docs=prof(n=(5, 8), p_doc=.8, p_str=.5, w_tmpl=1.5, w_enum=2, meths=(0, 3), p_nested=.25, n_dirs=(0, 1), dirkinds=['str'], p_dflt=.2),
    options=prof(p_noise=1., p_doc=.2, p_str=.15, p_small=.6, p_virt=.3, p_single=.35, p_flat=.35, p_dflt=.4),
    config=prof(n=(4, 7), n_dirs=(1, 5), w_func=4, w_class=5, w_enum=1.6, w_tmpl=1.2, meths=(0, 3), p_static=.3, p_retcls=.6, p_dflt=.3, p_policy=.5, p_guard=.4, p_prefix=.4, p_modloc=.4, p_buffer=.35, p_smart=.2,
                p_cb=.35, p_builtin=.35, p_incl=.5, p_ctramp=.15, p_virt=.25, p_holder=.12, p_cfgns=.75, n_ns=(2, 4), p_dtor=.05, p_single=.2),
    builtins=prof(p_std=.6, p_stl=.4, n=(6, 10), p_builtin=1., p_clsty=.75, w_func=5, w_tmpl=2, p_base=.5, p_all=.3, n_dirs=(0, 2), dirkinds=['class']),
)

OPS = [('operator+', 0), ('operator+', 1), ('operator-', 0), ('operator-', 1), ('operator*', 0), ('operator*', 1), ('operator/', 1), ('operator%', 1), ('operator~', 0),
       ('operator|', 1), ('operator&', 1), ('operator^', 1), ('operator<<', 1), ('operator>>', 1), ('operator+=', 1), ('operator-=', 1), ('operator*=', 1), ('operator/=', 1),
       ('operator%=', 1), ('operator|=', 1), ('operator&=', 1), ('operator^=', 1), ('operator<<=', 1), ('operator>>=', 1), ('operator()', 0), ('operator()', 1), ('operator()', 2),
       ('operator()', 3), ('operator==', 1), ('operator!=', 1), ('operator[]', 1), ('operator++', 0), ('operator++', 1), ('operator--', 0), ('operator--', 1), ('operator->', 0),
       ('operator<', 1), ('operator>', 1), ('operator<=', 1), ('operator>=', 1), ('operator!', 0), ('operator&&', 1), ('operator||', 1), ('operator,', 1)]

DOCS = [['Plain text.'], ['Says "hello" twice: "hello"'], ['Two lines', 'of text'], ["It's 100% {} of {0}"], ['Backslash \\1 and \\2'], ['Tab\there'], ['Umlaut \u00e4\u00f6 and \u4e2d'],
        ['a < b and c > d & e'], ['trigraph ??/ and # signs'], ['first', '', 'second paragraph'], ['ends with backslash-quote \\"'], ['C++: fake(int) --> int']]


# (template, arguments as the tool prints them, tag, header); mentioned by reference or pointer only; instantiated (complete) only where the world says so
STD = [('vector', 'int', 'class', 'vector'), ('deque', 'int', 'class', 'deque'), ('list', 'int', 'class', 'list'), ('array', 'int, 3', 'struct', 'array'), ('valarray', 'int', 'class', 'valarray'),
       ('set', 'int', 'class', 'set'), ('map', 'int, int', 'class', 'map'), ('optional', 'int', 'class', 'optional'), ('variant', 'int, double', 'class', 'variant'),
       ('unordered_set', 'int', 'class', 'unordered_set'), ('unordered_map', 'int, int', 'class', 'unordered_map'),
       ('pair', 'int, long', 'struct', 'utility'), ('tuple', 'int, long', 'class', 'tuple'), ('shared_ptr', 'int', 'class', 'memory'), ('unique_ptr', 'int', 'class', 'memory'), ('complex', 'int', 'class', 'complex'),
       ('initializer_list', 'int', 'class', 'initializer_list'), ('function', 'int (int)', 'class', 'functional'),
       ('weak_ptr', 'int', 'class', 'memory'), ('stack', 'int', 'class', 'stack'), ('queue', 'int', 'class', 'queue'), ('multiset', 'int', 'class', 'set'), ('multimap', 'int, int', 'class', 'map'),
       ('forward_list', 'int', 'class', 'forward_list'), ('bitset', '5', 'class', 'bitset'),
       ('vector', 'double', 'class', 'vector'), ('vector', 'std::vector<int> ', 'class', 'vector'), ('map', 'int, double', 'class', 'map'), ('set', 'unsigned long', 'class', 'set'), ('list', 'std::string', 'class', 'list')]
STDINST = ('unordered_set', 'unordered_map')     # complete as soon as they are mentioned: only used where they are builtins


def ty(b, f='val', sp=None):
    return dict(b=b, f=f, sp=sp if sp is not None else spell_canonical(b, f, b))


def spell_canonical(b, f, tag):
    """how clang prints the canonical type; `tag` is the printed name of the base type ('struct a::X')"""
    return {'val': tag, 'cval': 'const ' + tag, 'ref': tag + ' &', 'cref': 'const ' + tag + ' &', 'ptr': tag + ' *', 'cptr': 'const ' + tag + ' *',
            'rref': tag + ' &&', 'pp': tag + ' **', 'arr': tag + '[3]', 'fptr': 'int (*)(' + tag + ')', 'fref': 'int (&)(' + tag + ')', 'mptr': 'int ' + b + '::*'}[f]


VOID = dict(b='void', f='val', sp='void')


class Gen:
    def __init__(self, seed, profile):
        self.r = random.Random('%s/%s' % (seed, profile))
        self.p = PROFILES[profile]
        self.profile = profile
        self.uid = 0
        self.nm = 0
        self.ents = []      # in declaration order
        self.stds, self.nostd, self.stl, self.inctor = [], '', 0, 0
        self.byid = {}

    # ---------------------------------------------------------------------------------------------- small helpers
    def ch(self, k):
        return self.r.random() < (self.p[k] if isinstance(k, str) else k)

    def rng(self, k):
        a, b = self.p[k]
        return self.r.randint(a, b)

    def pick(self, l):
        return self.r.choice(l)

    def newuid(self):
        self.uid += 1
        return 'u%d' % self.uid

    def name(self, pre='m'):
        self.nm += 1
        return '%s%d' % (pre, self.nm)

    def access(self):
        if not self.ch('p_priv'): return 'public'
        return self.pick(['private', 'protected'])

    # ---------------------------------------------------------------------------------------------- planning
    def plan(self):
        r = self.r
        pool = list(self.p['nspool'])
        r.shuffle(pool)
        k = self.rng('n_ns')
        self.nss = pool[:k]
        n = self.rng('n')
        slots = []
        used = set()
        kinds = ['class', 'func', 'enum', 'tmpl']
        w = [self.p['w_' + x] for x in kinds]
        for i in range(n):
            kd = r.choices(kinds, w)[0]
            ns = self.pick(self.nss)
            base = {'class': ['X', 'Y', 'Z', 'X1', 'Xa', 'Y_2', 'W'], 'func': ['f', 'g', 'fa', 'h'], 'enum': ['E', 'F', 'Ea', 'G'], 'tmpl': ['Tm', 'U', 'Ta', 'V']}[kd]
            nm = self.pick(base)
            if self.ch('p_unames'): nm = self.pick({'class': ['class_X', 'struct_', 'a_Bool', '_Bool_x', 'my_nullptr_t', 'nullptr_tag', 'std_X', 'constX', 'enum_X', 'X__1', 'operatorX', 'pybind11_', 'M_'], 'func': ['operators', 'class_f', 'f__', 'std_f', 'nullptr_tf', 'f_Bool', 'cl', 'M', 'o'],
                                                  'enum': ['enum_E', 'class_E', 'E_Bool', 'E_nullptr_t', 'E__'], 'tmpl': ['T_Bool', 'class_T', 'nullptr_tT', 'T__', 'vector', 'string_']}[kd])
            if not ns and kd in ('class', 'enum', 'tmpl'): nm = 'G' + nm      # finding D24
            if kd == 'func':
                if not self.ch('p_over'):
                    while (tuple(ns), nm) in used: nm += self.pick('abcx')
            else:
                while (tuple(ns), nm) in used: nm += self.pick('abcx1')
            used.add((tuple(ns), nm))
            slots.append(dict(kind=kd, ns=ns, name=nm))
        # header assignment: consecutive runs
        nh = min(self.rng('headers'), n)
        cuts = sorted(r.sample(range(1, n), nh - 1)) if nh > 1 else []
        h, hs = 0, []
        for i in range(n):
            if i in cuts: h += 1
            hs.append(h)
        self.headers = []
        sysrun = {}
        for i in range(nh):
            sysrun[i] = self.ch('p_sys')
            self.headers.append(dict(name=self.hdrname(i), sys=int(sysrun[i])))
        for i, s in enumerate(slots):
            s['hdr'] = hs[i]
            s['sys'] = int(sysrun[hs[i]])
            s['i'] = i
            if s['kind'] in ('class', 'enum', 'func') and not s['sys'] and self.ch('p_anon'): s['anon'] = 1
            if s['kind'] == 'class' and 'anon' not in s and self.ch('p_incomplete'): s['incomplete'] = 1
        self.slots = slots
        for s in slots:
            s['id'] = '::'.join(s['ns'] + (['(anonymous namespace)'] if s.get('anon') else []) + [s['name']])

    def hdrname(self, i):
        if self.p['hdrstyle'] == 'clash':
            names = ['x.hpp', 'x.h', 'x.hh', 'x_1.hpp', 'd/x.hpp', 'd_x.hpp', 'd/x_1.hpp', 'd/e/x.hpp', 'd-e/x.hpp', 'de/x.hpp', 'x.y.hpp', 'x_y.h', 'd/y.hxx', 'x_2.h', 'tm.hpp', 'tm_0.hpp', 'tm_1.hpp', 'd/x_2.hpp']
            while True:
                n = self.pick(names)
                if n not in [h['name'] for h in self.headers]: return n
        n = self.pick(['h%d.hpp', 'h%d.h', 'h%d.fwd.hh']) % i
        return (self.pick(['s/', 's/t/', 'u/']) if self.ch('p_subdir') else '') + n

    # ---------------------------------------------------------------------------------------------- types
    def classes(self, complete_before=None, simple=False, fwd=True):
        """candidate class types: complete ones so far (and with fwd also later plain classes)"""
        l = []
        for e in self.ents:
            if e['k'] == 'class' and (not simple or e.get('_simple')): l.append(e)
        return l

    def cents(self):
        """classes declared so far, template instances that are complete included"""
        l = []
        for e in self.ents:
            if e['k'] == 'class': l.append(e)
            elif e['k'] == 'use' and not e['c']['inc']: l.append(e['c'])
        return l

    def anyclass(self, here):
        """a class to mention by reference or pointer; may be declared later"""
        stds = [e for e in self.stds if not self.nostd or e['opq'] and self.nostd == 'ctor']
        if stds and self.ch('p_std'):
            e = self.pick(stds)
            return e['id'], e['_tag'], e['_cpp']
        c = []
        for e in self.cents():
            if self.visible(e, here): c.append((e['id'], e['_tag'], e['_cpp']))
        if self.ch('p_fwdref'):
            later = []
            for s in self.slots[here['i'] + 1:]:
                if s['kind'] == 'class' and not s.get('anon'):
                    later.append((s['id'], s['cs'] + ' ' + s['id'], '::' + s['id']))
            if later: c = later
        return self.pick(c) if c else None

    def visible(self, e, here):
        """may code at `here` name type e? (private nested types only inside the class, anonymous ones only in the same header)"""
        if e.get('_anyanon') and e['hdr'] != here['hdr']: return False
        if e['_hidden'] and e['_hidden'] not in here.get('owners', ()): return False
        return True

    def valtype(self, here):
        """type for a by-value parameter or a field"""
        x = self.r.random()
        if x < self.p['p_enumty']:
            es = [e for e in self.ents if e['k'] == 'enum' and e['name'] and self.visible(e, here)]
            if es:
                e = self.pick(es)
                return e['id'], 'enum ' + e['id'], e['_cpp'], e
        if x < self.p['p_enumty'] + self.p['p_clsty']:
            cs = [e for e in self.cents() if e.get('_simple') and e.get('_done') and self.visible(e, here)]
            if cs:
                e = self.pick(cs)
                return e['id'], e['_tag'], e['_cpp'], e
        if self.ch('p_string'): return 'std::string', 'std::string', 'std::string', None
        s = self.pick(SCALARS)
        return s, s, s, None

    def param(self, here, dflt=False, allow_bad=True):
        r = self.r
        nm = self.name('p')
        p = dict(nm=nm, df=int(dflt), dv=0, td=0, _dx='')
        if not dflt and allow_bad and self.ch('p_badty'):
            b, tag, cpp, e = self.valtype(here)
            f = self.pick(['rref', 'pp', 'arr', 'fptr', 'fref'])
            if e is not None and e['k'] == 'class' and self.ch(.3): f = 'mptr'
            if f == 'rref' and b == 'std::string': f = 'pp'
            p.update(b=b, f=f, sp=spell_canonical(b, f, tag), _cpp=cpp)
        else:
            x = r.random()
            if x < .45 or dflt:
                b, tag, cpp, e = self.valtype(here)
                f = self.pick(['val', 'val', 'val', 'cval', 'cref'])
                if not dflt and r.random() < .15: f = 'ref'
                if dflt and r.random() < .12 and not e: b, tag, cpp, f = 'int', 'int', 'int', 'ptr'
                if dflt and e is not None and e['k'] == 'class' and (not e.get('_dctor') or e['outer']):
                    b, tag, cpp, e = 'int', 'int', 'int', None
                p.update(b=b, f=f, sp=spell_canonical(b, f, tag), _cpp=cpp)
                if dflt: self.default(p, e)
            elif x < .45 + .45 * self.p['p_clsty'] + .1:
                c = self.anyclass(here)
                if c:
                    f = self.pick(['ref', 'cref', 'ptr', 'cptr'])
                    p.update(b=c[0], f=f, sp=spell_canonical(c[0], f, c[1]), _cpp=c[2])
                else:
                    p.update(b='int', f='val', sp='int', _cpp='int')
            else:
                b = self.pick(SCALARS)
                f = self.pick(['val', 'val', 'ref', 'cref'])
                if b == 'int' and r.random() < .2: f = self.pick(['ptr', 'cptr'])
                p.update(b=b, f=f, sp=spell_canonical(b, f, b), _cpp=b)
        if p['f'] in ('ref', 'cref', 'ptr', 'cptr', 'val') and self.ch('p_typedef'): p['td'] = 1
        elif p['b'] in self.byid and not self.byid[p['b']].get('_std') and not self.byid[p['b']].get('_istmpl') and not p['df'] and p['f'] in ('ref', 'cref', 'ptr', 'cptr', 'val', 'cval') and self.ch('p_elab'): p['_cpp'] = self.byid[p['b']].get('cs', 'enum') + ' ' + p['_cpp']
        if not dflt and self.ch('p_unnamed') or self.byid.get(p['b'], {}).get('_std'): p['nm'] = ''    # using a parameter would instantiate its class
        self.fillp(p)
        if self.odd_spelling(p['b']): p['sp'] = ''
        return p

    def odd_spelling(self, b):
        """arguments of a template are printed as they are written"""
        e = self.byid.get(b, {})
        return bool(e.get('_istmpl')) and any(a['b'] in self.byid for a in e['targs'])

    def fillp(self, p):
        """ct: a call by the recorder gives this parameter a fresh number; hb: prints as 0/1"""
        sc = p['b'] in SCALARS or p['b'] == 'std::string' or (p['b'] in self.byid and self.byid[p['b']]['k'] == 'enum')
        p['ct'] = int(sc)
        p['hb'] = int(p['b'] == 'bool' or self.byid.get(p['b'], {}).get('_ut') == 'bool')
        if p['f'] in ('ptr', 'cptr') and p['b'] != 'int': p['ct'] = 0 if p['b'] not in SCALARS else 1
        p['hv'] = int(sc and (p['f'] not in ('ptr', 'cptr') or p['b'] == 'int'))   # printed value is the number

    def default(self, p, e):
        b, f = p['b'], p['f']
        if f in ('ptr', 'cptr'): p['dv'], p['_dx'] = -2, 'nullptr'
        elif b == 'bool': v = self.r.randint(0, 1); p['dv'], p['_dx'] = v, ['false', 'true'][v]
        elif b == 'std::string': v = self.r.randint(2, 90); p['dv'], p['_dx'] = v, '"s%d"' % v
        elif b in SCALARS: v = self.r.randint(2, 90); p['dv'], p['_dx'] = v, str(v) + ('.0' if b == 'double' else '')
        elif e['k'] == 'enum':
            v = self.pick(e['vals']) if e['vals'] else None
            if v: p['dv'], p['_dx'] = v['v'] - (2 ** 64 if v['v'] >= 2 ** 63 else 0), e['_scope'] + v['n']
            else: p['dv'], p['_dx'] = 0, '%s(0)' % p['_cpp']
        else: p['dv'], p['_dx'] = -1, p['_cpp'] + '()'

    def rettype(self, here):
        x = self.r.random()
        if x < .25: t = dict(VOID); t['_cpp'] = 'void'; return t
        if x < .25 + self.p['p_retcls'] * .6:
            c = self.anyclass(here)
            if c:
                f = self.pick(['ref', 'cref', 'ptr', 'cptr'])
                return dict(b=c[0], f=f, sp=spell_canonical(c[0], f, c[1]), _cpp=c[2])
        if x < .25 + self.p['p_retcls']:
            b, tag, cpp, e = self.valtype(here)
            if b in SCALARS:
                f = self.pick(['val', 'val', 'ref', 'ptr']) if b == 'int' else 'val'
            else: f = 'val'
            return dict(b=b, f=f, sp=spell_canonical(b, f, tag), _cpp=cpp)
        if self.ch(self.p['p_badty'] * .5): return dict(b='int', f=self.pick(['pp', 'rref']), sp='int **', _cpp='int')
        b = self.pick(['int', 'int', 'bool', 'long', 'double'])
        return dict(b=b, f='val', sp=b, _cpp=b)

    # ---------------------------------------------------------------------------------------------- callables
    def callable(self, here, name, maxp=3, op=None, nodflt=False, virt=False):
        if op is not None: np = op
        else: np = self.pick([0, 1, 1, 2, 2, 3][:maxp + 3])
        if op is None and maxp == 3 and self.ch('p_big'): np = self.pick([4, 5, 6])
        ps = []
        nd = 0
        self.nostd = 'op' if op is not None else 'ctor' if self.inctor else ''      # overload resolution would instantiate them
        if np and not nodflt and self.ch('p_dflt'): nd = self.r.randint(1, np)
        for i in range(np): ps.append(self.param(here, dflt=(i >= np - nd)))
        c = dict(uid=self.newuid(), name=name, acc='public', st=0, cn=0, vi=0, pu=0, fi=0, de=0, va=0, tm='', ne=0, ps=ps, r=self.rettype(here), rv=0, drv='', doc=[], cp=0, mv=0, sps='')
        if self.odd_spelling(c['r']['b']): c['r']['sp'] = ''
        if c['r']['b'] in ('int', 'long', 'double') and c['r']['f'] in ('val',): c['rv'] = 1000 + self.uid
        elif c['r']['b'] == 'bool': c['rv'] = 1
        if self.ch('p_doc'): c['doc'] = self.pick(DOCS)
        return c

    @staticmethod
    def sig(c, n=None):
        return tuple((p['b'], p['f'] if p['f'] not in ('val', 'cval', 'cref') else 'v') for p in (c['ps'] if n is None else c['ps'][:n]))

    @staticmethod
    def arities(c):
        k = len(c['ps'])
        m = k
        for i, p in enumerate(c['ps']):
            if p['df']: m = i; break
        return range(m, k + 1)

    def clash(self, a, b, least=0):
        """would overloads a and b be ambiguous, or not separable by exact types?"""
        if a['va'] or b['va']: return True
        for n in self.arities(a):
            if n in self.arities(b) and n >= least:
                diff = False
                for x, y in zip(a['ps'][:n], b['ps'][:n]):
                    if x['b'] != y['b'] and x['f'] in ('val', 'cval', 'cref', 'ref') and y['f'] in ('val', 'cval', 'cref', 'ref') and x['f'] not in ('arr',) :
                        # both arithmetic or different classes: exact match wins (classes related by conversion are avoided by requiring a scalar)
                        if x['b'] in SCALARS and y['b'] in SCALARS: diff = True
                    if x['f'] == 'ref' and y['f'] != 'ref' or y['f'] == 'ref' and x['f'] != 'ref':
                        if x['b'] == y['b']: return True
                if not diff: return True
        return False

    def enumvals(self, ut):
        n = self.pick([0, 1, 2, 2, 3, 3, 4]) if self.ch(.25) else self.pick([1, 2, 3])
        if self.ch('p_big'): n = self.pick([6, 7, 9])
        vals, v, pre = [], 0, self.name('e')
        big = {'long': [2 ** 40, -2 ** 62, 2 ** 63 - 1], 'unsigned long': [2 ** 64 - 1, 2 ** 63, 2 ** 33], 'unsigned char': [200, 255], 'signed char': [-128, 127], 'unsigned int': [2 ** 32 - 1], '': [2 ** 31 - 1, -2 ** 31]}.get(ut, [1])
        lim = {'long': 2 ** 63, 'unsigned long': 2 ** 64, 'unsigned char': 256, 'signed char': 128, 'unsigned int': 2 ** 32, 'bool': 2}.get(ut, 2 ** 31)
        uns = ut in ('unsigned long', 'unsigned char', 'unsigned int', 'bool')
        for i in range(n):
            ex = self.ch(.5)
            if ex: v = self.pick([-3, 5, 7, 42, 1, 0, 100, v] + (big if ut or self.ch(.1) else []))
            if uns and v < 0: v = 1
            if v >= lim: v, ex = 0, True
            vals.append(dict(n='%s_%s' % (pre, 'abcdefghi'[i]), v=v, _ex=ex))
            v += 1
        return vals

    def mkenum(self, ns, name, slot, outer=None, acc='public', anon=0):
        kind = self.pick(['enum', 'enum', 'enum class', 'enum struct'])
        ut = self.pick(['long', 'unsigned long', 'unsigned char', 'signed char', 'unsigned int', 'bool', 'int']) if self.ch(.25) else ''
        pre = ns + (['(anonymous namespace)'] if anon else [])
        unnamed = 0
        if outer is not None and self.ch(.1) or outer is None and self.ch(.06):
            kind, unnamed = 'enum', 1
        oid = outer['id'] if outer else '::'.join(pre)
        oc = outer['_cpp'] if outer else ('::' + '::'.join(ns) if ns else '')
        id_ = (oid + '::' if oid else '') + (name if not unnamed else '(unnamed)' + name)
        e = dict(k='enum', id=id_, gen=id_, ns=ns, outer=outer['id'] if outer else '', name='' if unnamed else name, scoped=int(kind != 'enum'), ecls=int(kind == 'enum class'),
                 vals=self.enumvals(ut), _ut=ut, eb=int(ut == 'bool'), anon=anon, sys=slot['sys'], acc=acc, hdr=slot['hdr'], doc=self.pick(DOCS) if self.ch('p_doc') else [], hid='', _kind=kind, _cpp=oc + '::' + name)
        e['_scope'] = (e['_cpp'] + '::') if kind != 'enum' else (oc + '::' if oc else '::')
        e['_anyanon'] = anon or (outer and outer['_anyanon'])
        e['_hidden'] = (outer['id'] if acc != 'public' else outer['_hidden']) if outer else ''
        e['_efwd'], e['fw'] = '', 0                                          # declared before it is defined
        if (kind != 'enum' or ut) and not unnamed and self.ch('p_efwd'):
            if outer is not None: e['_efwd'] = self.pick(['in', 'out'])
            elif not anon and not slot['sys']:
                e['_efwd'] = self.pick(['same', 'fwd', 'fwd'])
                e['fw'] = int(e['_efwd'] == 'fwd')
        return e

    # ---------------------------------------------------------------------------------------------- classes
    def cls(self, ns, name, slot, outer=None, acc='public', anon=0, cs=None):
        pre = ns + (['(anonymous namespace)'] if anon else [])
        oid = outer['id'] if outer else '::'.join(pre)
        oc = outer['_cpp'] if outer else ('::' + '::'.join(ns) if ns else '')
        id_ = (oid + '::' if oid else '') + name
        c = dict(k='class', id=id_, gen=id_, ns=ns, outer=outer['id'] if outer else '', name=name, targs=[], cs=cs or self.pick(['struct', 'class']), hdr=slot['hdr'], sys=slot['sys'],
                 inc=0, anon=anon, acc=acc, fin=0, bases=[], ctors=[], meths=[], fields=[], usings=[], dt='', asg='', doc=self.pick(DOCS) if self.ch('p_doc') else [], str='', inst=1,
                 _cpp=oc + '::' + name, _nested=[], _simple=0, _dctor=0)
        c['_tag'] = c['cs'] + ' ' + id_
        c['_anyanon'] = anon or (outer and outer['_anyanon'])
        c['_hidden'] = (outer['id'] if acc != 'public' else outer['_hidden']) if outer else ''
        return c

    def anc(self, c):
        s = []
        for b in c['bases']:
            s.append(b['id'])
            s += self.anc(self.byid[b['id']])
        return s

    def noglobal(self, b):
        """finding D24: a type of the global namespace that is a not public base breaks trampolines"""
        return bool(b['ns']) and all(self.byid[x]['ns'] for x in self.anc(b))

    def virtuals(self, c):
        """all virtual methods visible in c and its ancestors: list of (class, method)"""
        l = [(c, m) for m in c['meths'] if m['vi']]
        for b in c['bases']: l += self.virtuals(self.byid[b['id']])
        return l

    def vsig(self, m):
        return (m['name'], tuple((p['b'], p['f']) for p in m['ps']), m['cn'])

    def unresolved(self, c):
        s = {}
        for b in c['bases']: s.update(self.unresolved(self.byid[b['id']]))
        for m in c['meths']:
            if m['vi']:
                if m['pu']: s[self.vsig(m)] = m
                else: s.pop(self.vsig(m), None)
        return s

    def top(self, e):
        while e['outer']: e = self.byid[e['outer']]
        return e

    def nbase(self, e, c):
        if self.top(e)['id'] == self.top(c)['id']: return False
        while e['outer']:
            if e['acc'] != 'public' or e['_hidden']: return False
            e = self.byid[e['outer']]
            if not e.get('_done') or e['inc']: return False
        return True

    def fill_class(self, c, slot, depth=0, targs=None):
        """members of class c (already registered as being defined)"""
        r = self.r
        owners = list(slot.get('owners', ())) + [c['id']]
        here = dict(i=slot['i'], hdr=slot['hdr'], owners=owners)
        simple = r.random() < .5
        # nested things first, so that members may use them
        for x in self.r.sample('EF', 2):
            if depth >= 4 or not self.ch(self.p['p_nenum'] * [1, 1, .5, .5][depth]): break
            e = self.mkenum(c['ns'], 'N' + x, slot, c, self.access())
            self.reg(e); c['_nested'].append(('enum', e))
            if not self.ch(.2): break
        for x in self.r.sample('XYZ', 3):
            if depth >= 4 or not self.ch(self.p['p_nested'] * [1, 1, .5, .5][depth]): break
            n = self.cls(c['ns'], 'N' + 'n' * depth + x, slot, c, self.access(), cs='union' if self.ch('p_union') else None)
            self.reg(n); c['_nested'].append(('class', n))
            s2 = dict(slot); s2['owners'] = owners
            self.fill_class(n, s2, depth + 1)
            if not self.ch(.3): break
        # bases
        union = c['cs'] == 'union'
        keep = self.p
        if union: self.p = dict(self.p, p_virt=0, p_anonu=0, p_final=0, p_using=0)
        if self.ch('p_base') and not union:
            nb = self.ch('p_nbase')     # also classes that are nested in other classes
            cand = [e for e in self.cents() if e.get('_done') and (not e['outer'] or nb and self.nbase(e, c)) and not e['fin'] and not e['inc'] and e['id'] != c['id'] and not e['_anyanon']
                    and e['dt'] != 'private' and e['_basable'] and e['inst'] == 1]
            k = 2 if self.ch('p_base2') else 1
            if k == 2 and self.ch(.3): k = self.pick([3, 4])
            r.shuffle(cand)
            for b in cand:
                if len(c['bases']) >= k: break
                fam = set([b['id']] + self.anc(b))
                have = set(x['id'] for x in c['bases'])
                for x in list(have): have |= set(self.anc(self.byid[x]))
                if fam & have: continue
                acc = self.pick(['private', 'protected']) if self.ch(self.p['p_acc'] * .6) and self.noglobal(b) else 'public'
                virt = 0
                if self.ch('p_vbase') and not b['_poly'] and not b['_vb'] and b['_dctor']: virt = int(acc != 'private')
                c['bases'].append(dict(id=b['id'], acc=acc, virt=virt))
        poly = any(self.byid[b['id']]['_poly'] for b in c['bases'])
        c['_vb'] = any(b['virt'] or self.byid[b['id']]['_vb'] for b in c['bases'])
        if c['_vb']: simple = False
        self.constructors(c, here, simple)
        # methods
        nmeth = self.rng('meths')
        used = []
        for i in range(nmeth): self.method(c, here, used)
        self.overrides(c, here, used)
        # drivers for virtual functions: public functions that call them
        for m in list(c['meths']):
            if any(self.byid.get(p['b'], {}).get('_std') and not self.byid[p['b']]['opq'] for k in [c['id']] + self.anc(c) for x in self.byid[k]['meths'] if x['name'] == m['name'] for p in x['ps']): continue
            if m['vi'] and not m['de'] and not m['va'] and m.get('rq') != '&&' and self.ch('p_drive') and all(p['f'] not in ('rref', 'arr', 'fptr', 'fref', 'mptr', 'pp') and p['nm'] for p in m['ps']) and not m['name'].startswith('operator'):
                d = dict(m); d['ps'] = [dict(p) for p in m['ps']]
                for p in d['ps']: p['df'] = 0
                d.update(uid=self.newuid(), name='drive_' + m['uid'], acc='public', vi=0, pu=0, fi=0, st=0, ne=0, rq='', _nes='', drv=m['uid'], doc=[], r=dict(VOID, _cpp='void'), rv=0)
                c['meths'].append(d)
        # fields
        for i in range(self.rng('fields')): self.field(c, here, simple)
        if self.ch('p_anonu'):
            t = [self.pick(['int', 'double', 'long']) for _ in range(2)]
            acc = self.pick(['public', 'public', 'private'])
            u = self.name('un')
            for x in t: c['fields'].append(dict(name=self.name('d'), acc=acc, b=x, f='val', sp=x, st=0, bf=0, au=1, init=0, td=0, _cpp=x, _u=u))
        if union: c['fields'] = [f for f in c['fields'] if f['b'] not in self.byid and f['b'] != 'std::string' and f['f'] in ('val', 'ptr', 'arr') and not f['st'] and not f['init']]
        if (c.get('_uctor') or self.ch('p_using')) and c['bases']: self.using(c)
        if self.ch('p_final') and not self.unresolved(c): c['fin'] = 1
        if self.ch('p_dtor') and not simple: c['dt'] = self.pick(['private', 'protected'])
        c['_poly'] = poly or any(m['vi'] for m in c['meths'])
        c['_abs'] = bool(self.unresolved(c))
        ndb = any(not self.byid[b['id']]['_dctor'] and not self.byid[b['id']]['_pdctor'] for b in c['bases'])
        c['_nddef'] = ndb
        pub = [t for t in c['ctors'] if t['acc'] == 'public' and not t['de'] and not t['cp'] and not t['mv'] and (not t['ps'] or t['ps'][0]['df'])]
        prot = [t for t in c['ctors'] if t['acc'] == 'protected' and not t['de'] and not t['cp'] and not t['mv'] and (not t['ps'] or t['ps'][0]['df'])]
        fieldsok = all(f['st'] or f['init'] or (f['f'] == 'val' and (f['b'] not in self.byid or self.byid[f['b']]['k'] == 'enum' or self.byid[f['b']].get('_dctor'))) or f['f'] in ('ptr', 'cptr', 'arr') for f in c['fields'])
        implicit = not c['ctors'] and not ndb and fieldsok
        c['_dctor'] = int((bool(pub) or implicit) and not c['dt'])
        c['_pdctor'] = int(bool(prot) or (implicit or bool(pub)))
        copyable = not any(t['cp'] and (t['acc'] != 'public' or t['de']) for t in c['ctors']) and not any(t['mv'] for t in c['ctors']) and not c['_nocopy']
        if any(not self.byid[b['id']]['_copyable'] for b in c['bases']): copyable = False
        if any(not f['st'] and f['b'] in self.byid and self.byid[f['b']]['k'] == 'class' and f['f'] in ('val', 'cval') and not self.byid[f['b']]['_copyable'] for f in c['fields']): copyable = False
        c['_copyable'] = int(copyable and not c['dt'])
        c['_simple'] = int(c['_copyable'] and not c['_abs'] and not c['_vb'] and (bool(c['_dctor']) or r.random() < .5))
        # can a class derive from it and be default constructed?
        c['_basable'] = bool(c['_dctor'] or c['_pdctor'] or (not c['ctors'] and False) or c['_ctorint']) and not union
        c['_done'] = 1
        self.p = keep

    def constructors(self, c, here, simple):
        c['_nocopy'] = 0
        c['_ctorint'] = ''
        c['_fixedctors'] = 0
        nd = [b for b in c['bases'] if not self.byid[b['id']]['_dctor'] and not self.byid[b['id']]['_pdctor']]
        odd = not simple and self.ch('p_cls_odd')
        if len(c['bases']) and not simple and self.ch('p_uctor') and any(self.byid[b['id']]['ctors'] for b in c['bases']):
            c['_uctor'] = 1
            if self.ch(.55): return
        if not c.get('_uctor') and not self.ch('ctors') and not odd: return
        def mk(ps, acc='public', de=0, **k):
            t = dict(uid=self.newuid(), name=c['name'], acc=acc, st=0, cn=0, vi=0, pu=0, fi=0, de=de, va=0, tm='', ne=0, ps=ps, r=dict(VOID), rv=0, drv='', doc=[], cp=0, mv=0, sps='', dd=0)
            t.update(k); c['ctors'].append(t); return t
        if simple or c.get('_uctor') and not nd and self.ch(.3):
            mk([], de=int(not simple and self.ch(.4)))
        n = self.pick([0, 1, 1, 2]) if simple else self.pick([1, 1, 2, 3])
        for i in range(n):
            self.inctor = 1
            t = self.callable(here, c['name'])
            self.inctor = 0
            t['r'] = dict(VOID); t['rv'] = 0; t['dd'] = 0; t['doc'] = []
            t['acc'] = self.access() if not simple else 'public'
            if self.ch('p_variadic'): t['va'] = 1
            for p in t['ps']:
                if p['b'] == c['id']: break
            else:
                ok = not any(self.clash(t, o) for o in c['ctors'])
                if t['va'] and (t['ps'] == [] or any(p['df'] for p in t['ps']) or c['ctors']): ok = False
                if ok:
                    if self.ch('p_deleted'): t['de'] = 1
                    c['ctors'].append(t)
                    if [(p['b'], p['f']) for p in t['ps']] == [('int', 'val')] and t['acc'] == 'public' and not t['de'] and not t['va']: c['_ctorint'] = '0'
        if odd:
            k = self.pick(['delcopy', 'privcopy', 'copy', 'delassign', 'privassign', 'assign', 'deldef', 'privdef', 'protdef', 'move', 'ncopy', 'nd', 'defdef'])
            self_ = lambda f: dict(nm='o', df=0, dv=0, td=0, _dx='', b=c['id'], f=f, sp=spell_canonical(c['id'], f, c['_tag']), _cpp=c['_cpp'], ct=0, hb=0, hv=0)
            hasdef = any(not t['ps'] or t['ps'][0]['df'] for t in c['ctors'])
            if k in ('delcopy', 'privcopy', 'copy', 'ncopy'):
                mk([self_('ref' if k == 'ncopy' else 'cref')], 'private' if k == 'privcopy' else 'public', int(k == 'delcopy'), cp=1)
                if k == 'ncopy': c['_nocopy'] = 1
            elif k == 'move':
                mk([self_('rref')], mv=1); c['_nocopy'] = 1; c['asg'] = 'deleted'
            elif k == 'delassign': c['asg'] = 'deleted'
            elif k == 'privassign': c['asg'] = self.pick(['private', 'protected'])
            elif k == 'assign': c['asg'] = 'public'
            elif k in ('deldef', 'privdef', 'protdef', 'defdef') and not hasdef:
                mk([], {'privdef': 'private', 'protdef': 'protected'}.get(k, 'public'), int(k == 'deldef'), dd=int(k == 'defdef' and not nd))
            elif k == 'nd' and not hasdef and not c['_ctorint'] and not any(len(self.arities(t)) > 0 and 1 in self.arities(t) for t in c['ctors']):
                p = dict(nm='v', df=0, dv=0, td=0, _dx='', b='int', f='val', sp='int', _cpp='int')
                self.fillp(p)
                mk([p]); c['_ctorint'] = '0'
        if not c['ctors']: return
        # only a copy or move constructor would leave class without any way to make objects: add a plain one
        if all(t['cp'] or t['mv'] for t in c['ctors']): mk([])

    def method(self, c, here, used):
        if self.ch('p_conv') and not any(m['name'].startswith('operator ') for m in c['meths']):
            m = self.callable(here, 'operator ' + 'double', op=0)
            m['r'] = dict(b='double', f='val', sp='double', _cpp='double'); m['cn'] = 1; m['conv'] = 1; m['rv'] = 0
            c['meths'].append(m); return
        if self.ch('p_op'):
            op, n = self.pick(OPS)
            m = self.callable(here, op, op=n, nodflt=(op != 'operator()'))
            for p in m['ps']: p['nm'] = p['nm'] or self.name('p')
            if op in ('operator++', 'operator--') and n == 1:
                p = m['ps'][0]; p.update(b='int', f='val', sp='int', _cpp='int', td=0); self.fillp(p)
            if op == 'operator->': m['r'] = dict(b=c['id'], f='ptr', sp=spell_canonical(c['id'], 'ptr', c['_tag']), _cpp=c['_cpp']); m['rv'] = 0
            m['cn'] = int(self.ch('p_const'))
            m['acc'] = self.access()
            if op in ('operator&&', 'operator||', 'operator,', 'operator&', 'operator*', 'operator=='): pass
            if any(o['name'] == op and (len(o['ps']) == len(m['ps']) or self.clash(o, m)) for o in c['meths']): return
            if any(self.vsig(x) == self.vsig(m) and x['r']['sp'] != m['r']['sp'] for b in c['bases'] for (_, x) in self.virtuals(self.byid[b['id']])): return
            if self.ch(self.p['p_virt'] * .5) and not m['va']: m['vi'] = 1
            c['meths'].append(m); return
        over = [m for m in c['meths'] if self.ch('p_over') and not m['drv'] and not m['tm'] and m['name'][0] != 'o' and not m['va'] and not m['de']]
        name = over[0]['name'] if over else self.name('m')
        m = self.callable(here, name)
        m['acc'] = self.access()
        x = self.r.random()
        if x < self.p['p_static']: m['st'] = 1
        elif self.ch('p_const'): m['cn'] = 1
        if not m['st'] and self.ch('p_virt'):
            m['vi'] = 1
            if self.ch('p_pure'): m['pu'] = 1
            if self.ch(.15) and not m['pu']: m['ne'] = 1
            if self.ch('p_nes'): m['_nes'] = self.pick([' noexcept(true)', ' noexcept(sizeof(int) == 4)', ' throw()']) if m['ne'] else ' noexcept(false)'
            if self.ch('p_variadic') and m['ps'] and not any(p['df'] for p in m['ps']) and m['ps'][-1]['b'] in ('int', 'double', 'long') and m['ps'][-1]['f'] == 'val': m['va'] = 1
        elif self.ch('p_deleted'): m['de'] = 1
        elif self.ch('p_variadic') and m['ps'] and not any(p['df'] for p in m['ps']) and m['ps'][-1]['b'] in ('int', 'double', 'long') and m['ps'][-1]['f'] == 'val': m['va'] = 1
        elif self.ch('p_mtmpl'):
            self.mtemplate(c, here, m); return
        same = [o for o in c['meths'] if o['name'] == name]
        if not m['st'] and not m['va'] and not m['de'] and not same and self.ch('p_rq'): m['rq'] = self.pick(['&', '&', '&&'])
        if any(o.get('rq') for o in same): return
        if any(self.clash(o, m) for o in same): return
        if any(o['st'] != m['st'] for o in same): return
        if m['vi'] and m['de']: m['de'] = 0
        c['meths'].append(m)
        if m.get('rq') == '&' and not m['cn'] and not m['vi'] and self.ch(.5):
            o = dict(m); o['ps'] = [dict(p) for p in m['ps']]; o['rq'] = '&&'; o['uid'] = self.newuid()
            c['meths'].append(o)
        elif not m['st'] and not m['va'] and not m['de'] and m.get('rq') != '&&' and self.ch('p_constpair'):
            o = dict(m); o['ps'] = [dict(p) for p in m['ps']]; o['cn'] = 1 - m['cn']; o['uid'] = self.newuid(); o['acc'] = self.access() if self.ch(.5) else m['acc']
            if o['rv'] > 1: o['rv'] = 1000 + self.uid
            if self.ch(.3): o['vi'] = o['pu'] = 0; o['ne'] = 0
            if o['vi'] and self.ch(.4): o['pu'] = 1 - o['pu']
            if o['pu'] or not o['ne']: o['ne'] = 0; o['_nes'] = ''
            c['meths'].append(o)

    def mtemplate(self, c, here, m):
        """member template: first parameter is of the template parameter type; explicitly instantiated for some types"""
        m['vi'] = m['pu'] = m['va'] = m['de'] = 0
        insts = self.r.sample(['int', 'double', 'long'], self.pick([0, 1, 2]))
        m['name'] = self.name('m')
        p0 = dict(nm='t', df=0, dv=0, td=0, _dx='', b='T', f='val', sp='T', _cpp='T', ct=1, hb=0, hv=1)
        m['ps'] = [p0] + m['ps'][:1]
        nd = self.ch(.3)        # template argument that can not be deduced from the parameters
        if nd: del m['ps'][0]
        if self.ch(.5):
            for q in m['ps'][1 - nd:]: q['df'] = 0
        if m['acc'] != 'public' : insts = []
        if nd: insts = insts[:1]
        c.setdefault('_mt', []).append((m, insts))
        m2 = dict(m); m2['tm'] = 'pattern'
        c['meths'].append(m2)
        for t in insts:
            i = dict(m); i['ps'] = [dict(p) for p in m['ps']]; i['tm'] = 'inst'; i['_targ'] = t; i['sps'] = '<' + t + '>'
            if not nd: i['ps'][0].update(b=t, sp=t, _cpp=t); self.fillp(i['ps'][0])
            c['meths'].append(i)

    def overrides(self, c, here, used):
        if not c['bases']: return
        own = set(self.vsig(m) for m in c['meths'])
        done = set()
        for (k, m) in [x for b in c['bases'] for x in self.virtuals(self.byid[b['id']])]:
            s = self.vsig(m)
            if s in done or s in own: continue
            done.add(s)
            if any(self.vsig(x) == s and x['fi'] for (_, x) in [y for b in c['bases'] for y in self.virtuals(self.byid[b['id']])]): continue
            if not self.ch(.5): continue
            if not self.overridable_types(m, here): continue
            o = dict(m); o['ps'] = [dict(p) for p in m['ps']]
            o.update(uid=self.newuid(), acc=m['acc'] if self.ch(.8) else self.access(), vi=1, pu=int(self.ch(self.p['p_pure'] * .3)), fi=int(self.ch('p_final')), doc=[], _ov=1)
            if o['pu']: o['fi'] = 0
            if o['ne']: o['pu'] = 0
            for p in o['ps']: p['df'] = 0; p['nm'] = p['nm'] and self.name('p')
            if o['rv'] > 1: o['rv'] = 1000 + self.uid
            elif o['r']['b'] == 'bool' and o['r']['f'] == 'val': o['rv'] = 1
            c['meths'].append(o)

    def overridable_types(self, m, here):
        for t in m['ps'] + [m['r']]:
            if t['b'] in self.byid and not self.visible(self.byid[t['b']], here): return False
        return True

    def field(self, c, here, simple):
        acc = self.access()
        f = dict(name=self.name('d'), acc=acc, st=0, bf=0, au=0, init=0, td=0)
        x = self.r.random()
        if x < self.p['p_fodd']:
            k = self.pick(['ptr', 'arr', 'ref', 'bf', 'static', 'noassign', 'noassign', 'pp', 'carr', 'fptr'])
            if k in ('ptr', 'arr', 'pp', 'fptr'): f.update(b='int', f=k, sp=spell_canonical('int', k, 'int'), _cpp='int')
            elif k == 'carr': f.update(b='double', f='arr', sp='double[3]', _cpp='double')
            elif k == 'ref': f.update(b='int', f='ref', sp='int &', _cpp='int', init=int(simple or self.ch(.6)))
            elif k == 'bf': f.update(b='int', f='val', sp='int', _cpp='int', bf=1)
            elif k == 'static': f.update(b='int', f='val', sp='int', _cpp='int', st=1)
            else:
                cand = [e for e in self.ents if e['k'] == 'class' and e.get('_done') and not e['_abs'] and not e['dt'] and self.visible(e, here) and e['_dctor'] and (e['asg'] or not e['_copyable'] or self.ch(.1))]
                if not cand: return
                e = self.pick(cand)
                f.update(b=e['id'], f='val', sp=e['_tag'], _cpp=e['_cpp'], td=int(self.ch('p_typedef')))
        else:
            b, tag, cpp, e = self.valtype(here)
            k = 'val'
            if self.ch('p_fconst'): k = 'cval'; f['init'] = int(self.ch(.8))
            f.update(b=b, f=k, sp=spell_canonical(b, k, tag), _cpp=cpp, td=int(self.ch('p_typedef')))
            if f['td'] and self.ch(.6): f['_tdc'] = 1
            if e is not None and e['k'] == 'class':
                f['init'] = 0
                if k == 'cval' and not any(not t['ps'] and not t['dd'] for t in e['ctors']): f['f'] = 'val'; f['sp'] = tag
                if not e['_dctor']:
                    if c['ctors']: return       # constructors would need an initializer
            if self.ch('p_fconst') and f['f'] == 'val' and (e is None or e['k'] == 'enum'): f['init'] = 1
        needs = (f['f'] == 'ref' or f['f'] == 'cval') and not f['init'] and (f['b'] not in self.byid or self.byid[f['b']]['k'] == 'enum') and not f['st']
        if needs and (c['ctors'] or c.get('_uctor')): f['init'] = 1      # user constructors have no member initializers
        c['fields'].append(f)

    def using(self, c):
        """public using-declarations lifting protected (or repeating public) members of a direct base"""
        r = self.r
        own = set(m['name'] for m in c['meths']) | set(f['name'] for f in c['fields'])
        for b in c['bases']:
            if b['virt']: continue
            B = self.byid[b['id']]
            if B.get('_istmpl'): continue
            names = {}
            for m in B['meths']:
                if m['tm'] or m.get('conv') or m['name'].startswith('operator'): continue
                names.setdefault(m['name'], []).append(m)
            for n, ms in names.items():
                if n in own or any(m['acc'] == 'private' for m in ms) or not self.ch(.4): continue
                if any(m['acc'] == 'public' and b['acc'] == 'public' for m in ms) and not self.ch(.4): continue
                c['usings'].append(dict(w='m', base=B['id'], name=n, acc=self.pick(['public', 'public', 'public', 'protected'])))
            for f in B['fields']:
                if f['acc'] == 'private' or f['name'] in own or f['au'] or not self.ch(.5) or f['st']: continue
                c['usings'].append(dict(w='f', base=B['id'], name=f['name'], acc=self.pick(['public', 'public', 'protected'])))
            if (c.get('_uctor') or self.ch(.15)) and B['ctors'] and not any(t['va'] for t in B['ctors']) and not B['_vb'] \
                    and all(x is b or self.byid[x['id']]['_dctor'] or self.byid[x['id']]['_pdctor'] for x in c['bases']) \
                    and all(f['st'] or f['init'] or f['f'] in ('ptr', 'cptr', 'arr', 'val') and (f['b'] not in self.byid or self.byid[f['b']]['k'] == 'enum' or self.byid[f['b']].get('_dctor')) for f in c['fields']):
                for t in B['ctors']:       # a constructor of the class itself with the same parameters hides the inherited one
                    if c['ctors'] and t['ps'] and not t['cp'] and not t['mv'] and not t['va'] and not c['_vb'] and all(p['b'] != c['id'] and not p['td'] for p in t['ps']) and self.ch(.6) \
                            and not any(self.clash(t, o) for o in c['ctors'] if not (o['cp'] or o['mv'])):
                        o = dict(t); o['ps'] = [dict(p, df=0) for p in t['ps']]; o.update(uid=self.newuid(), name=c['name'], acc=self.pick(['public', 'private', 'protected']), dd=0, _hides=1)
                        if self.ch(.3): o['de'] = 1
                        c['ctors'].append(o)
                have = [o for o in c['ctors'] + [o for u in c['usings'] if u['w'] == 'c' for o in self.byid[u['base']]['ctors']] if o['ps'] and not o['cp'] and not o['mv'] and not o.get('_hides')]
                if c['ctors'] and any(u['w'] == 'c' for u in c['usings']) or any(t['ps'] and t['ps'][0]['df'] and (t['de'] or t['acc'] != 'public') for t in c['ctors']): continue
                if c['ctors'] and any(not t['ps'] or t['ps'][0]['df'] for t in B['ctors'] if t['acc'] != 'public' or t['de']): continue     # compilers differ here
                if not any(self.clash(t, o, 1) for t in B['ctors'] for o in have if t['ps'] and not t['cp'] and not t['mv']):
                    c['usings'].append(dict(w='c', base=B['id'], name=B['name'], acc='public'))

    # ---------------------------------------------------------------------------------------------- templates
    def template(self, slot):
        """a class template and its instantiations; returns template description, instance entities are registered"""
        r = self.r
        ns = slot['ns']
        here = dict(i=slot['i'], hdr=slot['hdr'], owners=[])
        mixin = self.ch('p_mixin')
        kinds = ['t'] if mixin else self.pick([['t'], ['t'], ['t', 't'], ['t', 'i'], ['i'], ['b'], ['t', 'b'], ['i', 'b'], ['p'], ['t', 'p']] + ([['t', 't', 't'], ['t', 'i', 'b', 't'], ['i', 'i'], ['t', 't', 'p'], ['t', 'b', 'b', 'i', 'i']] if self.ch(.3) else []))
        t = dict(kind='template', ns=ns, name=slot['name'], params=kinds, mixin=int(mixin), cs=self.pick(['struct', 'class']), hdr=slot['hdr'], sys=slot['sys'], insts=[], fields=[], meths=[], ctors=[], doc=[], base='')
        gen = '::'.join(ns + [t['name']])
        t['gen'] = gen
        # members in terms of T0 (first type parameter) or fixed types
        sub = 'T0' if 't' in kinds else None
        def T():
            if sub and self.ch(.6): return sub
            return self.pick(['int', 'double', 'long', 'bool'])
        if not mixin or self.ch(.3):
            t['ctors'].append(dict(ps=[], uid=self.newuid()))
            if self.ch(.4) and not mixin: t['ctors'].append(dict(ps=[('int', 'val', self.name('p'), 0), ('int', 'val', self.name('p'), self.pick([0, 7]))], uid=self.newuid()))
        for i in range(self.rng('meths')):
            ps = [(T(), self.pick(['val', 'cref', 'ref']), self.name('p'), 0) for _ in range(self.pick([0, 1, 1, 2]))]
            if self.ch('p_dflt'): ps.append(('int', 'val', self.name('p'), self.r.randint(2, 90)))
            op = None
            nm = self.name('m')
            if self.ch('p_op'):
                op, n = self.pick(OPS); nm = op
                if any(x['name'] == op for x in t['meths']) or op in ('operator->',): continue
                ps = [('int' if op in ('operator++', 'operator--') else T(), 'val', self.name('p'), 0) for _ in range(n)]
            t['meths'].append(dict(name=nm, ps=ps, ret=self.pick(['void', 'int', T()]), cn=int(self.ch('p_const')), st=int(op is None and self.ch('p_static')), acc=self.access(), uid=self.newuid(),
                                   vi=0, doc=self.pick(DOCS) if self.ch('p_doc') else []))
            m = t['meths'][-1]
            if m['st']: m['cn'] = 0
            elif self.ch('p_virt'): m['vi'] = 1
        for i in range(self.rng('fields')):
            t['fields'].append(dict(name=self.name('d'), ty=T(), acc=self.access()))
        if self.ch('p_doc'): t['doc'] = self.pick(DOCS)
        if not mixin and self.ch(self.p['p_base'] * .6):
            cand = [e for e in self.ents if e['k'] == 'class' and e.get('_done') and e['cs'] != 'union' and not e['outer'] and not e['fin'] and not e['_anyanon'] and e['_dctor'] and not e['_vb'] and not e['_poly'] and not e['_abs'] and e['inst'] == 1 and not e.get('_istmpl')]
            if cand: t['base'] = self.pick(cand)['id']
        slot['_tmpl'] = t
        return t

    def targ(self, kind, here):
        """(printed by clang in names, demangled, C++ spelling, base of type or '')"""
        r = self.r
        bias = getattr(self, 'tbias', '') if r.random() < .8 else ''
        if kind == 't':
            x = r.random()
            if bias == 'ptr': x = .55
            if bias == 'space': return dict(pr='unsigned int', dm='unsigned int', cpp='unsigned int', b='unsigned int', f='val')
            if x < .5:
                s = self.pick(['int', 'double', 'long', 'bool', 'unsigned int'])
                return dict(pr=s, dm=s, cpp=s, b=s, f='val')
            if x < .6: return dict(pr='int *', dm='int*', cpp='int *', b='int', f='ptr')
            if x < .85:
                cs = [e for e in self.ents if e['k'] == 'class' and e.get('_simple') and e.get('_done') and self.visible(e, here) and not e['outer'] and not e['_anyanon'] and e['_dctor'] and not e['fin']]
                if cs:
                    e = self.pick(cs)
                    return dict(pr=e['_pr'] if '_pr' in e else e['id'], dm=e['id'], cpp=e['_cpp'], b=e['id'], f='val')
            es = [e for e in self.ents if e['k'] == 'enum' and e['name'] and self.visible(e, here) and not e['outer'] and not e['_anyanon']]
            if es:
                e = self.pick(es)
                return dict(pr=e['id'], dm=e['id'], cpp=e['_cpp'], b=e['id'], f='val')
            return dict(pr='short', dm='short', cpp='short', b='short', f='val')
        if kind == 'i': v = self.pick([0, 3, 7, 12, -2]) if bias != 'neg' else self.pick([-2, -3]); return dict(pr=str(v), dm=str(v), cpp=str(v), b='', f='')
        if kind == 'b': v = self.pick(['true', 'false']); return dict(pr=v, dm=v, cpp=v, b='', f='')
        if kind == 'e':
            es = [e for e in self.ents[:self.tat] if e['k'] == 'enum' and e['name'] and e['vals'] and self.visible(e, here) and not e['_hidden'] and not e['_anyanon'] and not e['outer']]
            if es:
                e = self.pick(es); v = self.pick(e['vals'])
                first = [x for x in e['vals'] if x['v'] == v['v']][0]     # clang prints the first enumerator with that value
                pre = '::'.join(e['ns'] + ([e['name']] if e['scoped'] else []))
                return dict(pr=(pre + '::' if pre else '') + first['n'], dm='(%s)%s' % (e['id'], str(v['v'])), cpp=e['_scope'] + v['n'], b='', f='', en=e['id'])
            return None
        raise Exception(kind)

    def instantiate(self, t, slot, pos=None):
        """make one instance entity of template t; by: explicit | field | ref"""
        r = self.r
        here = dict(i=slot['i'], hdr=slot['hdr'], owners=[])
        args = []
        self.tat = t['_at']
        self.tbias = self.pick(['', '', '', '', 'ptr', 'neg', 'space'])     # several arguments of one kind in one instance
        for k in t['params']:
            if k == 'p':
                for _ in range(self.pick([0, 1, 2, 2, 3])): args.append(self.targ('t', here))
            else:
                a = self.targ(k, here)
                if a is None: return None
                if k == 'e':
                    if t.setdefault('_enid', a['en']) != a['en']: return None
                    t['_en'] = self.byid[a['en']]['_cpp']
                args.append(a)
        if t['mixin']:
            cs = [e for e in self.ents if e['k'] == 'class' and e.get('_done') and e['cs'] != 'union' and not e['outer'] and not e['fin'] and not e['_anyanon'] and e['_dctor'] and not e['_vb'] and not e['_abs'] and e['inst'] == 1
                  and not e['_hidden'] and not any(m['vi'] and m['fi'] for m in e['meths']) and not e.get('_mixed') and e['_copyable']]
            if not cs: return None
            e = self.pick(cs)
            args = [dict(pr=e.get('_pr', e['id']), dm=e['id'], cpp=e['_cpp'], b=e['id'], f='val')]
        if not args and t['params'] != ['p']: return None
        dm = '<' + ', '.join(a['dm'] for a in args) + ('> ' if False else '>')
        dm = dm.replace('>>', '> >')
        if args and args[-1]['dm'].endswith('>'): dm = dm[:-1] + ' >' if not dm.endswith(' >') else dm
        id_ = t['gen'] + dm
        if id_ in self.byid or any(i[0]['id'] == id_ for i in t['insts']): return None
        cpp = '::' + t['gen'] + '<' + ', '.join(a['cpp'] for a in args) + '>'
        pr = t['gen'] + '<' + ', '.join(a['pr'] for a in args) + '>'
        by = self.pick(['explicit', 'explicit', 'field', 'ref'])
        if self.ch(.75) and by == 'ref': by = 'explicit'
        c = dict(k='class', id=id_, gen=t['gen'], ns=t['ns'], outer='', name=t['name'], targs=[dict(pr=a['pr'], b=a['b'], f=a['f']) for a in args], cs=t['cs'], hdr=t['hdr'], sys=t['sys'],
                 inc=int(by == 'ref'), anon=0, acc='public', fin=0, bases=[], ctors=[], meths=[], fields=[], usings=[], dt='', asg='', doc=t['doc'], str='', inst=1,
                 _cpp=cpp, _nested=[], _simple=0, _dctor=0, _istmpl=t, _by=by, _args=args, _tag=t['cs'] + ' ' + pr.replace('<', '<').strip(), _anyanon=0, _hidden='', _pr=pr, _nocopy=0, _ctorint='', _vb=0, _poly=0, _abs=False, _copyable=1,
                 _pdctor=1, _basable=False, _done=1)
        # canonical spelling prints class types with their tag inside the argument list
        def tag(a):
            if a['b'] in self.byid and a['f'] == 'val':
                e = self.byid[a['b']]
                return ('enum ' + e['id']) if e['k'] == 'enum' else e['_tag']
            return a['pr']
        c['_tag'] = t['cs'] + ' ' + t['gen'] + '<' + ', '.join(tag(a) for a in args) + '>'
        T0 = next((a for a in args), None) if t['params'][:1] == ['t'] else None
        if by == 'ref':
            return c
        def sub(x):
            if x == 'T0': return T0
            return dict(pr=x, dm=x, cpp=x, b=x, f='val')
        def mkp(x, f, nm, dv):
            a = sub(x)
            ff = f
            b = a['b']
            if a['f'] == 'ptr':
                ff = {'val': 'ptr', 'cref': 'ptrcref', 'ref': 'ptrref'}[f]
            p = dict(nm=nm, df=int(dv != 0), dv=dv, td=0, b=b, f=ff, sp='', _cpp='int' if a['f'] == 'ptr' else a['cpp'], _dx=str(dv))
            self.fillp(p)
            if ff in ('ptrcref', 'ptrref'): p['ct'] = 1; p['hv'] = 1
            p['sp'] = a['pr'] if ff == 'ptr' else spell_canonical(b, ff, tag(a)) if ff in ('val', 'cref', 'ref') else a['pr'] + {'ptrcref': 'const &', 'ptrref': '&'}[ff]
            return p
        for k in t['ctors']:
            c['ctors'].append(dict(uid=k['uid'], name=t['name'], acc='public', st=0, cn=0, vi=0, pu=0, fi=0, de=0, va=0, tm='', ne=0, ps=[mkp(*q) for q in k['ps']], r=dict(VOID), rv=0, drv='', doc=[], cp=0, mv=0, dd=0, sps=''))
        for m in t['meths']:
            if m['ret'] == 'void': rt = dict(VOID, _cpp='void')
            else:
                a = sub(m['ret'])
                rt = dict(b=a['b'], f=a['f'], sp=spell_canonical(a['b'], a['f'], tag(a) if a['f'] == 'val' else 'int'), _cpp='int' if a['f'] == 'ptr' else a['cpp'])
            c['meths'].append(dict(uid=m['uid'], name=m['name'], acc=m['acc'], st=m['st'], cn=m['cn'], vi=m['vi'], pu=0, fi=0, de=0, va=0, tm='', ne=0, ps=[mkp(*q) for q in m['ps']], r=rt, rv=0, drv='', doc=m['doc'], cp=0, mv=0, sps=''))
            # value returned by template member functions is made with vt::make
            c['meths'][-1]['rv'] = 0
        for f in t['fields']:
            a = sub(f['ty'])
            c['fields'].append(dict(name=f['name'], acc=f['acc'], b=a['b'], f=a['f'], sp='', st=0, bf=0, au=0, init=0, td=0, _cpp=''))
        if t['mixin']: c['bases'].append(dict(id=args[0]['b'], acc='public', virt=0)); self.byid[args[0]['b']]['_mixed'] = 1
        if t['base']: c['bases'].append(dict(id=t['base'], acc='public', virt=0))
        c['_poly'] = any(m['vi'] for m in c['meths']) or any(self.byid[b['id']]['_poly'] for b in c['bases'])
        c['_dctor'] = 1
        ok = all(f['b'] not in self.byid or self.byid[f['b']]['k'] == 'enum' or self.byid[f['b']]['_dctor'] for f in c['fields'])
        if not ok: return None
        c['_copyable'] = int(all(self.byid[b['id']]['_copyable'] for b in c['bases']))
        c['_simple'] = int(bool(c['_copyable']) and not c['_poly'])
        c['_basable'] = self.ch(.7)
        return c

    def reg(self, e):
        self.ents.append(e); self.byid[e['id']] = e

    # ---------------------------------------------------------------------------------------------- world
    def functions(self, slot):
        here = dict(i=slot['i'], hdr=slot['hdr'], owners=[])
        ns, name = slot['ns'], slot['name']
        anon = slot.get('anon', 0)
        if self.ch('p_fop') and not anon:
            cs = [e for e in self.ents if e['k'] == 'class' and e.get('_done') and not e['_hidden'] and not e['_anyanon'] and not e['_abs'] and not e['inc']]
            if cs:
                e = self.pick(cs)
                f = self.callable(here, self.pick(['operator+', 'operator==', 'operator<']), op=0)
                mk = lambda: dict(nm=self.name('p'), df=0, dv=0, td=0, _dx='', b=e['id'], f='cref', sp=spell_canonical(e['id'], 'cref', e['_tag']), _cpp=e['_cpp'], ct=0, hb=0, hv=0)
                f['ps'] = [mk(), mk()]
                f['r'] = dict(b='bool', f='val', sp='bool', _cpp='bool'); f['rv'] = 1
                if any(x['k'] == 'func' and x['call']['name'] == f['name'] and x['call']['ps'] and x['call']['ps'][0]['b'] == e['id'] for x in self.ents): return []
                return [self.mkfunc(slot, f)]
        f = self.callable(here, name)
        if any(p['b'] in self.byid and self.byid[p['b']]['_hidden'] for p in f['ps'] + [f['r']]): return []
        prev = [x for x in self.ents if x['k'] == 'func' and x['ns'] == ns and x['call']['name'] == name]
        if any(self.clash(x['call'], f) or x['call']['tm'] or x['anon'] != anon for x in prev): return []
        if self.ch('p_deleted'): f['de'] = 1
        elif self.ch('p_variadic') and f['ps'] and not any(p['df'] for p in f['ps']) and f['ps'][-1]['b'] in ('int', 'double', 'long') and f['ps'][-1]['f'] == 'val' and not prev: f['va'] = 1
        elif self.ch('p_ftmpl') and not prev:
            insts = self.r.sample(['int', 'double', 'long'], self.pick([0, 1, 2]))
            p0 = dict(nm='t', df=0, dv=0, td=0, _dx='', b='T', f='val', sp='T', _cpp='T', ct=1, hb=0, hv=1)
            f['ps'] = [p0] + [p for p in f['ps'][:1]]
            nd = self.ch(.3)
            if nd: del f['ps'][0]; insts = insts[:1]
            if self.ch(.5):
                for q in f['ps'][1 - nd:]: q['df'] = 0
            pat = dict(f); pat['tm'] = 'pattern'
            l = [self.mkfunc(slot, pat)]
            l[0]['_insts'] = insts
            for t in insts:
                i = dict(f); i['ps'] = [dict(p) for p in f['ps']]; i['tm'] = 'inst'; i['_targ'] = t; i['sps'] = '<' + t + '>'
                if not nd: i['ps'][0].update(b=t, sp=t, _cpp=t); self.fillp(i['ps'][0])
                l.append(self.mkfunc(slot, i))
            return l
        return [self.mkfunc(slot, f)]

    def mkfunc(self, slot, f):
        anon = slot.get('anon', 0)
        return dict(k='func', id='::'.join(slot['ns'] + [f['name']]) + '#' + f['uid'] + f['sps'], gen='::'.join(slot['ns'] + [f['name']]), ns=slot['ns'], sys=slot['sys'], anon=anon, hdr=slot['hdr'], call=f, acc='public', outer='', name=f['name'], _anyanon=anon, _hidden='',
                    _redecl=int(self.ch('p_redecl') and not f['tm'] and not f['de']), _sto=self.pick(['inline', 'inline', 'inline', 'static', 'static inline', 'inline auto', '[[maybe_unused]] inline', 'extern inline']))

    def stdtypes(self):
        if not self.p['p_std']: return
        self.stl = int(self.ch('p_stl'))
        for n, a, cs, h in self.r.sample(STD, self.r.randint(2, 5)):
            opq = int(n in STDINST or self.ch('p_opq'))
            i = 'std::%s<%s>' % (n, a)
            e = dict(k='class', id=i, gen='std::' + n, ns=['std'], outer='', name=n, targs=[dict(pr=x + 'UL' * x.isdigit() * opq, b=x, f='val') for x in a.split(', ')], cs=cs, hdr=0, sys=1, inc=1 - opq, opq=opq, anon=0, acc='public', fin=0, bases=[], ctors=[], meths=[], fields=[],
                     usings=[], dt='', asg='', doc=[], str='', inst=1, _cpp=i, _nested=[], _simple=0, _dctor=0, _istmpl=1, _by='ref', _args=[], _tag=cs + ' ' + i, _anyanon=0, _hidden='', _pr=i, _nocopy=0, _ctorint='', _vb=0, _poly=0,
                     _abs=False, _copyable=1, _pdctor=1, _basable=False, _done=1, _std=h)
            x = {'stack': 'std::deque<int>', 'queue': 'std::deque<int>', 'unique_ptr': 'std::default_delete<int>'}.get(n)      # the only ones whose default arguments are printed
            if x: e['targs'].append(dict(pr=x, b=x, f='val'))
            if '<' in a: e['_tag'] = '%s std::%s<class %s>' % (cs, n, a)
            if a == 'std::string': e['_tag'] = '%s std::%s<std::string >' % (cs, n)
            for x in e['targs']: x['pr'] = x['pr'].strip(); x['b'] = x['b'].strip()
            self.byid[i] = e
            self.stds.append(e)
        for e in self.stds:       # completes the class it is made of
            if e['opq'] and e['name'] in ('stack', 'queue') and 'std::deque<int>' in self.byid: self.byid['std::deque<int>'].update(opq=1, inc=0)

    def build(self):
        self.plan()
        self.stdtypes()
        for s in self.slots:
            if s['kind'] == 'class':
                s['cs'] = 'union' if self.ch('p_union') else self.pick(['struct', 'class'])
        pend = []       # templates with instances to make later
        for s in self.slots:
            if s['kind'] == 'class':
                c = self.cls(s['ns'], s['name'], s, anon=s.get('anon', 0), cs=s['cs'])
                if s.get('incomplete'):
                    c.update(inc=1, _done=0, _copyable=0, _abs=False, _vb=0, _poly=0, _basable=False, _pdctor=0, _nocopy=1, _ctorint='')
                    self.reg(c)
                else:
                    self.byid[c['id']] = c
                    self.ents.append(c)
                    c.update(_copyable=0, _abs=False, _vb=0, _poly=0, _basable=False, _pdctor=0, _nocopy=1, _ctorint='')
                    self.fill_class(c, s)
            elif s['kind'] == 'enum':
                self.reg(self.mkenum(s['ns'], s['name'], s, anon=s.get('anon', 0)))
            elif s['kind'] == 'func':
                for f in self.functions(s): self.reg(f)
            else:
                t = self.template(s)
                t['_at'] = len(self.ents)
                pend.append((t, s))
                self.ents.append(dict(k='template', id='template ' + t['gen'], t=t, hdr=t['hdr'], sys=t['sys'], ns=t['ns'], _anyanon=0, _hidden=''))
                self.byid['template ' + t['gen']] = self.ents[-1]
            # maybe instantiate some template here
            for (t, ts) in pend:
                if self.ch(.4) and len(t['insts']) < 3:
                    c = self.instantiate(t, s)
                    if c and c['_by'] == 'explicit' and s['sys'] != t['sys']: c = None
                    if c:
                        self.byid[c['id']] = c
                        t['insts'].append((c, s))
                        self.ents.append(dict(k='use', id='use ' + c['id'], c=c, hdr=s['hdr'], sys=s['sys'], ns=t['ns'], _anyanon=0, _hidden=''))
                        c['hdr_use'] = s['hdr']
                        if c['inc'] or c['_by'] == 'ref':
                            f = self.reffunc(c, s)
                            self.reg(f)
                        elif c['_by'] == 'explicit' and self.ch(.3): self.reg(self.reffunc(c, s))
                        elif c['_by'] == 'field':
                            h = self.cls(t['ns'], 'H' + self.name('h'), s); h['_holder'] = 1
                            self.byid[h['id']] = h
                            h.update(_copyable=c['_copyable'], _abs=False, _vb=0, _poly=0, _basable=True, _pdctor=1, _nocopy=0, _ctorint='', _done=1, _dctor=1, _simple=0)
                            h['fields'].append(dict(name=self.name('d'), acc='public', b=c['id'], f='val', sp=c['_tag'], st=0, bf=0, au=0, init=0, td=0, _cpp=c['_cpp']))
                            self.ents.append(h)
                        self.tents = getattr(self, 'tents', []) + [c]
        self.place()
        self.spellings()
        self.decorate()
        self.streams()
        self.config()
        return self.world()

    def reffunc(self, c, s):
        p = dict(nm=self.name('p'), df=0, dv=0, td=0, _dx='', b=c['id'], f=self.pick(['ref', 'cptr']), sp='', _cpp=c['_cpp'])
        self.fillp(p); p['ct'] = p['hv'] = 0
        if c['inc']: p['nm'] = ''      # using the parameter would instantiate the class
        f = dict(uid=self.newuid(), name=self.name('r'), acc='public', st=0, cn=0, vi=0, pu=0, fi=0, de=0, va=0, tm='', ne=0, ps=[p], r=dict(VOID, _cpp='void'), rv=0, drv='', doc=[], cp=0, mv=0, sps='')
        return self.mkfunc(dict(ns=c['ns'], sys=s['sys'], hdr=s['hdr']), f)

    def place(self):
        """declaration order as seen by the tool: implicit instantiations right after their template, explicit ones where they are written"""
        out = []
        for e in self.ents:
            if e['k'] == 'template':
                for (c, s) in e['t']['insts']:
                    if c['_by'] != 'explicit': out.append(c)
            elif e['k'] == 'use':
                if e['c']['_by'] == 'explicit': out.append(e['c'])
            else: out.append(e)
        self.order = out

    def spellings(self):
        """other ways to write the same declarations"""
        self.inl = {}
        def go(c):
            for m in c['meths']:
                if self.ch('p_ms'): m['_ms'] = self.pick(['out', 'out', 'trail', 'attr'])
            for t in c['ctors']:
                if self.ch('p_expl') and not t['cp'] and not t['mv'] and t['ps']: t['_expl'] = 1
            for f in c['fields']:
                if self.ch('p_mut') and f['f'] in ('val', 'ptr', 'arr') and not f['st'] and not f.get('au') and not f.get('_tdc'): f['_mut'] = 1
            if c['asg'] == 'deleted' and any(t['mv'] for t in c['ctors']) and self.ch(.6): c['_asgimpl'] = 1
            for k, n in c['_nested']:
                if k == 'class':
                    if self.ch('p_nfwd'): n['_nfwd'] = self.pick(['in', 'out', 'out'])
                    go(n)
        for e in self.ents:
            if e['k'] == 'class' and not e['inc'] and not e.get('_istmpl'):
                go(e)
                if self.ch('p_esft') and not e['dt'] and e['cs'] != 'union' and not any(self.byid[x].get('_esft') for x in self.anc(e)) and not any(d['k'] == 'class' and d['dt'] and e['id'] in self.anc(d) for d in self.ents): e['_esft'] = 1
            if e['k'] in ('class', 'enum', 'func') and self.ch('p_xc'): e['_xc'] = 1
            if not e.get('outer') and not e.get('anon') and e['k'] in ('class', 'enum', 'func', 'template'):
                k = (tuple(e['ns']), e['t']['name'] if e['k'] == 'template' else e['name'])
                if k not in self.inl: self.inl[k] = int(self.ch('p_inl'))
                if self.inl[k]: e['_inl'] = 1

    def decorate(self):
        """declarations that are no entities: nothing may ever be registered for them"""
        self.decor = []
        for e in self.ents:
            if e['k'] == 'class' and not e['inc'] and not e.get('_std') and self.ch(self.p['p_decor'] * .5):
                e['_decor'] = []
                for i in range(self.pick([1, 1, 2])):
                    n = self.name('z')
                    e['_decor'].append(self.pick(['friend class %(n)s;', 'public: static constexpr int %(n)s = 3;', 'public: using %(n)s = int;', 'public: typedef int %(n)s[3];', 'public: template <class Q> struct %(n)s { Q q; void m() {} };',
                                                  'public: template <class Q> void %(n)s(Q) {}', 'friend int %(n)s(%(c)s const &) { return 1; }', 'friend int %(n)s(%(c)s *, int = 3) { return 1; }', 'static_assert(true, "");', 'public: static int %(n)s;',
                                                  'public: struct %(n)s;', 'template <class Q> friend int %(n)s(%(c)s &, Q) { return 1; }', 'public: template <class Q> using %(n)s = Q *;',
                                                  'private: struct %(n)s { int a; void m() {} };', 'protected: enum %(n)s { %(n)s_a };', 'public: template <class Q, class R> static Q %(n)s(R) { return Q(); }', 'friend int %(n)s(int, %(c)s const &);'])
                                       % dict(n=n, c=e['name']))
        if not self.ch('p_decor'): return
        for i in range(self.pick([1, 2, 3, 4])):
            n = self.name('z')
            s = self.pick(self.slots)
            t = self.pick(['typedef struct { int a; } %(n)s;', 'typedef enum { %(n)s_a } %(n)s;', 'typedef union { int a; double b; } %(n)s;', 'template <class Q> struct %(n)s { Q q; void m() {} enum E { a }; struct N {}; };',
                           'template <class Q> inline Q %(n)s(Q q) { return q; }', 'extern int %(n)s;', 'const int %(n)s = 3;', 'inline int %(n)s = 3;', 'typedef int (*%(n)s)(int);', 'typedef int %(n)s(int);', 'static_assert(true, "");', 'struct %(n)s;', 'enum { %(n)s };',
                           'template <class Q> constexpr Q %(n)s = Q();', 'template <class Q> using %(n)s = Q *;', 'namespace { inline int %(n)s() { struct L { int a; void m() {} }; enum LE { le }; auto f = [](int x) { return x; }; L l; return f(l.a + le); } }',
                           'template <class Q> inline int %(n)s(Q const &) { return 1; } namespace { inline int %(n)sb() { struct L { int a; }; enum LE { le }; auto f = [](int x) { return x; }; return %(n)s(L()) + %(n)s(le) + %(n)s(f); } }',
                           'template <class Q> struct %(n)s { %(n)s(Q) {} }; template <class I> %(n)s(I, I) -> %(n)s<I>; template <class Q> struct %(n)s<Q *> { Q *p; };', 'namespace %(n)s {}', 'namespace %(n)s = vt;', 'using vt::any;', 'namespace { struct %(n)s { int a; }; enum %(n)sb { %(n)sc }; }',
                           'namespace { template <class Q> struct %(n)s { Q q; }; inline void %(n)sb(%(n)s<int> const &x) { (void)x.q; } }', '#define %(n)s(x) x', 'static int %(n)s(int) = delete;', 'class %(n)s; class %(n)s;'])
            self.decor.append((s['hdr'], s['ns'], t % dict(n=n)))

    def streams(self):
        """operator<< for some classes"""
        self.ostreams = []
        if not self.p['p_str']: return
        for e in self.order:
            if e['k'] == 'class' and e.get('_done') and not e['_hidden'] and not e['_anyanon'] and not e['inc'] and self.ch('p_str'):
                u = self.newuid()
                kind = self.pick(['own', 'own', 'global', 'other', 'wrong', 'friend', 'friend'])
                if e.get('_istmpl'): kind = self.pick(['own', 'tmpl'])
                if e.get('_istmpl') and any(o['kind'] == 'tmpl' and o['gen'] == e['gen'] for o in self.ostreams):
                    e['str'] = next(o['uid'] for o in self.ostreams if o['kind'] == 'tmpl' and o['gen'] == e['gen']); continue
                if kind == 'tmpl' and (set(e['_istmpl']['params']) != {'t'}): kind = 'own'
                if kind != 'wrong': e['str'] = u
                if kind == 'friend':
                    e.setdefault('_decor', []).append('friend std::ostream & operator<<(std::ostream &o, %s const &) { o << "%s"; return o; }' % (e['name'], u))
                    continue
                self.ostreams.append(dict(cls=e['id'], cpp=e['_cpp'], uid=u, kind=kind, gen=e['gen'], ns=e['ns'], hdr=e.get('hdr_use', e['hdr']), nt=len(e['targs'])))
        # a template operator<< serves every instance of that template
        for o in self.ostreams:
            if o['kind'] == 'tmpl':
                for e in self.order:
                    if e['k'] == 'class' and e['gen'] == o['gen'] and not e['str']: e['str'] = o['uid']

    def nsrule(self, ns):
        return '::'.join(ns)

    def config(self):
        r = self.r
        o = dict(bind=[], skip=[], flat=0, single=0, maxsize=-1, stl=0, bcts=1, trace=0, annf=0, anni=0, skipln=0, verbose=0, suppress=0)
        dirs = []
        ents = [e for e in self.order]
        nss = [e['ns'] for e in ents if not e.get('sys')] or [['a']]
        allns = []
        for n in nss:
            for i in range(len(n)): allns.append(n[:i + 1])
        allns = allns or [['a']]
        def addrule(sign, ns):
            if ns and self.ch('p_cfgns'): dirs.append(dict(s=sign, t='namespace', a=['::'.join(ns)], ns=ns))
            else: o['bind' if sign == '+' else 'skip'].append(ns)
        if self.ch('p_all'): addrule('+', [])
        if self.ch('p_rules') or not (o['bind'] or dirs):
            k = self.rng('n_rules')
            for i in range(k):
                ns = self.pick(allns)
                addrule('+' if i == 0 or r.random() < .55 else '-', ns)
        # drop contradictions most of the time
        if r.random() < .9:
            b = [tuple(n) for n in o['bind']] + [tuple(d['ns']) for d in dirs if d['s'] == '+']
            o['skip'] = [n for n in o['skip'] if tuple(n) not in b]
            dirs = [d for d in dirs if d['s'] == '+' or tuple(d['ns']) not in b]
        # explicit directives
        for i in range(self.rng('n_dirs')):
            k = self.pick(self.p['dirkinds'])
            d = self.directive(k)
            if d: dirs += d if isinstance(d, list) else [d]
        self.dirs, self.opt = dirs, o
        # layout
        if self.ch('p_single'): o['single'] = 1
        if self.ch('p_flat'): o['flat'] = 1
        if self.ch('p_small'): o['maxsize'] = self.pick([0, 1, 1, 200, 500, 1500, 4000])
        if self.ch('p_bcts'): o['bcts'] = 0
        if self.ch('p_noise'):
            for k in ('trace', 'annf', 'anni', 'skipln', 'verbose', 'suppress'): o[k] = int(r.random() < .5)
        self.settings()
        r.shuffle(self.dirs)

    def directive(self, k):
        r = self.r
        sign = self.pick(['+', '-', '-'])
        if k == 'class':
            c = [e for e in self.order if e['k'] == 'class' and not e['_anyanon'] and not e['_hidden']]
            if not c: return None
            e = self.pick(c)
            full = e.get('_pr', e['id']).replace(', ', ',').replace(' ', '')
            if e['id'] == e['gen'] or any(a['b'] in self.byid and self.byid[a['b']].get('_istmpl') for a in e['targs']): full = ''
            def cdir(s, n): return dict(s=s, t='class', a=[n.replace(' ', '')], ns=[])
            if full and r.random() < .3: return [cdir(sign, e['gen']), cdir('+' if sign == '-' else '-', full)]
            return cdir(sign, self.pick([e['gen'], full]) if full else e['gen'])
        if k == 'enum':
            c = [e for e in self.order if e['k'] == 'enum' and e['name'] and not e['_anyanon'] and not e['_hidden']]
            if not c: return None
            return dict(s=sign, t='enum', a=[self.pick(c)['id']], ns=[])
        if k == 'field':
            c = [(e, f) for e in self.order if e['k'] == 'class' and not e['_anyanon'] for f in e['fields']]
            if not c: return None
            e, f = self.pick(c)
            return dict(s='-', t='field', a=[e['gen'] + '::' + f['name']] if not e['targs'] else [e['gen'] + '::' + f['name']], ns=[])
        if k == 'str':
            c = [e for e in self.order if e['k'] == 'class' and e['str']]
            if not c: return None
            return dict(s='-', t='function', a=[self.pick(c)['gen'] + '::__str__'], ns=[])
        # function
        c = [(e, e['call'], e['gen'], '') for e in self.order if e['k'] == 'func' and not e['anon'] and not e['call']['name'].startswith('operator')]
        c += [(e, m, e['gen'] + '::' + m['name'], e['id']) for e in self.order if e['k'] == 'class' and not e['_anyanon'] and not e['_hidden'] for m in e['meths'] if not m['name'].startswith('operator ')]
        c += [(e, m, e['gen'] + '::' + m['name'], e['id']) for e in self.order if e['k'] == 'class' and not e['_anyanon'] and not e['_hidden'] and not e['outer'] for m in e['ctors'] if self.ch(.3)]
        if not c: return None
        e, m, q, own = self.pick(c)
        def fdir(s, n): return dict(s=s, t='function', a=[n.replace(' ', '')], ns=[])
        full = '' if any(not p['sp'] for p in m['ps']) or e['k'] == 'class' and e['targs'] else q + m['sps'] + '(' + ','.join(p['sp'] for p in m['ps']) + ')' + ('const' if m['cn'] else '')
        if full and r.random() < .35: # both spellings, of which the complete one counts
            return [fdir(sign, q), fdir('+' if sign == '-' else '-', full)]
        if r.random() < .5 or not full: return fdir('-' if e['k'] == 'class' and e['targs'] and r.random() < .5 else sign, q)
        return fdir(sign, full)

    def settings(self):
        r, dirs = self.r, self.dirs
        cls = [e for e in self.order if e['k'] == 'class' and not e['_anyanon'] and not e['_hidden']]
        pol = ['automatic', 'automatic_reference', 'take_ownership', 'copy', 'move', 'reference', 'reference_internal']
        if self.ch('p_policy'):
            for k in ('static_pointer', 'static_lvalue_reference', 'static_rvalue_reference', 'member_pointer', 'member_lvalue_reference', 'member_rvalue_reference'):
                if r.random() < .6: dirs.append(dict(s='+', t='default_%s_return_value_policy' % k, a=['pybind11::return_value_policy::' + self.pick(pol)], ns=[]))
        if self.ch('p_guard'): dirs.append(dict(s='+', t='default_call_guard', a=['pybind11::gil_scoped_release'], ns=[]))
        if self.ch('p_prefix'): dirs.append(dict(s='+', t='prefix_for_static_member_functions', a=['s_'], ns=[]))
        self.holder = 0
        if self.ch('p_holder'):
            dirs.append(dict(s='+', t='custom_shared', a=['vth::holder'], ns=[])); dirs.append(dict(s='+', t='include', a=['<vt_holder.hpp>'], ns=[])); self.holder = 1
        if self.ch('p_modloc'):
            nss = sorted(set('::'.join(e['ns']) for e in self.order if e['ns'])) or ['a']
            if r.random() < .5:
                dirs.append(dict(s='+', t='module_local_namespace', a=['@all_namespaces'], ns=[]))
                if r.random() < .6: dirs.append(dict(s='-', t='module_local_namespace', a=[self.pick(nss)], ns=[]))
            else: dirs.append(dict(s='+', t='module_local_namespace', a=[self.pick(nss)], ns=[]))
        for kind, t in (('p_buffer', 'buffer_protocol'), ('p_smart', 'smart_holder')):
            if cls and self.ch(kind):
                e = self.pick(cls)
                dirs.append(dict(s='+', t=t, a=[e['gen']], ns=[]))
        if self.ch('p_builtin') and cls:
            for i in range(self.pick([1, 1, 2, 3])):
                e = self.pick([c for c in cls if not c['outer']])
                dirs.append(dict(s=self.pick(['+', '+', '+', '-']), t='python_builtin', a=[e['gen']], ns=[]))
        if self.stds:
            self.opt['stl'] = self.stl
            for i in range(self.pick([0, 1, 2, 3])):
                e = self.pick(self.stds)
                if e['name'] in STDINST + ('function',): continue
                dirs.append(dict(s=self.pick(['+', '-', '-']), t='python_builtin', a=[e['gen']], ns=[]))
            if r.random() < .1 and not self.p['p_string']: dirs.append(dict(s='-', t='namespace', a=['std'], ns=['std']))
        if self.ch('p_cb'): self.custombinders(cls)
        if self.ch('p_ctramp'):
            c = [(e, m) for e in cls if not e['targs'] for m in e['meths'] if m['vi'] and not m['name'].startswith('operator') and m['r']['f'] == 'val' and m['r']['b'] in ('int', 'double', 'long', 'bool')]
            odd = set(m['name'] for e in self.order if e['k'] == 'class' for m in e['meths'] if m['vi'] and not (m['r']['f'] == 'val' and m['r']['b'] in ('int', 'double', 'long', 'bool')))
            c = [(e, m) for e, m in c if m['name'] not in odd]
            if c:
                e, m = self.pick(c)
                dirs.append(dict(s='+', t='trampoline_member_function_binder', a=[e['gen'] + '::' + m['name'], 'vtcb::tramp'], ns=[]))
                dirs.append(dict(s='+', t='include', a=['<vt_tramp.hpp>'], ns=[]))
        if self.ch('p_incl'):
            if r.random() < .6: dirs.append(dict(s='+', t='include', a=['<vt_inc1.hpp>'], ns=[]))
            if cls and r.random() < .6: dirs.append(dict(s='+', t='include_for_class', a=[self.pick(cls)['gen'], '<vt_inc2.hpp>'], ns=[]))
            nss = sorted(set('::'.join(e['ns']) for e in self.order if e['ns']))
            if nss and r.random() < .6: dirs.append(dict(s='+', t='include_for_namespace', a=[self.pick(nss), '<vt_inc3.hpp>'], ns=[]))
            if r.random() < .4: dirs.append(dict(s='-', t='include', a=['<sstream>'], ns=[]))

    def custombinders(self, cls):
        r, dirs = self.r, self.dirs
        dirs.append(dict(s='+', t='include', a=['<vt_cb.hpp>'], ns=[]))
        top = [c for c in cls if not c['outer']]
        n = 0
        done = set()
        for i in range(self.pick([1, 2, 3])):
            k = self.pick(['binder', 'add_on_binder', 'binder_for_namespace', 'add_on_binder_for_namespace'])
            if k in ('binder', 'add_on_binder') and top:
                e = self.pick(top)
                if (k, e['gen']) in done: continue
                if e['targs'] and k == 'binder' and any(not a['b'] for a in e['targs']): continue
                if e.get('_istmpl') and 'p' in e['_istmpl']['params']: continue
                done.add((k, e['gen']))
                f = ('vtcb::cls_t' if e['targs'] else 'vtcb::cls') if k == 'binder' else 'vtcb::addon'
                dirs.append(dict(s='+', t=k, a=[e['gen'], f], ns=[]))
            elif k not in ('binder', 'add_on_binder'):
                nss = sorted(set('::'.join(e['ns']) for e in self.order if e['ns']))
                if not nss: continue
                x = self.pick(nss)
                if (k, x) in done: continue
                done.add((k, x))
                dirs.append(dict(s='+', t=k, a=[x, 'vtcb::ns' if k == 'binder_for_namespace' else 'vtcb::nsadd'], ns=[]))

    def world(self):
        return dict(profile=self.profile, opt=dict(self.opt, ndecor=len(self.decor)), dirs=self.dirs, ents=self.stds + self.order, _ents=self.ents, headers=self.headers, _ost=self.ostreams, _slots=self.slots, _byid=self.byid, _holder=self.holder, _decor=self.decor)


ONE = ('namespace', 'class', 'enum', 'function', 'field', 'python_builtin', 'include', 'buffer_protocol', 'module_local_namespace', 'smart_holder', 'custom_shared', 'pybind11_include_file', 'default_call_guard', 'prefix_for_static_member_functions')
TWO = ('binder', 'add_on_binder', 'binder_for_namespace', 'add_on_binder_for_namespace', 'include_for_class', 'include_for_namespace', 'trampoline_member_function_binder')
BADLINES = ['namespace x', ' +namespace x', '+namespace', '-class', '+namespace\tx', '+class\tx', '+nonsense x', '-nonsense x', '+ namespace x', '- class x', '*class x', '+Class x', '+classs x', '+clas x', '+namespaces x', '+', '-', '=class x',
            '-include_for_class x <y.h>', '-include_for_namespace x <y.h>', '+binder x', '+add_on_binder x', '+binder_for_namespace x', '+add_on_binder_for_namespace x', '+include_for_class x', '+include_for_namespace x',
            '+trampoline_member_function_binder x', '+binder\tx f', ' ', '   ', '\t', ' # comment', '; comment', '// comment', '+default_pointer_return_value_policy x', '+custom_share x', '++class x', '+-class x', '+include_for_class', '+enum', '+function', '\\', '\x0c']


def plain(dirs):
    """the config file as one would write it"""
    return '\n'.join([x['s'] + x['t'] + (' ' + ' '.join(x['a'])).rstrip() for x in dirs] or ['# nothing']) + '\n'


def cfgtext(w):
    return w['_cfg'] if '_cfg' in w else plain(w['dirs'])


def noisy(r, dirs, names):
    """a config file that means the same as these directives, written in an odd way; or an invalid one"""
    multi = ('namespace', 'class', 'enum', 'function', 'field', 'python_builtin', 'include', 'buffer_protocol', 'module_local_namespace', 'smart_holder', 'include_for_class', 'include_for_namespace')
    dirs = list(dirs)
    # repeated and overridden lines
    for d in list(dirs):
        if r.random() < .25:
            i = dirs.index(d)
            if d['t'] in multi: dirs.insert(r.randrange(len(dirs) + 1), d)
            elif d['t'].endswith('return_value_policy'): dirs.insert(r.randrange(i + 1), dict(d, s=r.choice('+-'), a=['pybind11::return_value_policy::' + r.choice(['automatic', 'copy', 'reference', 'move'])]))
            elif d['t'] == 'default_call_guard': dirs.insert(r.randrange(i + 1), dict(d, s=r.choice('+-'), a=['no::such_guard']))
            elif d['t'] == 'prefix_for_static_member_functions': dirs.insert(r.randrange(i + 1), dict(d, s=r.choice('+-'), a=['zz_']))
            elif d['t'] == 'custom_shared': dirs.insert(r.randrange(i + 1), dict(d, s=r.choice('+-'), a=['no::such_holder']))
            elif d['t'] in TWO: dirs.insert(r.randrange(i + 1), dict(d, a=[d['a'][0], 'no::such_function']))
    if r.random() < .4:
        dirs.insert(r.randrange(len(dirs) + 1), dict(s='+', t='pybind11_include_file', a=[r.choice(['vt_pyb.hpp', 'vt_dir/pyb.hpp'])], ns=[]))
    lines = []
    def blanks(a):
        return ''.join(c + (' ' * r.choice([1, 1, 2]) if r.random() < .12 else '') for c in a)
    for d in dirs:
        if d['t'] in TWO:
            l = d['s'] + d['t'] + ' ' + d['a'][0] + r.choice(' \t') + d['a'][1]
            if d['t'] in TWO[:4] and r.random() < .4: l = d['s'] + d['t'] + ' ' + d['a'][0] + r.choice([' ', '  ', ' \t', '\t', '\t\t', '\t ']) + d['a'][1] + r.choice(['', ' ', '\t', '  '])
        else: l = d['s'] + d['t'] + ' ' + (r.choice(['', '', ' ', '  ']) + blanks(d['a'][0]) + r.choice(['', '', ' ', '  ']) if r.random() < .6 else d['a'][0])
        lines.append(l)
    def put(l): lines.insert(r.randrange(len(lines) + 1), l)
    for i in range(r.choice([0, 1, 2, 4])):
        n = r.choice(names) if names else 'a'
        put(r.choice(['', '', '#', '# comment', '#+namespace ' + n, '#-class ' + n, '# -function ' + n, '##', '#\t', '#no', '# \u00e4 \u4e16']))
    for i in range(r.choice([0, 0, 1])):
        n = r.choice(names) if names else 'a'
        put(r.choice(['-binder %s no::f', '-add_on_binder %s no::f', '-trampoline_member_function_binder %s no::f', '-binder_for_namespace %s no::f', '-add_on_binder_for_namespace %s no::f', '+class no::such::%s', '-class no::such::%s', '+function no::%s(int,double)',
                      '-enum no::%s', '-field no::%s', '+python_builtin no::%s', '-namespace no::%s', '+namespace no::%s', '+module_local_namespace no::%s']) % n)
    bad = r.random() < .25
    if bad: put(r.choice(BADLINES))
    crlf = r.choice([0, 0, 1, .5])
    t = ''
    for i, l in enumerate(lines):
        t += l + ('\r\n' if r.random() < crlf else '\n')
    if r.random() < .3 and t.endswith('\n'): t = t[:-1]
    return t


def vbclasses(w):
    """demangled names of classes that can not be used as zero filled storage: they have virtual bases, or members that do"""
    by = w['_byid']
    memo = {}
    def bad(i):
        if i in memo: return memo[i]
        memo[i] = False
        e = by.get(i)
        if not e or e['k'] != 'class': return False
        r = any(b['virt'] or bad(b['id']) for b in e['bases']) or any(f['f'] in ('val', 'cval') and bad(f['b']) for f in e['fields'])
        memo[i] = r
        return r
    return [i for i in by if bad(i)]


def strip(x):
    """JSON view for the specification"""
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if not k.startswith('_')}
    if isinstance(x, (list, tuple)): return [strip(v) for v in x]
    if isinstance(x, bool): return int(x)
    return x


def make(seed, profile):
    if profile.startswith('shape-'):
        import shapes
        return shapes.MAKE[profile](seed)
    w = Gen(seed, profile).build()
    if profile == 'config':
        w['_cfg'] = noisy(random.Random('cfg/%d' % seed), w['dirs'], [e['gen'] for e in w['ents'] if e.get('gen')])
    return w
