"""Small inputs enumerated completely: every set of namespace rules over a tree of namespaces, every inheritance graph, every order of a chain of
references, every set of namespaces with content. TLC explores the Generator on them (all orders), and the real tool runs on them."""
import itertools, random
import world
from world import Gen, VOID, spell_canonical

# namespaces whose names are prefixes of each other, nested and not
RNS = [[], ['a'], ['a', 'b'], ['a', 'b', 'c'], ['a', 'bb'], ['ab']]
TNS = [[], ['a'], ['a', 'b'], ['a', 'b', 'c'], ['a', 'b', 'c', 'd'], ['a', 'x'], ['e']]


class Shape(Gen):
    decor = ()
    def __init__(self, profile, index):
        Gen.__init__(self, index, 'general')
        self.profile = profile
        self.p = {k: (0 if not isinstance(v, (tuple, list)) else (0, 0) if isinstance(v, tuple) else v) for k, v in self.p.items()}
        self.slots, self.headers, self.ostreams, self.holder = [], [dict(name='h0.hpp', sys=0)], [], 0
        self.opt = dict(bind=[], skip=[], flat=0, single=0, maxsize=-1, stl=0, bcts=1, trace=0, annf=0, anni=0, skipln=0, verbose=0, suppress=0)
        self.dirs = []

    def slot(self, kind, ns, name, hdr=0):
        s = dict(kind=kind, ns=ns, name=name, hdr=hdr, sys=0, i=len(self.slots), id='::'.join(ns + [name]), cs='struct')
        self.slots.append(s)
        return s

    def arg(self, cid, f='ptr'):
        cpp, tag = '::' + cid, 'struct ' + cid
        p = dict(nm=self.name('p'), df=0, dv=0, td=0, _dx='', b=cid, f=f, sp=spell_canonical(cid, f, tag), _cpp=cpp)
        self.fillp(p); p['ct'] = p['hv'] = 0
        return p

    def call(self, name, ps):
        return dict(uid=self.newuid(), name=name, acc='public', st=0, cn=0, vi=0, pu=0, fi=0, de=0, va=0, tm='', ne=0, ps=ps, r=dict(VOID, _cpp='void'), rv=0, drv='', doc=[], cp=0, mv=0, sps='')

    def func(self, ns, name, ps=(), hdr=0):
        s = self.slot('func', ns, name, hdr)
        f = self.mkfunc(s, self.call(name, list(ps)))
        self.reg(f)
        return f

    def klass(self, ns, name, bases=(), meths=(), hdr=0, slot=None):
        s = slot or self.slot('class', ns, name, hdr)
        c = self.cls(ns, name, s, cs='struct')
        c.update(bases=[dict(id=b, acc='public', virt=0) for b in bases], meths=list(meths), _copyable=1, _abs=False, _vb=0, _poly=0, _basable=True, _pdctor=1, _nocopy=0, _ctorint='', _done=1, _dctor=1, _simple=1, _nddef=False, _fixedctors=0)
        self.reg(c)
        return c

    def tmpl(self, ns, name):
        s = self.slot('tmpl', ns, name)
        t = dict(name=name, ns=ns, gen='::'.join(ns + [name]), params=['t'], meths=[], fields=[], ctors=[], hdr=0, sys=0, doc=[], cs='struct', mixin=1, base='', insts=[], _at=len(self.ents))
        self.ents.append(dict(k='template', id='template ' + t['gen'], t=t, hdr=0, sys=0, ns=ns, _anyanon=0, _hidden=''))
        self.byid['template ' + t['gen']] = self.ents[-1]
        return t, s

    def finish(self):
        self.place()
        return self.world()


def rules_count(): return 3 ** len(RNS)


def rules(i):
    """every namespace has a bind rule, a skip rule or none; the rules come from the command line and from the file"""
    g = Shape('shape-rules', i)
    for n, ns in enumerate(RNS): g.func(ns, 'f%d' % n)
    r = random.Random(i)
    pos = list(range(len(RNS))); r.shuffle(pos)
    conflict = r.random() < .1
    for n in pos:
        k = i // 3 ** n % 3
        if not k: continue
        for s in {1: '+', 2: '-'}[k] if not (conflict and RNS[n]) else '+-':
            if r.random() < .5 or not RNS[n]:
                if s == '-' and not RNS[n]: continue           # --skip= with an empty path has no meaning
                g.opt['bind' if s == '+' else 'skip'].append(RNS[n])
            else: g.dirs.append(dict(s=s, t='namespace', a=['::'.join(RNS[n])], ns=RNS[n]))
        conflict = False if r.random() < .5 else conflict
    r.shuffle(g.dirs)
    return g.finish()


def graphs():
    """for each class its (kind, bases): plain classes with up to two bases, mixins over one"""
    def choices(n):
        r = [('plain', ())] + [('plain', (a,)) for a in range(n)] + [('plain', (a, b)) for a in range(n) for b in range(n) if a != b] + [('mixin', (a,)) for a in range(n)]
        return r
    out = []
    def anc(g, i):
        s = {i}
        for b in g[i][1]: s |= anc(g, b)
        return s
    def go(g):
        if len(g) == 4: out.append(tuple(g)); return
        for c in choices(len(g)):
            if len(c[1]) == 2 and anc(g, c[1][0]) & anc(g, c[1][1]): continue          # ambiguous bases are another subject
            go(g + [c])
    go([('plain', ())])
    return [g for g in out if any(x[1] for x in g)]


GRAPHS = None


def inherit_count():
    global GRAPHS
    if GRAPHS is None: GRAPHS = graphs()
    return 2 * len(GRAPHS)


def inherit(i):
    """all inheritance graphs on four classes; templates are declared first and instantiated implicitly or explicitly"""
    n = inherit_count() // 2
    gr, by = GRAPHS[i % n], ['field', 'explicit'][i // n]
    g = Shape('shape-inherit', i)
    ts = {k: g.tmpl(['n'], 'T%d' % k) for k, x in enumerate(gr) if x[0] == 'mixin'}
    ids = {}
    for k, (kind, bs) in enumerate(gr):
        if kind == 'plain':
            c = g.klass(['n'], 'C%d' % k, [ids[b] for b in bs]); ids[k] = c['id']
        else:
            t, s = ts[k]
            s2 = g.slot('use', ['n'], 'use%d' % k)
            b = g.byid[ids[bs[0]]]
            want = [b, by]
            b['_mixed'] = 0
            def pick(l):
                for w in want:
                    if any(w is x or (isinstance(w, str) and w == x) for x in l): return w
                return l[0]
            g.pick = pick
            g.ch = lambda k: False
            extra = not any(x is b for x in g.ents)        # an instance itself
            if extra: g.ents.append(b)
            c = g.instantiate(t, s2)
            if extra: g.ents.remove(b)
            if not c: raise Exception('no instance')
            c['_basable'] = True
            g.byid[c['id']] = c; ids[k] = c['id']
            t['insts'].append((c, s2))
            g.ents.append(dict(k='use', id='use ' + c['id'], c=c, hdr=0, sys=0, ns=['n'], _anyanon=0, _hidden=''))
            c['hdr_use'] = 0
            if by == 'field':
                h = g.cls(['n'], 'H%d' % k, s2, cs='struct'); h['_holder'] = 1
                g.byid[h['id']] = h
                h.update(_copyable=1, _abs=False, _vb=0, _poly=0, _basable=True, _pdctor=1, _nocopy=0, _ctorint='', _done=1, _dctor=1, _simple=0)
                h['fields'].append(dict(name=g.name('d'), acc='public', b=c['id'], f='val', sp=c['_tag'], st=0, bf=0, au=0, init=0, td=0, _cpp=c['_cpp']))
                g.ents.append(h)
    g.opt['bind'] = [['n']]
    if i % 3 == 0: g.opt['maxsize'] = 1
    return g.finish()


def chain_count(): return 24 * 6 + 120


def chain(i):
    """a function that is requested mentions a class, whose method mentions the next, ...: in every order of declaration (four classes, and longer ones
    backwards, forwards and mixed), ending openly or in a circle, each class in a namespace of its own that no rule mentions"""
    r = random.Random(i)
    if i < 144: n, order, var = 4, list(itertools.permutations(range(4)))[i % 24], i // 24
    else:
        n, var = r.choice([6, 9, 12, 16]), r.randrange(6)
        order = list(range(n))
        k = (i - 144) % 4
        if k == 0: order.reverse()
        elif k == 1: r.shuffle(order)
        elif k == 2: order = order[::2] + order[1::2][::-1]
    g = Shape('shape-chain', i)
    cyc, same, by = var % 2, var // 2 % 3 == 1, var // 2 % 3 == 2
    ns = (lambda k: ['m']) if same else (lambda k: ['m%d' % k])
    ident = lambda k: '::'.join(ns(k) + ['K%d' % k])
    first = i % 2
    if first: g.func(['r'], 'start', [g.arg(ident(0))])
    for k in order:
        nxt = k + 1 if k + 1 < n else 0 if cyc else None
        ms = [g.call('go%d' % k, [g.arg(ident(nxt), r.choice(['ptr', 'cref', 'ref', 'cptr']))])] if nxt is not None else []
        if by and ms: ms[0].update(r=dict(b=ident(nxt), f='ptr', sp='struct %s *' % ident(nxt), _cpp='::' + ident(nxt)), ps=[])
        g.klass(ns(k), 'K%d' % k, meths=ms)
    g.klass(['m'], 'Unrelated')
    if not first: g.func(['r'], 'start', [g.arg(ident(0))])
    g.opt['bind'] = [['r']]
    return g.finish()


def tree_count(): return 2 ** len(TNS) * 2


def tree(i):
    """every set of namespaces with content in a tree of namespaces"""
    g = Shape('shape-tree', i)
    k, var = i % 2 ** len(TNS), i // 2 ** len(TNS)
    r = random.Random(i)
    use = [ns for n, ns in enumerate(TNS) if k >> n & 1]
    r.shuffle(use)
    for ns in use:
        if r.random() < .5: g.func(ns, 'f')
        else: g.klass(ns, 'GK' if not ns else 'K')
    if not use: g.func(['q'], 'f')
    g.opt['bind'] = [[]] if use else [['no']]
    if var: g.opt['maxsize'] = 1
    return g.finish()


COUNT = {'shape-rules': rules_count, 'shape-inherit': inherit_count, 'shape-chain': chain_count, 'shape-tree': tree_count}
MAKE = {'shape-rules': rules, 'shape-inherit': inherit, 'shape-chain': chain, 'shape-tree': tree}
