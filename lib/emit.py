"""Turns a world (world.py) into real files: headers, the input file, the config file and the command line of the tool."""
import os
import world

CT = {'val': '%s %s', 'cval': '%s const %s', 'ref': '%s & %s', 'cref': '%s const & %s', 'ptr': '%s * %s', 'cptr': '%s const * %s', 'rref': '%s && %s', 'pp': '%s ** %s',
      'arr': '%s %s[3]', 'fptr': 'int (*%s)(%s)', 'ptrcref': '%s * const & %s', 'ptrref': '%s * & %s', 'mptr': 'int %s::*%s'}


def ctype(cpp, f, nm=''):
    if f == 'fptr': return 'int (*%s)(%s)' % (nm, cpp)
    if f == 'fref': return 'int (&%s)(%s)' % (nm, cpp)
    return (CT[f] % (cpp, nm)).strip()


class Emit:
    def __init__(self, w):
        self.w = w
        self.byid = w['_byid']
        self.td = 0
        self.out = {}

    # ------------------------------------------------------------------------------------------------ callables
    def params(self, c, defaults=True, tdout=None):
        l = []
        for p in c['ps']:
            cpp = p['_cpp']
            if p['td'] and tdout is not None:
                self.td += 1
                n = 'td%d' % self.td
                tdout.append('typedef %s;' % ctype(cpp, p['f'], n))
                p['_tdn'] = n
            s = (p['_tdn'] + ' ' + p['nm']).strip() if p.get('_tdn') and p['td'] else ctype(cpp, p['f'], p['nm'])
            if defaults and p['df']: s += ' = ' + p['_dx']
            l.append(s)
        if c['va']: l.append('...')
        return ', '.join(l)

    def hit(self, c, extra=''):
        a = ['"%s"' % c['uid']] + [p['nm'] for p in c['ps'] if p['nm'] and p['f'] not in ('rref', 'pp', 'arr', 'fptr', 'fref', 'mptr')]
        return 'vt::hit(%s);' % ', '.join(a)

    def rtype(self, r):
        if r['b'] == 'void': return 'void'
        return ctype(r['_cpp'], r['f'])

    def ret(self, c):
        r = c['r']
        b, f = r['b'], r['f']
        e = self.byid.get(b)
        if b == 'void': return ''
        if e is not None and e['k'] == 'class':
            x = '*static_cast<%s *>(vt::any())' % r['_cpp']
            if f in ('ptr', 'cptr'): x = 'static_cast<%s *>(vt::any())' % r['_cpp']
            return ' return %s;' % x
        if e is not None: return ' return static_cast<%s>(0);' % r['_cpp']
        if b == 'std::string': return ' return std::string("s7");'
        if f == 'val': return ' return %s;' % (c['rv'] if b != 'bool' else 'true')
        if f == 'ref': return ' static %s s; return s;' % b
        if f == 'ptr': return ' static %s s; return &s;' % b
        if f == 'rref': return ' static %s s; return static_cast<%s &&>(s);' % (b, b)
        if f == 'pp': return ' static %s *s; return &s;' % b
        raise Exception(f)

    def doc(self, lines, ind):
        if not lines: return []
        return [ind + '/// ' + x if x else ind + '///' for x in lines]

    # ------------------------------------------------------------------------------------------------ classes
    def method(self, m, ind, cls=None):
        o, td = [], []
        ps = self.params(m, True, td)
        for t in td: o.append('%spublic: %s' % (ind, t))
        o += self.doc(m['doc'], ind)
        pre = ('static ' if m['st'] else '') + ('virtual ' if m['vi'] else '')
        tm = 'template <class T> ' if m['tm'] == 'pattern' else ''
        post = (' const' if m['cn'] else '') + (' ' + m['rq'] if m.get('rq') else '') + (m.get('_nes') or (' noexcept' if m['ne'] else '')) + (' override' if m.get('_ov') and m['vi'] else '') + (' final' if m['fi'] else '')
        rt = '' if m.get('conv') else self.rtype(m['r']) + ' '
        ms = m.get('_ms', '') if not (tm or m.get('conv') or m['drv'] or m['tm']) else ''
        if ms == 'attr': pre = '[[maybe_unused]] ' + pre
        if ms == 'trail':
            k = post.find(' override') if ' override' in post else post.find(' final') if ' final' in post else len(post)
            h = '%s%s: %sauto %s(%s)%s -> %s%s' % (ind, m['acc'], pre, m['name'], ps, post[:k], rt.strip(), post[k:])
        else: h = '%s%s: %s%s%s%s(%s)%s' % (ind, m['acc'], tm, pre, rt, m['name'], ps, post)
        if ms == 'out' and cls is not None and not m['pu'] and not m['de']:
            d = dict(m); d['ps'] = [dict(p) for p in m['ps']]
            k = post.find(' override') if ' override' in post else post.find(' final') if ' final' in post else len(post)
            self.later.append('inline auto %s::%s(%s)%s -> %s { %s%s }' % (cls['_cpp'][2:], m['name'], self.params(d, False), post[:k], rt.strip(), self.hit(d), self.ret(m)))
            return o + [h + ';']
        if m['pu']: h += ' = 0;'
        elif m['de']: h += ' = delete;'
        elif m['drv']:
            tgt = m['_tgt']
            h += ' { this->%s(%s); }' % (tgt, ', '.join(p['nm'] for p in m['ps']))
        else: h += ' { %s%s }' % (self.hit(m), self.ret(m))
        return o + [h]

    def top(self, c):
        while c['outer']: c = self.byid[c['outer']]
        return c

    def mentions(self, c, i):
        """does class c, or a class nested in it other than i, mention class i or what is nested in it?"""
        def t(b): return b == i or b.startswith(i + '::')
        for m in c['meths'] + c['ctors']:
            if t(m['r']['b']) or any(t(p['b']) for p in m['ps']): return True
        return any(t(f['b']) for f in c['fields']) or any(t(b['id']) for b in c['bases']) or any(self.mentions(n, i) for k, n in c['_nested'] if k == 'class' and n['id'] != i)

    def cls(self, c, ind='', acc='', out=False):
        o = self.doc(c['doc'], ind) if not acc else []
        head = (acc + ': ' if acc else '')
        if acc: o += self.doc(c['doc'], ind)
        bases = ', '.join(['%s%s %s' % ('virtual ' if b['virt'] else '', b['acc'], self.byid[b['id']]['_cpp']) for b in c['bases']]
                          + (['public std::enable_shared_from_this<%s>' % (c['name'] + c.get('_targ', ''))] if c.get('_esft') else []))
        o.append('%s%s%s %s%s%s {' % (ind, head, c['cs'], c['name'] if not out else c['_cpp'][2:], ' final' if c['fin'] else '', ' : ' + bases if bases else ''))
        i2 = ind + '\t'
        nout = []
        for kind, n in c['_nested']:
            if kind == 'class' and n.get('_nfwd'):
                o.append('%s%s: %s %s;' % (i2, n['acc'], n['cs'], n['name']))
                if n['_nfwd'] == 'out' and not c['_anyanon'] and not c.get('_intmpl') and not self.mentions(self.top(c), n['id']): nout.append(n); continue
            if kind == 'enum' and n.get('_efwd'):
                o += self.doc(n['doc'], i2) + ['%s%s: %s' % (i2, n['acc'], self.efwd(n))]
                if n['_efwd'] == 'out' and not c['_anyanon'] and not c.get('_intmpl') and not self.mentions(self.top(c), n['id']): nout.append(n); continue
            o += self.enum(n, i2, n['acc']) if kind == 'enum' else self.cls(n, i2, n['acc'])
        init = [self.byid[b['id']]['_cpp'] + '(0)' for b in c['bases'] if not self.byid[b['id']]['_dctor'] and not self.byid[b['id']]['_pdctor']]
        for t in c['ctors']:
            td = []
            ps = self.params(t, True, td)
            for x in td: o.append('%spublic: %s' % (i2, x))
            h = '%s%s: %s%s(%s)' % (i2, t['acc'], 'explicit ' if t.get('_expl') else '', c['name'], ps)
            if t['dd']: h += ' = default;'
            elif t['de']: h += ' = delete;'
            else: h += (' : ' + ', '.join(init) if init else '') + ' { %s }' % self.hit(t)
            o.append(h)
        if c['asg'] and not c.get('_asgimpl'):
            h = '%s%s: %s & operator=(%s const &)' % (i2, 'public' if c['asg'] == 'deleted' else c['asg'], c['name'], c['name'])
            o.append(h + (' = delete;' if c['asg'] == 'deleted' else ' { return *this; }'))
        if c['dt']: o.append('%s%s: ~%s() {}' % (i2, c['dt'], c['name']))
        byuid = {m['uid']: m for m in c['meths']}
        for m in c['meths']:
            if m['tm'] == 'inst': continue
            if m['drv']: m['_tgt'] = byuid[m['drv']]['name']
            o += self.method(m, i2, c if not c['_anyanon'] and not c.get('_intmpl') else None)
        fs = c['fields']
        k = 0
        while k < len(fs):
            f = fs[k]
            if f['au']:
                u = [g for g in fs if g.get('_u') == f['_u']]
                o.append('%s%s: union { %s };' % (i2, f['acc'], ' '.join('%s %s;' % (g['_cpp'], g['name']) for g in u)))
                k += len(u); continue
            o += self.field(f, i2)
            k += 1
        for u in c['usings']:
            B = self.byid[u['base']]
            o.append('%s%s: using %s::%s;' % (i2, u['acc'], B['_cpp'], u['name']))
        for x in c.get('_decor', ()): o.append(i2 + x)
        o.append(ind + '};')
        for n in nout: self.nout.append(n)
        return o

    def field(self, f, ind):
        cpp = f['_cpp']
        o = []
        if f['td']:
            self.td += 1
            n = 'td%d' % self.td
            tdc = f['f'] == 'cval' and f.get('_tdc')
            o.append('%spublic: typedef %s%s %s;' % (ind, cpp, ' const' if tdc else '', n))
            cpp = n
        d = ctype(cpp, f['f'] if not (f['td'] and tdc) else 'val', f['name'])
        if f['st']: d = 'static ' + d
        elif f.get('_mut'): d = 'mutable ' + d
        if f['bf']: d += ' : 3'
        if f['init']:
            e = self.byid.get(f['b'])
            if f['f'] == 'ref': d += ' = vt::anyint()'
            elif e is not None: d += ' = static_cast<%s>(0)' % f['_cpp']
            elif f['b'] == 'std::string': d += ' = "s3"'
            else: d += ' = 3' if f['b'] != 'bool' else ' = true'
        o.append('%s%s: %s;' % (ind, f['acc'], d))
        return o

    def efwd(self, e): return '%s %s%s;' % (e['_kind'], e['name'], ' : ' + e['_ut'] if e.get('_ut') else '')

    def enum(self, e, ind='', acc='', out=False):
        vals = ', '.join(v['n'] + (' = %s' % self.lit(v['v'], e.get('_ut')) if v['_ex'] else '') for v in e['vals'])
        return self.doc(e['doc'], ind) + ['%s%s%s %s%s { %s };' % (ind, acc + ': ' if acc else '', e['_kind'], e['name'] if not out else e['_cpp'][2:], ' : ' + e['_ut'] if e.get('_ut') else '', vals)]

    def lit(self, v, ut=''):
        if ut == 'bool': return ['false', 'true'][v]
        if v == -2 ** 63 or v == -2 ** 31: return '(%d - 1)' % (v + 1)
        return str(v) + ('ull' if v >= 2 ** 63 else '')

    # ------------------------------------------------------------------------------------------------ templates
    def template(self, t):
        ps = []
        for i, k in enumerate(t['params']):
            ps.append({'t': 'class T%d', 'i': 'int N%d', 'b': 'bool B%d', 'p': 'class... P%d'}.get(k, '') % i if k != 'e' else '%s E%d' % (t.get('_en', 'int'), i))
        o = self.doc(t['doc'], '')
        bases = []
        if t['mixin']: bases.append('public T0')
        if t['base']: bases.append('public ' + self.byid[t['base']]['_cpp'])
        o.append('template <%s> %s %s%s {' % (', '.join(ps), t['cs'], t['name'], ' : ' + ', '.join(bases) if bases else ''))
        def pl(c):
            l = []
            for (ty, f, nm, dv) in c['ps']: l.append(ctype(ty, f, nm) + (' = %d' % dv if dv else ''))
            return ', '.join(l)
        def hit(c): return 'vt::hit(%s);' % ', '.join(['"%s"' % c['uid']] + [p[2] for p in c['ps']])
        for k in t['ctors']: o.append('\tpublic: %s(%s) { %s }' % (t['name'], pl(k), hit(k)))
        for m in t['meths']:
            o += self.doc(m['doc'], '\t')
            r = '' if m['ret'] == 'void' else ' return vt::make<%s>();' % m['ret']
            o.append('\t%s: %s%s%s %s(%s)%s { %s%s }' % (m['acc'], 'static ' if m['st'] else '', 'virtual ' if m['vi'] else '', m['ret'], m['name'], pl(m), ' const' if m['cn'] else '', hit(m), r))
        for f in t['fields']: o.append('\t%s: %s %s;' % (f['acc'], f['ty'], f['name']))
        return o + ['};']

    # ------------------------------------------------------------------------------------------------ functions
    def func(self, f, anon):
        c = f['call']
        if c['tm'] == 'inst': return []
        o, td = [], []
        ps = self.params(c, True, td)
        o += td
        o += self.doc(c['doc'], '')
        if c['tm'] == 'pattern':
            o.append('template <class T> %s %s(%s) { %s%s }' % (self.rtype(c['r']), c['name'], ps, self.hit(c), self.ret(c)))
            for t in f.get('_insts', ()):
                i = dict(c); i['ps'] = [dict(p) for p in c['ps']]
                if i['ps'] and c['ps'][0]['b'] == 'T': i['ps'][0]['_cpp'] = t
                o.append('template %s %s<%s>(%s);' % (self.rtype(c['r']), c['name'], t, self.params(i, False)))
            return o
        sto = f.get('_sto', 'inline')
        def head(ps):
            if sto == 'inline auto': return 'inline auto %s(%s) -> %s' % (c['name'], ps, self.rtype(c['r']))
            return '%s %s %s(%s)' % (sto, self.rtype(c['r']), c['name'], ps)
        h = head(ps)
        if c['de']: return o + [h + ' = delete;']
        if f['_redecl']:
            o.append(h + ';')
            h = head(self.params(c, False))
        return o + [h + ' { %s%s }' % (self.hit(c), self.ret(c))]

    # ------------------------------------------------------------------------------------------------ world
    def nsopen(self, ns, anon=0):
        s = ''.join('namespace %s { ' % n for n in ns) + ('namespace { ' if anon else '')
        return s.strip(), ('}' * (len(ns) + (1 if anon else 0)))

    def complete_refs(self, e):
        """ids of classes and enums whose definition must be visible before e"""
        s = set()
        def t(x, always=False):
            b = x['b']
            d = self.byid.get(b)
            if d is None: return
            if d['k'] == 'enum' or always or x['f'] in ('val', 'cval', 'rref', 'arr', 'fptr', 'fref', 'mptr', 'pp') or (x.get('df') and x.get('_dx') not in ('nullptr', '')): s.add(b)
            elif d['outer'] or d.get('_istmpl') or d.get('_holder'): s.add(b)
        def call(c):
            for p in c['ps']: t(p)
            t(c['r'])
        if e['k'] == 'func': call(e['call'])
        elif e['k'] == 'class':
            for b in e['bases']: s.add(b['id'])
            for m in e['meths'] + e['ctors']: call(m)
            for f in e['fields']: t(f, True)
            for kind, n in e.get('_nested', ()):
                if kind == 'class': s |= self.complete_refs(n)
        elif e['k'] == 'template':
            if e['t']['base']: s.add(e['t']['base'])
            for (c, _) in e['t']['insts']:
                pass
            if e['t'].get('_enid'): s.add(e['t']['_enid'])
        elif e['k'] == 'use':
            for a in e['c']['targs']:
                if a['b'] in self.byid: s.add(a['b'])
            for a in e['c']['_args']:
                if a.get('en'): s.add(a['en'])
            s.add('template ' + e['c']['gen'])
        return s

    def hdr_of(self, id_):
        e = self.byid[id_]
        while e.get('outer'): e = self.byid[e['outer']]
        return e.get('hdr')

    def run(self, d):
        w = self.w
        hs = w['headers']
        files = {}
        fwd = ['#pragma once']
        for s in w['_slots']:
            if s['kind'] == 'class' and not s.get('anon'):
                a, b = self.nsopen(s['ns'])
                if self.byid.get(s['id'], {}).get('_inl'): a, b = a + ' inline namespace iv1 {', '} ' + b
                fwd.append('%s %s %s; %s' % (a, s['cs'], s['name'], b))
        for e in w['_ents']:
            if e['k'] == 'enum' and e.get('fw'):
                a, b = self.nsopen(e['ns'])
                if e.get('_inl'): a, b = a + ' inline namespace iv1 {', '} ' + b
                fwd += [a] + self.doc(e['doc'], '') + [self.efwd(e), b]
        files['fwd.hpp'] = fwd
        body = {i: [] for i in range(len(hs))}
        needs = {i: set() for i in range(len(hs))}
        for e in w['_ents']:
            if e.get('outer'): continue
            h = e['hdr']
            o = body[h]
            for r in self.complete_refs(e):
                if self.byid[r].get('_std'): continue
                x = self.hdr_of(r)
                if x is not None and x != h: needs[h].add(x)
                if self.byid[r].get('_istmpl'):
                    needs[h].add(self.byid[r]['hdr'])
                    for a in self.byid[r]['targs']:
                        if a['b'] in self.byid: needs[h].add(self.hdr_of(a['b']))
            a, b = self.nsopen(e['ns'], e.get('anon', 0))
            if e.get('_inl'): a, b = a + ' inline namespace iv1 {', '} ' + b
            if e['k'] == 'class':
                if e['inc']: continue
                self.later, self.nout = [], []
                x = e.get('_xc') and not e.get('anon')
                o.append(a + (' extern "C++" {' if x else '')); o += self.cls(e); o.append(b + ('}' if x else ''))
                while self.nout:
                    n = self.nout.pop(0)
                    o += self.cls(n, out=True) if n['k'] == 'class' else self.enum(n, out=True)
                o += self.later
                self.insts(e, o)
            elif e['k'] == 'enum':
                x = e.get('_xc') and not e.get('anon')
                o.append(a + (' extern "C++" {' if x else '')); o += (self.doc(e['doc'], '') + [self.efwd(e)] if e.get('_efwd') == 'same' else []) + self.enum(e); o.append(b + ('}' if x else ''))
            elif e['k'] == 'func':
                x = self.func(e, e['anon'])
                y = e.get('_xc') and not e.get('anon')
                if x: o.append(a + (' extern "C++" {' if y else '')); o += x; o.append(b + ('}' if y else ''))
            elif e['k'] == 'template': o.append(a); o += self.template(e['t']); o.append(b)
            elif e['k'] == 'use':
                c = e['c']
                if c['_by'] == 'explicit': o.append('template %s %s;' % (c['cs'], c['_cpp'][2:]))
        for h, ns, t in w.get('_decor', ()):
            a, b = self.nsopen(ns)
            body[h] += [a, t, b]
        for s in w['_ost']:
            o = body[s['hdr']]
            x = self.hdr_of(s['cls']) if s['cls'] in self.byid else None
            if x is not None and x != s['hdr']: needs[s['hdr']].add(x)
            c = self.byid[s['cls']]
            for r in [a['b'] for a in c['targs'] if a['b'] in self.byid]:
                y = self.hdr_of(r)
                if y != s['hdr']: needs[s['hdr']].add(y)
            ns = {'own': s['ns'], 'tmpl': s['ns'], 'global': [], 'other': ['ost_ns'], 'wrong': s['ns']}[s['kind']]
            a, b = self.nsopen(ns)
            o.append(a)
            if s['kind'] == 'wrong': o.append('struct Str%s; inline Str%s & operator<<(Str%s &o, %s const &) { return o; }' % (s['uid'], s['uid'], s['uid'], s['cpp']))
            elif s['kind'] == 'tmpl':
                ps = ', '.join('class Q%d' % i for i in range(s['nt'])); qs = ', '.join('Q%d' % i for i in range(s['nt']))
                o.append('template <%s> std::ostream & operator<<(std::ostream &o, ::%s<%s> const &) { o << "%s"; return o; }' % (ps, s['gen'], qs, s['uid']))
            else: o.append('inline std::ostream & operator<<(std::ostream &o, %s const &) { o << "%s"; return o; }' % (s['cpp'], s['uid']))
            o.append(b)
        for i, h in enumerate(hs):
            head = ['#pragma once', '#include <vt_trace.hpp>', '#include <fwd.hpp>'] + sorted({'#include <%s>' % e['_std'] for e in w['ents'] if e.get('_std')})
            head += ['static_assert(sizeof(%s) > 0, "");' % e['_cpp'] for e in w['ents'] if e.get('opq')]       # makes them complete
            if any(x in '\n'.join(body[i]) for x in ('std::string',)): head.append('#include <string>')
            if any('std::enable_shared_from_this' in x for x in body[i]): head.append('#include <memory>')
            if any('std::ostream' in '\n'.join(b) for b in (body.values() if isinstance(body, dict) else body)): head.append('#include <ostream>')
            for n in sorted(x for x in needs[i] if x is not None and x < i): head.append('#include <%s>' % hs[n]['name'])
            files[('sys/' if h['sys'] else '') + h['name']] = head + body[i]
        files['all.hpp'] = (['#include <fwd.hpp>'] if any(e.get('fw') for e in w['_ents']) else []) + ['#include <%s>' % h['name'] for h in hs]
        with open(os.path.join(d, 'cfg'), 'wb') as f: f.write(world.cfgtext(w).encode('utf8'))
        files['vb'] = world.vbclasses(w)
        for n, l in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f: f.write(('\n'.join(l) + '\n').encode('utf8'))
        return files

    def insts(self, e, o):
        """explicit instantiations of member templates, of e and its nested classes"""
        a, b = self.nsopen(e['ns'], e.get('anon', 0))
        def go(c, path):
            for (m, insts) in c.get('_mt', ()):
                for t in insts:
                    i = dict(m); i['ps'] = [dict(p) for p in m['ps']]
                    if i['ps'] and m['ps'][0]['b'] == 'T': i['ps'][0]['_cpp'] = t
                    for p in i['ps']:
                        p['td'] = 0
                    o.append('%s template %s %s::%s<%s>(%s)%s; %s' % (a, self.rtype(m['r']), path, m['name'], t, self.params(i, False), ' const' if m['cn'] else '', b))
            for kind, n in c.get('_nested', ()):
                if kind == 'class': go(n, path + '::' + n['name'])
        go(e, e['name'])


def args(w, out, cfg='cfg', inp='all.hpp'):
    """command line after the name of the tool; relative to the world's directory"""
    o = w['opt']
    a = ['--root-module', 'tm', '--prefix', out]
    for n in o['bind']: a += ['--bind=' + '::'.join(n)]
    for n in o['skip']: a += ['--skip=' + '::'.join(n)]
    a += ['--config', cfg]
    if o['flat']: a.append('--flat')
    if o['single']: a.append('--single-file')
    if o['maxsize'] >= 0: a += ['--max-file-size=%d' % o['maxsize']]
    if o['stl']: a.append('--include-pybind11-stl')
    if not o['bcts']: a.append('--bind-class-template-specialization=0')
    for k, s in (('trace', '--trace'), ('annf', '--annotate-functions'), ('anni', '--annotate-includes'), ('skipln', '--skip-line-number'), ('verbose', '-v'), ('suppress', '--suppress-errors')):
        if o[k]: a.append(s)
    return a + [inp, '--', '-std=c++17', '-I.', '-isystem', 'sys', '-isystem', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mock')]
