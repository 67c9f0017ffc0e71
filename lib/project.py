"""Projection of what the tool produced (events recorded by the mock, generated files, exit status) onto the state of the
specification, and of a world onto the specification's input.  Everything here is lexical: no decision about what is right."""
import os, re
import world

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'


DROP = ('std::allocator<', 'std::less<', 'std::hash<', 'std::equal_to<', 'std::default_delete<', 'std::char_traits<')


def plain(t):
    """without the default arguments of standard templates; literals as the tool prints them"""
    if 'std::' not in t: return t
    t = t.replace('std::__cxx11::', 'std::')
    out, i = '', 0
    while i < len(t):
        if t[i] == ',':
            j = i + 2
            if t.startswith(DROP, j) or t.startswith('std::deque<', j) and re.search(r'std::(stack|queue)<\w+$', out):
                k = t.index('<', j); n = 0
                while True:
                    n += (t[k] == '<') - (t[k] == '>'); k += 1
                    if n == 0: break
                i = k
                if t[i:i + 2] == ' >' and not out.endswith('>'): i += 1       # no nested template is left before the closing bracket
                continue
        out += t[i]; i += 1
    return out.replace('std::basic_string<char>', 'std::string').replace('std::string >', 'std::string>').replace('3ul>', '3>').replace('5ul>', '5>')


def norm(t):
    """demangled type -> (base, form)"""
    t = plain(t.replace(STR, 'std::string').strip())
    for suf, f in ((' (*)(', 'fptr'),):
        if suf in t and '<' not in t: return (t, 'fptr')
    for suf, f in (('* const&', 'ptrcref'), ('*&', 'ptrref'), ('&&', 'rref'), (' const&', 'cref'), ('&', 'ref'), ('**', 'pp'), (' const*', 'cptr'), ('*', 'ptr'), (' const', 'cval')):
        if t.endswith(suf): return (t[:-len(suf)], f)
    return (t, 'val')


def pty(t):
    b, f = norm(t)
    return b + '/' + ('v' if f in ('val', 'cval', 'cref') else f)


def rty(t):
    b, f = norm(t)
    return b + '/' + f


def txt(s):
    return s.encode('latin1').decode('utf8', 'replace')


NOCALL = dict(n=1, ret='', hits=[])


def clip(v):
    return max(-2000000000, min(2000000000, v))


def hit(h):
    """'u5 1 2' -> what ran and the numbers it was given"""
    m = re.match(r'^(override .*?|tramp .*?|\S+)((?: -?\d+)*)$', h)
    if not m: return dict(u=h, a=[])
    return dict(u=m.group(1), a=[clip(int(x)) for x in m.group(2).split()])


def call(c):
    if c is None: return NOCALL
    return dict(n=0, ret=txt(c['ret']), hits=[hit(h) for h in c['hits']])


def squash(s):
    """documentation text with every run of white space as one space"""
    return ' '.join(s.split())


def doct(lines):
    """what Doxygen reads in the lines of a comment: a backslash before punctuation escapes it"""
    return squash(re.sub(r'\\(["@&$#<>%.\\])', r'\1', ' '.join(lines)))


def docl(l):
    return [squash(txt(x)) for x in l]


def rel(f, out):
    i = f.rfind(out + '/')
    return f[i + len(out) + 1:] if i >= 0 else f


def blocks(ev, out='out'):
    bl, cls = [], {}
    enum = None
    for e in ev:
        k = e['e']
        if k == 'submodule': bl.append(dict(t='sub', path=e['path'], parent=e['parent'], name=e['name'], doc=e['doc'], file='', regs=[]))
        elif k == 'class':
            raw = e['cpp']
            if raw.startswith('std::'):
                e['cpp'] = plain(raw); e['holders'] = [x.replace(raw, e['cpp']) for x in e['holders']]
            b = dict(t='class', cpp=e['cpp'], scope=e['scope'], name=e['name'], file=rel(e['file'], out), bases=e['bases'], holders=e['holders'], alias=e['alias'], docs=docl(e['docs']), ml=e['module_local'],
                     buf=e['buffer'], regs=[])
            bl.append(b); cls[raw] = b
        elif k in ('init', 'method', 'field', 'def_buffer'):
            b = cls.get(e['cls'])
            if b is None: bl.append(dict(t='stray', file='', regs=[], what=str(e)[:200])); continue
            if k == 'init':
                r = dict(t='init', name='', kind=e['kind'], types=[pty(x) for x in e['types']], ret='', call=call(e['call']), ocall=call(e['acall']), us=e['us'], st=0, ptr=0)
            elif k == 'method':
                ty = [pty(x) for x in e['types']]
                if e['kind'] == 'def' and not e['ptr']: ty = ty[1:]
                r = dict(t='meth', name=e['name'], kind=e['kind'], types=ty, ret=rty(e['ret']), call=call(e['call']), ocall=call(e['ocall']), us=e['us'], st=int(e['kind'] == 'static'), ptr=e['ptr'])
                if e['kind'] == 'def' and not e['ptr']: r['slf'] = norm(e['types'][0])[0] if e['types'] else ''
                else: r['slf'] = e['cls']
            elif k == 'field':
                b['regs'].append(dict(t='field', name=e['name'], access=e['access'], type=rty(e['type']), off=e['off'])); continue
            else:
                b['regs'].append(dict(t='buffer', name='')); continue
            r.update(args=e['args'], docs=docl(e['docs']), policy=e['policy'], guards=e['guards'])
            b['regs'].append(r)
        elif k == 'enum':
            enum = dict(t='enum', cpp=e['cpp'], scope=e['scope'], name=e['name'], file=rel(e['file'], out), arith=e['arithmetic'], ml=e['module_local'], docs=docl(e['docs']), vals=[], exp=0, regs=[])
            bl.append(enum)
        elif k == 'value': enum['vals'].append(dict(n=e['name'], v=str(e['val'])))
        elif k == 'export': enum['exp'] = 1
        elif k == 'fun':
            bl.append(dict(t='fun', scope=e['scope'], name=e['name'], file=rel(e['file'], out), types=[pty(x) for x in e['types']], ret=rty(e['ret']), call=call(e['call']), us=e['us'], args=e['args'], docs=docl(e['docs']),
                           policy=e['policy'], guards=e['guards'], regs=[]))
        elif k == 'user':
            if e['kind'] == 'addon' and e['cpp'] in cls: cls[e['cpp']]['regs'].append(dict(t='addon', name=''))
            else: bl.append(dict(t='user', kind=e['kind'], cpp=e['cpp'], scope=e['scope'], args=e['args'], file=rel(e['file'], out), regs=[]))
        elif k == 'smart_holder': bl.append(dict(t='smart', cpp=e['cpp'], file='', regs=[]))
        elif k == 'end': bl.append(dict(t='end', status=e['status'], file='', regs=[]))
        elif k == 'module': pass
        elif k == 'out':
            m = re.match(r'^B(\d+)_\[(.*)\]$', e['text'])
            bl.append(dict(t='line', n=int(m.group(1)), text=txt(m.group(2)), file='', regs=[]) if m else dict(t='stray', file='', regs=[], what='output ' + e['text'][:200]))
        else: bl.append(dict(t='stray', file='', regs=[], what=str(e)[:200]))
    return bl


def files(d, w, out='out'):
    """generated sub-files: name, functions they define, size of the body, includes; and what the root file says"""
    o = os.path.join(d, out)
    root = open(os.path.join(o, 'tm.cpp'), encoding='utf8', errors='replace').read()
    r = dict(src=[], sub=[], decl=[], called=[], modules=[], pairs=[], extra=[])
    single = w['opt']['single']
    if single:
        parts = re.split(r'^// File: (.*)\n', root, flags=re.M)
        texts = []
        for i in range(1, len(parts), 2): texts.append((parts[i], parts[i + 1]))
        main = root[root.rfind('using ModuleGetter'):]
        if texts: texts[-1] = (texts[-1][0], texts[-1][1].split('#include <map>\n#include <algorithm>')[0])
        m = re.search(r'^// Source list file: .*\n((?:// .*\n)*)', root, re.M)
        src = [x[3:] for x in m.group(1).split('\n') if x] if m else []
        m = re.search(r'^// Modules list file: .*\n// ?(.*)$', root, re.M)
        mods = m.group(1).split() if m else []
    else:
        src = open(os.path.join(o, 'tm.sources')).read().split('\n')
        src = [x for x in src if x]
        mods = open(os.path.join(o, 'tm.modules')).read().split()
        texts = []
        for s in src[1:]:
            p = os.path.join(o, s)
            texts.append((s, open(p, encoding='utf8', errors='replace').read() if os.path.exists(p) else None))
        main = root
        have = []
        for a, b, c in os.walk(o):
            for x in c: have.append(os.path.relpath(os.path.join(a, x), o))
        r['extra'] = sorted(set(have) - set(src) - {'tm.sources', 'tm.modules'})
    r['src'], r['modules'] = src, mods
    main = main[main.rfind('using ModuleGetter'):]
    r['decl'] = re.findall(r'^void (\w+)\(std::function', main, re.M)
    r['called'] = re.findall(r'^\t(\w+)\(M\);', main, re.M)
    r['pairs'] = ['%s|%s' % x for x in re.findall(r'^\t\t\{"([^"]*)", "([^"]*)"\},', main, re.M)]
    for n, t in texts:
        if t is None:
            r['sub'].append(dict(name=n, fn=[], size=-1, inc=[])); continue
        fn = re.findall(r'^void (\S+?)\(std::function< pybind11::module &\(std::string const &namespace_\) > &M\)$', t, re.M)
        i = t.find('&M)\n{\n')
        body = t[i + 6:t.rstrip('\n').rfind('}')] if i >= 0 else ''
        r['sub'].append(dict(name=n, fn=fn, size=len(body.encode('utf8')), inc=sorted(set(re.findall(r'^#include (<[^>]*>|"[^"]*")', t, re.M)))))
    return r


CALLF = dict(uid='', name='', acc='public', st=0, cn=0, vi=0, pu=0, fi=0, de=0, va=0, tm='', ne=0, rv=0, drv='', doc=[], cp=0, mv=0, sps='', dd=0, conv=0, rq='', sg='')


def wcall(c, q, qp=None):
    r = dict(CALLF)
    r.update({k: v for k, v in world.strip(c).items()})
    r['ps'] = [dict(nm=p['nm'], df=p['df'], dv=clip(p['dv']), b=p['b'], f=p['f'], sp=p['sp'], ct=p['ct'], hb=p['hb'], hv=p['hv'], td=p['td']) for p in c['ps']]
    r['r'] = dict(b=c['r']['b'], f=c['r']['f'], sp=c['r'].get('sp', ''))
    r['sg'] = (q + c['sps'] + '(' + ','.join(p['sp'] for p in c['ps']) + ')' + ('const' if c['cn'] else '')).replace(' ', '')
    r['qn'] = q
    r['dt'] = doct(c['doc'])
    r['cd'] = 'C++: %s(%s)%s --> %s' % (qp or q, ', '.join(p['sp'] for p in c['ps']), ' const' if c['cn'] else '', c['r'].get('sp', ''))
    r['ck'] = int(all(p['sp'] for p in c['ps']) and c['r'].get('sp', 'void') != '')   # is the spelling of the signature known?
    if not r['ck']: r['cd'] = 'C++: %s(' % (qp or q)
    del r['doc']
    return r


def wjson(w):
    """the world as input of the specification"""
    ents = []
    for e in w['ents']:
        x = world.strip(e)
        if e['k'] == 'class':
            x['tm'] = int(bool(e.get('_istmpl')))
            x['sn'] = (e['_pr'] if '_pr' in e else e['id']).replace(' ', '')
            x['ctors'] = [wcall(c, e['gen'] + '::' + c['name'], e.get('_pr', e['id']) + '::' + c['name']) for c in e['ctors']]
            x['meths'] = [wcall(c, e['gen'] + '::' + c['name'], e.get('_pr', e['id']) + '::' + c['name']) for c in e['meths']]
            x['fields'] = [dict(name=f['name'], acc=f['acc'], b=f['b'], f=f['f'], st=f['st'], bf=f['bf'], au=f['au'], init=f['init']) for f in e['fields']]
            x['tag'] = e['_tag']
            x['opq'] = e.get('opq', 0)
            x['dt_'] = doct(e['doc'])
        elif e['k'] == 'enum':
            x['dt_'] = doct(e['doc'])
            x['vals'] = [dict(n=v['n'], v=str(v['v'])) for v in e['vals']]
        elif e['k'] == 'func':
            x['call'] = wcall(e['call'], e['gen'])
        ents.append(x)
    return dict(profile=w['profile'], opt=w['opt'], cfg=world.cfgtext(w), dirs=world.strip(w['dirs']), ents=ents, headers=world.strip(w['headers']))
