"""Genuine defects that are recorded and not repaired (KNOWN_FINDINGS.txt): each is one fixed input, and fails in one known way. The check of its
property runs the input; the known failure is printed as KNOWN-FINDING, any other failure of it is a violation."""
import os, re, json, shutil, tempfile
import run
from run import ROOT

CASES = {
    'D21a': dict(bind=['n'], head='''namespace n { enum class E { v1, v2 }; template <E e> struct T { int x; T() : x(0) {} }; template struct T<E::v2>; inline int f(T<E::v2> const &) { return 0; } }'''),
    'D21b': dict(bind=['n'], head='''namespace n { struct O { struct I { int i; I() : i(0) {} }; O() {} }; template <class A> struct T { int x; T() : x(0) {} }; template struct T<O::I>; inline int f(T<O::I> const &) { return 0; } }'''),
    'J1': dict(bind=['n'], head='''namespace n { struct stat { int x; stat() : x(0) {} }; inline int stat(int a) { return a; } inline int g(struct stat const &s) { return s.x; } }'''),
    'D24': dict(bind=['', 'n'], head='''struct G { int g; };
namespace n { struct B { struct G { int x; }; B() {} virtual ~B() {} virtual int f(::G const &) { return 0; } }; }'''),
}


def listed():
    r = []
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
        for l in f:
            m = re.match(r'known: property=(C\d+) case=(\w+) fails=(\S+) (.*)', l)
            if m: r.append(m.groups())
    return r


def outcome(d, c):
    """'ok' or what fails"""
    os.makedirs(os.path.join(d, 'out'))
    with open(os.path.join(d, 'h.hpp'), 'w') as f: f.write('#pragma once\n' + c['head'] + '\n')
    with open(os.path.join(d, 'all.hpp'), 'w') as f: f.write('#include <h.hpp>\n')
    with open(os.path.join(d, 'cfg'), 'w') as f: f.write('# nothing\n')
    open(os.path.join(d, 'vb'), 'w').close()
    rc, t = run.tool(['--root-module', 'tm', '--prefix', 'out'] + ['--bind=' + b for b in c['bind']] + ['--single-file', '--config', 'cfg', 'all.hpp', '--', '-std=c++17', '-I.'], d)
    if rc != 0: return 'status', str(rc)
    k, x = run.execute(d, 'out')
    if k != 'ok': return k, str(x)[:1500]
    seen = set()
    for e in x['ev']:
        if e['e'] != 'class': continue
        for b in e['bases']:
            if b not in seen: return 'order', '%s is registered before its base %s' % (e['cpp'], b)
        seen.add(e['cpp'])
    return 'ok', ''


def part(c):
    mine = [x for x in listed() if x[0] == c.prop]
    if not mine: return
    c.built()
    for _, name, fails, what in mine:
        d = tempfile.mkdtemp(dir=c.base)
        k, t = outcome(d, CASES[name])
        if k == fails: c.known.append(what)
        elif k != 'ok': c.violation('known_' + name, 'the input of finding %s fails in another way: %s %s' % (name, k, t), d)
        else: c.log('finding %s no longer fails' % name)
        shutil.rmtree(d, ignore_errors=True)
