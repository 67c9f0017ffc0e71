"""Config files, line by line: TLC enumerates files with their meaning (spec/ConfigGen.tla); the real tool reads each of them, and has to
behave as for the plain file that means the same, or to fail."""
import os, json, random, shutil, tempfile, hashlib
from concurrent.futures import ProcessPoolExecutor
import run, tlc
from run import HarnessError

HEADER = '''#pragma once
namespace std { inline namespace vt { } }
namespace aa {
enum E { e1, e2 };
struct W {};
struct T {};
struct S { int f; S(); S(S const &); virtual int v(); static int sf(int); static S * sp(); static S & sl(); static S && sr(); S * mp(); S & ml(); S && mr(); };
void func(S *);
void useT(T);
void useW(W *);
namespace bb { struct U {}; void fu(U); }
}
namespace cc { void fc(); }
namespace dd { struct C {}; enum En { n1 }; void fn(int, long); void fn(int); }
'''
CFG = 'INIT Init\nNEXT Next\nCONSTANT Pairs = %s\nINVARIANT Stable\nINVARIANT EndsAlike\nINVARIANT CommentsMeanNothing\nINVARIANT Exchange\nINVARIANT Emit\n'
# lines that change nothing for the header above
SILENT = tuple(s + 'default_%s_rvalue_reference_return_value_policy' % k for s in '+-' for k in ('static', 'member')) + ('+class aa::T', '-python_builtin std::string', '+field ', '-buffer_protocol ', '-smart_holder ', '-module_local_namespace aa')


def outcome(base, text):
    """what the tool does with this config file: (failed?, digest of the output)"""
    d = tempfile.mkdtemp(dir=base)
    try:
        os.mkdir(os.path.join(d, 'out'))
        with open(os.path.join(d, 'h.hpp'), 'w') as f: f.write(HEADER)
        with open(os.path.join(d, 'all.hpp'), 'w') as f: f.write('#include <h.hpp>\n')
        with open(os.path.join(d, 'c'), 'wb') as f: f.write(text.encode('utf8'))
        rc, t = run.tool(['--root-module', 'tm', '--prefix', 'out', '--bind=aa', '--config', 'c', 'all.hpp', '--', '-std=c++17', '-I.'], d)
        if rc == 'timeout': return 'hang', ''
        if rc != 0: return 'crash' if rc < 0 and rc != -6 else 'fail', ''
        h = hashlib.sha1()
        for r, ds, fs in sorted(os.walk(os.path.join(d, 'out'))):
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update((os.path.relpath(p, d) + '\0').encode()); h.update(open(p, 'rb').read())
        return 'ok', h.hexdigest()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def outcome_(a): return outcome(*a)


def enumerate_(c, pairs):
    out = c.model('ConfigGen', CFG % ('TRUE' if pairs else 'FALSE'), 'ConfigGen (%s)' % ('pairs of lines' if pairs else 'single lines'), workers=8)
    r = [json.loads(json.loads(l.strip())[2:]) for l in out.split('\n') if l.strip().startswith('"@@')]
    if not r: raise HarnessError('ConfigGen printed nothing')
    return {x['text']: x for x in r}


def swapped(x):
    return ''.join(d['s'] + d['t'] + ' ' + ' '.join(d['a']) + '\n' for d in reversed(x['dirs']))


def part(pairs):
    def p(c):
        c.built()
        cases = list(enumerate_(c, False).values())
        two = []
        if pairs:
            two = [x for x in enumerate_(c, True).values() if not x['bad'] and len(x['dirs']) == 2 and x['dirs'][0]['t'] != x['dirs'][1]['t']]
            two.sort(key=lambda x: x['text'])
            two = [x for x in two if x['text'] < swapped(x)]
            random.Random(c.seed).shuffle(two)
            if c.quick: two = two[:150]
        texts = sorted(set(x['text'] for x in cases) | set(x['plain'] for x in cases) | set(x['text'] for x in two) | set(swapped(x) for x in two) | {''})
        with ProcessPoolExecutor(8) as ex:
            res = dict(zip(texts, ex.map(outcome_, [(c.base, t) for t in texts], chunksize=8)))
        bad = []

        def judge(x, exch):
            def get(t, fresh):
                return outcome(c.base, t) if fresh else res[t]
            def one(fresh):
                a = get(x['text'], fresh)
                if a[0] in ('hang', 'crash'): return 'the tool does not end normally (%s)' % a[0]
                if exch:
                    b = get(swapped(x), fresh)
                    return '' if a == b else 'the order of two lines of different kinds matters: %r gives %s, %r gives %s' % (x['text'], a[0], swapped(x), b[0])
                if x['bad']: return '' if a[0] == 'fail' else 'invalid configuration accepted (%s)' % x['bad']
                if a[0] == 'fail': return 'valid configuration rejected'
                b = get(x['plain'], fresh)
                if a != b: return 'does not mean the same as %r' % x['plain']
                if x['dirs'] and not x['plain'].startswith(SILENT) and b == get('', fresh): return 'has no effect'
                return ''
            if one(False):
                t = one(True)
                if t: bad.append((x['text'], t))
        for x in cases: judge(x, False)
        for x in two: judge(x, True)
        c.traces += len(cases) + len(two)
        c.count('config_files_replayed', len(texts)); c.count('config_files_that_must_fail', sum(1 for x in cases if x['bad']))
        c.sample(dict(config=cases[len(cases) // 2]['text'], meaning=cases[len(cases) // 2]['dirs']))
        c.log('%d config files replayed, %d deviate' % (len(texts), len(bad)))
        for i, (t, why) in enumerate(bad[:4] if not os.environ.get('VERIF_ALL') else bad):
            d = tempfile.mkdtemp(dir=c.base)
            for n, y in (('h.hpp', HEADER), ('all.hpp', '#include <h.hpp>\n'), ('c', t)): open(os.path.join(d, n), 'wb').write(y.encode('utf8'))
            c.violation('config_%d' % i, 'config file %r: %s' % (t, why), d)
    return p
