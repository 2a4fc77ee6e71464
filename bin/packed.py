"""Check of packed pointers: spec Packed."""
from vlib import *
import json, random

def cfgs_():
    r = {}
    def add(n, ptr, bits, al, dflt=False): r[n] = dict(ptr=ptr, bits=bits, free=al.bit_length() - 1, al=al, dflt=dflt)
    for t, al in [('char', 1), ('short', 2), ('int', 4), ('double', 8), ('W16', 16), ('W64', 64)]:
        for b in range(al.bit_length()): add('%s_%d' % (t, b), t + '*', b, al, True)
    for al in [1, 2, 4, 8, 32, 128, 256, 512, 4096, 1 << 16, 1 << 17, 1 << 20, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 48]:
        f = al.bit_length() - 1
        for b in sorted({0, 1, f // 2, f - 1, f, 8, 9, 16, 17, 32, 33}):
            if 0 <= b <= f: add('void_%d_%d' % (f, b), 'const void*', b, al)
    add('cint_1', 'const int*', 1, 4, True); add('und_3', 'Undefined*', 3, 8); add('pp_3', 'int**', 3, 8, True); add('int_8_5', 'int*', 5, 256); add('fun_4', 'Fun', 4, 16); add('vol_2', 'volatile long*', 2, 8, True)
    return r
def cpp(n, c):
    C = 'ktl::packed_ptr<V::%s, %d%s>' % (c['ptr'].replace('const int', 'CI').replace('const void', 'CV').replace('volatile long', 'VL'), c['bits'], '' if c['dflt'] else ', %dull' % c['al'])
    for t in ('int', 'char', 'short', 'double'): C = C.replace('V::%s*' % t, t + '*')
    P = C[C.index('<') + 1:C.index(',')]
    return 'static V::Reg reg_%s("%s", [] { return (V::Cfg*)new V::Pk<%s, %s, %d>(); });\n' % (n, n, C, P, c['bits'])
PRE = '#include "packed.h"\nnamespace V { struct alignas(16) W16 { char c[16]; }; struct alignas(64) W64 { char c[64]; }; struct Undefined; typedef void (*Fun)(); typedef const int CI; typedef const void CV; typedef volatile long VL; }\n'
WIDTHS = [1, 8, 16, 32, 64]

def bits_of(x): return sum(b << i for i, b in enumerate(x))
def lines(path, c, L, rng):
    "the small words of the design become pointers at either end of the real ones"
    up = rng.random() < .5; out = []
    P = lambda x: '%x' % ((bits_of(x) >> c['free']) << (64 - (L - c['free'])) if up else bits_of(x))
    for op, v, w, p, n in path:
        if op in ('new', 'del'): out.append('%s %d' % (op, v))
        elif op == 'newp': out.append('newp %d %s %x %d' % (v, P(p), bits_of(n), rng.choice([8, 16, 32, 64])))
        elif op == 'setp': out.append('setp %d %s' % (v, P(p)))
        elif op == 'seti': out.append('seti %d %x %d' % (v, bits_of(n), rng.choice([8, 16, 32, 64])))
        else: out.append('%s %d %d' % (op, v, w))
    return out
def rand(c, rng, n):
    f, b = c['free'], c['bits']; out = []
    top = (1 << 64) - 1
    def P(): return '%x' % (rng.choice([0, top, 1 << 63, 1 << f, (1 << 47) - 1, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(48), 1 << rng.randrange(64)]) >> f << f)
    def N(): return '%x' % (rng.choice([0, 1, top, (1 << b) - 1, 1 << b, (1 << b) + 1, rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(max(b, 1)), 1 << rng.randrange(64)]) & top)
    W = lambda: rng.choice(WIDTHS)
    for v in range(1, 4):
        if rng.random() < .8: out.append(rng.choice(['new %d' % v, 'newp %d %s %s %d' % (v, P(), N(), W())]))
    for _ in range(n):
        v, w = rng.randrange(1, 5), rng.randrange(1, 5); r = rng.random()
        if r < .35: out.append('setp %d %s' % (v, P()))
        elif r < .7: out.append('seti %d %s %d' % (v, N(), W()))
        elif r < .76: out.append('newp %d %s %s %d' % (v, P(), N(), W()))
        elif r < .80: out.append('new %d' % v)
        elif r < .86: out.append('del %d' % v)
        else: out.append('%s %d %d' % (rng.choice(['ccon', 'mcon', 'cass', 'mass', 'swap']), v, w))
    return out

def run(c):
    cfgs = cfgs_()
    cj = '%s/cfgs.json' % c.out; json.dump(cfgs, open(cj, 'w'))
    names = sorted(cfgs)
    tus = {'tu%d' % k: PRE + ''.join(cpp(n, cfgs[n]) for n in names[k::6]) for k in range(6)}
    tus['main'] = '#define V_MAIN\n' + PRE + 'int main(int c, char** v) { return V::drive(c, v, [](const V::Test& t) { V::runPk(t); }); }\n'
    vs = ['asan17', 'opt20'] if c.quick else ['asan17', 'opt20', 'asan20', 'opt17', 'clang20', 'assert17']
    outer = ThreadPoolExecutor(len(vs) + 1)
    builds = [(v, outer.submit(c.build, 'packed', tus, v)) for v in vs]
    L = 4 if c.quick else 5
    pars = [dict(cfg=n, bits=cfgs[n]['bits'], free=cfgs[n]['free'], len=L, vars=2, cap=400 if c.quick else 3000, depth=8, weight=1 << (L - cfgs[n]['free'])) for n in names if cfgs[n]['free'] < L]
    scripts = []
    for n, paths in c.explore('PackedMC', pars, {}, maxlen=40, maxpaths=120 if c.quick else 5000).items():
        rng = random.Random('%s-%d' % (n, SEED))
        for i, p in enumerate(paths): scripts.append(('%s.m%d' % (n, i), n, lines(p, cfgs[n], L, rng)))
    for n in names:
        rng = random.Random('r-%s-%d' % (n, SEED))
        for i in range(25 if c.quick else 400): scripts.append(('%s.r%d' % (n, i), n, rand(cfgs[n], rng, rng.choice([8, 25, 60]))))
    for v, b in builds:
        c.judge(b.result(), 'PackedTrace', scripts, {'CFGS': cj}, 'packed-' + v)
        if c.viol: break
    c.assumptions = ['pointers are aligned as the type asks', 'pointers convert to integers and back without loss']
CHECKS = {'P22': run}
