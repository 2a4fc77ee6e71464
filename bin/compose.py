"""Checks decided by spec/Compose: composition trees of recording leaves."""
import json, random
from vlib import *
from zoo import *

def bounds(t):
    r = set()
    def go(x, mul):
        if x.k == 'fl': r.update((x.lo, x.hi))
        if x.k == 'sg': r.update(x.t)
        if x.k == 'lf' and x.max: r.add(x.max)
        if x.k in ('lin', 'stk'): r.add(x.size)
        for c in kids(x): go(c, mul)
    go(t, 1)
    return r
def has(t, k): return t.k == k or any(has(c, k) for c in kids(t))
def sizes_mc(t, cap=4):
    unit = tysize(t) if t.k == 'ty' else 1
    b = sorted(bounds(t.a if t.k == 'ty' else t))
    off = 128 if has(t, 'ov') else 0
    s = []
    for x in b:
        x = max(0, x - off)
        s += [x // unit, x // unit + 1]
    s = sorted(set(s)) or [1, 2]
    if len(s) > cap:
        lo, hi = s[0], s[-1]
        mid = s[1:-1]; random.Random(7).shuffle(mid); s = sorted([lo, hi] + mid[:cap - 2])
    return s
def sizes_rnd(t):
    unit = tysize(t) if t.k == 'ty' else 1
    b = bounds(t.a if t.k == 'ty' else t)
    off = 128 if has(t, 'ov') else 0
    s = {0, 1, 7, 8, 9, 16, 24, 33, 100, 200}
    for x in b:
        for d in (-1, 0, 1): s.update({max(0, (x + d)) // unit, max(0, x - off + d) // unit})
    return sorted(s)
HUGE = ['M0', 'M1', 'M7', 'M15', 'M63', 'M127', 'M128', 'M200', 'H0', 'H1', '2000000000']

def ops_of(t):
    o = ['X']
    if deepcopyable(t): o += ['C', 'c']
    if movable(t): o += ['M', 'm']
    if t.k == 'ty' and deepcopyable(t) : o += ['A']
    if root(t) == 'gl' and t.k == 'gl' and movable(t.a): o += ['S']
    return o
def params(t, quick):
    shared = root(t) in ('sh', 'rf', 'gl')
    ca = has(t, 'ca'); mv = movable(t)
    n = len(leaves(t))
    p = dict(vars=1, slots=3, depth=9, blocks=3, inst=3)
    if shared: p = dict(vars=3 if root(t) == 'sh' else 2, slots=1, depth=10, blocks=2, inst=3)
    elif mv: p = dict(vars=2, slots=2, depth=8, blocks=2, inst=max(4, 2 * n))
    if ca: p['inst'] = 4 if not shared else 3; p['blocks'] = 3; p['slots'] = 3 if p['vars'] == 1 else 2
    p['inst'] = max(p['inst'], n * (2 if mv or shared else 1))
    if ca and n > 1: p['inst'] = 2 * n + n; p['depth'] = 6 if n > 2 or t.k == 'sg' else 7
    if ca and shared: p.update(vars=2, slots=2, depth=7, blocks=2)
    p['weight'] = (5 if ca else 1) * (3 if shared else 1) * (2 if mv else 1)
    if not quick: p['depth'] += 1; p['slots'] += 1
    return p

def script_of(path, t, rng, q=0.25, con=False, mix=None):
    out = []
    nv = 3
    has_con = con and hascon(t) and conok(t)
    for l in path:
        op, v, u, s, n, bits = l
        b = ''.join(map(str, bits)) or '-'
        if op in 'aA':
            out.append('%s %d %d %d %s' % (op, v, s, n, b))
            if has_con and op == 'a' and rng.random() < .8: out.append('k %d %d %d %d' % (v, s, rng.randrange(1000), rng.randrange(1000)))
        elif op == 'D':
            if has_con: out.append('K 0 %d' % s)
            out.append('D %d %d' % (v, s))
        elif op == 'w': out.append('w 0 %d %d %d' % (s, n, v))
        elif op == 'k': out.append('k %d %d %d %d' % (v, s, rng.randrange(1000), rng.randrange(1000)))
        elif op == 'K': out.append('K 0 %d' % s)
        elif op in 'UJL': out.append('%s %d' % (op, s))
        elif op == 'E': out.append('E %d %d' % (v, s))
        elif op in 'CMcm': out.append('%s %d %d' % (op, v, u))
        else: out.append('%s %d' % (op, v))
        if rng.random() < q: out.append(query(rng, nv, mix))
    for s in range(1, 9): out += (['K 0 %d' % s] if has_con else []) + ['d 0 %d' % s]
    return out
def query(rng, nv, mix=None):
    r = rng.random(); v = rng.randrange(1, nv + 1)
    lo, hi = mix or (.45, .7)
    if r < lo: return 'o %d %d' % (v, rng.choice([1, 1, 2, 2, 3, 4, -1, -2, -3]))
    if r < hi: return 'x %d' % v
    return 'q %d %d' % (v, rng.randrange(1, nv + 1))

def random_script(t, rng, n, con=False, fail=False):
    S = sizes_rnd(t); out = ['N 1']; o = ops_of(t)
    has_con = con and hascon(t) and conok(t)
    slots = rng.choice([2, 4, 7, 12])
    pf = rng.choice([0, .1, .3, .6])
    few = rng.sample(S, min(len(S), 3)) if rng.random() < .5 else S
    grow = rng.choice([.35, .5, .65])
    nv = 1 if rng.random() < .3 else 3
    for i in range(n):
        r = rng.random(); v = rng.randrange(1, nv + 1) if rng.random() < .5 else 1; s = rng.randrange(1, slots + 1)
        if r < .62:
            if rng.random() < grow:
                b = ''.join('0' if rng.random() < pf else '1' for _ in range(8)) if pf else '-'
                sz = rng.choice(few) if rng.random() < .97 else rng.choice(HUGE)
                out.append('%s %d %d %s %s' % ('A' if 'A' in o and rng.random() < .3 else 'a', v, s, sz, b))
                if has_con and rng.random() < .6: out.append('k %d %d %d %d' % (v, s, rng.randrange(1000), rng.randrange(1000)))
            else:
                if has_con and rng.random() < .8: out.append('K 0 %d' % s)
                out.append(('d 0 %d' % s) if rng.random() < .6 else 'D %d %d' % (v, s))
        elif r < .82: out.append(query(rng, nv))
        elif r < .86 and nv > 1: out.append('N %d' % rng.randrange(1, nv + 1))
        elif r < .94 and nv > 1:
            op = rng.choice(o)
            w = rng.randrange(1, nv + 1)
            if op in 'X': out.append('X %d' % v)
            elif op in 'CM': out.append('%s %d %d' % (op, rng.randrange(1, nv + 1), v))
            elif op in 'cm':
                if not (v == w and op == 'm' and root(t) == 'val'): out.append('%s %d %d' % (op, v, w))
            elif op == 'S': out.append('S %d' % v)
        elif fail and r < .97: out.append('f %d %d' % (rng.randrange(0, 2), rng.randrange(1, 3)))
    for s in range(1, slots + 1): out += (['K 0 %d' % s] if has_con else []) + ['d 0 %d' % s]
    return out

# ---------------------------------------------------------------- compositions
def Z():
    z = {}
    # freelists
    z['fl1'] = lambda: fl(0, 16, lf())
    z['fl2'] = lambda: fl(8, 32, lf())
    z['fl3'] = lambda: fl(0, 24, hd())
    z['fl4'] = lambda: fl(15, 16, fb(lf(), lf()))
    z['fl5'] = lambda: sg(16, fl(0, 16, lf()), fl(16, 40, lf()))
    z['fl6'] = lambda: fl(0, 32, fl(8, 32, lf()))
    z['fl7'] = lambda: fl(16, 64, ca(lf()))
    z['fl8'] = lambda: sh(fl(0, 16, lf()))
    z['fl9'] = lambda: fl(4, 48, sg(48, hd(), hd()))
    z['fla'] = lambda: fb(fl(0, 16, lf()), fl(8, 32, lf()), lf())
    # cascading
    z['ca1'] = lambda: ca(lf())
    z['ca2'] = lambda: ca(hd(max=32))
    z['ca3'] = lambda: ca(fl(0, 32, lf()))
    z['ca4'] = lambda: ca(fb(lf(), lf(max=64)))
    z['ca5'] = lambda: fb(ca(lf(max=16)), lf())
    z['ca6'] = lambda: sh(ca(lf()))
    z['ca7'] = lambda: ca(sg(16, lf(max=16), lf(max=48)))
    z['ca8'] = lambda: sg(24, ca(lf(max=24)), ca(fl(24, 48, lf())))
    z['ca9'] = lambda: ca(ca(lf(max=32)))
    # segregation
    z['sg1'] = lambda: sg(16, lf(), lf())
    z['sg2'] = lambda: sg(16, hd(), sg(32, hd(), hd()))
    z['sg3'] = lambda: sg(32, sg(8, lf(), lfn()), lfn())
    z['sg4'] = lambda: sgmin(lf(), 8, lf(), 16, lf())
    z['sg5'] = lambda: sgmax(lf(), 8, lf(), 16, lf())
    z['sg6'] = lambda: sgmin(lf(), 8, lf(), 16, lf(), 24, lf())
    z['sg7'] = lambda: sgmax(lf(), 8, lf(), 16, lf(), 24, lf())
    z['sg8'] = lambda: sgmin(lf(), 8, lf(), 16, lf(), 24, lf(), 32, lf())
    z['sg9'] = lambda: sgmax(lf(), 8, lf(), 16, lf(), 24, lf(), 32, lf())
    z['sga'] = lambda: sgmin(*sum([[lf(), 8 * k] for k in range(1, 6)], []) + [lf()])
    z['sgb'] = lambda: sgmax(*sum([[lf(), 8 * k] for k in range(1, 6)], []) + [lf()])
    z['sgc'] = lambda: sgmin(*sum([[lf(), 8 * k] for k in range(1, 7)], []) + [lf()])
    z['sgd'] = lambda: sgmax(*sum([[lf(), 8 * k] for k in range(1, 7)], []) + [lf()])
    z['sge'] = lambda: sgmin(*sum([[lf(), 8 * k] for k in range(1, 8)], []) + [lf()])
    z['sgf'] = lambda: sgmax(*sum([[lf(), 8 * k] for k in range(1, 9)], []) + [lf()])
    z['sgg'] = lambda: sgmin(lf(), 12, lf())
    z['sgh'] = lambda: sh(sg(16, fl(0, 16, lf()), lf()))
    z['sgi'] = lambda: sg(16, lf(max=16), lf(max=100))
    z['sgj'] = lambda: sg(1024, hd(), sg(70000, hd(), hd()))
    z['sgk'] = lambda: sg(0, lf(), sg(4096, lf(), lf()))
    z['sgl'] = lambda: sgmax(lf(), 100, lf(), 1000, lf(), 10000, lf())
    z['sgm'] = lambda: sg(48, lf(max=64), lf(max=24))
    z['sgn'] = lambda: sg(16, sp(), lf())
    z['sgo'] = lambda: sgmin(lf(max=64), 40, lf(max=16), 50, lf(max=8))
    # fallback
    z['fb1'] = lambda: fb(lf(), lf())
    z['fb2'] = lambda: fb(lf(), lf(), lfn())
    z['fb3'] = lambda: fb(fb(lf(), lf()), lf())
    z['fb4'] = lambda: fbmin(lf(), lf(), lf())
    z['fb5'] = lambda: fbmax(lf(), lf(), lf())
    z['fb6'] = lambda: fbmin(lf(), lf(), lf(), lf(), lfn())
    z['fb7'] = lambda: fbmax(lf(), lf(), lf(), lf(), lfn())
    z['fb8'] = lambda: fbmin(*[lf() for _ in range(6)])
    z['fb9'] = lambda: fbmax(*[lf() for _ in range(7)])
    z['fba'] = lambda: fbmax(*[lf() for _ in range(4)])
    z['fbb'] = lambda: fbmin(lf(), lf())
    z['fbc'] = lambda: fb(hd(), hd())
    z['fbd'] = lambda: fb(lf(max=16), lf(max=64))
    z['fbe'] = lambda: fb(sg(16, lf(), lf()), lfn())
    z['fbf'] = lambda: fbmin(*[hd() for _ in range(3)])
    z['fbg'] = lambda: fb(lf(max=64), lf(max=16))
    z['fbh'] = lambda: fb(sp(), lf())
    # sharing
    z['sh1'] = lambda: sh(lf())
    z['sh2'] = lambda: sh(lf(), 1)
    z['sh3'] = lambda: ty(8, sh(lf()))
    z['sh4'] = lambda: sh(th(lf()), 1)
    z['sh5'] = lambda: sh(fb(lf(), lf()))
    z['sh6'] = lambda: sh(fl(0, 16, ca(lf())), 1)
    z['sh7'] = lambda: ty('Obj', sh(lfc(), 1))
    # wrappers
    z['rf1'] = lambda: rf(lf(max=100))
    z['rf2'] = lambda: rf(fl(0, 32, lf()))
    z['rf3'] = lambda: ty(16, rf(lf()))
    z['gl1'] = lambda: gl(sp(max=64))
    z['gl2'] = lambda: gl(fl(0, 32, sp()))
    z['gl3'] = lambda: ty(4, gl(sp()))
    z['gl4'] = lambda: gl(fb(sp(), sp()))
    z['th1'] = lambda: th(lf(max=50))
    z['th2'] = lambda: th(fb(lf(), lf()))
    z['ty1'] = lambda: ty(12, lf(max=120))
    z['ty2'] = lambda: ty(1, hd())
    z['ty3'] = lambda: ty(48, fb(hd(), hd(max=400)))
    z['ty4'] = lambda: ty('Obj', rf(th(lfc())))
    z['ty5'] = lambda: ty(40, sh(sg(80, lf(), lf())))
    z['wr1'] = lambda: sh(rf(th(lf(max=30))))
    z['wr2'] = lambda: ty('Obj', sh(rf(th(lfc()))))
    z['wr3'] = lambda: th(rf(sh(lf())))
    # construction
    z['cn1'] = lambda: fb(lfc(), lfc())
    z['cn2'] = lambda: fb(lf(), lfc())
    z['cn3'] = lambda: fb(lfc(), probe(0, 1))
    z['cn4'] = lambda: sg(16, lfc(), lfc())
    z['cn5'] = lambda: sg(16, lfc(), lf())
    z['cn6'] = lambda: ca(lfc())
    z['cn7'] = lambda: ca(fb(lfc(), lf()))
    z['cn8'] = lambda: fl(0, 16, fb(lf(), lfc()))
    z['cn9'] = lambda: fbmin(lfc(), lf(), lfc(), lfc())
    z['cna'] = lambda: sgmax(lfc(), 8, lfc(), 16, lfc())
    z['cnb'] = lambda: ty('Obj', sh(fb(lfc(), lf())))
    z['cnc'] = lambda: ov(fb(lfc(), lf()))
    z['cnd'] = lambda: fb(ov(hd()), ov(hd(con=1)))
    z['cne'] = lambda: sg(32, ov(hd(con=1)), ov(hd()))
    z['cnf'] = lambda: rf(ca(lfc()))
    z['cng'] = lambda: th(fb(lfc(), lfc()))
    z['cnh'] = lambda: gl(fb(sp(con=1), sp(con=1)))
    z['cni'] = lambda: ty('Obj', rf(ov(lf())))
    z['cnj'] = lambda: sh(ov(ca(lfc())))
    # overflow in the middle
    z['ov1'] = lambda: ov(lf())
    z['ov2'] = lambda: fl(0, 32, ov(lf()))
    z['ov3'] = lambda: ov(fl(0, 160, lf()))
    z['ov4'] = lambda: ov(sg(144, lf(), ca(lf())))
    z['ov5'] = lambda: sh(ov(fb(lf(), lfn())))
    z['ov6'] = lambda: ov(ov(lf()))
    return z
PROPS = {
 'P03': 'fl1 fl3 fl4 fl5 fl6 fl7 fl8 fl9 fla ca1 ca2 ca3 ca4 ca5 ca8 ca9 sg2 sgh fb2 fbc fbf sh5 sh6 rf2 gl2 ov2 ov3 ov4 ov5 ov6 ty3 ty5'.split(),
 'P05': 'fl1 fl2 fl3 fl4 fl5 fl6 fl7 fl8 fl9 fla ca3 sgh rf2 gl2 ov2 ov3 sh6'.split(),
 'P06': 'ca1 ca2 ca3 ca4 ca5 ca6 ca7 ca8 ca9 fl7 cn6 cn7 ov4'.split(),
 'P07': ['sg%s' % x for x in '123456789abcdefghijklmno'] + ['fl5', 'fl9', 'cna', 'ca8'],
 'P08': ['fb%s' % x for x in '123456789abcdefgh'] + ['fl4', 'fla', 'ca4', 'ca5', 'sh5', 'th2', 'gl4', 'ty3', 'ov5'],
 'P12': 'sh1 sh2 sh3 sh4 sh5 sh6 sh7 fl8 ca6 sgh ov5 cnb ty5'.split(),
 'P14': 'rf1 rf2 rf3 gl1 gl2 gl3 gl4 th1 th2 ty1 ty2 ty3 ty4 ty5 wr1 wr2 wr3 sh1 sh3 sh4 sh7 cnf cng cnh'.split(),
 'P24': ['cn%s' % x for x in '123456789abcdefghij'] + ['ty4', 'wr2', 'sh7'],
}

def random_tree(rng, depth, ctx='top'):
    """a random composition; ctx says what is allowed: 'ca' must be default constructible"""
    def leaf():
        return probe(1, rng.random() < .2, rng.choice([0, 0, 0, 16, 40, 100]), rng.choice(['probe', 'probe', 'hprobe']))
    if depth == 0: return leaf()
    k = rng.choice(['fb', 'fb', 'sg', 'sg', 'fl', 'ca', 'ov', 'th', 'lf'])
    sub = lambda c=ctx: random_tree(rng, depth - 1, c)
    if k == 'ov' and ctx == 'ca': k = 'fl'
    if k == 'fb':
        n = rng.choice([2, 2, 3, 4])
        l = [sub('ca' if n > 2 else ctx) for _ in range(n)]
        return rng.choice([fb, fbmin, fbmax])(*l) if n > 2 else fb(*l)
    if k == 'sg':
        n = rng.choice([2, 2, 3, 4]); th_ = sorted(rng.sample(rng.choice([[8, 12, 16, 24, 32, 48, 64], [0, 1, 16, 100, 256, 1000, 1024, 5000, 9999, 32768, 100000]]), n - 1))
        if n == 2: return sg(th_[0], sub(), sub())
        a = [sub('ca')]
        for x in th_: a += [x, sub('ca')]
        return rng.choice([sgmin, sgmax])(*a)
    if k == 'fl':
        lo, hi = rng.choice([(0, 16), (0, 32), (8, 24), (16, 64), (15, 16), (0, 200), (100, 1000), (0, 4096), (1024, 65536)]); return fl(lo, hi, sub())
    if k == 'ca': return ca(sub('ca'))
    if k == 'ov': return ov(sub())
    if k == 'th': return th(sub()) if ctx != 'ca' else leaf()
    return leaf()
def top_tree(rng, depth):
    t = random_tree(rng, depth)
    r = rng.random()
    if r < .2: t = sh(t, rng.random() < .5)
    elif r < .3: t = rf(t)
    if r < .3 and rng.random() < .5: t = ty(rng.choice([1, 4, 8, 12, 40]), t)
    return t
def ownable(t):
    "every fallback and cascade can ask for ownership"
    if t.k == 'fb' and not all(hasown(c) for c in t.l[:-1]): return False
    if t.k == 'ca' and not hasown(t.a): return False
    if t.k in ('fb', 'sg') and args(t) and not all(cxxmovable(x) for x in t.l): return False
    return all(ownable(c) for c in kids(t))

def random_trees(rng, k, want=None, make=None):
    T = {}
    while len(T) < k:
        t = make(rng) if make else top_tree(rng, rng.choice([2, 3, 3]))
        number(t)
        if not ownable(t) or len(leaves(t)) > 9 or (want and not has(t, want)): continue
        T['rn%d' % len(T)] = t
    return T

def run_trees(c, T, mc, real=False, script=None, params_=None, nrand=None, variants=None, tag='compose', lens=(15, 40, 80, 120), maxpaths=None, q=.25, con=False, mix=None):
    """T: name -> tree; mc: names to explore exhaustively; script(t, rng, n): random scripts"""
    tj = '%s/trees-%s.json' % (c.out, tag); json.dump({n: js(t) for n, t in T.items()}, open(tj, 'w'))
    env = {'TREES': tj}
    names = sorted(T)
    nt = 8
    tus = {'tu%d' % k: tu([(n, T[n]) for n in names[k::nt]]) for k in range(nt) if names[k::nt]}
    tus['main'] = MAIN % ('true' if real else 'false')
    vs = variants or (['asan17', 'opt20'] if c.quick else ['asan17', 'opt20', 'asan20', 'opt17', 'clang20'])
    outer = ThreadPoolExecutor(len(vs) + 1)
    builds = [(v, outer.submit(c.build, tag, tus, v)) for v in vs]
    def par(n):
        p = (params_ or params)(T[n], c.quick); p.setdefault('cfg', n); p.setdefault('sizes', sizes_mc(T[n])); p.setdefault('ops', ops_of(T[n])); p.setdefault('cap', 3000 if c.quick else 20000); return p
    scripts = []
    for n, paths in c.explore('ComposeMC', [par(n) for n in names if n in mc], env, maxpaths=maxpaths or (300 if c.quick else 900)).items():
        rng = random.Random('%s-%s-%d' % (c.prop, n, SEED))
        for k, p in enumerate(paths): scripts.append(('%s.m%d' % (n, k), n, script_of(p, T[n], rng, q=q, con=con, mix=mix)))
    for n in names:
        rng = random.Random('%s-%s-%d-r' % (c.prop, n, SEED))
        for k in range(nrand or (25 if c.quick else 150)): scripts.append(('%s.r%d' % (n, k), n, script(T[n], rng, rng.choice(lens))))
    for v, b in builds:
        exe = b.result()
        c.judge(exe, 'ComposeTrace', scripts, env, tag + '-' + v)
        if c.viol: break
    return scripts

WANT = {'P05': 'fl', 'P06': 'ca', 'P07': 'sg', 'P08': 'fb', 'P12': 'sh', 'P14': 'ty'}
def run_compose(c):
    con = c.prop == 'P24'
    z = Z()
    T = {n: number(z[n]()) for n in PROPS[c.prop]}
    mc = set(T)
    T.update(random_trees(random.Random('%s-%d-trees' % (c.prop, SEED)), 8 if c.quick else 40, WANT.get(c.prop)))
    run_trees(c, T, mc, script=lambda t, rng, n: random_script(t, rng, n, con=con), con=con)
    c.assumptions = ['leaves honour the allocator contract (recording leaves are part of the harness)', 'design exploration is bounded: see the PARAMS of spec/ComposeMC in out/%s/par-*.json' % c.prop,
                     'usage stays within the documented contract']

CHECKS = {p: run_compose for p in PROPS}
