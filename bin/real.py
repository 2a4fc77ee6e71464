"""Checks on compositions of the library's own memory providers, and on the overflow-checking allocator."""
from compose import *

def R():
    r = {}
    r['lin1'] = lambda: lin(64); r['lin2'] = lambda: lin(100); r['lin3'] = lambda: lin(1024); r['lin4'] = lambda: lin(16); r['lin5'] = lambda: lin(130)
    r['stk1'] = lambda: stk(64); r['stk2'] = lambda: stk(200); r['stk3'] = lambda: stk(1000); r['stk4'] = lambda: stk(33)
    r['mal1'] = lambda: mal()
    r['fl1'] = lambda: fl(0, 32, lin(160)); r['fl2'] = lambda: fl(8, 64, stk(256)); r['fl3'] = lambda: fl(0, 48, mal()); r['fl4'] = lambda: fl(0, 24, fb(lin(64), mal()))
    r['ca1'] = lambda: ca(lin(64)); r['ca2'] = lambda: ca(fl(0, 32, lin(128))); r['ca3'] = lambda: ca(fb(lin(64), lin(128))); r['ca4'] = lambda: ca(sg(16, lin(32), lin(96))); r['ca5'] = lambda: ca(ca(lin(48)))
    r['fb1'] = lambda: fb(lin(64), mal()); r['fb2'] = lambda: fb(stk(96), fb(lin(48), mal())); r['fb3'] = lambda: fb(lin(64), nul()); r['fb4'] = lambda: fbmin(lin(32), lin(64), lin(128), mal()); r['fb5'] = lambda: fbmax(lin(32), lin(64), nul(), lin(128), mal())
    r['fb6'] = lambda: fb(stk(64), stk(128)); r['fb7'] = lambda: fb(stk(64), mal()); r['fb8'] = lambda: fb(lin(64), fb(ca(lin(48)), mal()))
    r['sg1'] = lambda: sg(16, lin(64), mal()); r['sg2'] = lambda: sgmin(lin(64), 16, lin(128), 64, mal()); r['sg3'] = lambda: sg(32, fl(0, 32, lin(128)), fb(lin(200), mal())); r['sg4'] = lambda: sg(24, stk(96), stk(200))
    r['ov1'] = lambda: ov(lin(512)); r['ov2'] = lambda: ov(mal(), 1); r['ov3'] = lambda: ov(stk(1024)); r['ov4'] = lambda: ov(fb(lin(400), mal()), 1); r['ov5'] = lambda: fl(0, 200, ov(mal())); r['ov6'] = lambda: ov(ca(lin(512)))
    r['sh1'] = lambda: sh(lin(128)); r['sh2'] = lambda: sh(ca(lin(64)), 1); r['sh3'] = lambda: sh(th(fb(lin(64), mal())), 1); r['sh4'] = lambda: sh(mal()); r['sh5'] = lambda: sh(fl(0, 32, fb(lin(64), mal())))
    r['th1'] = lambda: th(lin(96)); r['th2'] = lambda: th(mal()); r['th3'] = lambda: th(ca(lin(64)))
    r['rf1'] = lambda: rf(lin(100)); r['rf2'] = lambda: rf(fl(0, 32, lin(96))); r['rf3'] = lambda: rf(th(mal()))
    r['gl1'] = lambda: gl(lin(128)); r['gl2'] = lambda: gl(ca(lin(64))); r['gl3'] = lambda: gl(mal()); r['gl4'] = lambda: gl(fb(lin(48), mal()))
    r['ty1'] = lambda: ty(8, sh(lin(200))); r['ty2'] = lambda: ty(12, mal()); r['ty3'] = lambda: ty(24, rf(stk(160))); r['ty4'] = lambda: ty(16, stk(96)); r['ty5'] = lambda: ty(40, sh(fb(lin(160), mal()))); r['ty6'] = lambda: ty(3, lin(64)); r['ty7'] = lambda: ty(48, gl(lin(256))); r['ty8'] = lambda: ty(1, ov(lin(300))); r['ty9'] = lambda: ty(4, sh(ca(lin(64)))); r['tya'] = lambda: ty(7, mal()); r['tyb'] = lambda: ty(1000, sh(fb(lin(2000), mal())))
    # providers whose order of size, state or statefulness is the unusual one
    r['sg5'] = lambda: sg(16, mal(), lin(96)); r['sg6'] = lambda: sg(200, lin(256), lin(64)); r['sg7'] = lambda: sg(48, stk(200), stk(33)); r['sg8'] = lambda: sg(32, nul(), lin(64)); r['sg9'] = lambda: sgmax(lin(300), 100, lin(64), 250, lin(16)); r['sga'] = lambda: sgmin(mal(), 16, mal(), 64, lin(128))
    r['fb9'] = lambda: fb(nul(), lin(64)); r['fba'] = lambda: fb(lin(128), lin(48)); r['fbb'] = lambda: fb(nul(), stk(64))
    return r

def impossible(t):
    l = ['M0', 'M1', 'M7', 'M14', 'M15', 'M16', 'M17', 'M63', 'M64', 'M126', 'M127', 'M128', 'M129', 'M200', 'M255', 'H0', 'H1', 'H100']
    if t.k == 'ty':
        u = tysize(t)
        if u > 1: l += ['D%d' % u, 'E%d' % u, 'F%d' % u] * 5
    return l
def params_real(t, quick):
    only = [l for l in leaves(t)]
    shared = root(t) in ('sh', 'rf', 'gl')
    p = dict(vars=1, slots=3, depth=8, blocks=3, inst=4, cap=1000 if quick else 12000)
    if len(only) == 1 and t.k in ('lin', 'stk'): p = dict(vars=1, slots=4, depth=8, blocks=4, inst=1, cap=2500 if quick else 25000)
    elif shared or deepcopyable(t): p.update(vars=2, slots=2, blocks=2)
    elif movable(t): p.update(vars=2, slots=2, blocks=2, inst=6)
    if has(t, 'ca'): p['inst'] = 6; p['slots'] = 3 if not shared else 2; p['blocks'] = 3
    p['weight'] = (5 if has(t, 'ca') else 1) * (3 if shared else 1)
    u = tysize(t) if t.k == 'ty' else 1
    off = 128 if has(t, 'ov') else 0
    caps = [x // u for x in sorted({max(0, x - off) for x in bounds(t.a if t.k == 'ty' else t)})]
    s = {0, 16 // u + 1} | ({caps[-1], caps[-1] + 1} if caps else set())
    if len(only) == 1 and t.k in ('lin', 'stk'): s |= {16, caps[-1] // 2}
    elif caps: s |= {caps[0]}
    p['sizes'] = sorted(s)
    if has(t, 'ov'): p['ops'] = ops_of(t) + ['w']; p['at'] = [-1, -64, 0, 63]; p['slots'] = p['blocks'] = 2; p['sizes'] = p['sizes'][:3]
    if not quick: p['depth'] += 2
    return p

def real_sizes(t):
    u = tysize(t) if t.k == 'ty' else 1
    s = {0, 1, 2, 7, 8, 15, 16, 17, 24, 31, 32, 33, 48, 64, 100}
    off = 128 if has(t, 'ov') else 0
    for x in bounds(t.a if t.k == 'ty' else t):
        for d in (-17, -16, -1, 0, 1, 16): s |= {max(0, x + d), max(0, x - off + d), max(0, x // 2 + d)}
    return sorted({x // u for x in s} | {0, 1})

def real_script(t, rng, n, imp=.06, oom=.04, query_=.18, smash=0, forget=0, eqret=.1, con=False, mix=None):
    S = real_sizes(t); out = ['N 1']; o = ops_of(t); IMP = impossible(t)
    has_con = con and hascon(t) and conok(t)
    nest = ovdepth(t)
    can_oom = oom and not any(has(c, 'ca') for x in nodes(t) if x.k == 'ca' for c in kids(x))
    slots = rng.choice([2, 4, 7, 12, 20])
    few = rng.sample(S, min(len(S), 3)) if rng.random() < .5 else S
    grow = rng.choice([.4, .5, .6, .75])
    lifo = rng.random() < .4; stack = []
    nv = 1 if rng.random() < .35 else 3
    if nv > 1 and rng.random() < .6: out.append('N 2')
    for i in range(n):
        r = rng.random(); v = rng.randrange(1, nv + 1) if rng.random() < .5 else 1; s = rng.randrange(1, slots + 1)
        if rng.random() < imp: out.append('a %d %d %s' % (v, s, rng.choice(IMP))); continue
        if smash and rng.random() < smash:
            k = rng.choice([1, 1, 2, 4])
            for _ in range(k):
                w = 64 * (nest if rng.random() < .3 else 1)
                at = rng.choice([-1, -2, -64, -63, 0, 1, 63, 62, -w, w - 1, rng.randrange(-w, w)])
                out.append('w 0 %d %d %d' % (s, at, rng.choice([1, 255, 0, 128, 90, rng.randrange(256)])))
            continue
        if forget and rng.random() < forget: out.append('L %d' % s); continue
        if con and has_con and rng.random() < .15:
            out.append(rng.choice(['k %d %d 1 2' % (v, s), 'K 0 %d' % s, 'U %d' % s, 'J %d' % s, 'k %d %d 1 2' % (v, s), 'K 0 %d' % s])); continue
        if r < .72:
            if rng.random() < grow:
                if can_oom and rng.random() < oom * 3: out.append('f %d %d' % (rng.choice([0, 0, 1]), rng.choice([1, 1, 2, 9])))
                if lifo: s = rng.randrange(1, slots + 1); stack.append(s)
                out.append('%s %d %d %s' % ('A' if 'A' in o and rng.random() < .3 else 'a', v, s, rng.choice(few if rng.random() < .9 else S)))
            else:
                if lifo and stack: s = stack.pop()
                if has_con and rng.random() < .6: out.append(('K 0 %d' if rng.random() < .7 else 'J %.0s%d') % (0, s) if False else ('K 0 %d' % s if rng.random() < .7 else 'J %d' % s))
                x = rng.random()
                out.append('E %d %d' % (v, s) if x < eqret else 'd 0 %d' % s if x < .7 else 'D %d %d' % (v, s))
        elif r < .72 + query_: out.append(query(rng, nv, mix) if rng.random() < .7 else 'o %d %d' % (v, s) if not mix or mix[0] > .3 else 'q %d %d' % (v, rng.randrange(1, nv + 1)))
        elif r < .93 and nv > 1: out.append('N %d' % rng.randrange(1, nv + 1))
        elif nv > 1:
            op = rng.choice(o); w = rng.randrange(1, nv + 1)
            if op == 'X': out.append('X %d' % v)
            elif op in 'CM': out.append('%s %d %d' % (op, rng.randrange(1, nv + 1), v))
            elif op in 'cm':
                if not (v == w and op == 'm' and root(t) == 'val'): out.append('%s %d %d' % (op, v, w))
            elif op == 'S': out.append('S %d' % v)
    if not forget or rng.random() < .5:
        order = list(range(1, slots + 1))
        if rng.random() < .5: rng.shuffle(order)
        for s in order: out += (['K 0 %d' % s] if has_con else []) + ['d 0 %d' % s]
    # everything returned: all of it is available again
    S2 = [x for x in S]; out.append('a 1 1 %s' % max(S2)); out.append('d 0 1'); out.append('a 1 1 %s' % rng.choice(S2))
    return out
def ovdepth(t):
    "guards around every block"
    d = min([ovdepth(c) for c in kids(t)], default=0)
    return d + (t.k == 'ov')
def nodes(t): return [t] + [x for c in kids(t) for x in nodes(c)]

def random_real(rng, depth=2, ctx='top'):
    def leaf(own=False):
        k = rng.choice(['lin', 'lin', 'stk', 'mal'] if not own else ['lin', 'lin', 'stk'])
        if ctx == 'ca' and k == 'stk': k = 'lin'
        n = rng.choice([16, 33, 64, 100, 128, 200, 512])
        return lin(n) if k == 'lin' else stk(n) if k == 'stk' else mal()
    def go(d, ctx, own):
        if d == 0:
            k = rng.choice(['lin', 'lin', 'stk', 'mal'] if not own else ['lin', 'lin', 'stk'])
            if ctx == 'ca' and k == 'stk': k = 'lin'
            n = rng.choice([16, 33, 64, 100, 128, 200, 512])
            return lin(n) if k == 'lin' else stk(n) if k == 'stk' else mal()
        k = rng.choice(['fb', 'fb', 'sg', 'fl', 'ca', 'ov', 'th', 'leaf'])
        if ctx == 'ca' and k in ('ov', 'th'): k = 'fl'
        if k == 'fb':
            # arguments can only be forwarded to two
            return fb(go(d - 1, ctx, True), go(d - 1, ctx, own))
        if k == 'sg': return sg(rng.choice([8, 16, 40, 64]), go(d - 1, ctx, own), go(d - 1, ctx, own))
        if k == 'fl':
            lo, hi = rng.choice([(0, 16), (0, 32), (8, 24), (16, 64), (15, 16)]); return fl(lo, hi, go(d - 1, ctx, own))
        if k == 'ca': return ca(go(d - 1, 'ca', True))
        if k == 'ov': return ov(go(d - 1, ctx, own), rng.random() < .4)
        if k == 'th': return th(go(d - 1, ctx, own))
        return go(0, ctx, own)
    t = go(rng.choice([1, 2, 2, 3]), ctx, False)
    r = rng.random()
    if r < .2: t = sh(t, rng.random() < .5)
    elif r < .3: t = rf(t)
    if r < .3 and rng.random() < .6: t = ty(rng.choice([1, 3, 8, 12, 16, 40]), t)
    return t

def guarded(t):
    "every block lies between the guards of an overflow allocator"
    return t.k == 'ov' or (bool(kids(t)) and all(guarded(c) for c in kids(t)))
def R10():
    r = {k: f for k, f in R().items() if k.startswith('ov')}
    r.update({'og1': lambda: fb(ov(lin(400)), ov(mal())), 'og2': lambda: sg(32, ov(stk(600)), ov(mal(), 1)), 'og3': lambda: sh(ov(mal()), 1), 'og4': lambda: ca(ov(lin(512))) if False else rf(ov(lin(700))),
              'og5': lambda: ov(ov(lin(900))), 'og6': lambda: ty(24, sh(ov(mal()))), 'og7': lambda: th(ov(lin(600))), 'og8': lambda: ov(sg(160, lin(800), mal())), 'og9': lambda: ov(fl(100, 256, mal())),
              'oga': lambda: fb(ov(stk(300)), fb(ov(lin(500)), ov(mal()))), 'ogb': lambda: ov(ca(fl(0, 256, lin(600)))), 'ogc': lambda: ty('Obj', rf(ov(mal()))), 'ogd': lambda: ov(nul()), 'oge': lambda: fl(0, 64, fb(ov(lin(400)), ov(mal())))})
    return r
def Z10():
    return {'op1': lambda: ov(lf()), 'op2': lambda: ov(hd(), 1), 'op3': lambda: ov(fb(lf(), lfn())), 'op4': lambda: fb(ov(hd()), ov(hd())), 'op5': lambda: ov(ov(lf())), 'op6': lambda: ov(ca(lf())), 'op7': lambda: fl(0, 48, ov(lf())),
            'op8': lambda: ov(fl(0, 200, lf())), 'op9': lambda: sg(24, ov(hd()), ov(hd(), 1)), 'opa': lambda: sh(ov(lf())), 'opb': lambda: ty('Obj', sh(ov(lfc()))), 'opc': lambda: ov(lfc()), 'opd': lambda: fb(ov(hd(con=1)), ov(hd())),
            'ope': lambda: ov(lf(max=200)), 'opf': lambda: ov(sp(con=1)), 'opg': lambda: ty(16, rf(ov(hd())))}

def params_ov(t, quick, probes):
    p = (params if probes else params_real)(t, quick)
    p['sizes'] = p.get('sizes') or sizes_mc(t); p['sizes'] = [x for x in p['sizes'] if x < 400][:2] or [1]
    p['cap'] = 800 if quick else 8000
    return p
def params10(probes):
    def f(t, quick):
        p = params_ov(t, quick, probes)
        p.update(vars=1, slots=2 if not has(t, 'fl') else 3, blocks=2, depth=8, ops=['X', 'w'], at=[-64, -1, -33, 0, 63, 17])
        if quick: p['at'] = p['at'][:2] + p['at'][3:5]
        return p
    return f
def params11(probes):
    def f(t, quick):
        p = params_ov(t, quick, probes); n = len(leaves(t))
        val = root(t) == 'val'
        p.update(vars=2 if val else 1, slots=2, blocks=3, depth=9, obj=-(-8 // (tysize(t) if t.k == 'ty' else 1)), ops=['X', 'L', 'E'] + (['k'] if hascon(t) and conok(t) and not (t.k == 'ty' and t.t != 'Obj') else []))
        p['inst'] = max(p['inst'], 2 * n)
        p['sizes'] = [0, 8] if t.k != 'ty' else [0, 1]
        return p
    return f
def params15(probes):
    def f(t, quick):
        p = (params if probes else params_real)(t, quick); n = len(leaves(t))
        p['sizes'] = (p.get('sizes') or sizes_mc(t))[:2]
        p.update(vars=3 if n == 1 else 2, slots=2, blocks=2, depth=7 if quick else 8, ops=ops_of(t) + ['E'], cap=600 if quick else 6000); p['inst'] = max(p['inst'], p['vars'] * n)
        return p
    return f
def params9(probes):
    def f(t, quick):
        p = (params if probes else params_real)(t, quick); p['cap'] = 500 if quick else 6000
        return p
    return f

ALLZ = Z()
RPROPS = {
 'P01': dict(imp=.01, oom=.01),
 'P02': dict(imp=.2, oom=.15, query_=.05),
 'P04': dict(imp=.02, oom=0, query_=.03),
 'P09': dict(imp=.05, oom=.05, query_=.55),
 'P10': dict(imp=.02, oom=.05, query_=.05, smash=.45, eqret=.1),
 'P11': dict(imp=.08, oom=.1, query_=.05, forget=.08, eqret=.3, con=True),
 'P15': dict(imp=.01, oom=.01, query_=.5, eqret=.5),
}
P04 = 'lin1 lin2 lin3 lin4 lin5 stk1 stk2 stk3 stk4 sh1 rf1 gl1 th1 ty3 ty4 ty6 fb3 fb6 ca1 sg4'.split()
SPAR = {'P10': params10, 'P11': params11, 'P15': params15, 'P09': params9}
QMIX = {'P09': (.9, [.62, .95]), 'P15': (.7, [.1, .2])}
def run_real(c):
    opt = RPROPS[c.prop]
    r = R(); z = {}
    if c.prop in ('P10', 'P11'): r = R10(); z = Z10()
    if c.prop == 'P11': r.update({k: R()[k] for k in ()}); z.update({k: ALLZ[k] for k in 'cnc cnd cne cnj ov5'.split()})
    if c.prop == 'P04': r = {k: r[k] for k in P04}
    if c.prop in ('P09', 'P15'): z = {k: ALLZ[k] for k in sorted(set(sorted(ALLZ)[(0 if c.prop == 'P09' else 1)::2]) | {'sgm', 'sgn', 'fbg', 'fbh', 'sgo'})}
    if c.prop == 'P09': z = {k: f for k, f in z.items() if hasown(f()) or maxsize(f())}; r = {k: f for k, f in r.items() if hasown(f()) or maxsize(f())}
    q = QMIX.get(c.prop, (.1, None))[0]
    want = lambda t: {'P10': guarded(t), 'P11': has(t, 'ov')}.get(c.prop, True)
    rng = random.Random('%s-%d-trees' % (c.prop, SEED)); k = 12 if c.quick else 60
    def pick(make, pre):
        T = {}
        while len(T) < k:
            for t in random_trees(rng, 1, make=make).values():
                if want(t): T['%s%d' % (pre, len(T))] = t
        return T
    for real, conf, make in ((True, r, random_real), (False, z, lambda g: top_tree(g, g.choice([2, 2, 3])))):
        if not conf: continue
        T = {n: number(conf[n]()) for n in sorted(conf)}; mc = set(T)
        if c.prop != 'P04': T.update(pick(make, 'rr' if real else 'rz'))
        par = SPAR[c.prop](not real) if c.prop in SPAR else params_real
        run_trees(c, T, mc, real=real, tag='real' if real else 'probe', params_=par, q=q, con=bool(opt.get('con')), mix=QMIX.get(c.prop, (0, None))[1],
                  nrand=(120 if c.prop == 'P04' else 40) if c.quick else 250, maxpaths=(150 if z else 250) if c.quick else 900,
                  script=lambda t, rng, n: real_script(t, rng, n, mix=QMIX.get(c.prop, (0, None))[1], **opt))
        if c.viol: break
    c.assumptions = ['glibc malloc as the system allocator, with failures injected', 'sizes are below 2^24 or above 2^61', 'design exploration is bounded: see the PARAMS of spec/ComposeMC in out/%s/par-*.json' % c.prop]
CHECKS = {p: run_real for p in RPROPS}
