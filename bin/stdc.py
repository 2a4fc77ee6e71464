"""Check of standard containers on typed, shared allocators: spec StdCont."""
from vlib import *
import json, random

# name: shared allocator, providers of one arena that report
SAS = {
  'sp': ('ktl::shared<V::ProvL>', 1), 'ap': ('ktl::atomic_shared<V::ProvL>', 1),
  'sfl': ('ktl::shared<ktl::fallback<ktl::freelist<0, 64, V::ProvL>, V::ProvL>>', 2),
  'ssg': ('ktl::shared<ktl::segragator<32, ktl::freelist<0, 32, V::ProvL>, V::ProvL>>', 2),
  'ath': ('ktl::atomic_shared<ktl::threaded<V::ProvL>>', 1),
  'sth': ('ktl::shared<ktl::threaded<ktl::fallback<ktl::freelist<17, 48, V::ProvL>, V::ProvL>>>', 2),
  'sov': ('ktl::shared<V::Over>', 1),
  'sst': ('ktl::shared<ktl::fallback<ktl::linear_allocator<512>, V::ProvL>>', 1),
  'sln': ('ktl::atomic_shared<ktl::fallback<ktl::linear_allocator<2048>, V::ProvL>>', 1),
  'sca': ('ktl::shared<ktl::segragator<128, ktl::cascading<ktl::linear_allocator<512>>, V::ProvL>>', 1),
  'scp': ('ktl::shared<ktl::segragator<256, ktl::cascading<ktl::fallback<ktl::linear_allocator<300>, ktl::freelist<0, 256, V::ProvL>>>, V::ProvL>>', 0),
}
SEQT, KEYT = ['vi', 'vb', 'vh', 'st', 'di', 'li', 'lh', 'fi'], ['si', 'mh', 'ui', 'um']
ABS = {'vi': ['vi', 'vb', 'vh', 'st', 'di'], 'li': ['li', 'lh', 'fi']}

def line(l, tr):
    op, v, t, w, i, j, n, x, h = l
    if op in ('hnd', 'drop', 'del', 'clr'): return '%s %d' % (op, v)
    if op == 'new': return 'new %d %s %d' % (v, tr[t], h)
    if op == 'newr': return 'newr %d %s %d' % (v, tr[t], w)
    if op in ('ccon', 'mcon', 'cass', 'mass', 'swap'): return '%s %d %d' % (op, v, w)
    if op in ('ccona', 'mcona'): return '%s %d %d %d' % (op, v, w, h)
    if op == 'pb': return ('pf %d %d' if tr['li'] == 'fi' and t == 'li' else 'pb %d %d') % (v, x)
    if op == 'era': return 'era %d %d' % (v, i)
    if op == 'spl': return 'spl %d %d %d' % (v, w, i)
    return 'splr %d %d %d %d %d' % (v, w, i, j, n)

SOPS = ['pb', 'pb', 'pf', 'asg', 'asgn', 'rsz', 'ins', 'insr', 'insn', 'erar', 'shr', 'rsv', 'popb', 'popf', 'emp', 'pba', 'set', 'era']
LOPS = ['srt', 'rev', 'unq', 'rmv', 'spl', 'splr', 'mrg', 'spl', 'splr']
KOPS = ['sin', 'sin', 'sin', 'asn', 'ser', 'sfi', 'xdr', 'sir', 'rsv', 'mrg', 'xtr']
def rand(rng, n):
    out = []; ty = {}
    top = rng.choice([2, 5, 9, 25]); V = lambda: rng.randrange(1, rng.choice([4, 99])); K = lambda: rng.randrange(0, rng.choice([3, 8, 40]))
    vals = lambda: ' '.join(str(V()) for _ in range(rng.choice([0, 1, 2, 3, 5, 9])))
    types = rng.choice([SEQT + KEYT, [rng.choice(SEQT)], [rng.choice(KEYT)], ['li'], ['lh', 'fi'], rng.sample(SEQT + KEYT, 2)])
    hn = rng.choice([0, 1, 1, 2])
    for h in range(1, hn + 1): out.append('hnd %d' % h)
    def new(v, t=None):
        t = t or rng.choice(types); ty[v] = t
        live = [w for w in ty if w != v]
        if live and rng.random() < .4: out.append('newr %d %s %d' % (v, t, rng.choice(live)))
        elif rng.random() < .5: out.append('new %d %s %d' % (v, t, rng.randrange(0, hn + 1)))
        else: out.append('newi %d %s %d %s' % (v, t, rng.randrange(0, hn + 1), vals()))
    for v in range(1, rng.choice([2, 3, 4]) + 1): new(v)
    for _ in range(n):
        v, w = rng.randrange(1, 5), rng.randrange(1, 5); r = rng.random()
        if v not in ty:
            same = [u for u in ty]
            if r < .5 or not same: new(v)
            else:
                w = rng.choice(same); op = rng.choice(['ccon', 'mcon', 'ccona', 'mcona']); ty[v] = ty[w]
                if op in ('ccona', 'mcona') and not hn: op = op[:4]
                out.append('%s %d %d %d' % (op, v, w, rng.randrange(1, max(hn, 1) + 1)))
            continue
        t = ty[v]
        if r < .05: out.append('del %d' % v); del ty[v]; continue
        if r < .06: out.append('%s %d %d' % (rng.choice(['hcp', 'drop', 'hnd']), rng.randrange(1, 3), rng.randrange(1, 3))); continue
        tw = [u for u in ty if ty[u] == t and u != v]
        if r < .2 and tw: out.append('%s %d %d' % (rng.choice(['cass', 'mass', 'swap', 'swap']), v, rng.choice(tw))); continue
        if r < .22: out.append('%s %d %d' % (rng.choice(['clr', 'cass']), v, v)); continue
        if t in KEYT:
            op = rng.choice(KOPS)
            if op in ('mrg', 'xtr'):
                if tw: out.append('%s %d %d %d' % (op, v, rng.choice(tw), K()))
            elif op in ('sin', 'asn'): out.append('%s %d %d' % (op, v, K() * 1000 + V()))
            elif op == 'sir': out.append('sir %d %s' % (v, ' '.join(str(K() * 1000 + V()) for _ in range(rng.randrange(0, 7)))))
            elif op == 'rsv': out.append('rsv %d %d' % (v, rng.choice([0, 3, 20, 100])))
            else: out.append('%s %d %d' % (op, v, K()))
            continue
        op = rng.choice(SOPS + (LOPS if t in ('li', 'lh', 'fi') else []))
        i, j = rng.randrange(0, 30), rng.randrange(0, 6)
        if op in ('spl', 'splr', 'mrg'):
            if not tw: continue
            w = rng.choice(tw)
            if op == 'mrg': out += ['srt %d' % v, 'srt %d' % w]
            out.append('%s %d %d %d %d %d' % (op, v, w, i, j, rng.randrange(0, 4)))
        elif op in ('pb', 'pf', 'rmv'): out.append('%s %d %d' % (op, v, V()))
        elif op == 'asg': out.append('asg %d %s' % (v, vals()))
        elif op in ('asgn', 'rsz'): out.append('%s %d %d %d' % (op, v, rng.randrange(0, top), V()))
        elif op == 'ins': out.append('ins %d %d %d' % (v, i, V()))
        elif op == 'insr': out.append('insr %d %d %s' % (v, i, vals()))
        elif op == 'insn': out.append('insn %d %d %d %d' % (v, i, rng.randrange(0, 6), V()))
        elif op in ('erar', 'emp'): out.append('%s %d %d %d' % (op, v, i, j))
        elif op == 'rsv': out.append('rsv %d %d' % (v, rng.randrange(0, 30)))
        elif op in ('pba', 'era'): out.append('%s %d %d' % (op, v, i))
        elif op == 'set': out.append('set %d %d %d' % (v, i, V()))
        else: out.append('%s %d' % (op, v))
    return out

def run(c):
    cfgs = {n: dict(np=SAS[n][1]) for n in SAS}
    cj = '%s/cfgs.json' % c.out; json.dump(cfgs, open(cj, 'w'))
    tus = {'tu_' + n: '#include "stdc.h"\nstatic V::Reg reg_%s("%s", [] { return (V::Cfg*)new V::StdT<%s>(); });\n' % (n, n, SAS[n][0]) for n in SAS}
    tus['main'] = '#define V_MAIN\n#include "stdc.h"\nint main(int c, char** v) { return V::drive(c, v, [](const V::Test& t) { V::runCont(t); }); }\n'
    vs = ['asan17', 'opt20'] if c.quick else ['asan17', 'opt20', 'asan20', 'opt17', 'clang20', 'assert17']
    outer = ThreadPoolExecutor(len(vs) + 1)
    builds = [(v, outer.submit(c.build, 'stdc', tus, v)) for v in vs]
    base = dict(vals=1, ops=['hnd', 'drop', 'new', 'newr', 'ccon', 'mcon', 'ccona', 'mcona', 'cass', 'mass', 'swap', 'del', 'clr', 'pb', 'era', 'spl', 'splr'], weight=1)
    cap = 500 if c.quick else 4000
    pars = [dict(base, cfg='li2', types=['li'], vars=2, hnds=2, len=2, depth=8, cap=cap), dict(base, cfg='vi2', types=['vi'], vars=2, hnds=2, len=2, depth=8, cap=cap),
            dict(base, cfg='mix2', types=['li', 'vi'], vars=2, hnds=1, len=2, depth=8, cap=cap), dict(base, cfg='li3', types=['li'], vars=3, hnds=1, len=2, depth=7, cap=cap),
            dict(base, cfg='mix3', types=['li', 'vi'], vars=3, hnds=1, len=1, depth=7, cap=cap), dict(base, cfg='v2', types=['li'], vars=2, hnds=1, len=2, vals=2, depth=8, cap=cap)]
    scripts = []
    rng = random.Random('std-%d' % SEED)
    for n, paths in c.explore('StdContMC', pars, {}, maxlen=40, maxpaths=250 if c.quick else 3000).items():
        for i, p in enumerate(paths):
            for rep in range(1 if c.quick else 3):
                sa = rng.choice(sorted(SAS)); tr = {a: rng.choice(ABS[a]) for a in ABS}
                scripts.append(('%s.%s.%d.%d' % (n, sa, i, rep), sa, [line(l, tr) for l in p]))
    for sa in sorted(SAS):
        rng = random.Random('r-%s-%d' % (sa, SEED))
        for i in range(140 if c.quick else 1600): scripts.append(('%s.r%d' % (sa, i), sa, rand(rng, rng.choice([10, 30, 60]))))
    for v, b in builds:
        c.judge(b.result(), 'StdContTrace', scripts, {'CFGS': cj}, 'stdc-' + v)
        if c.viol: break
    c.assumptions = ['the providers underneath never fail', 'swapping, splicing and merging happen between containers with equal allocators, as the standard demands', 'the standard library keeps to its own specification']
CHECKS = {'P23': run}
