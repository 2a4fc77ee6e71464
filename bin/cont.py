"""Checks of the containers: specs Seqs, Heap and Mem."""
from vlib import *
import json, random

TYPES = {'b1': ('V::El<1,1>', 1, 1), 'b3': ('V::El<3,1>', 3, 1), 'i4': ('int', 4, 4), 'd8': ('double', 8, 8), 'b16': ('V::El<16,16>', 16, 16), 'b19': ('V::El<19,1>', 19, 1), 'b40': ('V::El<40,8>', 40, 8),
         'u2': ('unsigned short', 2, 2), 'p3': ('V::Pair3', 6, 2), 'a32': ('V::El<32,32>', 32, 32), 'a64': ('V::El<64,64>', 64, 64), 'c1': ('unsigned char', 1, 1), 'b7': ('V::El<7,1>', 7, 1)}
ALS = {'al': ('V::Al<%s>', 1), 'fresh': ('V::Fresh<%s>', 1), 'tsh': ('ktl::type_allocator<%s, ktl::shared<V::Prov>>', 1), 'tas': ('ktl::type_allocator<%s, ktl::atomic_shared<V::Prov>>', 1),
       'tfl': ('ktl::type_allocator<%s, ktl::shared<ktl::fallback<ktl::freelist<0, 64, V::Prov>, V::Prov>>>', 1),
       'std': ('std::allocator<%s>', 0), 'mal': ('ktl::type_allocator<%s, ktl::mallocator>', 0), 'lin': ('ktl::type_allocator<%s, ktl::shared<ktl::linear_allocator<262144>>>', 0)}
CON = ['new', 'newn', 'newv', 'newi', 'newr', 'ccon', 'mcon', 'ccona', 'mcona']
VOPS = CON + 'cass mass del push pushm emb pusha pushb emba pushr pushw emp empa era erar pop rsz rsv clr set'.split()
AOPS = CON + 'cass mass del rsz set asg asgw'.split()
BOPS = 'new newv newi newr ccon mcon cass mass del set asg'.split()

def seq_cfgs(kind):
    "name -> [k, sz, el, mem, type, c++]"
    r = {}
    if kind in ('vec', 'arr'):
        for a, t in [('al', 'i4'), ('al', 'b1'), ('al', 'b3'), ('al', 'b19'), ('al', 'b16'), ('fresh', 'i4'), ('fresh', 'b40'), ('tsh', 'i4'), ('tsh', 'b3'), ('tas', 'd8'), ('tfl', 'i4'), ('tfl', 'b19'), ('std', 'i4'), ('std', 'b7'), ('mal', 'p3'), ('lin', 'u2')]:
            r['%s_%s_%s' % (kind, a, t)] = dict(k=kind, sz=0, el=TYPES[t][1], mem=bool(ALS[a][1]), t=t, a=a)
    else:
        for t, n in [('i4', 1), ('i4', 2), ('i4', 3), ('b1', 5), ('b3', 4), ('d8', 7), ('b19', 3), ('a32', 3), ('a64', 2), ('u2', 16), ('c1', 3), ('b16', 5), ('i4', 100), ('b7', 6), ('p3', 9)]:
            r['buf_%s_%d' % (t, n)] = dict(k='buf', sz=n, el=TYPES[t][1], mem=False, t=t, a='')
    return r
def seq_cpp(n, c):
    T = TYPES[c['t']][0]
    if c['k'] == 'buf': C = 'ktl::trivial_buffer<%s, %d>' % (T, c['sz']); A = 'int'
    else: A = ALS[c['a']][0] % T; C = 'ktl::trivial_%s<%s, %s>' % ({'vec': 'vector', 'arr': 'array'}[c['k']], T, A)
    return 'static V::Reg reg_%s("%s", [] { return (V::Cfg*)new V::Seq<V::%s, %s, %s, %s, %d>(); });\n' % (n, n, c['k'].upper(), C, T, A, c['sz'] or 1)
def tus_of(cfgs, cpp, header='cont.h', nt=8):
    names = sorted(cfgs)
    t = {'tu%d' % k: '#include "%s"\n' % header + ''.join(cpp(n, cfgs[n]) for n in names[k::nt]) for k in range(nt) if names[k::nt]}
    t['main'] = '#define V_MAIN\n#include "%s"\nint main(int c, char** v) { return V::drive(c, v, [](const V::Test& t) { V::runCont(t); }); }\n' % header
    return t

def seq_line(l, k):
    op, v, w, i, j, n, x, xs, al = l
    X = ' '.join(map(str, xs))
    if op == 'new': return 'new %d %d' % (v, al)
    if op == 'newn': return 'newn %d %d %d' % (v, al, n)
    if op == 'newv': return 'newv %d %d %d %d' % (v, al, n, x)
    if op in ('newi', 'newr'): return '%s %d %d %s' % (op, v, al, X)
    if op in ('ccona', 'mcona'): return '%s %d %d %d' % (op, v, w, al)
    if op in ('ccon', 'mcon', 'cass', 'mass', 'pushw', 'asgw'): return '%s %d %d' % (op, v, w)
    if op in ('del', 'pop', 'clr'): return '%s %d' % (op, v)
    if op in ('push', 'pushm', 'emb'): return '%s %d %d' % (op, v, x)
    if op in ('pusha', 'pushb', 'emba', 'era'): return '%s %d %d' % (op, v, i)
    if op in ('pushr', 'asg'): return '%s %d %s' % (op, v, X)
    if op in ('emp', 'set'): return '%s %d %d %d' % (op, v, i, x)
    if op == 'empa': return '%s %d %d %d' % (op, v, i, j)
    if op == 'erar': return '%s %d %d %d' % (op, v, i, j - i)
    if op in ('rsz', 'rsv'): return '%s %d %d' % (op, v, n)
    raise Exception(op)

def seq_random(c, rng, n, big=False):
    k = c['k']; out = []
    nv = rng.choice([1, 2, 3, 4]); nal = rng.choice([0, 1, 2, 3])
    val = lambda: rng.randrange(1, 48)
    vals = lambda: [val() for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 8]))]
    al = lambda: rng.randrange(0, nal + 1)
    ops = {'vec': VOPS, 'arr': AOPS, 'buf': BOPS + ['setd', 'getd', 'getd']}[k]
    body = [o for o in ops if o not in CON and o != 'del']
    few = rng.sample(body, min(len(body), rng.choice([3, 6, 30])))
    top = rng.choice([4, 9, 20]) if not big else 90
    for v in range(1, nv + 1):
        if rng.random() < .8: out.append(seq_line([rng.choice(['new', 'new', 'newn', 'newv', 'newi', 'newr']) if k != 'buf' else rng.choice(['new', 'newv', 'newi', 'newr']), v, 0, 0, 0, rng.randrange(0, top), val(), vals(), al()], k))
    for _ in range(n):
        v, w = rng.randrange(1, nv + 1), rng.randrange(1, nv + 1)
        r = rng.random()
        op = rng.choice(few) if r < .8 else rng.choice([o for o in ops if o in CON]) if r < .92 else rng.choice(['del', 'cass', 'mass'])
        if k == 'vec' and r < .2: op = rng.choice(['push', 'emb', 'pushm', 'pushr'])
        i, j = rng.randrange(0, 60), rng.randrange(0, 8)
        if op in ('setd', 'getd'):
            x = rng.choice(['%d' % rng.randrange(0, 1000), 'M%d' % rng.randrange(0, 100), 'H%d' % rng.randrange(0, 100), '%d' % (rng.randrange(1 << 32) * 77), 'D3'])
            out.append('%s %d %s %d' % (op, v, x, val())); continue
        out.append(seq_line([op, v, w, i, i + j, rng.randrange(0, top), val(), vals(), al()], k))
    return out

def seq_params(n, c, quick, mem):
    k = c['k']
    ops = {'vec': VOPS, 'arr': AOPS, 'buf': BOPS}[k]
    p = dict(cfg=n, k=k, sz=c['sz'], vars=2, ops=ops, vals=2, len=3 if quick else 4, depth=6 if quick else 9, als=2 if mem and k != 'buf' else 1, cap=150 if quick else 1500, weight=1)
    if k == 'buf': p['depth'] = 8; p['len'] = c['sz']
    if mem: p['vals'] = 1
    return p

VAR = {True: ['asan17', 'opt20'], False: ['asan17', 'opt20', 'asan20', 'opt17', 'clang20', 'assert17']}
def run_seq(c, kinds, focus):
    cfgs = {}
    for k in kinds: cfgs.update(seq_cfgs(k))
    if focus == 'memory': cfgs = {n: x for n, x in cfgs.items() if x['mem']}
    cj = '%s/cfgs.json' % c.out; json.dump(cfgs, open(cj, 'w'))
    env = {'CFGS': cj, 'FOCUS': focus}
    tus = tus_of(cfgs, seq_cpp)
    vs = VAR[c.quick]
    outer = ThreadPoolExecutor(len(vs) + 1)
    builds = [(v, outer.submit(c.build, 'seq', tus, v)) for v in vs]
    mcn = [n for n in sorted(cfgs) if cfgs[n]['sz'] <= 3]
    if c.quick and len(mcn) > 12: mcn = [n for n in mcn if cfgs[n]['a'] in ('al', 'tsh', 'fresh')]
    scripts = []
    for n, paths in c.explore('SeqsMC', [seq_params(n, cfgs[n], c.quick, focus == 'memory') for n in mcn], {}, maxlen=40, maxpaths=1000 if c.quick else 10000).items():
        for i, p in enumerate(paths): scripts.append(('%s.m%d' % (n, i), n, [seq_line(l, cfgs[n]['k']) for l in p]))
    for n in sorted(cfgs):
        rng = random.Random('%s-%s-%d' % (c.prop, n, SEED))
        m = 60 if c.quick else 600
        for i in range(m): scripts.append(('%s.r%d' % (n, i), n, seq_random(cfgs[n], rng, rng.choice([10, 30, 60]))))
        for i in range(m // 12): scripts.append(('%s.b%d' % (n, i), n, seq_random(cfgs[n], rng, 25, True)))
    for v, b in builds:
        c.judge(b.result(), 'SeqsTrace', scripts, env, 'seq-' + v)
        if c.viol: break
    c.assumptions = ['allocators under the containers never fail', 'element types are trivially copyable', 'ranges given to push_back and assign do not lie within the container itself']

# ---------------------------------------------------------------- heaps
HT = {'hm': ('V::HM<1>', 8, 1, 0), 'hm9': ('V::HM<9>', 40, 1, 0), 'hc': ('V::HC<2>', 12, 1, 1), 'hp': ('V::HP', 8, 0, 1), 'int': ('int', 4, 0, 1)} # type, size, tracked, can be copied
HOPS = 'new newc newi ccon mcon ccona mcona cass mass del ins insa pop peek find fall clr rsv'.split()
def heap_cfgs():
    r = {}
    for a, t, f in [('al', 'hc', 0), ('al', 'hm', 0), ('fresh', 'hc', 0), ('tsh', 'hc', 0), ('tsh', 'hm9', 5), ('tfl', 'hm', 0), ('tfl', 'hc', 4), ('al', 'int', 4), ('al', 'int', 5), ('tas', 'hp', 0), ('std', 'hc', 0), ('std', 'int', 5), ('mal', 'hm9', 0), ('lin', 'hc', 5), ('lin', 'hm', 4), ('al', 'hp', 0), ('fresh', 'hm9', 0)]:
        r['heap_%s_%s_%d' % (a, t, f)] = dict(el=HT[t][1], mem=bool(ALS[a][1]), life=bool(HT[t][2]), cp=HT[t][3], t=t, a=a, f=f)
    return r
def heap_cpp(n, c):
    T = HT[c['t']][0]; A = ALS[c['a']][0] % T
    C, CM = {0: ('ktl::binary_heap<%s, V::Cmp<%s>, %s>' % (T, T, A), 'V::Cmp<%s>' % T), 4: ('ktl::binary_min_heap<%s, %s>' % (T, A), 'std::less<%s>' % T), 5: ('ktl::binary_max_heap<%s, %s>' % (T, A), 'std::greater<%s>' % T)}[c['f']]
    return 'static V::Reg reg_%s("%s", [] { return (V::Cfg*)new V::HeapT<%s, %s, %s, %s, %d>(); });\n' % (n, n, C, T, A, CM, c['f'])
def heap_line(l):
    op, v, w, i, n, x, xs, k, m, al = l
    if op == 'new': return 'new %d %d %d %d' % (v, al, k, m)
    if op == 'newc': return 'newc %d %d %d %d %d' % (v, al, k, m, n)
    if op == 'newi': return 'newi %d %d %d %d %s' % (v, al, k, m, ' '.join(map(str, xs)))
    if op in ('ccona', 'mcona'): return '%s %d %d %d' % (op, v, w, al)
    if op in ('ccon', 'mcon', 'cass', 'mass'): return '%s %d %d' % (op, v, w)
    if op in ('del', 'pop', 'peek', 'clr', 'fall'): return '%s %d' % (op, v)
    if op in ('ins', 'find'): return '%s %d %d' % (op, v, x)
    if op == 'insa': return 'insa %d %d' % (v, i)
    if op == 'rsv': return 'rsv %d %d' % (v, n)
    raise Exception(op)
def heap_random(c, rng, n, big=False):
    out = []; nv = rng.choice([1, 1, 2, 3, 4]); nal = rng.choice([0, 1, 2, 3])
    keys = rng.choice([2, 4, 10, 40, 300]); tags = rng.choice([1, 2, 3, 500])
    val = lambda: rng.randrange(1, keys + 1) * 1000 + rng.randrange(0, tags)
    al = lambda: rng.randrange(0, nal + 1)
    kinds = [rng.choice([(0, 1), (1, 1), (2, 2), (2, 3), (2, 7), (3, 1), (4, 1), (5, 1), (6, 1)]) for _ in range(2)]
    def new(v):
        k = rng.choice(kinds); op = rng.choice(['new', 'new', 'newc', 'newi'])
        return heap_line([op, v, 0, 0, rng.choice([0, 1, 2, 5, 16]), 0, [val() for _ in range(rng.choice([0, 1, 2, 3, 5]))], k[0], k[1], al()])
    for v in range(1, nv + 1):
        if rng.random() < .85: out.append(new(v))
    seen = []
    grow = rng.choice([.45, .55, .7]) if not big else .75
    for _ in range(n):
        v, w = rng.randrange(1, nv + 1), rng.randrange(1, nv + 1)
        r = rng.random()
        if r < .72:
            if rng.random() < grow:
                if rng.random() < .12 and seen: out.append('insa %d %d' % (v, rng.choice([0, 0, rng.randrange(0, 50)])))
                else:
                    x = rng.choice(seen) if seen and rng.random() < .3 else val(); seen.append(x); out.append('ins %d %d' % (v, x))
            else: out.append('pop %d' % v)
        elif r < .77: out.append('find %d %d' % (v, rng.choice(seen) if seen and rng.random() < .7 else val()))
        elif r < .78: out.append('peek %d' % v)
        elif r < .79: out.append('fall %d %d' % (v, rng.randrange(2)))
        elif r < .81: out.append('clr %d' % v)
        elif r < .83: out.append('rsv %d %d' % (v, rng.choice([0, 1, 3, 8, 20])))
        elif r < .87: out.append(new(v))
        elif r < .90: out.append('del %d' % v)
        else: out.append(heap_line([rng.choice(['ccon', 'mcon', 'ccona', 'mcona', 'cass', 'mass', 'cass', 'mass']), v, w, 0, 0, 0, [], 0, 0, al()]))
    if rng.random() < .4:
        for v in range(1, nv + 1): out.append('fall %d %d' % (v, rng.randrange(2)))
    if rng.random() < .6:
        for v in range(1, nv + 1): out += ['pop %d' % v] * rng.choice([3, 20])
    return out
def heap_params(n, c, quick, focus):
    f = c['f']
    ops = [o for o in HOPS if c['cp'] or o not in ('newi', 'ccon', 'ccona', 'cass', 'insa')]
    p = dict(cfg=n, vars=2, vals=[1000, 1001, 2000, 3000] if focus == 'content' else [1000, 2000], kinds=[[f, 1]] if f else [[0, 1], [2, 2]] if focus == 'content' else [[0, 1]], len=5 if focus == 'content' else 4,
             depth=8 if quick else 12, cap=250 if quick else 2500, als=1 if focus == 'content' else 2, ops=ops, weight=1)
    if focus == 'content' and not f: p['vars'] = 1 if quick else 2
    return p
def run_heap(c, focus):
    cfgs = heap_cfgs()
    if focus == 'memory': cfgs = {n: x for n, x in cfgs.items() if x['mem']}
    if focus == 'life': cfgs = {n: x for n, x in cfgs.items() if x['life']}
    cj = '%s/cfgs-heap.json' % c.out; json.dump(cfgs, open(cj, 'w'))
    env = {'CFGS': cj, 'FOCUS': focus}
    vs = VAR[c.quick]
    outer = ThreadPoolExecutor(len(vs) + 1)
    builds = [(v, outer.submit(c.build, 'heap', tus_of(cfgs, heap_cpp), v)) for v in vs]
    scripts = []
    for n, paths in c.explore('HeapMC', [heap_params(n, cfgs[n], c.quick, focus) for n in sorted(cfgs)], {}, maxlen=40, maxpaths=600 if c.quick else 8000).items():
        for i, p in enumerate(paths): scripts.append(('%s.m%d' % (n, i), n, [heap_line(l) for l in p]))
    for n in sorted(cfgs):
        rng = random.Random('%s-%s-%d' % (c.prop, n, SEED))
        m = 60 if c.quick else 600
        for i in range(m): scripts.append(('%s.r%d' % (n, i), n, heap_random(cfgs[n], rng, rng.choice([10, 30, 70]))))
        for i in range(m // 12): scripts.append(('%s.b%d' % (n, i), n, heap_random(cfgs[n], rng, 130, True)))
    for v, b in builds:
        c.judge(b.result(), 'HeapTrace', scripts, env, 'heap-' + v)
        if c.viol: break
    c.assumptions = ['allocators under the containers never fail', 'the comparison is a strict weak ordering without side effects', 'elements are not changed through iterators or peek', 'elements given to insert are not moved out of the heap itself']

def run_mem(c):
    run_seq(c, ['vec', 'arr'], 'memory')
    if not c.viol: run_heap(c, 'memory')
CHECKS = {'P16': lambda c: run_seq(c, ['vec'], 'content'), 'P17': lambda c: run_seq(c, ['arr'], 'content'), 'P18': lambda c: run_seq(c, ['buf'], 'content'),
          'P19': lambda c: run_heap(c, 'content'), 'P20': lambda c: run_heap(c, 'life'), 'P21': run_mem}
