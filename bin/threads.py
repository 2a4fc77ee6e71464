"""Check of shared, locked allocators used by several threads: specs Hb, Threads."""
from vlib import *
import json, random, itertools

G = lambda a: 'ktl::threaded<V::Guard<%s>>' % a
F, M = 'ktl::freelist<0, 64, ktl::mallocator>', 'ktl::mallocator'
# name: handle, type of elements, every size up to 64 is met, max_size or 0
TH = {
  'm': ('ktl::atomic_shared<%s>' % G(M), 'void', 1, 0), 'f': ('ktl::atomic_shared<%s>' % G(F), 'void', 1, 0),
  's': ('ktl::atomic_shared<%s>' % G('ktl::segragator<32, ktl::freelist<0, 32, %s>, %s>' % (M, M)), 'void', 1, 0),
  'c': ('ktl::atomic_shared<%s>' % G('ktl::cascading<ktl::linear_allocator<128>>'), 'void', 1, 128),
  'l': ('ktl::atomic_shared<%s>' % G('ktl::fallback<ktl::linear_allocator<128>, %s>' % F), 'void', 1, 0),
  'o': ('ktl::atomic_shared<%s>' % G('V::Over'), 'void', 1, 0),
  'n': ('ktl::atomic_shared<%s>' % G('ktl::linear_allocator<256>'), 'void', 0, 256),
  'x': ('ktl::atomic_shared<%s>' % G('ktl::cascading<ktl::freelist<0, 64, ktl::linear_allocator<128>>>'), 'void', 1, 128),
  'r': ('V::Raw<%s>' % G(F), 'void', 1, 0), 'rl': ('V::Raw<%s>' % G('ktl::linear_allocator<256>'), 'void', 0, 256),
  'rc': ('V::Raw<%s>' % G('ktl::cascading<ktl::linear_allocator<128>>'), 'void', 1, 128),
  't': ('ktl::type_shared_threaded<int, V::Guard<%s>>' % F, 'int', 1, 0), 'tl': ('ktl::type_shared_threaded<double, V::Guard<ktl::linear_allocator<256>>>', 'double', 0, 256),
}
RAW = [c for c in TH if c[0] == 'r']
LINK = WRAP + ['-Wl,' + ','.join('--wrap=pthread_' + x for x in 'mutex_lock mutex_trylock mutex_unlock rwlock_rdlock rwlock_wrlock rwlock_unlock rwlock_tryrdlock rwlock_trywrlock'.split())]

def opline(o, n): # of one operation of the model
    if o['o'] == 'al': return 'al %d %d %d' % (o['h'], o['s'], n)
    if o['o'] in ('de', 'ow'): return '%s %d %d' % (o['o'], o['h'], o['s'])
    return '%s %d %d' % (o['o'], o['h'], o['k'])
def setup(nt, common, raw):
    if raw: return []
    L = ['mk 0', 'mk 1']
    for t in range(1, nt + 1): L += ['cp 0 %d' % (t * 10), 'cp 1 %d' % (t * 10 + 1)]
    return L + ([] if common else ['dr 0', 'dr 1'])

def alphabet(t, common, raw):
    z = t * 10; o = lambda o, h, k=0, s=0: dict(o=o, h=h, k=k, s=s)
    if raw: return [o('al', 0), o('al', 1, 0, 1), o('de', 0), o('ow', 0), o('mx', 0), o('mx', 1), o('eq', 0, 1), o('ne', 1, 0), o('eq', 0, 0), o('ne', 1, 1)]
    a = [o('al', z), o('al', z, 0, 1), o('de', z), o('ow', z), o('mx', z), o('eq', z, z + 1), o('eq', z, z), o('ne', z, z), o('cp', z, z + 2), o('mv', z, z + 2), o('dr', z), o('dr', z + 1),
         o('ca', z + 1, z), o('ca', z, z + 1), o('ca', z, z), o('ma', z, z + 1), o('mv', z + 1, z + 3), o('al', z + 1, 0, 1)]
    if common: a += [o('cp', 0, z + 3), o('ca', 0, z + 1), o('eq', 0, z), o('mx', 0), o('al', 0, 0, 2)]
    return a

def rand(rng, cfg, sched):
    raw = cfg in RAW; nt = rng.choice([2, 2, 3, 3, 4]); common = raw or rng.random() < .5
    L = setup(nt, common, raw)
    for t in range(1, nt + 1):
        ops = alphabet(t, common, raw); kind = rng.choice([None, ['al', 'de'], ['al', 'de', 'ow', 'mx'], ['cp', 'dr', 'ca', 'ma', 'mv'], ['eq', 'ne', 'al'], ['dr']])
        if kind: ops = [o for o in ops if o['o'] in kind] or ops
        for _ in range(rng.randrange(1, rng.choice([3, 5, 9]))):
            o = dict(rng.choice(ops)); z = t * 10
            if rng.random() < .5:
                if o['h'] >= 10: o['h'] = z + rng.randrange(4)
                if o['o'] in ('cp', 'mv', 'ca', 'ma') or (o['o'] in ('eq', 'ne') and not raw): o['k'] = z + rng.randrange(4)
                if o['o'] in ('al', 'de', 'ow'): o['s'] = rng.randrange(4)
            if o['o'] == 'cp' and rng.random() < .3: L.append('p %d mk %d' % (t, z + rng.randrange(4)))
            L.append('p %d %s' % (t, opline(o, rng.choice([1, 8, 16, 17, 33, 64]))))
    return L + ['rnd %d %d %d %d' % (rng.choice(sched), rng.randrange(1, 1 << 30), rng.choice([1, 2, 3, 5]), rng.choice([0, 0, 0, 5, 20]))]

def run(c):
    cfgs = {n: dict(full=bool(TH[n][2]), max=TH[n][3]) for n in TH}
    cj = '%s/cfgs.json' % c.out; json.dump(cfgs, open(cj, 'w'))
    tus = {'tu_' + n: '#include "threads.h"\nstatic V::TReg reg_%s("%s", [] { return (V::TCfg*)new V::Threads<%s, %s>(); });\n' % (n, n, TH[n][0], TH[n][1]) for n in TH}
    tus['main'] = '#include "threads.h"\nint main(int c, char** v) { return V::drive(c, v, [](const V::Test& t) { V::runThreads(t); }); }\n'
    fl = {t: ['-fsanitize=thread'] for t in tus}
    tus['rt'] = '#include "rtimpl.h"\n'
    vs = ['tsan17'] if c.quick else ['tsan17', 'tsan20', 'tsang17']
    outer = ThreadPoolExecutor(len(vs) + 1)
    builds = [(v, outer.submit(c.build, 'threads', tus, v, [], LINK, [], fl)) for v in vs]
    rng = random.Random('threads-%d' % SEED)
    good = dict(raw=False, inc=4, dec=4, fence=False, qlock=True, split=False, order=True, wrong=False)
    pars = []
    def prog(t, n, common, raw): return [dict(rng.choice(alphabet(t, common, raw))) for _ in range(n)]
    for i in range(70 if c.quick else 700):
        raw = i % 5 == 4; common = raw or i % 2 == 0; nt = 2 if i % 7 else 3
        pars.append(dict(good, cfg='g%d' % i, raw=raw, common=common, prog=[prog(t, rng.choice([1, 2, 2]) if nt == 2 else 1, common, raw) for t in range(1, nt + 1)]))
    o = lambda o, h, k=0, s=0: dict(o=o, h=h, k=k, s=s)
    P = lambda *a: [[o(*x) for x in y] for y in a]
    drop = P([('al', 10)], [('al', 20)])
    # other designs that are right, and ones that are wrong: the invariants must tell them apart
    pars += [dict(good, cfg='v1', common=False, prog=drop, dec=3, fence=True, inc=0), dict(good, cfg='v2', common=False, prog=drop, inc=0),
             dict(good, cfg='w1', wrong=True, common=False, prog=drop, dec=0), dict(good, cfg='w2', wrong=True, common=False, prog=drop, dec=3),
             dict(good, cfg='w3', wrong=True, common=False, prog=drop, dec=2), dict(good, cfg='w4', wrong=True, common=True, prog=P([('al', 10), ('ow', 10)], [('al', 20)]), qlock=False),
             dict(good, cfg='w5', wrong=True, common=False, prog=drop, split=True), dict(good, cfg='w6', wrong=True, raw=True, common=True, prog=P([('eq', 0, 1)], [('ne', 1, 0)]), order=False)]
    scripts = []
    res = c.explore('ThreadsMC', pars, {}, maxlen=80, maxpaths=24 if c.quick else 120)
    wrong = {p['cfg'] for p in pars if p['wrong']}
    if c.found != wrong: raise Broken('designs told wrong: %s, expected %s' % (sorted(c.found), sorted(wrong)))
    for p in pars:
        if p['wrong']: continue
        names = [n for n in sorted(TH) if (n in RAW) == p['raw']]
        for i, path in enumerate(res[p['cfg']]):
            n = rng.choice(names); L = setup(len(p['prog']), p['common'], p['raw'])
            for t, ops in enumerate(p['prog'], 1):
                for q in ops: L.append('p %d %s' % (t, opline(q, rng.choice([8, 16, 40]))))
            sch = ' '.join('%d %s' % (x[0], x[1]) for x in path if x[1] != 'skip')
            scripts.append(('%s.%d' % (p['cfg'], i), n, L + ['s ' + sch, 'rnd %d %d 2 0' % (rng.choice([0, 1]), rng.randrange(1, 1 << 30))]))
    for n in sorted(TH):
        rng = random.Random('r-%s-%d' % (n, SEED))
        for i in range(150 if c.quick else 2500): scripts.append(('%s.r%d' % (n, i), n, rand(rng, n, [1, 1, 2, 2, 3])))
    for v, b in builds:
        c.judge(b.result(), 'ThreadsTrace', scripts, {'CFGS': cj}, 'thr-' + v)
        if c.viol: break
    c.assumptions = ['handles are copied from one that another thread only reads, and moved or assigned by the thread they belong to', 'the memory underneath is thread-safe (malloc)', 'weak memory effects beyond happens-before are covered by the absence of data races, other executions being sequentially consistent']
CHECKS = {'P13': run}
