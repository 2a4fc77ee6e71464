"""Shared machinery of the checks: building drivers from /repo, running TLC, generating scripts from the
transitions TLC explored, validating recorded traces, and reporting."""
import os, sys, json, re, random, hashlib, subprocess, shutil, time, threading
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC, HARN = ROOT + '/spec', ROOT + '/harness'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = min(8, os.cpu_count() or 8)
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
pool = ThreadPoolExecutor(NCPU)

class Broken(Exception): "the machinery failed: exit 2, no verdict"

def sh(cmd, timeout=600, env=None, cwd=None, out=None):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode(errors='replace')
    t = r.stdout.decode(errors='replace')
    if out: open(out, 'w').write(t)
    return r.returncode, t

def tree_hash():
    h = hashlib.sha256()
    for base in (REPO + '/include', HARN):
        for d, ds, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

VARIANTS = {
  # name: compiler, flags, link flags
  'asan17': ('g++', ['-std=c++17', '-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'], ['-fsanitize=address']),
  'asan20': ('g++', ['-std=c++20', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'], ['-fsanitize=address']),
  'opt20': ('g++', ['-std=c++20', '-O2'], []),
  'opt17': ('g++', ['-std=c++17', '-O2'], []),
  'tsan17': ('clang++', ['-std=c++17', '-O1', '-g1'], []),
  'tsan20': ('clang++', ['-std=c++20', '-O2'], []),
  'tsang17': ('g++', ['-std=c++17', '-O1'], []),
  'assert17': ('g++', ['-std=c++17', '-O1', '-DKTL_DEBUG_ASSERT'], []),
  'clang20': ('clang++', ['-std=c++20', '-O1', '-g1', '-fsanitize=address'], ['-fsanitize=address']),
}
WRAP = ['-Wl,--wrap=malloc,--wrap=free']

class CompileError(Exception):
    def __init__(s, log, repo): s.log, s.repo = log, repo

class Check:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.quick = tier != 'thorough'
        s.t0 = time.time()
        s.out = '%s/out/%s' % (ROOT, prop)
        shutil.rmtree(s.out, ignore_errors=True); os.makedirs(s.out)
        s.lock = threading.Lock()
        s.viol = []            # (message, replay path)
        s.states = s.trans = 0 # explored by TLC on the design
        s.traces = 0           # validated against the implementation
        s.events = 0
        s.edges = [0, 0]       # covered, total transitions of the design replayed
        s.notes = []; s.samples = []
        s.rng = random.Random('%s-%d' % (prop, SEED))
        s.assumptions = []
        s.found = set()        # wrong designs that TLC told from right ones
    # ---------------------------------------------------------------- building
    def build(s, name, tus, variant, extra=[], link=WRAP, inc=[], flags={}):
        cxx, fl, ln = VARIANTS[variant]
        key = hashlib.sha256(json.dumps([tree_hash(), name, sorted(tus.items()), variant, cxx, fl, ln, extra, link, flags]).encode()).hexdigest()[:20]
        d = '%s/build/%s' % (ROOT, key); exe = d + '/drv'
        if os.path.exists(exe): return exe
        os.makedirs(d, exist_ok=True)
        def one(f):
            p = d + '/' + f + '.cpp'; open(p, 'w').write(tus[f])
            for k in range(2):
                rc, o = sh([cxx] + fl + extra + flags.get(f, []) + ['-w', '-I' + HARN, '-I' + REPO + '/include'] + inc + ['-c', p, '-o', d + '/' + f + '.o'], 400)
                if rc == 0: return None
            open(p + '.log', 'w').write(o)
            return f, o
        bad = [x for x in pool.map(one, sorted(tus)) if x]
        if bad:
            log = '\n'.join('%s:\n%s' % (f, '\n'.join([l for l in o.split('\n') if 'error' in l or 'required from' in l][:30]) + '\n' + o[:6000]) for f, o in bad)
            # an error located in the library's own headers, or in its instantiation
            repo = any(re.search(re.escape(REPO) + r'/include[^\n]*error', o) or re.search(r'error[^\n]*(ktl::|no (matching|member))', o) for f, o in bad)
            raise CompileError(log, repo)
        rc, o = sh([cxx] + [d + '/' + f + '.o' for f in sorted(tus)] + ln + link + ['-o', exe + '.tmp', '-lpthread'], 400)
        if rc: raise Broken('link failed: ' + o[:3000])
        os.rename(exe + '.tmp', exe)
        for f in tus:
            for x in ('.o', '.cpp'):
                try: os.unlink(d + '/' + f + x)
                except OSError: pass
        return exe
    # ---------------------------------------------------------------- TLC
    def tlc(s, module, cfg, env, workers=1, timeout=800, tag='', xmx='3g', extra=[]):
        md = '%s/tlc-%s-%s' % (s.out, module, tag)
        os.makedirs(md, exist_ok=True)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + xmx, '-Xss16m', '-cp', CP, '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers),
               '-config', SPEC + '/' + cfg, '-metadir', md] + extra + [SPEC + '/' + module + '.tla']
        rc, o = sh(cmd, timeout, env=env, cwd=SPEC)
        shutil.rmtree(md, ignore_errors=True)
        return rc, o
    def mc(s, module, pars, env={}, timeout=800, cfg=None, workers=1, tag='mc'):
        "explore the design for a list of configurations; returns the printed transitions of each"
        pf = '%s/par-%s.json' % (s.out, tag)
        json.dump(pars, open(pf, 'w'))
        e = dict(env); e['PARAMS'] = pf
        rc, o = s.tlc(module, cfg or module + '.cfg', e, workers, timeout, tag)
        if 'Model checking completed. No error has been found' not in o:
            open('%s/mc-%s.log' % (s.out, tag), 'w').write('\n'.join(l for l in o.split('\n') if not l.startswith('<<"E"')))
            raise Broken('model checking of %s (%s) failed, see out/%s/mc-%s.log:\n%s' % (module, tag, s.prop, tag, o[-1500:]))
        m = re.search(r'(\d+) states generated, (\d+) distinct', o)
        with s.lock: s.states += int(m.group(2)); s.trans += int(m.group(1))
        with s.lock: s.found |= {pars[int(k) - 1]['cfg'] for k in re.findall(r'<<"WRONG", (\d+)>>', o)}
        E = {k: [] for k in range(1, len(pars) + 1)}
        for l in o.split('\n'):
            if l.startswith('<<"E"'):
                x = parse_tla(l); E[x[1]].append(x)
        return [E[k] for k in sorted(E)]
    def explore(s, module, pars, env={}, maxlen=48, maxpaths=300, batches=NCPU, timeout=800):
        """explore all configurations in parallel; returns {cfg: [paths of labels]}. Paths together take every
        transition of the design, up to a number of paths, beyond which they are sampled."""
        pars = sorted(pars, key=lambda p: -p.get('weight', 1))
        parts = [pars[k::batches] for k in range(batches) if pars[k::batches]]
        def one(a):
            k, ps = a; res = {}
            for p, E in zip(ps, s.mc(module, ps, env, timeout, tag='%s-%d' % (module, k))):
                rng = random.Random('%s-%d' % (p['cfg'], SEED))
                paths, (cov, tot) = cover([(e[2], e[3], e[4:]) for e in E], maxlen, 100000, rng)
                n = len(paths)
                if n > maxpaths: paths = rng.sample(paths, maxpaths); cov = cov * maxpaths // n
                with s.lock: s.edges[0] += cov; s.edges[1] += tot
                res[p['cfg']] = paths
            return res
        r = {}
        for x in pool2.map(one, list(enumerate(parts))): r.update(x)
        return r
    # ---------------------------------------------------------------- running scripts and validating traces
    def run(s, exe, scripts, tag, timeout=600, env={}):
        "scripts: list of (id, cfg, [op lines]); returns the recorded traces"
        sf, of = '%s/%s.script' % (s.out, tag), '%s/%s.trace' % (s.out, tag)
        with open(sf, 'w') as f:
            for i, c, ops in scripts: f.write('T %s %s\n%s\n' % (i, c, '\n'.join(ops)))
        rc, o = sh([exe, sf, of], timeout, env=env)
        if rc != 0: raise Broken('driver %s failed (%d): %s' % (tag, rc, o[-2000:]))
        tr = []
        for l in open(of):
            try: tr.append(json.loads(l))
            except ValueError: raise Broken('unreadable trace in ' + of)
        os.unlink(of)
        return tr
    def validate(s, module, traces, env={}, tag='', chunks=None, cfg=None):
        "returns indices of rejected traces with the position of the unexplained event"
        if not traces: return {}
        n = chunks or max(1, min(NCPU, len(traces) // 40), -(-len(traces) // 1500)) # more initial states at once would spill TLC's queue to disk
        parts = [list(range(k, len(traces), n)) for k in range(n)]
        def one(k):
            idx = parts[k]; res = {}; left = idx
            for attempt in range(12):
                tf = '%s/%s-%d.ndjson' % (s.out, tag, k)
                with open(tf, 'w') as f:
                    for i in left: f.write(json.dumps(traces[i], separators=(',', ':')) + '\n')
                e = dict(env); e['TRACES'] = tf
                rc, o = s.tlc(module, cfg or module + '.cfg', e, 1, 800, '%s-%d' % (tag, k), '2g')
                acc = {int(m) for m in re.findall(r'<<"ACCEPT", (\d+)>>', o)}
                rej = {int(a): int(b) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', o)}
                done = 'Model checking completed. No error has been found' in o
                if done:
                    if len(acc) + len(rej) != len(left): raise Broken('trace validation incomplete: %s' % o[-2000:])
                    for a, b in rej.items(): res[left[a - 1]] = b
                    os.unlink(tf)
                    return res
                # an event that the spec cannot even interpret: attribute it to its trace and go on with the others
                m = re.findall(r'/\\ tid = (\d+)', o)
                open(tf + '.log', 'w').write(o)
                if not m or ('evaluating' not in o and 'The exception was' not in o and 'Error' not in o): raise Broken('TLC failed on traces: ' + o[-3000:])
                bad = int(m[-1]); lm = re.findall(r'/\\ l = (\d+)', o)
                res[left[bad - 1]] = int(lm[-1]) if lm else 0
                for a, b in rej.items(): res[left[a - 1]] = b
                left = [x for j, x in enumerate(left, 1) if j != bad and j not in rej]
                if not left: return res
            raise Broken('TLC fails on too many traces: ' + o[-3000:])
        rej = {}
        for r in pool2.map(one, range(n)): rej.update(r)
        with s.lock:
            s.traces += len(traces) - len(rej); s.events += sum(len(t['ev']) for t in traces)
        return rej
    def judge(s, exe, module, scripts, env={}, tag='', cfg=None, runenv={}, limit=3, post=None):
        "run scripts on the implementation and let the spec judge; every rejection is repeated before it is believed"
        tr = s.run(exe, scripts, tag, env=runenv)
        if post: tr = [post(t) for t in tr]
        by = {x[0]: x for x in scripts}
        if len(by) != len(scripts): raise Broken('script ids are not unique')
        if len(tr) < len(scripts) and not any(t['ev'] and t['ev'][-1].get('e') == 'crash' for t in tr): raise Broken('traces are missing')
        rej = s.validate(module, tr, env, tag, cfg=cfg)
        n = 0
        for i in sorted(rej):
            t = tr[i]; sc = by[t['id']]
            for k in range(2): # repeat in isolation
                t2 = s.run(exe, [sc], tag + '-again', env=runenv)
                if post: t2 = [post(x) for x in t2]
                before = s.traces, s.events
                r2 = s.validate(module, t2, env, tag + '-again', 1, cfg=cfg)
                s.traces, s.events = before
                if not r2: break
            if not r2:
                # not repeatable in isolation: repeat the whole run
                tr3 = s.run(exe, scripts, tag + '-whole', env=runenv)
                if post: tr3 = [post(x) for x in tr3]
                r3 = s.validate(module, tr3, env, tag + '-whole', cfg=cfg)
                if i not in r3: s.notes.append('unrepeatable rejection of %s' % t['id']); continue
                t2, r2 = [tr3[i]], {0: r3[i]}
            s.violation('trace %s is not a behaviour of %s: event %d %s' % (t['id'], module, r2[0], json.dumps(t2[0]['ev'][r2[0] - 1] if 0 < r2[0] <= len(t2[0]['ev']) else None)[:600]),
                        script=sc, trace=t2[0], exe=exe, module=module, env=env, runenv=runenv)
            n += 1
            if n >= limit: break
        if not rej and tr:
            t = s.rng.choice(tr)
            with s.lock:
                if len(s.samples) < 6: s.samples.append({'id': t['id'], 'cfg': t['cfg'], 'script': by[t['id']][2][:40]})
        return rej
    def violation(s, msg, script=None, trace=None, exe=None, module=None, env={}, runenv={}, files={}):
        with s.lock:
            d = '%s/replay-%d' % (s.out, len(s.viol) + 1); os.makedirs(d, exist_ok=True)
            p = d + '/README'
            txt = '%s\n\nproperty %s\n' % (msg, s.prop)
            if script:
                open(d + '/script', 'w').write('T %s %s\n%s\n' % (script[0], script[1], '\n'.join(script[2])))
                json.dump(trace, open(d + '/trace.ndjson', 'w'))
                txt += '\nreplay: %s %s %s/script %s/trace.ndjson && %s java -cp %s tlc2.TLC -config %s.cfg %s.tla (in %s)\n' % (
                    ' '.join('%s=%s' % x for x in runenv.items()), exe, d, d, ' '.join('%s=%s' % x for x in dict(env, TRACES=d + '/trace.ndjson').items()), CP, module, module, SPEC)
                txt += '\nevents:\n' + '\n'.join('%3d %s' % (i + 1, json.dumps(e)) for i, e in enumerate(trace['ev']))
            for f, c in files.items(): open(d + '/' + f, 'w').write(c)
            open(p, 'w').write(txt + '\n')
            s.viol.append((msg, p))
    # ---------------------------------------------------------------- verdict
    def finish(s, level='model_checking', extra={}):
        cov = {'states': s.states, 'transitions': s.trans, 'traces_validated_against_impl': s.traces, 'events_validated': s.events,
               'design_transitions_replayed': s.edges[0], 'design_transitions_total': s.edges[1], 'samples': s.samples, 'notes': s.notes}
        cov.update(extra)
        ev = {'property': s.prop, 'tier': s.tier, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': s.assumptions,
              'wall_s': round(time.time() - s.t0, 1), 'violations': [{'message': m, 'replay': p} for m, p in s.viol]}
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (ROOT, s.prop), 'w'), indent=1)
        for l in known(s.prop): print(l)
        for m, p in s.viol[:5]: print(m[:800]); print('VIOLATION property=%s replay=%s' % (s.prop, p))
        print('%s %s: %d states, %d traces (%d events) validated, %d/%d design transitions replayed, %d violations, %.1f s' % (s.prop, s.tier, s.states, s.traces, s.events, s.edges[0], s.edges[1], len(s.viol), time.time() - s.t0))
        return 1 if s.viol else 0

pool2 = ThreadPoolExecutor(NCPU)

def known(prop):
    "findings recorded for this property; each is matched by the check that owns it, which then reports nothing else about it"
    try: L = open(ROOT + '/known_findings.txt').read().split('\n')
    except OSError: return []
    return ['KNOWN-FINDING: ' + l[len('finding: '):] for l in L if l.startswith('finding: property=%s ' % prop)]

# ------------------------------------------------------------------------------------------------
def parse_tla(l):
    "<<...>> of numbers, strings and booleans"
    t = l.strip().replace('<<', '[').replace('>>', ']').replace('TRUE', 'true').replace('FALSE', 'false')
    return json.loads(t)

def cover(edges, maxlen=40, maxpaths=100000, rng=None):
    """Paths from the initial state that together take every transition. edges: [src, dst, label]. The first
    edge printed starts in the initial state."""
    if not edges: return [], (0, 0)
    init = edges[0][0]
    adj = {}
    seen = set(); E = []
    for a, b, l in edges:
        k = (a, b, json.dumps(l))
        if k in seen: continue
        seen.add(k); adj.setdefault(a, []).append(len(E)); E.append((a, b, l))
    un = {a: list(x) for a, x in adj.items()}
    for x in un.values():
        if rng: rng.shuffle(x)
    todo = len(E)
    from collections import deque
    def nearest(src, limit):
        if un.get(src): return []
        q = deque([(src, 0)]); par = {src: None}
        while q:
            x, dd = q.popleft()
            if dd >= limit: continue
            for i in adj.get(x, ()):
                y = E[i][1]
                if y in par: continue
                par[y] = (x, i)
                if un.get(y):
                    p = []
                    while par[y]: p.append(par[y][1]); y = par[y][0]
                    return p[::-1]
                q.append((y, dd + 1))
        return None
    # shortest way from the initial state to everything, so that restarting is cheap
    par = {init: None}; q = deque([init])
    while q:
        x = q.popleft()
        for i in adj.get(x, ()):
            y = E[i][1]
            if y not in par: par[y] = i; q.append(y)
    order = [x for x in par]  # breadth first
    pos = 0
    paths = []
    while todo and len(paths) < maxpaths:
        while pos < len(order) and not un.get(order[pos]): pos += 1
        if pos >= len(order): break
        x = order[pos]; p = []
        y = x
        while par[y] is not None: p.append(par[y]); y = E[par[y]][0]
        p = p[::-1]
        for i in p:
            if i in un[E[i][0]]: un[E[i][0]].remove(i); todo -= 1
        cur = x
        while len(p) < maxlen:
            w = nearest(cur, 3)
            if w is None: break
            for i in w:
                p.append(i); cur = E[i][1]
            i = un[cur].pop(); todo -= 1
            p.append(i); cur = E[i][1]
        paths.append([E[i][2] for i in p])
    return paths, (len(E) - todo, len(E))

def main(table):
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    c = Check(prop, tier)
    try:
        try:
            table[prop](c)
        except CompileError as e:
            if not e.repo: raise Broken('the driver does not compile:\n' + e.log[:6000])
            c.violation('the library does not compile when used as documented', files={'compiler.log': e.log})
        rc = c.finish()
    except Broken as e:
        print('BROKEN %s: %s' % (prop, e)); rc = 2
    sys.stdout.flush()
    os._exit(rc)
