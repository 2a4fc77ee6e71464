#include "core.h"
#include "rt.h"
#include <pthread.h>
#include <errno.h>
#include <semaphore.h>
#include <algorithm>
#include <set>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*); int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
void* __real_malloc(size_t); void __real_free(void*);
}
#define NOI __attribute__((no_sanitize("thread")))
namespace RT {
struct Acc { uintptr_t a; unsigned n; bool w; bool operator<(const Acc& r) const { return a != r.a ? a < r.a : n != r.n ? n < r.n : w < r.w; } };
struct Rec { std::string e; int t; std::string o; long x[5] = {}; uintptr_t at = 0; unsigned an = 0; std::set<Acc> acc; };
struct Obj { uintptr_t a; size_t n; int id; bool heap, freed; };
struct Th { int st = 0; const void* on = nullptr; bool op = false; sem_t sem; pthread_t p; std::set<Acc> acc; int prio = 0; }; // st: 0 none, 1 ready, 2 waits, 3 over, 4 joins
struct Lk { int owner = -1, cnt = 0, readers = 0; };
static bool g_on = false; static Th th[NT]; static int g_cur = 0, g_n = 1; static long g_steps = 0;
static std::vector<Rec>* recs; static std::map<uintptr_t, Obj>* objs; static std::map<const void*, Lk>* lks; static std::map<uintptr_t, int>* bids; static int g_oid; static long g_live;
static Sched sc; static size_t si; static unsigned rnd; static std::set<long>* chg;
static thread_local int t_me = -1; static thread_local int t_rt = 0;
struct In { In() { t_rt++; } ~In() { t_rt--; } };
NOI static bool active() { return g_on && t_me >= 0 && !t_rt; }
static unsigned rng() { rnd = rnd * 1664525u + 1013904223u; return rnd >> 8; }
int self() { return t_me; }

static void dump();
static void dead(const char* why)
{
	recs->push_back(Rec()); recs->back().e = "dead"; recs->back().t = t_me; recs->back().o = why;
	dump(); _exit(9);
}
static Rec& rec(const char* e)
{
	recs->push_back(Rec()); Rec& r = recs->back(); r.e = e; r.t = t_me; r.acc.swap(th[t_me].acc); th[t_me].acc.clear();
	if (recs->size() > 20000) dead("long");
	return r;
}
static void flush() { if (!th[t_me].acc.empty()) rec("acc"); }
static bool canRun(int u)
{
	if (th[u].st == 1) return true;
	if (th[u].st == 4) { for (int v = 1; v < g_n; v++) if (th[v].st != 3) return false; return true; }
	return false;
}
static void go(int u)
{
	if (u == t_me) return;
	int me = t_me; g_cur = u; sem_post(&th[u].sem);
	if (th[me].st == 3) return;
	while (sem_wait(&th[me].sem)) {}
}
static int pick(bool leave) // leave: the current one cannot go on
{
	std::vector<int> c; for (int u = 0; u < g_n; u++) if (canRun(u) && !(leave && u == t_me)) c.push_back(u);
	if (c.empty()) return -1;
	if (sc.mode == 1) return !leave && rng() % 2 ? t_me : c[rng() % c.size()];
	if (sc.mode == 3) return !leave && rng() % 8 ? t_me : c[rng() % c.size()];
	if (sc.mode == 2) { if (chg->count(g_steps)) th[t_me].prio = -int(g_steps); int b = c[0]; for (int u : c) if (th[u].prio > th[b].prio) b = u; return b; }
	return !leave ? t_me : c[0];
}
// about to do something of a kind
static void point(const char* kind)
{
	if (!g_on || g_n == 1) return;
	if (++g_steps > 60000) dead("livelock");
	bool first = true;
	for (;;)
	{
		while (si < sc.list.size() && !canRun(sc.list[si].first)) si++;
		if (si < sc.list.size())
		{
			auto& e = sc.list[si];
			if (e.first != t_me) { flush(); go(e.first); first = false; continue; }
			if (e.second == kind || e.second == "*") si++;
			else if (!strcmp(kind, "end")) { while (si < sc.list.size() && sc.list[si].first == t_me && sc.list[si].second != "end") si++; if (si < sc.list.size() && sc.list[si].first == t_me) si++; }
			return;
		}
		if (!first && sc.mode == 0) return;
		int u = pick(false);
		// long runs of spinning must end
		if (u == t_me && g_steps > 3000 && g_steps % 7 == 0) { std::vector<int> c; for (int v = 0; v < g_n; v++) if (canRun(v)) c.push_back(v); u = c[rng() % c.size()]; }
		if (u != t_me && u >= 0) { flush(); go(u); }
		return;
	}
}
static void wait(const void* m)
{
	flush();
	th[t_me].st = 2; th[t_me].on = m;
	while (si < sc.list.size() && !canRun(sc.list[si].first)) si++;
	int u = si < sc.list.size() ? sc.list[si].first : pick(true);
	if (u < 0) dead("deadlock");
	go(u);
}
static void wake(const void* m) { for (int u = 0; u < g_n; u++) if (th[u].st == 2 && th[u].on == m) th[u].st = 1; }

void begin(const Sched& s)
{
	In i; sc = s; si = 0; rnd = s.seed; t_me = 0; g_cur = 0; g_n = 1; g_steps = 0; g_oid = 0; g_live = 0;
	delete recs; delete objs; delete lks; delete chg; delete bids; recs = new std::vector<Rec>; objs = new std::map<uintptr_t, Obj>; lks = new std::map<const void*, Lk>; chg = new std::set<long>; bids = new std::map<uintptr_t, int>;
	for (auto& t : th) { t.st = 0; t.op = false; t.acc.clear(); t.on = nullptr; }
	th[0].st = 1; sem_init(&th[0].sem, 0, 0);
	for (int k = 0; k < s.depth; k++) chg->insert(long(rng() % 120));
	g_on = true;
}
static void addObj(const void* p, size_t n, bool heap) { (*objs)[(uintptr_t)p] = Obj{ (uintptr_t)p, n, ++g_oid, heap, false }; }
void region(const void* p, size_t n) { In i; addObj(p, n, false); }
static void (*g_f)(int);
static void* body(void* a)
{
	t_me = int((intptr_t)a);
	{ In i; while (sem_wait(&th[t_me].sem)) {} }
	g_f(t_me);
	In i; flush(); rec("over"); th[t_me].st = 3; 
	while (si < sc.list.size() && !canRun(sc.list[si].first)) si++;
	int u = si < sc.list.size() ? sc.list[si].first : -1;
	if (u < 0) { std::vector<int> c; for (int v = 0; v < g_n; v++) if (canRun(v)) c.push_back(v); if (c.empty()) dead("deadlock"); u = c.size() > 1 && c[0] == 0 ? c[1] : c[0]; if (sc.mode) { u = c[rng() % c.size()]; } }
	go(u);
	return nullptr;
}
void spawn(int n, void (*f)(int))
{
	In i; flush(); g_f = f; g_n = n + 1;
	for (int u = 1; u <= n; u++) { th[u].st = 1; th[u].prio = int(rng() % 1000); sem_init(&th[u].sem, 0, 0); rec("spn").x[0] = u; }
	for (int u = 1; u <= n; u++) if (pthread_create(&th[u].p, nullptr, body, (void*)(intptr_t)u)) _exit(8);
	th[0].st = 4; th[0].prio = -1000000;
	while (si < sc.list.size() && !canRun(sc.list[si].first)) si++;
	int u = si < sc.list.size() ? sc.list[si].first : pick(true);
	go(u);
	for (int v = 1; v <= n; v++) { if (th[v].st != 3) _exit(7); pthread_join(th[v].p, nullptr); rec("jn").x[0] = v; sem_destroy(&th[v].sem); }
	g_n = 1; th[0].st = 1;
}
void opBeg(const char* op, int h, int k, int s, int n) { In i; flush(); point("beg"); Rec& r = rec("beg"); r.o = op; r.x[0] = h; r.x[1] = k; r.x[2] = s; r.x[3] = n; th[t_me].op = true; }
void opEnd(int q, int b, int ov) { In i; point("end"); Rec& r = rec("end"); r.x[0] = q; r.x[1] = b; r.x[2] = ov; th[t_me].op = false; }
void in(int al, bool w) { In i; point("in"); Rec& r = rec("in"); r.x[0] = al; r.x[1] = w; }
void out(int al) { In i; point("out"); rec("out").x[0] = al; }
void born(int al) { In i; rec("c").x[0] = al; }
void gone(int al) { In i; rec("x").x[0] = al; }
int blockOf(const void* p) { In i; if (!p) return 0; auto& b = (*bids)[(uintptr_t)p]; if (!b) b = int(bids->size()); return b; }

static Obj* find(uintptr_t a)
{
	auto i = objs->upper_bound(a); if (i == objs->begin()) return nullptr; --i;
	return a < i->second.a + i->second.n ? &i->second : nullptr;
}
static void dump()
{
	// split what was accessed into pieces that are accessed as a whole
	std::map<int, std::set<uintptr_t>> cuts;
	auto note = [&](uintptr_t a, unsigned n) { Obj* o = find(a); if (o) { cuts[o->id].insert(a); cuts[o->id].insert(a + n); } };
	for (auto& r : *recs) { for (auto& a : r.acc) note(a.a, a.n); if (r.an) note(r.at, r.an); }
	std::map<uintptr_t, int> loc; int nl = 0;
	auto locs = [&](uintptr_t a, unsigned n) { std::vector<int> v; Obj* o = find(a); if (!o) return v; for (uintptr_t c : cuts[o->id]) if (c >= a && c < a + n) { int& l = loc[c]; if (!l) l = ++nl; v.push_back(l); } return v; };
	for (auto& r : *recs)
	{
		std::set<int> rd, wr; for (auto& a : r.acc) for (int l : locs(a.a, a.n)) (a.w ? wr : rd).insert(l);
		V::Ev e(r.e.c_str()); e.i("t", r.t).a("rd", rd).a("wr", wr);
		auto x = [&](int k, const char* n) { e.i(n, r.x[k]); };
		if (r.e == "beg") { e.s("o", r.o); x(0, "h"); x(1, "k"); x(2, "s"); x(3, "n"); }
		else if (r.e == "end") { x(0, "r"); x(1, "b"); x(2, "ov"); }
		else if (r.e == "in") { x(0, "al"); x(1, "w"); } else if (r.e == "out" || r.e == "c" || r.e == "x") x(0, "al");
		else if (r.e == "spn" || r.e == "jn") x(0, "u");
		else if (r.e == "dead") e.s("o", r.o);
		else if (r.e == "fin") x(0, "live");
		else if (r.e == "fen") x(0, "mo");
		else if (r.e == "fre") { std::set<int> w; Obj* o = find(r.at); if (o) for (auto c : cuts[o->id]) if (loc.count(c)) w.insert(loc[c]); else if (c < o->a + o->n) w.insert(loc[c] = ++nl); e.a("ls", w); x(0, "ob"); x(1, "ok"); }
		else if (r.at) { auto v = locs(r.at, r.an); e.i("m", v.empty() ? 0 : v[0]).i("ob", r.x[1]); x(0, "mo"); }
		e.end();
	}
}
void finish()
{
	In i; flush(); rec("fin").x[0] = g_live; dump(); g_on = false; t_me = -1; sem_destroy(&th[0].sem);
	for (auto& o : *objs) if (o.second.heap) __real_free((void*)o.second.a);
	objs->clear();
}

// ------------------------------------------------------------------ hooks
static void access(void* p, size_t n, bool w)
{
	if (!active()) return; In i;
	Obj* o = find((uintptr_t)p); if (!o) return;
	if (sc.accp && g_n > 1 && int(rng() % 100) < sc.accp) point("acc");
	if (o->freed) { Rec& r = rec("uaf"); r.at = (uintptr_t)p; r.an = unsigned(n); return; }
	th[t_me].acc.insert(Acc{ (uintptr_t)p, (unsigned)n, w });
}
static void before(void*) { if (active()) { In i; point("at"); } }
static void sync(const char* k, const volatile void* p, unsigned n, int mo)
{
	if (!active()) return; In i;
	Obj* o = find((uintptr_t)p);
	if (o && o->freed) { Rec& r = rec("uaf"); r.at = (uintptr_t)p; r.an = n; return; }
	if (!o) { addObj((const void*)p, n, false); }
	Rec& r = rec(k); r.at = (uintptr_t)p; r.an = n; r.x[0] = mo; r.x[1] = o ? o->id : 0;
}
static int lockIt(void* m, bool recursive, bool shared, bool tryit)
{
	In i; point("lk");
	for (;;)
	{
		Lk& l = (*lks)[m];
		bool free = shared ? l.owner < 0 : (l.owner < 0 && l.readers == 0) || (recursive && l.owner == t_me);
		if (free) { if (shared) l.readers++; else { l.owner = t_me; l.cnt++; } break; }
		if (tryit) { Rec& r = rec("tl"); r.at = 0; return EBUSY; }
		wait(m);
	}
	t_rt--; sync(shared ? "rl" : "lk", m, 1, 0); t_rt++;
	return 0;
}
static int unlockIt(void* m)
{
	In i; Lk& l = (*lks)[m]; bool sh = l.readers > 0;
	t_rt--; sync(sh ? "ru" : "ul", m, 1, 0); t_rt++;
	if (sh) l.readers--; else if (l.owner != t_me) dead("unlock"); else if (--l.cnt == 0) l.owner = -1;
	wake(m); point("ul");
	return 0;
}
}
using namespace RT;
extern "C" {
NOI void __tsan_init() {} NOI void __tsan_func_entry(void*) {} NOI void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } \
	void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
	void __tsan_volatile_read##N(void* p) { access(p, N, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true); } \
	void __tsan_read_write##N(void* p) { access(p, N, false); access(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { access(p, N, false); access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); } void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); } void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((void*)s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((void*)s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int mo) { if (active()) { In i; point("at"); rec("fen").x[0] = mo; } }
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int mo) { before((void*)p); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); sync("ld", p, sizeof(T), mo); return v; } \
void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { before((void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); sync("st", p, sizeof(T), mo); } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { before((void*)p); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); sync("rmw", p, sizeof(T), mo); return r; } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { before((void*)p); T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); sync("rmw", p, sizeof(T), mo); return r; } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { before((void*)p); T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); sync("rmw", p, sizeof(T), mo); return r; } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { before((void*)p); T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); sync("rmw", p, sizeof(T), mo); return r; } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { before((void*)p); T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); sync("rmw", p, sizeof(T), mo); return r; } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { before((void*)p); T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); sync("rmw", p, sizeof(T), mo); return r; } \
T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { before((void*)p); T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); sync("rmw", p, sizeof(T), mo); return r; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fm) { before((void*)p); bool k = __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); sync(k ? "rmw" : "ld", p, sizeof(T), k ? mo : fm); return k; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fm) { return __tsan_atomic##B##_compare_exchange_strong(p, c, v, mo, fm); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fm) { __tsan_atomic##B##_compare_exchange_strong(p, &c, v, mo, fm); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)

#define LOCK(F, M, R, S, T) int __wrap_##F(M* m) { if (!active()) return __real_##F(m); return lockIt(m, R, S, T); }
LOCK(pthread_mutex_lock, pthread_mutex_t, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP, false, false)
LOCK(pthread_mutex_trylock, pthread_mutex_t, (m->__data.__kind & 127) == PTHREAD_MUTEX_RECURSIVE_NP, false, true)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, false, true, false) LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, false, false, false)
LOCK(pthread_rwlock_tryrdlock, pthread_rwlock_t, false, true, true) LOCK(pthread_rwlock_trywrlock, pthread_rwlock_t, false, false, true)
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!active()) return __real_pthread_mutex_unlock(m); return unlockIt(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!active()) return __real_pthread_rwlock_unlock(m); return unlockIt(m); }
void* __wrap_malloc(size_t n)
{
	void* p = __real_malloc(n ? n : 1);
	if (p && active() && th[t_me].op) { In i; memset(p, 0xCD, n); addObj(p, n ? n : 1, true); g_live++; }
	return p;
}
void __wrap_free(void* p)
{
	if (!p) return;
	if (active()) { In i; auto o = objs->find((uintptr_t)p); if (o != objs->end()) { Rec& r = rec("fre"); r.at = (uintptr_t)p; r.an = 1; r.x[0] = o->second.id; r.x[1] = o->second.heap && !o->second.freed; if (!o->second.freed) g_live--; o->second.freed = true; return; } }
	__real_free(p);
}
}
void* operator new(size_t n) { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
