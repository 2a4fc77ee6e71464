// Driver for allocators used by several threads.
#pragma once
#include "core.h"
#include "rt.h"
#include "ktl/ktl.h"
#include "ktl/ktl_alloc_fwd.h"

namespace V {
constexpr int NH = 80, NSLOT = 4; // handles: thread * 10 + number
inline int g_arena, g_made;        // arenas are numbered as they are made
template<class A, class = void> struct g_owns : std::false_type {}; template<class A> struct g_owns<A, std::void_t<decltype(std::declval<const A&>().owns((void*)0))>> : std::true_type {};
template<class A, class = void> struct g_max : std::false_type {}; template<class A> struct g_max<A, std::void_t<decltype(std::declval<const A&>().max_size())>> : std::true_type {};

// what is wrapped: tells when it is used
template<class A> struct Guard
{
	A a; mutable volatile int touched = 0; int id;
	Guard() : id(++g_made) { RT::born(id); }
	~Guard() { RT::gone(id); }
	Guard(const Guard&) = delete; Guard& operator=(const Guard&) = delete;
	struct Use { int id; Use(int i, bool w) : id(i) { RT::in(i, w); } ~Use() { RT::out(id); } };
	void* allocate(size_t n) { Use u(id, true); touched = touched + 1; return a.allocate(n); }
	void deallocate(void* p, size_t n) { Use u(id, true); touched = touched + 1; a.deallocate(p, n); }
	template<class B = A> typename std::enable_if<g_owns<B>::value, bool>::type owns(void* p) const { Use u(id, false); (void)touched; return a.owns(p); }
	template<class B = A> typename std::enable_if<g_max<B>::value, size_t>::type max_size() const { Use u(id, false); (void)touched; return a.max_size(); }
	bool operator==(const Guard& r) const { Use u(id, false); (void)touched; (void)r.touched; bool e = a == r.a; return this == &r && e; }
	bool operator!=(const Guard& r) const { Use u(id, false); (void)touched; (void)r.touched; bool e = a != r.a; return this != &r || e; }
};
struct Quiet { int n = 0; template<class T> Quiet& operator<<(const T&) { n++; return *this; } };
inline Quiet g_quiet[16];
inline int g_nq;
struct Over : ktl::overflow<ktl::mallocator, Quiet> { Over() : ktl::overflow<ktl::mallocator, Quiet>(g_quiet[g_nq++ & 15]) {} };

// handle to a lockable allocator that is not counted
template<class T> struct Raw
{
	T* p;
	void* allocate(size_t n) { return p->allocate(n); }
	void deallocate(void* q, size_t n) { p->deallocate(q, n); }
	template<class B = T> typename std::enable_if<g_owns<B>::value, bool>::type owns(void* q) const { return p->owns(q); }
	template<class B = T> typename std::enable_if<g_max<B>::value, size_t>::type max_size() const { return p->max_size(); }
	bool operator==(const Raw& r) const { return *p == *r.p; }
	bool operator!=(const Raw& r) const { return *p != *r.p; }
};
template<class H> struct is_raw : std::false_type {}; template<class T> struct is_raw<Raw<T>> : std::true_type { typedef T type; };

struct TCfg { virtual ~TCfg() {} virtual void run(const Test&) = 0; };
inline std::map<std::string, std::function<TCfg*()>>& treg() { static std::map<std::string, std::function<TCfg*()>> r; return r; }
struct TReg { TReg(const char* n, std::function<TCfg*()> f) { treg()[n] = f; } };

// H: the handle; T the type of its elements or void
template<class H, class E = void> struct Threads : TCfg
{
	static constexpr size_t U = std::is_same_v<E, void> ? 1 : sizeof(std::conditional_t<std::is_same_v<E, void>, char, E>);
	typedef std::conditional_t<std::is_same_v<E, void>, void, E> EV;
	struct Cell { alignas(16) char b[(sizeof(H) + 15) / 16 * 16]; };
	struct Slot { char* p; int n, ar; };
	struct Prog { std::vector<Toks> ops; };
	static inline Cell cells[NH]; static inline int ar[NH]; static inline Slot slot[RT::NT][NSLOT]; static inline Prog prog[RT::NT];
	alignas(16) static inline char raw[4][512];
	static H& at(int h) { return *reinterpret_cast<H*>(cells[h].b); }
	static bool mine(int t, int h) { return h >= 0 && h < NH && h / 10 == t; }
	static bool usable(int t, int h) { return h >= 0 && h < NH && ar[h] > 0 && (mine(t, h) || h < 10 || RT::self() == 0); } // those of the main thread are only read
	static bool freeSlotsFor(int t, int h) // before the last handle of an arena goes, blocks are returned
	{
		if (ar[h] <= 0) return true;
		for (int k = t * 10; k < t * 10 + 10; k++) if (k != h && ar[k] == ar[h]) return true;
		for (int s = 0; s < NSLOT; s++) if (slot[t][s].p && slot[t][s].ar == ar[h]) dealloc(t, h, s);
		return true;
	}
	static void dealloc(int t, int h, int s)
	{
		Slot& z = slot[t][s]; int b = RT::blockOf(z.p);
		volatile char* p = z.p; if (z.n) { (void)p[0]; (void)p[z.n - 1]; } // the user's own access
		RT::opBeg("de", h, b, s, z.n);
		EV* q = reinterpret_cast<EV*>(z.p); z.p = nullptr; // from here on others may get it
		at(h).deallocate(q, size_t(z.n) / U);
		RT::opEnd(0, 0, 0);
	}
	static void one(int t, const Toks& o)
	{
		const std::string& op = o[0]; int h = I(o, 1), k = I(o, 2);
		if (op == "mk")
		{
			if constexpr (!is_raw<H>::value) { if (ar[h] >= 0 || !mine(t, h)) return;
			RT::opBeg("mk", h, 0, 0, 0); int a = g_made + 1; new (cells[h].b) H(); ar[h] = a; RT::opEnd(a, 0, 0); }
		}
		else if (op == "cp") { if (!usable(t, h) || !(mine(t, k) || t == 0) || ar[k] >= 0) return; RT::opBeg("cp", h, k, 0, 0); new (cells[k].b) H((const H&)at(h)); ar[k] = ar[h]; RT::opEnd(0, 0, 0); }
		else if (op == "mv") { if (!usable(t, h) || !mine(t, h) || !mine(t, k) || ar[k] >= 0) return; RT::opBeg("mv", h, k, 0, 0); new (cells[k].b) H(std::move(at(h))); ar[k] = ar[h]; ar[h] = 0; RT::opEnd(0, 0, 0); }
		else if (op == "dr") { if (ar[h] < 0 || !(mine(t, h) || t == 0)) return; if (!is_raw<H>::value) freeSlotsFor(t, h); RT::opBeg("dr", h, 0, 0, 0); ar[h] = -1; at(h).~H(); RT::opEnd(0, 0, 0); }
		else if (op == "ca") { if (!usable(t, h) || !mine(t, k) || ar[k] < 0) return; if (ar[k] != ar[h]) freeSlotsFor(t, k); RT::opBeg("ca", h, k, 0, 0); at(k) = (const H&)at(h); ar[k] = ar[h]; RT::opEnd(0, 0, 0); }
		else if (op == "ma") { if (!usable(t, h) || !mine(t, h) || !mine(t, k) || ar[k] < 0 || h == k) return; if (ar[k] != ar[h]) freeSlotsFor(t, k); RT::opBeg("ma", h, k, 0, 0); at(k) = std::move(at(h)); ar[k] = ar[h]; ar[h] = 0; RT::opEnd(0, 0, 0); }
		else if (op == "al")
		{
			int s = I(o, 2), n = I(o, 3); if (s >= NSLOT || !usable(t, h) || slot[t][s].p) return;
			n = int((n + U - 1) / U * U);
			RT::opBeg("al", h, 0, s, n);
			char* p = reinterpret_cast<char*>(at(h).allocate(size_t(n) / U));
			int ov = 0; if (p && n) for (auto& x : slot) for (auto& z : x) if (z.p && z.n && p < z.p + z.n && z.p < p + n) ov = 1;
			if (p) slot[t][s] = Slot{ p, n, ar[h] };
			RT::opEnd(0, RT::blockOf(p), ov);
			volatile char* q = p; if (p && n) { q[0] = 1; q[n - 1] = 2; }
		}
		else if (op == "de") { int s = k; if (s >= NSLOT || !usable(t, h) || !slot[t][s].p || slot[t][s].ar != ar[h]) return; dealloc(t, h, s); }
		else if (op == "ow") { { int s = k; if (s >= NSLOT || !usable(t, h) || !slot[t][s].p || slot[t][s].ar != ar[h]) return; owns(h, s, t); } }
		else if (op == "mx") { if constexpr (g_max<H>::value) { if (!usable(t, h)) return; RT::opBeg("mx", h, 0, 0, 0); size_t m = at(h).max_size(); RT::opEnd(int(encn(m * U)), 0, 0); } }
		else if (op == "eq" || op == "ne")
		{
			if (!usable(t, h) || !usable(t, k)) return;
			RT::opBeg(op.c_str(), h, k, 0, 0); bool r = op == "eq" ? at(h) == at(k) : at(h) != at(k); RT::opEnd(r, 0, 0);
		}
	}
	static void owns(int h, int s, int t)
	{
		if constexpr (g_owns<H>::value)
		{
			RT::opBeg("ow", h, 0, s, 0); bool r = ((const H&)at(h)).owns(slot[t][s].p); RT::opEnd(r, 0, 0);
		}
	}
	static void body(int t)
	{
		for (auto& o : prog[t].ops) one(t, o);
		for (int h = t * 10; h < t * 10 + 10; h++) if (ar[h] >= 0) one(t, { "dr", std::to_string(h) });
	}
	void run(const Test& t) override
	{
		g_made = 0; g_nq = 0; for (auto& q : g_quiet) q.n = 0;
		for (auto& a : ar) a = -1;
		for (auto& p : prog) p.ops.clear();
		RT::Sched s; int nt = 0; std::vector<Toks> first;
		for (auto& o : t.ops)
		{
			if (o[0] == "rnd") { s.mode = I(o, 1); s.seed = unsigned(I(o, 2)); s.depth = I(o, 3); s.accp = I(o, 4); }
			else if (o[0] == "s") for (size_t i = 1; i + 1 < o.size(); i += 2) s.list.push_back({ I(o, i), o[i + 1] });
			else if (o[0] == "p") { int u = I(o, 1); nt = nt > u ? nt : u; prog[u].ops.push_back(Toks(o.begin() + 2, o.end())); }
			else first.push_back(o);
		}
		RT::begin(s);
		for (auto& c : cells) RT::region(c.b, sizeof c.b);
		if constexpr (is_raw<H>::value)
		{
			typedef typename is_raw<H>::type T; static_assert(sizeof(T) <= 512, "");
			for (int i = 0; i < 2; i++) { RT::region(raw[i], 512); RT::opBeg("mk", i, 0, 0, 0); new (raw[i]) T(); new (cells[i].b) H{ reinterpret_cast<T*>(raw[i]) }; ar[i] = i + 1; RT::opEnd(i + 1, 0, 0); }
		}
		for (auto& o : first) one(0, o);
		RT::spawn(nt, body);
		// what threads left is returned by the main one
		for (int u = 0; u < RT::NT; u++) for (int i = 0; i < NSLOT; i++) if (slot[u][i].p) for (int h = 0; h < NH; h++) if (ar[h] == slot[u][i].ar) { dealloc(u, h, i); break; }
		for (int h = 0; h < 10; h++) if (ar[h] >= 0 && !is_raw<H>::value) one(0, { "dr", std::to_string(h) });
		if constexpr (is_raw<H>::value) for (int i = 0; i < 2; i++) { typedef typename is_raw<H>::type T; RT::opBeg("dr", i, 0, 0, 0); ar[i] = -1; reinterpret_cast<T*>(raw[i])->~T(); RT::opEnd(0, 0, 0); }
		for (auto& x : slot) for (auto& z : x) z.p = nullptr;
		RT::finish();
	}
};
inline void runThreads(const Test& t)
{
	auto i = treg().find(t.cfg); if (i == treg().end()) { fprintf(stderr, "no configuration %s\n", t.cfg.c_str()); _exit(5); }
	std::unique_ptr<TCfg> c(i->second()); c->run(t);
}
}
