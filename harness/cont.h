// Driver for vectors, arrays, buffers and heaps: scripted histories on several containers.
#pragma once
#include "core.h"
#include "ktl/ktl_alloc_fwd.h"
#include "ktl/ktl.h"
#include <algorithm>
#include <type_traits>

namespace V {

// ---------------------------------------------------------------- what allocators are asked for
struct MBlk { char* p; size_t n; int al; bool live; };
inline std::vector<MBlk> g_mb; inline std::string g_mem; inline int g_mlog = 1;
inline std::map<const void*, int> g_alive;              // objects alive: address -> serial number
inline int g_serial = 0;
inline int mfind(const void* q, long long& off)
{
	const char* p = (const char*)q;
	for (size_t k = g_mb.size(); k-- > 0;) if (p >= g_mb[k].p && p < g_mb[k].p + (g_mb[k].n ? g_mb[k].n : 1)) { off = p - g_mb[k].p; return int(k + 1); }
	off = 0; return p ? -1 : 0;
}
inline void mlog(const char* k, int b, size_t n, int al, int lv)
{
	char s[96]; snprintf(s, sizeof s, "%s{\"k\":\"%s\",\"b\":%d,\"n\":%lld,\"al\":%d,\"lv\":%d}", g_mem.empty() ? "" : ",", k, b, encn(n), al, lv);
	if (g_mem.size() < 100000) g_mem += s;
}
inline void* mget(size_t n, int al)
{
	if (n > (64u << 20)) raise(SIGXCPU);
	char* p = (char*)malloc((n ? n : 1) + 32) + 16; // at offset 16 of a block: as aligned as malloc
	memset(p - 16, 0xE1, n + 32); memset(p, 0xCD, n);
	V_POISON(p - 16, 16); V_POISON(p + ((n + 7) & ~size_t(7)), 8);
	g_mb.push_back({ p, n, al, true });
	mlog("a", (int)g_mb.size(), n, al, 0);
	return p;
}
inline void mput(void* q, size_t n, int al)
{
	long long off; int b = q ? mfind(q, off) : 0;
	if (b > 0 && (off != 0 || !g_mb[b - 1].live)) b = -1;
	int lv = 0;
	if (b > 0) { auto& m = g_mb[b - 1]; for (auto i = g_alive.lower_bound(m.p); i != g_alive.end() && (char*)i->first < m.p + m.n; ++i) lv++; }
	mlog("d", b, n, al, lv);
	if (b > 0) { g_mb[b - 1].live = false; memset(q, 0xDD, g_mb[b - 1].n); V_POISON(q, (g_mb[b - 1].n + 7) & ~size_t(7)); }
}
inline int mlive() { int n = 0; for (auto& m : g_mb) n += m.live; return n; }
inline bool mguards() // nothing was written next to a block
{
	for (auto& m : g_mb) { V_UNPOISON(m.p - 16, m.n + 32); }
	bool ok = true;
	for (auto& m : g_mb) { for (int i = 0; i < 16; i++) if ((unsigned char)m.p[-16 + i] != 0xE1 || (unsigned char)m.p[m.n + i] != 0xE1) ok = false; if (!m.live) for (size_t i = 0; i < m.n; i++) if ((unsigned char)m.p[i] != 0xDD) ok = false; }
	return ok;
}
inline void mclear() { for (auto& m : g_mb) { V_UNPOISON(m.p - 16, m.n + 32); free(m.p - 16); } g_mb.clear(); g_alive.clear(); g_serial = 0; }

// ---------------------------------------------------------------- allocators
// of a given arena; equal when of one arena
template<class T> struct Al
{
	typedef T value_type; int a;
	Al(int a_ = 0) noexcept : a(a_) {}
	template<class U> Al(const Al<U>& r) noexcept : a(r.a) {}
	T* allocate(size_t n) { return (T*)mget(n * sizeof(T), a); }
	void deallocate(T* p, size_t n) { mput(p, n * sizeof(T), a); }
	template<class U> bool operator==(const Al<U>& r) const noexcept { return a == r.a; }
	template<class U> bool operator!=(const Al<U>& r) const noexcept { return a != r.a; }
};
// one whose copies start their own arena when a container is copied
inline int g_next = 100;
template<class T> struct Fresh
{
	typedef T value_type; int a;
	Fresh(int a_ = 0) noexcept : a(a_) {}
	template<class U> Fresh(const Fresh<U>& r) noexcept : a(r.a) {}
	Fresh select_on_container_copy_construction() const { return Fresh(g_next++); }
	T* allocate(size_t n) { return (T*)mget(n * sizeof(T), a); }
	void deallocate(T* p, size_t n) { mput(p, n * sizeof(T), a); }
	bool operator==(const Fresh& r) const noexcept { return a == r.a; }
	bool operator!=(const Fresh& r) const noexcept { return a != r.a; }
};
// the provider underneath the library's own allocators
struct Prov
{
	int a;
	Prov() noexcept : a(g_next++) {}
	Prov(const Prov&) = delete; Prov& operator=(const Prov&) = delete;
	void* allocate(size_t n) noexcept { return mget(n, a); }
	void deallocate(void* p, size_t n) noexcept { mput(p, n, a); }
	bool owns(void* p) const noexcept { long long o; int b = mfind(p, o); return b > 0 && g_mb[b - 1].al == a; }
	bool operator==(const Prov& r) const noexcept { return a == r.a; }
	bool operator!=(const Prov& r) const noexcept { return a != r.a; }
};
template<class A, class = void> struct AlTab { static inline std::map<int, A> t; static A get(int i) { auto f = t.find(i); if (f != t.end()) return f->second; return t.emplace(i, A()).first->second; } static void clear() { t.clear(); } };
template<class T> struct AlTab<Al<T>> { static Al<T> get(int i) { return Al<T>(i); } static void clear() {} };
template<class T> struct AlTab<Fresh<T>> { static Fresh<T> get(int i) { return Fresh<T>(i); } static void clear() {} };

// ---------------------------------------------------------------- trivial elements
// S bytes aligned to A, all of which depend on the value
template<int S, int A> struct alignas(A) El
{
	unsigned char b[S];
	El() = default;
	El(int x) noexcept { for (int i = 0; i < S; i++) b[i] = i == 0 ? x & 127 : (unsigned char)(x * 5 + i * 11); }
	int val() const noexcept { for (int i = 1; i < S; i++) if (b[i] != (unsigned char)(b[0] * 5 + i * 11)) return -9; return b[0] < 128 ? b[0] : -8; }
};
template<int S, int A> int val(const El<S, A>& e) { return e.val(); }
inline int val(int e) { return e; }
inline int val(double e) { return e == (double)(int)e ? (int)e : -9; }
inline int val(unsigned char e) { return e; }
inline int val(unsigned short e) { return e; }
struct Pair3 { short a; char b; short c; Pair3() = default; Pair3(int x) noexcept : a(short(x)), b(char(x % 50)), c(short(-x)) {} };
inline int val(const Pair3& p) { return p.c == -p.a && p.b == p.a % 50 ? p.a : -9; }

struct Cfg { std::string name; virtual ~Cfg() {} virtual void run(const Test&) = 0; };
inline std::map<std::string, std::function<Cfg*()>>& registry() { static std::map<std::string, std::function<Cfg*()>> r; return r; }
struct Reg { Reg(const char* n, std::function<Cfg*()> f) { registry()[n] = f; } };
inline void runCont(const Test& t)
{
	g_mem.clear(); g_next = 100;
	std::unique_ptr<Cfg> c(registry().at(t.cfg)());
	c->run(t);
}

constexpr int NV = 4;
// containers live in memory of exactly their size and no more than their alignment
template<class C> struct Place
{
	char* raw; char* at; bool on = false;
	Place() { size_t a = alignof(C); raw = (char*)malloc(sizeof(C) + 4 * a + 64); uintptr_t x = (uintptr_t)raw + 16; x = (x + 2 * a - 1) / (2 * a) * (2 * a) + a; at = (char*)x; memset(raw, 0xE7, sizeof(C) + 4 * a + 64); guard(true); }
	~Place() { guard(false); free(raw); }
	size_t total() { return sizeof(C) + 4 * alignof(C) + 64; }
	void guard(bool on_) { if (on_) { V_POISON(at + ((sizeof(C) + 7) & ~size_t(7)), 8); } else V_UNPOISON(raw, total()); }
	bool clean() { for (char* p = raw; p < raw + total(); p++) if ((p < at || p >= at + sizeof(C)) && (unsigned char)*p != 0xE7) return false; return true; }
	C& c() { return *(C*)at; }
};

enum { VEC, ARR, BUF };
// BA: a buffer of BA elements;  A: allocator
template<int K, class C, class T, class A, size_t BA> struct Seq : Cfg
{
	Place<C> pl[NV + 1]; long ways = 0;
	bool on(int v) { return v >= 1 && v <= NV && pl[v].on; }
	C& at(int v) { return pl[v].c(); }
	static constexpr int NW = 10;
	std::vector<int> read(int v, int way)
	{
		C& x = at(v); const C& k = x; size_t n = x.size(); if (n > 5000) n = 5000;
		std::vector<int> r; int q = 0;
		switch (way % NW)
		{
		case 0: for (size_t i = 0; i < n; i++) r.push_back(val(k[i])); break;
		case 1: for (size_t i = 0; i < n; i++) r.push_back(val(x.at(i))); break;
		case 2: for (auto i = x.begin(); i != x.end() && ++q < 5000; ++i) r.push_back(val(*i)); break;
		case 3: for (auto i = k.begin(); i != k.end() && ++q < 5000; ++i) r.push_back(val(*i)); break;
		case 4: for (auto i = x.rbegin(); i != x.rend() && ++q < 5000; ++i) r.push_back(val(*i)); std::reverse(r.begin(), r.end()); break;
		case 5: for (auto i = k.rbegin(); i != k.rend() && ++q < 5000; ++i) r.push_back(val(*i)); std::reverse(r.begin(), r.end()); break;
		case 6: for (size_t i = 0; i < n; i++) r.push_back(val(x.data()[i])); break;
		case 7: for (size_t i = 0; i < n; i++) r.push_back(val(k.data()[i])); break;
		case 8: for (size_t i = 0; i < n; i++) r.push_back(val(x[i])); break;
		case 9: for (size_t i = 0; i < n; i++) r.push_back(val(k.at(i))); break;
		}
		return r;
	}
	void obs(Ev& e)
	{
		std::string s = "["; bool f = true; ways++;
		for (int v = 1; v <= NV; v++) if (on(v))
		{
			std::vector<int> c = read(v, int(ways + v * 3)); C& x = at(v); const C& k = x;
			long long off = 0; int b = 0; size_t cap = x.size();
			if constexpr (K == VEC) cap = k.capacity();
			bool em = k.size() == 0;
			if constexpr (K != BUF) { b = cap ? mfind((const void*)k.data(), off) : 0; em = k.empty(); }
			char t[200]; snprintf(t, sizeof t, "%s{\"v\":%d,\"n\":%lld,\"em\":%s,\"cap\":%lld,\"b\":%d,\"o\":%lld,\"mis\":%d,\"c\":[", f ? "" : ",", v, encn(x.size()), em ? "true" : "false", encn(cap), b, off, int((uintptr_t)k.data() % alignof(T)));
			s += t; f = false; bool g = true;
			for (int y : c) { snprintf(t, sizeof t, "%s%d", g ? "" : ",", y); s += t; g = false; }
			s += "]}";
		}
		e.j("obs", s + "]");
	}
	struct R { int w = 0, i = 0, j = 0; long long n = 0; int x = 0; std::vector<int> xs; int r = -1; };
	void emit(const Toks& o, int v, const R& r)
	{
		Ev e(o[0].c_str()); e.i("v", v).i("w", r.w).i("i", r.i).i("j", r.j).i("n", r.n).i("x", r.x).a("xs", r.xs).i("r", r.r);
		e.j("mem", "[" + g_mem + "]"); g_mem.clear();
		obs(e); e.end();
	}
	static std::vector<int> ints(const Toks& o, size_t from) { std::vector<int> r; for (size_t k = from; k < o.size(); k++) r.push_back(atoi(o[k].c_str())); return r; }
	static std::vector<T> els(const std::vector<int>& x) { std::vector<T> r; for (int y : x) r.push_back(T(y)); return r; }
	static std::vector<int> digits(size_t i) { return { int(i >> 48 & 0xffff), int(i >> 32 & 0xffff), int(i >> 16 & 0xffff), int(i & 0xffff) }; }
	A al(int i) { if constexpr (K == BUF) return A(); else return AlTab<A>::get(i); }
	// lists of a few lengths
	template<class F> static void withList(const std::vector<T>& x, F f)
	{
		switch (x.size())
		{
		case 0: f(std::initializer_list<T>{}); break;
		case 1: f({ x[0] }); break;
		case 2: f({ x[0], x[1] }); break;
		case 3: f({ x[0], x[1], x[2] }); break;
		case 4: f({ x[0], x[1], x[2], x[3] }); break;
		default: f({ x[0], x[1], x[2], x[3], x[4] });
		}
	}
	bool create(const std::string& op, int v, const Toks& o, R& r)
	{
		if (v < 1 || v > NV || on(v)) return false;
		void* m = pl[v].at; int a = I(o, 2);
		if constexpr (K == BUF)
		{
			if (op == "new") ::new(m) C();
			else if (op == "newv") { r.x = I(o, 3); ::new(m) C(T(r.x)); }
			else if (op == "newi") { r.xs = ints(o, 3); if (r.xs.size() > 5) r.xs.resize(5); if (r.xs.size() > BA) r.xs.resize(BA); auto x = els(r.xs); withList(x, [&](std::initializer_list<T> l) { ::new(m) C(l); }); }
			else if (op == "newr") { r.xs = ints(o, 3); r.xs.resize(BA, 5); auto x = els(r.xs); ::new(m) C((const T*)x.data(), (const T*)x.data() + BA); }
			else if (op == "ccon" || op == "mcon") { r.w = a; if (!on(r.w)) return false; if (op == "ccon") ::new(m) C((const C&)at(r.w)); else ::new(m) C(std::move(at(r.w))); }
			else return false;
		}
		else
		{
			if (op == "new") { if (a) ::new(m) C(al(a)); else ::new(m) C(); }
			else if (op == "newn") { r.n = I(o, 3); if (a) ::new(m) C((size_t)r.n, al(a)); else ::new(m) C((size_t)r.n); }
			else if (op == "newv") { r.n = I(o, 3); r.x = I(o, 4); T x(r.x); if (a) ::new(m) C((size_t)r.n, x, al(a)); else ::new(m) C((size_t)r.n, x); }
			else if (op == "newi") { r.xs = ints(o, 3); if (r.xs.size() > 5) r.xs.resize(5); auto x = els(r.xs); A q = al(a); bool d = !a; withList(x, [&](std::initializer_list<T> l) { if (d) ::new(m) C(l); else ::new(m) C(l, q); }); }
			else if (op == "newr") { r.xs = ints(o, 3); auto x = els(r.xs); const T *f = x.data(), *l = f + x.size(); if (a) ::new(m) C(f, l, al(a)); else ::new(m) C(f, l); }
			else if (op == "ccon" || op == "mcon" || op == "ccona" || op == "mcona")
			{
				r.w = a; if (!on(r.w)) return false; C& y = at(r.w);
				if (op == "ccon") ::new(m) C((const C&)y); else if (op == "mcon") ::new(m) C(std::move(y));
				else if (op == "ccona") ::new(m) C((const C&)y, al(I(o, 3))); else ::new(m) C(std::move(y), al(I(o, 3)));
			}
			else return false;
		}
		pl[v].on = true;
		return true;
	}
	bool exec(const std::string& op, int v, const Toks& o, R& r)
	{
		if (!on(v)) return false;
		C& x = at(v); size_t n = x.size();
		if (op == "del") { x.~C(); pl[v].on = false; return true; }
		if (op == "cass" || op == "mass") { r.w = I(o, 2); if (!on(r.w)) return false; C& y = at(r.w); if (op == "cass") x = (const C&)y; else x = std::move(y); return true; }
		if (op == "set")
		{
			if (!n) return false;
			r.i = I(o, 2); if (K != BUF) r.i = int(size_t(r.i) % n); r.x = I(o, 3); T e(r.x); int way = int(ways++ % 6); size_t i = r.i, h = K == BUF ? i % BA : i;
			switch (way) { case 0: x[i] = e; break; case 1: x.at(i) = e; break; case 2: x.begin()[h] = e; break; case 3: x.data()[h] = e; break; case 4: x.rbegin()[n - 1 - h] = e; break; default: *(x.end() - (n - h)) = e; }
			return true;
		}
		if constexpr (K == BUF)
		{
			const C& k = x;
			if (op == "setd") { size_t i = sz(o[2]); r.xs = digits(i); r.x = I(o, 3); if (ways++ & 1) x[i] = T(r.x); else x.at(i) = T(r.x); return true; }
			if (op == "getd") { size_t i = sz(o[2]); r.xs = digits(i); switch (ways++ & 3) { case 0: r.r = val(x[i]); break; case 1: r.r = val(k[i]); break; case 2: r.r = val(x.at(i)); break; default: r.r = val(k.at(i)); } return true; }
			if (op == "asg") { r.xs = ints(o, 2); r.xs.resize(BA, 7); auto y = els(r.xs); x.assign((const T*)y.data(), (const T*)y.data() + BA); return true; }
		}
		if constexpr (K == ARR)
		{
			if (op == "rsz") { r.n = I(o, 2); x.resize(r.n); return true; }
			if (op == "asg") { r.xs = ints(o, 2); auto y = els(r.xs); x.assign((const T*)y.data(), (const T*)y.data() + y.size()); return true; }
			if (op == "asgw") { r.w = I(o, 2); if (!on(r.w) || r.w == v) return false; x.assign((const T*)at(r.w).begin(), (const T*)at(r.w).end()); return true; }
		}
		if constexpr (K == VEC)
		{
			typedef typename C::const_iterator CI;
			if (op == "push") { r.x = I(o, 2); T e(r.x); r.r = int(x.push_back((const T&)e) - x.begin()); return true; }
			if (op == "pushm") { r.x = I(o, 2); r.r = int(x.push_back(T(r.x)) - x.begin()); return true; }
			if (op == "emb") { r.x = I(o, 2); r.r = int(x.emplace_back(r.x) - x.begin()); return true; }
			if (op == "pushr") { r.xs = ints(o, 2); auto y = els(r.xs); r.r = int(x.push_back((const T*)y.data(), (const T*)y.data() + y.size()) - x.begin()); return true; }
			if (op == "pushw") { r.w = I(o, 2); if (!on(r.w) || r.w == v) return false; r.r = int(x.push_back((const T*)at(r.w).begin(), (const T*)at(r.w).end()) - x.begin()); return true; }
			if (op == "emp") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.x = I(o, 3); r.r = int(x.emplace(CI(x.begin() + r.i), r.x) - x.begin()); return true; }
			if (op == "rsz") { r.n = I(o, 2); x.resize(r.n); return true; }
			if (op == "rsv") { r.n = I(o, 2); x.reserve(r.n); return true; }
			if (op == "clr") { x.clear(); return true; }
			if (op == "erar") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.j = r.i + int(size_t(I(o, 3)) % (n - r.i + 1)); r.r = int(x.erase(CI(x.begin() + r.i), CI(x.begin() + r.j)) - x.begin()); return true; }
			if (!n) return false;
			if (op == "pop") { r.r = val(x.pop_back()); return true; }
			if (op == "empa") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.j = int(size_t(I(o, 3)) % n); r.r = int(x.emplace(CI(x.begin() + r.i), x[r.j]) - x.begin()); return true; }
			r.i = int(size_t(I(o, 2)) % n);
			if (op == "pusha") { r.r = int(x.push_back((const T&)x[r.i]) - x.begin()); return true; }
			if (op == "pushb") { r.r = int(x.push_back(std::move(x[r.i])) - x.begin()); return true; }
			if (op == "emba") { r.r = int(x.emplace_back(x[r.i]) - x.begin()); return true; }
			if (op == "era") { r.r = int(x.erase(CI(x.begin() + r.i)) - x.begin()); return true; }
		}
		return false;
	}
	void run(const Test& t) override
	{
		auto one = [&](const Toks& o) { R r; int v = I(o, 1); bool done = o[0].compare(0, 3, "new") == 0 || o[0].compare(1, 3, "con") == 0 ? create(o[0], v, o, r) : exec(o[0], v, o, r); if (done) emit(o, v, r); };
		for (auto& o : t.ops) one(o);
		for (int v = 1; v <= NV; v++) if (on(v)) one({ "del", std::to_string(v) });
		if constexpr (K != BUF) AlTab<A>::clear();
		bool g = true; for (int v = 1; v <= NV; v++) { pl[v].guard(false); g = g && pl[v].clean(); }
		int live = mlive(); std::string rest = g_mem; g_mem.clear(); g = mguards() && g;
		mclear();
		if (g) Ev("end").i("live", live).j("mem", "[" + rest + "]").end(); else Ev("crash").i("code", 2001).end(); // wrote outside of its memory
	}
};

// ---------------------------------------------------------------- elements of heaps
inline std::vector<int> g_el; inline bool g_elog = true;
inline int idof(const void* p) { auto f = g_alive.find(p); return f == g_alive.end() ? -1 : f->second; }
inline void el(int c, int a, int b = 0) { if (g_elog && g_el.size() < 60000) { g_el.push_back(c); g_el.push_back(a); g_el.push_back(b); } }
inline int born(const void* p) { auto f = g_alive.find(p); if (f != g_alive.end()) el(8, f->second); return g_alive[p] = ++g_serial; }
#define V_ELEMENT(NAME) template<int W> struct NAME { \
	int x; int pad[W]; static constexpr bool tracked = true; \
	NAME(int x_) : x(x_) { fill(); el(1, born(this)); } \
	NAME(NAME&& o) noexcept : x(o.x) { int b = idof(&o); fill(); o.x = -77; el(3, born(this), b); } \
	NAME& operator=(NAME&& o) noexcept { el(5, idof(this), idof(&o)); int y = o.x; if (this != &o) o.x = -77; x = y; fill(); return *this; } \
	~NAME() { el(6, idof(this)); g_alive.erase(this); x = -88; } \
	void fill() { for (int& p : pad) p = x * 3; } \
	int raw() const { if (x != -77 && x != -88) for (int p : pad) if (p != x * 3) return -9; return x; } \
	int val() const { el(7, idof(this)); return raw(); } \
	bool operator==(const NAME& o) const { return val() == o.val(); } \
	bool operator<(const NAME& o) const { return val() < o.val(); } \
	bool operator>(const NAME& o) const { return val() > o.val(); }
V_ELEMENT(HM) };                                                  // can only be moved
V_ELEMENT(HC)                                                     // can be copied as well
	HC(const HC& o) : x(o.x) { int b = idof(&o); fill(); el(2, born(this), b); }
	HC& operator=(const HC& o) { el(4, idof(this), idof(&o)); x = o.x; fill(); return *this; }
};
struct HP { int x; short y; HP(int x_) : x(x_), y(short(x_ % 999)) {} bool operator==(const HP& o) const { return x == o.x; } bool operator<(const HP& o) const { return x < o.x; } bool operator>(const HP& o) const { return x > o.x; } };
template<int W> int val(const HM<W>& e) { return e.val(); }
template<int W> int val(const HC<W>& e) { return e.val(); }
inline int val(const HP& e) { return e.y == short(e.x % 999) ? e.x : -9; }
template<class T, class = void> struct is_tracked : std::false_type {};
template<class T> struct is_tracked<T, std::void_t<decltype(T::tracked)>> : std::true_type {};
template<class T> int peekval(const T& e) { if constexpr (is_tracked<T>::value) return e.raw(); else return val(e); }

template<class T> struct Cmp
{
	int k, m;
	Cmp(int k_ = 0, int m_ = 1) : k(k_), m(m_) {}
	bool operator()(const T& a, const T& b) const
	{
		int x = val(a), y = val(b), p = x / 1000, q = y / 1000;
		switch (k) { case 0: return p < q; case 1: return p > q; case 2: return p % m < q % m; case 3: return p / 10 < q / 10; case 4: return x < y; case 5: return x > y; default: return false; }
	}
};

// FIX: the comparison is that of the type (4 or 5), 0: it is given
template<class C, class T, class A, class CM, int FIX> struct HeapT : Cfg
{
	Place<C> pl[NV + 1]; long ways = 0;
	bool on(int v) { return v >= 1 && v <= NV && pl[v].on; }
	C& at(int v) { return pl[v].c(); }
	static constexpr bool CP = std::is_copy_constructible_v<T>;
	void obs(Ev& e)
	{
		bool keep = g_elog; g_elog = false;
		std::string s = "["; bool f = true; ways++;
		for (int v = 1; v <= NV; v++) if (on(v))
		{
			C& x = at(v); const C& k = x; std::vector<int> c, id; size_t n = x.size(), q = 0; if (n > 3000) n = 3000;
			switch ((ways + v) % 6)
			{
			case 0: for (auto i = x.begin(); i != x.end() && ++q < 3000; ++i) c.push_back(peekval(*i)); break;
			case 1: for (auto i = k.begin(); i != k.end() && ++q < 3000; ++i) c.push_back(peekval(*i)); break;
			case 2: for (auto i = x.rbegin(); i != x.rend() && ++q < 3000; ++i) c.push_back(peekval(*i)); std::reverse(c.begin(), c.end()); break;
			case 3: for (auto i = k.rbegin(); i != k.rend() && ++q < 3000; ++i) c.push_back(peekval(*i)); std::reverse(c.begin(), c.end()); break;
			case 4: for (size_t i = 0; i < n; i++) c.push_back(peekval(x.data()[i])); break;
			default: for (size_t i = 0; i < n; i++) c.push_back(peekval(k.data()[i]));
			}
			if (is_tracked<T>::value) for (size_t i = 0; i < n; i++) id.push_back(idof(k.data() + i));
			long long off = 0; size_t cap = k.capacity(); int b = cap ? mfind((const void*)k.data(), off) : 0;
			char t[200]; snprintf(t, sizeof t, "%s{\"v\":%d,\"n\":%lld,\"em\":%s,\"cap\":%lld,\"b\":%d,\"o\":%lld,\"pk\":%d,\"c\":[", f ? "" : ",", v, encn(x.size()), k.empty() ? "true" : "false", encn(cap), b, off, n ? peekval(x.peek()) : 0);
			s += t; f = false; bool g = true;
			for (int y : c) { snprintf(t, sizeof t, "%s%d", g ? "" : ",", y); s += t; g = false; }
			s += "],\"id\":["; g = true;
			for (int y : id) { snprintf(t, sizeof t, "%s%d", g ? "" : ",", y); s += t; g = false; }
			s += "]}";
		}
		g_elog = keep;
		e.j("obs", s + "]");
	}
	struct R { int w = 0, i = 0; long long n = 0; int x = 0; std::vector<int> xs; int k = 0, m = 0, r = -1; };
	void emit(const std::string& op, int v, const R& r)
	{
		Ev e(op.c_str()); e.i("v", v).i("w", r.w).i("i", r.i).i("n", r.n).i("x", r.x).a("xs", r.xs).i("k", r.k).i("m", r.m).i("r", r.r);
		e.j("mem", "[" + g_mem + "]"); g_mem.clear();
		e.a("el", g_el); g_el.clear();
		obs(e); e.end();
	}
	A al(int i) { return AlTab<A>::get(i); }
	template<class F> static void withList(const std::vector<int>& x, F f)
	{
		if constexpr (CP) switch (x.size())
		{
		case 0: f(std::initializer_list<T>{}); break;
		case 1: f({ T(x[0]) }); break;
		case 2: f({ T(x[0]), T(x[1]) }); break;
		case 3: f({ T(x[0]), T(x[1]), T(x[2]) }); break;
		case 4: f({ T(x[0]), T(x[1]), T(x[2]), T(x[3]) }); break;
		default: f({ T(x[0]), T(x[1]), T(x[2]), T(x[3]), T(x[4]) });
		}
	}
	CM cm(const R& r) { if constexpr (FIX) return CM(); else return CM(r.k, r.m); }
	bool create(const std::string& op, int v, const Toks& o, R& r)
	{
		if (v < 1 || v > NV || on(v)) return false;
		void* p = pl[v].at; int a = I(o, 2);
		if (op == "new" || op == "newc" || op == "newi") { r.k = FIX ? FIX : I(o, 3); r.m = FIX ? 1 : I(o, 4); if (r.m < 1) r.m = 1; }
		bool plain = FIX && (ways & 1); // leave the comparison away
		if (op == "new") { CM q = cm(r); if (a) { if (plain) ::new(p) C(al(a)); else ::new(p) C(al(a), q); } else if (plain) ::new(p) C(); else ::new(p) C(q); }
		else if (op == "newc") { r.n = I(o, 5); CM q = cm(r); size_t n = r.n; if (a) { if (plain) ::new(p) C(n, al(a)); else ::new(p) C(n, al(a), q); } else if (plain) ::new(p) C(n); else ::new(p) C(n, q); }
		else if (op == "newi")
		{
			if constexpr (!CP) return false;
			else
			{
				for (size_t i = 5; i < o.size() && i < 10; i++) r.xs.push_back(I(o, i));
				CM q = cm(r);
				withList(r.xs, [&](std::initializer_list<T> l) { if (a) { if (plain) ::new(p) C(l, al(a)); else ::new(p) C(l, al(a), q); } else if (plain) ::new(p) C(l); else ::new(p) C(l, q); });
			}
		}
		else
		{
			r.w = a; if (!on(r.w)) return false; C& y = at(r.w);
			if (op == "mcon") ::new(p) C(std::move(y));
			else if (op == "mcona") ::new(p) C(std::move(y), al(I(o, 3)));
			else if constexpr (CP) { if (op == "ccon") ::new(p) C((const C&)y); else ::new(p) C((const C&)y, al(I(o, 3))); }
			else return false;
		}
		pl[v].on = true; return true;
	}
	bool exec(std::string& op, int v, const Toks& o, R& r)
	{
		if (!on(v)) return false;
		C& x = at(v); size_t n = x.size();
		if (op == "del") { x.~C(); pl[v].on = false; return true; }
		if (op == "mass") { r.w = I(o, 2); if (!on(r.w)) return false; C& y = at(r.w); x = std::move(y); return true; }
		if (op == "cass") { r.w = I(o, 2); if (!on(r.w)) return false; if constexpr (CP) { const C& y = at(r.w); x = y; return true; } else return false; }
		if (op == "ins")
		{
			r.x = I(o, 2);
			int way = int(ways++ % 4);
			if (CP && way == 0) { if constexpr (CP) { const T e(r.x); r.r = int(x.insert(e) - x.begin()); } }
			else if (CP && way == 1) { if constexpr (CP) { T e(r.x); r.r = int(x.insert(e) - x.begin()); } }
			else if (way == 2) r.r = int(x.insert(r.x) - x.begin());
			else r.r = int(x.insert(T(r.x)) - x.begin());
			return true;
		}
		if (op == "find") { r.x = I(o, 2); const C& k = x; T e(r.x); r.r = int((ways++ & 1 ? k.find(e) : x.find(e)) - x.begin()); return true; }
		if (op == "fall") { const C& k = x; r.i = I(o, 2) ? 1 : 0; size_t m = n > 600 ? 600 : n; for (size_t i = 0; i < m; i++) { const T& y = r.i ? k.data()[n - 1 - i] : k.data()[i]; r.xs.push_back(int((i & 1 ? k.find(y) : x.find(y)) - x.begin())); } return true; }
		if (op == "clr") { x.clear(); return true; }
		if (op == "rsv") { r.n = I(o, 2); x.reserve((size_t)r.n); return true; }
		if (!n) return false;
		if (op == "pop") { T e = x.pop(); r.r = peekval(e); return true; }
		if (op == "peek") { r.r = val(x.peek()); return true; }
		if (op == "insa") { if constexpr (CP) { r.i = int(size_t(I(o, 2)) % n); if (r.i == 0) r.r = int(x.insert((const T&)x.peek()) - x.begin()); else r.r = int(x.insert((const T&)x.begin()[r.i]) - x.begin()); return true; } else return false; }
		return false;
	}
	void run(const Test& t) override
	{
		g_el.clear(); g_elog = true;
		auto one = [&](const Toks& o) { R r; int v = I(o, 1); std::string op = o[0]; bool done = op.compare(0, 3, "new") == 0 || op.compare(1, 3, "con") == 0 ? create(op, v, o, r) : exec(op, v, o, r); if (done) emit(op, v, r); };
		for (auto& o : t.ops) one(o);
		for (int v = 1; v <= NV; v++) if (on(v)) one({ "del", std::to_string(v) });
		AlTab<A>::clear();
		bool g = true; for (int v = 1; v <= NV; v++) { pl[v].guard(false); g = g && pl[v].clean(); }
		int live = mlive(); std::string rest = g_mem; g_mem.clear(); g = mguards() && g;
		mclear(); g_el.clear();
		if (g) Ev("end").i("live", live).j("mem", "[" + rest + "]").end(); else Ev("crash").i("code", 2001).end();
	}
};
}
