// Allocator driver: scripted histories over any composition of KTL allocators.
// Leaves are either real (linear, stack, mallocator, null) or probes which record every call they get.
#pragma once
#include "core.h"
#include "ktl/ktl_alloc_fwd.h"
#include "ktl/ktl.h"
#include <tuple>
#include <type_traits>

namespace V {

// ---------------------------------------------------------------- probes
struct Blk { int inst, leaf; char* p; size_t n; bool live; };
struct Inst { int leaf; char* base; size_t used; int refs; bool dead; };
constexpr size_t REGION = 1u << 18, GAP = 64;
constexpr int MAXINST = 512;
inline char* g_pool = nullptr;
inline std::vector<Inst> g_inst; inline std::vector<Blk> g_blk;
inline std::string g_bits; inline size_t g_bitpos = 0;      // scripted outcome of the next requests to probes
inline std::string g_calls; inline bool g_logcalls = true;  // calls received by probes during the current operation
inline std::string g_objs;                                  // constructor and destructor calls of objects

struct Obj;
inline void call(const char* k, int a, int b, long long c, long long d, long long e)
{
	Untrack u;
	char s[128]; snprintf(s, sizeof s, "%s{\"k\":\"%s\",\"l\":%d,\"i\":%d,\"x\":%lld,\"y\":%lld,\"z\":%lld}", g_calls.empty() ? "" : ",", k, a, b, c, d, e);
	if (g_calls.size() < 200000) g_calls += s;
}
inline int newInst(int leaf)
{
	Untrack u;
	if (g_inst.size() >= MAXINST) raise(SIGXCPU);
	g_inst.push_back({ leaf, g_pool + g_inst.size() * REGION, 0, 1, false });
	V_POISON(g_inst.back().base, REGION);
	call("+", leaf, (int)g_inst.size(), 0, 0, 0);
	return (int)g_inst.size();
}
inline void ref(int i) { g_inst[i - 1].refs++; }
inline void unref(int i) { if (--g_inst[i - 1].refs == 0) { g_inst[i - 1].dead = true; call("-", g_inst[i - 1].leaf, i, 0, 0, 0); } }
inline void resolve(const void* q, int& blk, long long& off)
{
	blk = 0; off = 0;
	const char* p = (const char*)q;
	if (!p || p < g_pool || p >= g_pool + REGION * MAXINST) { blk = p ? -1 : 0; return; }
	for (size_t k = g_blk.size(); k-- > 0;)
		if (p >= g_blk[k].p && p < g_blk[k].p + (g_blk[k].n ? g_blk[k].n : 1)) { blk = int(k + 1); off = p - g_blk[k].p; return; }
	blk = -1;
}

// F: 1 = answers ownership, 2 = constructs
template<int ID, int F, size_t MAX> struct probe_core
{
	int i;
	int me() { return i; }
	void* alloc(size_t n)
	{
		Untrack u;
		bool ok = n < (REGION - 4096);
		if (MAX && n > MAX) ok = false;
		else if (g_bitpos < g_bits.size()) ok = ok && g_bits[g_bitpos++] == '1';
		Inst& s = g_inst[i - 1];
		size_t need = ((n ? n : 1) + GAP + 63) & ~size_t(63);
		if (s.dead || s.used + need > REGION) ok = false;
		if (!ok) { call("a", ID, i, encn(n), 0, 0); return nullptr; }
		char* p = s.base + s.used; s.used += need;
		g_blk.push_back({ i, ID, p, n, true });
		V_UNPOISON(p, n ? n : 1); memset(p, 0xCD, n);
		call("a", ID, i, encn(n), (int)g_blk.size(), 0);
		return p;
	}
	void dealloc(void* p, size_t n)
	{
		Untrack u;
		int b; long long off; resolve(p, b, off);
		call("d", ID, i, b, off, encn(n));
		if (b > 0 && off == 0 && g_blk[b - 1].live) { Blk& k = g_blk[b - 1]; k.live = false; memset(k.p, 0xDD, k.n); V_POISON(k.p, (k.n + 7) & ~size_t(7)); }
	}
	bool has(void* p) const
	{
		const Inst& s = g_inst[i - 1];
		return (char*)p >= s.base && (char*)p < s.base + REGION;
	}
};
template<int ID, int F, size_t MAX> struct probe_base : probe_core<ID, F, MAX> // contained state
{
	probe_base() noexcept { this->i = newInst(ID); }
	explicit probe_base(int) noexcept { this->i = newInst(ID); }
	probe_base(const probe_base&) = delete; probe_base& operator=(const probe_base&) = delete;
	~probe_base() { unref(this->i); }
	bool operator==(const probe_base& r) const noexcept { return this->i == r.i; }
	bool operator!=(const probe_base& r) const noexcept { return this->i != r.i; }
};
template<int ID, int F, size_t MAX> struct probe_handle : probe_core<ID, F, MAX> // copies share the state
{
	probe_handle() noexcept { this->i = newInst(ID); }
	probe_handle(const probe_handle& r) noexcept { this->i = r.i; ref(this->i); }
	probe_handle& operator=(const probe_handle& r) noexcept { ref(r.i); unref(this->i); this->i = r.i; return *this; }
	~probe_handle() { unref(this->i); }
	bool operator==(const probe_handle& r) const noexcept { return this->i == r.i; }
	bool operator!=(const probe_handle& r) const noexcept { return this->i != r.i; }
};
inline int g_probe_constructs = 0;
#define V_PROBE(NAME, BASE) \
template<int ID, int F, size_t MAX> struct NAME : BASE<ID, F, MAX> { using BASE<ID, F, MAX>::BASE; \
	void* allocate(size_t n) noexcept { return this->alloc(n); } \
	void deallocate(void* p, size_t n) noexcept { this->dealloc(p, n); } \
	template<int G = F> std::enable_if_t<(G & 1) != 0, bool> owns(void* p) const noexcept { return this->has(p); } \
	template<size_t M = MAX> std::enable_if_t<(M != 0), size_t> max_size() const noexcept { return M; } \
	template<class T, class... A> std::enable_if_t<(F & 2) != 0 && sizeof(T*) != 0> construct(T* p, A&&... a) { int b; long long o; resolve(p, b, o); call("K", ID, this->me(), b, o, 0); ::new((void*)p) T(std::forward<A>(a)...); } \
	template<class T> std::enable_if_t<(F & 2) != 0 && sizeof(T*) != 0> destroy(T* p) { int b; long long o; resolve(p, b, o); call("k", ID, this->me(), b, o, 0); p->~T(); } \
};
inline int g_single[64];
template<int ID, int F, size_t MAX> struct probe_stateless : probe_core<ID, F, MAX> // all instances share one state, like mallocator
{
	probe_stateless() noexcept { this->i = 0; }
	void need() { if (!g_single[ID]) { std::string keep = g_calls; g_single[ID] = newInst(ID); g_calls = keep; } this->i = g_single[ID]; }
	int me() { need(); return this->i; }
	void* alloc(size_t n) { need(); return probe_core<ID, F, MAX>::alloc(n); }
	void dealloc(void* p, size_t n) { need(); probe_core<ID, F, MAX>::dealloc(p, n); }
	bool has(void* p) const { int k = g_single[ID]; return k && (char*)p >= g_inst[k - 1].base && (char*)p < g_inst[k - 1].base + REGION; }
	bool operator==(const probe_stateless&) const noexcept { return true; }
	bool operator!=(const probe_stateless&) const noexcept { return false; }
};
V_PROBE(probe, probe_base)
V_PROBE(sprobe, probe_stateless)
V_PROBE(hprobe, probe_handle)

struct Obj // an object with observable lifetime
{
	int a, b;
	static void log(char k, const Obj* p, int a, int b) { Untrack u; int bl; long long o; resolve(p, bl, o); char s[96]; snprintf(s, sizeof s, "%s{\"k\":\"%c\",\"x\":%d,\"y\":%lld,\"a\":%d,\"b\":%d}", g_objs.empty() ? "" : ",", k, bl, o, a, b); g_objs += s; }
	Obj(int a_, int b_) : a(a_), b(b_) { log('C', this, a, b); }
	Obj(const Obj& o) : a(o.a), b(o.b) { log('c', this, a, b); }
	~Obj() { log('D', this, a, b); a = -1; }
};
template<size_t N> struct Pay { char d[N]; };
template<size_t N> struct alignas(16) APay { char d[N]; };

// ---------------------------------------------------------------- streams for overflow
struct Rec { std::string t;
	Rec& operator<<(const char* s) { Untrack u; t += s; return *this; }
	Rec& operator<<(const std::string& s) { Untrack u; t += s; return *this; }
	Rec& operator<<(char c) { Untrack u; t += c; return *this; }
	Rec& operator<<(const void* p) { Untrack u; char b[32]; snprintf(b, sizeof b, "%p", p); t += b; return *this; }
	template<class T> std::enable_if_t<std::is_integral_v<T>, Rec&> operator<<(T x) { Untrack u; t += std::to_string(x); return *this; }
};
constexpr int NV = 4, NS = 64;
inline Rec g_rec[NV][8]; inline std::ostringstream* g_oss[NV][8];
inline Rec& REC(int v, int k) { return g_rec[v][k]; }
inline std::ostream& OSS(int v, int k) { Untrack u; if (!g_oss[v][k]) g_oss[v][k] = new std::ostringstream; return *g_oss[v][k]; }

// ---------------------------------------------------------------- test-local helpers for constructor arguments
inline std::vector<std::function<void()>> g_cleanup;
inline std::map<std::pair<int, int>, void*> g_local;
inline int g_localgen[NV];
template<class T, class Mk> T& LOCAL(int v, int k, Mk mk) { auto key = std::make_pair(v * 1000 + g_localgen[v], k); auto it = g_local.find(key); if (it != g_local.end()) return *(T*)it->second; void* m = operator new(sizeof(T), std::align_val_t(64)); T* p = mk(m); g_local[key] = p; g_cleanup.push_back([p] { p->~T(); operator delete((void*)p, std::align_val_t(64)); }); return *p; }
template<size_t N> ktl::stack<N>& STK(int v, int k) { return LOCAL<ktl::stack<N>>(v, k, [](void* m) { return ::new(m) ktl::stack<N>(); }); }

// ---------------------------------------------------------------- type erasure
template<class T, class = void> struct val_of { using type = void; };
template<class T> struct val_of<T, std::void_t<typename T::value_type>> { using type = typename T::value_type; };
template<class T, class P, class = void> struct h_owns : std::false_type {};
template<class T, class P> struct h_owns<T, P, std::void_t<decltype(std::declval<const T&>().owns(std::declval<P>()))>> : std::true_type {};
template<class T, class = void> struct h_max : std::false_type {};
template<class T> struct h_max<T, std::void_t<decltype(std::declval<const T&>().max_size())>> : std::true_type {};
template<class T, class P, class = void> struct h_con : std::false_type {};
template<class T, class P> struct h_con<T, P, std::void_t<decltype(std::declval<T&>().construct(std::declval<P>(), 1, 2))>> : std::true_type {};
template<class T, class P, class = void> struct h_des : std::false_type {};
template<class T, class P> struct h_des<T, P, std::void_t<decltype(std::declval<T&>().destroy(std::declval<P>()))>> : std::true_type {};

struct Cfg {
	std::string name; size_t unit = 1;
	virtual ~Cfg() {}
	virtual bool has(char op) = 0;           // is the operation available for this type
	virtual void make(int v) = 0;
	virtual void kill(int v) = 0;
	virtual void ccon(int v, int w) = 0; virtual void mcon(int v, int w) = 0;
	virtual void cass(int v, int w) = 0; virtual void mass(int v, int w) = 0;
	virtual void* alloc(int v, size_t n) = 0;
	virtual void dealloc(int v, void* p, size_t n) = 0;
	virtual bool owns(int v, void* p) = 0;
	virtual size_t maxs(int v) = 0;
	virtual bool eq(int v, int w) = 0; virtual bool ne(int v, int w) = 0;
	virtual void con(int v, void* p, int a, int b) = 0; virtual void des(int v, void* p) = 0;
	virtual bool setg(int v) = 0;            // give a global allocator a fresh value
	virtual void* ralloc(int v, size_t n) = 0; virtual void rdealloc(int v, void* p, size_t n) = 0; // through a copy converted to another type
	virtual bool req(int v, int w) = 0; virtual bool rne(int v, int w) = 0;
	size_t runit = 1; unsigned flip = 0; bool movegone = false, single = false, raw = false;
	bool alive[NV] = {}, gone[NV] = {}; int grp[NV] = {};
	bool usable(int v) { return v >= 0 && v < NV && alive[v] && !gone[v]; }
};
template<class T, class U, class = void> struct rebound { static constexpr bool ok = false; using type = T; };
template<class T, class U> struct rebound<T, U, std::void_t<typename T::template rebind<U>::other>> { static constexpr bool ok = std::is_copy_constructible_v<T>; using type = typename T::template rebind<U>::other; };
template<class T, class = void> struct h_set : std::false_type {};
template<class T> struct h_set<T, std::void_t<decltype(std::declval<T&>().set_allocator(std::declval<std::remove_reference_t<decltype(std::declval<T&>().get_allocator())>&&>()))>> : std::true_type {};
struct alignas(8) RPay { char d[24]; };

template<class T, class Mk, bool CPY, bool MOV, bool CON>
struct TCfg : Cfg {
	using VT = typename val_of<T>::type;
	static constexpr bool typed = !std::is_void_v<VT>;
	using PT = std::conditional_t<typed, VT*, void*>;
	using OT = std::conditional_t<typed, VT*, Obj*>;
	alignas(64) unsigned char mem[NV][sizeof(T)];
	T& at(int v) { return *reinterpret_cast<T*>(mem[v]); }
	TCfg(const char* nm, bool mg, bool sgl, bool rw = false) { name = nm; movegone = mg; single = sgl; raw = rw; runit = sizeof(RPay); if constexpr (typed) unit = sizeof(VT); }
	static constexpr bool conable() { if constexpr (!CON) return false; else if constexpr (typed) { if constexpr (std::is_same_v<VT, Obj>) return h_con<T, Obj*>::value && h_des<T, Obj*>::value; else return false; } else return h_con<T, Obj*>::value && h_des<T, Obj*>::value; }
	bool has(char op) override {
		switch (op) {
		case 'C': return CPY; case 'c': return CPY;
		case 'M': return MOV; case 'm': return MOV;
		case 'o': return h_owns<T, PT>::value; case 'x': return h_max<T>::value; case 'k': return conable(); case 'A': return RB::ok && CPY; case 'S': return h_set<T>::value;
		} return true;
	}
	void make(int v) override { Mk::make(mem[v], v); alive[v] = true; }
	void kill(int v) override { at(v).~T(); alive[v] = false; memset(mem[v], 0xEE, sizeof(T)); }
	void ccon(int v, int w) override { if constexpr (CPY) { ::new(mem[v]) T(static_cast<const T&>(at(w))); alive[v] = true; } }
	void mcon(int v, int w) override { if constexpr (MOV) { ::new(mem[v]) T(std::move(at(w))); alive[v] = true; } }
	void cass(int v, int w) override { if constexpr (CPY) at(v) = static_cast<const T&>(at(w)); }
	void mass(int v, int w) override { if constexpr (MOV) at(v) = std::move(at(w)); }
	void* alloc(int v, size_t n) override { return (void*)at(v).allocate(n); }
	void dealloc(int v, void* p, size_t n) override { at(v).deallocate((PT)p, n); }
	bool owns(int v, void* p) override { if constexpr (h_owns<T, PT>::value) return static_cast<const T&>(at(v)).owns((PT)p); else return false; }
	size_t maxs(int v) override { if constexpr (h_max<T>::value) return static_cast<const T&>(at(v)).max_size(); else return 0; }
	bool eq(int v, int w) override { return static_cast<const T&>(at(v)) == static_cast<const T&>(at(w)); }
	bool ne(int v, int w) override { return static_cast<const T&>(at(v)) != static_cast<const T&>(at(w)); }
	void con(int v, void* p, int a, int b) override { if constexpr (conable()) at(v).construct((Obj*)p, a, b); }
	void des(int v, void* p) override { if constexpr (conable()) at(v).destroy((Obj*)p); }
	using RB = rebound<T, RPay>;
	bool setg(int v) override { (void)v; if constexpr (h_set<T>::value) { using A = std::remove_reference_t<decltype(at(v).get_allocator())>; if constexpr (std::is_default_constructible_v<A>) { at(v).set_allocator(A()); return true; } } return false; }
	void* ralloc(int v, size_t n) override { if constexpr (RB::ok && CPY) { if (flip++ % 2) { typename RB::type r(std::move(at(v))); return (void*)r.allocate(n); } typename RB::type r(static_cast<const T&>(at(v))); return (void*)r.allocate(n); } else return nullptr; }
	void rdealloc(int v, void* p, size_t n) override { if constexpr (RB::ok && CPY) { if (flip++ % 2) { typename RB::type r(std::move(at(v))); r.deallocate((RPay*)p, n); return; } typename RB::type r(static_cast<const T&>(at(v))); r.deallocate((RPay*)p, n); } }
	bool req(int v, int w) override { if constexpr (RB::ok && CPY) { typename RB::type r(static_cast<const T&>(at(v))); return r == static_cast<const T&>(at(w)); } else return eq(v, w); }
	bool rne(int v, int w) override { if constexpr (RB::ok && CPY) { typename RB::type r(static_cast<const T&>(at(v))); return r != static_cast<const T&>(at(w)); } else return ne(v, w); }
};
typedef std::map<std::string, std::function<Cfg*()>> Registry;
inline Registry& registry() { static Registry r; return r; }
struct Reg { Reg(const char* n, std::function<Cfg*()> f) { registry()[n] = f; } };

// ---------------------------------------------------------------- interpreter
struct Slot { char* p = nullptr; size_t n = 0, bytes = 0; int v = 0; bool live = false, obj = false; unsigned char pat = 0; int g = 0; bool reb = false; };
inline std::string hilo(const void* p) { uintptr_t a = (uintptr_t)p; char s[64]; snprintf(s, sizeof s, "[%lld,%lld]", (long long)(a >> 24), (long long)(a & 0xFFFFFF)); return s; }

struct Runner {
	Cfg* c; Slot slot[NS]; unsigned char gen = 1; bool addr; int nslots = 0; std::map<char*, std::pair<unsigned char, unsigned char>> orig; // bytes changed next to blocks: their value before and since
	Runner(Cfg* c_, bool a) : c(c_), addr(a) {}
	void fill(Slot& s) { memset(s.p, s.pat, s.bytes); }
	bool intact() {
		bool ok = true;
		for (int k = 0; k < nslots; k++) { Slot& s = slot[k]; if (!s.live) continue; size_t st = s.obj ? sizeof(Obj) : 0; for (size_t i = st; i < s.bytes; i++) if ((unsigned char)s.p[i] != s.pat) { ok = false; s.p[i] = (char)s.pat; } }
		return ok;
	}
	std::string calls() { return "[" + g_calls + "]"; }
	void reports(Ev& e)
	{
		std::string r; Untrack u;
		for (int v = 0; v < NV; v++) for (int k = 0; k < 8; k++) {
			std::string t = g_rec[v][k].t; g_rec[v][k].t.clear();
			if (g_oss[v][k]) { t += g_oss[v][k]->str(); g_oss[v][k]->str(""); }
			size_t pos = 0;
			auto find = [&](const char* key, size_t from, long long& val) -> size_t { size_t q = t.find(key, from); if (q == std::string::npos) return q; val = strtoll(t.c_str() + q + strlen(key), 0, 10); return q; };
			auto add = [&](const char* kind, const void* ad, long long n, long long b, long long a) { int bl; long long of; resolve(ad, bl, of); char x[256]; snprintf(x, sizeof x, "%s{\"k\":\"%s\",\"node\":%d,\"n\":%lld,\"b\":%lld,\"a\":%lld,\"x\":%d,\"of\":%lld,\"p\":%s}", r.empty() ? "" : ",", kind, k, n, b, a, bl, of, hilo(ad).c_str()); r += x; };
			size_t known = 0;
			while ((pos = t.find("CORRUPTION", pos)) != std::string::npos) {
				size_t end = t.find("--------", pos + 30); if (end == std::string::npos) end = t.size();
				std::string m = t.substr(pos, end - pos); known++;
				long long n = -1, b = 0, a = 0; size_t q = m.find("0x"); void* ad = nullptr;
				if (q != std::string::npos) ad = (void*)strtoull(m.c_str() + q, 0, 16);
				size_t qq = m.find("bytes)"); if (qq != std::string::npos) { size_t o = m.rfind('(', qq); n = strtoll(m.c_str() + o + 1, 0, 10); }
				q = m.find("Before ("); if (q != std::string::npos) b = strtoll(m.c_str() + q + 8, 0, 10);
				q = m.find("After ("); if (q != std::string::npos) a = strtoll(m.c_str() + q + 7, 0, 10);
				add("cor", ad, n, b, a); pos = pos + 5;
			}
			const char* said[][2] = { { "Allocated memory (", "leak" }, { "Too many frees (", "frees" }, { "Too many constructor calls (", "ctor" }, { "Too many destructor calls (", "dtor" } };
			for (auto& w : said) for (size_t q = 0; (q = t.find(w[0], q)) != std::string::npos; q++) { long long x; find(w[0], q, x); add(w[1], nullptr, x, 0, 0); known++; }
			if (!t.empty() && !known) add("junk", nullptr, 0, 0, 0);
		}
		e.j("rep", "[" + r + "]");
	}
	void leak(int s) { if (!slot[s].live) return; slot[s].live = false; pre(); Ev e("leak"); e.i("s", s); fin(e); }
	int ngrp = 1;
	bool inuse(int w) { if (!c->raw) return false; for (int s = 0; s < nslots; s++) if (slot[s].live && slot[s].g == c->grp[w]) return true; return false; }
	void leakall(int v) { for (int u = 0; u < NV; u++) if (v >= 0 && u != v && c->usable(u) && c->grp[u] == c->grp[v]) return; for (int s = 0; s < nslots; s++) if (v < 0 || (!c->gone[v] && slot[s].g == c->grp[v])) leak(s); }
	bool mayreturn(int v, int s, bool eq = false)
	{
		if (!c->usable(v) || !slot[s].live) return false;
		if (slot[s].g == c->grp[v]) return true;
		if (eq) for (int u = 0; u < NV; u++) if (c->usable(u) && c->grp[u] == slot[s].g && c->eq(v, u)) return true;
		return false;
	}
	void fin(Ev& e) { if (!addr) { e.j("c", calls()); e.j("ob", "[" + g_objs + "]"); } e.b("ok", intact()); e.i("mf", g_mfails); reports(e); e.end(); }
	void pre() { g_calls.clear(); g_objs.clear(); g_mfails = 0; }
	void op(const Toks& t)
	{
		char o = t[0][0]; int v = I(t, 1), w = I(t, 2);
		pre();
		struct Quiet { bool on; ~Quiet() { if (on) g_fail_at = -1; } } quiet{ o != 'f' };   // failures only strike the next operation
		if (o != 'a' && o != 'A' && o != 'f') g_fail_at = -1;
		switch (o) {
		case 'N': if (c->alive[v]) return; g_localgen[v]++; { Track tk; c->make(v); } c->gone[v] = false; c->grp[v] = c->single ? 0 : ngrp++; { Ev e("new"); e.i("v", v); fin(e); } break;
		case 'X': if (!c->alive[v]) return; if (!c->single) leakall(v); pre(); { Track tk; c->kill(v); } { Ev e("del"); e.i("v", v); fin(e); } break;
		case 'C': if (c->alive[v] || !c->alive[w] || !c->has('C')) return; { Track tk; c->ccon(v, w); } join(v, w); { Ev e("ccon"); e.i("v", v).i("w", w); fin(e); } break;
		case 'M': if (c->alive[v] || !c->alive[w] || !c->has('M') || inuse(w)) return; { Track tk; c->mcon(v, w); } moved(v, w); { Ev e("mcon"); e.i("v", v).i("w", w); fin(e); } break;
		case 'c': if (!c->alive[v] || !c->alive[w] || !c->has('c')) return; if (c->grp[v] != c->grp[w] || c->gone[w]) leakall(v); pre(); { Track tk; c->cass(v, w); } join(v, w); { Ev e("cass"); e.i("v", v).i("w", w); fin(e); } break;
		case 'm': if (!c->alive[v] || !c->alive[w] || !c->has('m') || inuse(w)) return; if (v != w && (c->grp[v] != c->grp[w] || c->gone[w] || !c->has('C'))) leakall(v); pre(); { Track tk; c->mass(v, w); } moved(v, w); { Ev e("mass"); e.i("v", v).i("w", w); fin(e); } break;
		case 'S': if (!c->usable(v) || !c->has('S')) return; for (int x = 0; x < nslots; x++) leak(x); pre(); { Track tk; c->setg(v); } { Ev e("setg"); e.i("v", v); fin(e); } break;
		case 'a': case 'A': { int s = w; if (!c->usable(v) || slot[s].live) return; bool reb = o == 'A'; if (reb && !c->has('A')) return; size_t unit = reb ? c->runit : c->unit;
			size_t n = sz(t[3]); g_bits = t.size() > 4 && t[4] != "-" ? t[4] : ""; g_bitpos = 0;
			void* p; { Track tk; p = reb ? c->ralloc(v, n) : c->alloc(v, n); } g_bits = "";
			Ev e("alloc"); e.i("v", v).i("s", s).i("n", encn(n)).b("u", reb);
			bool big = p && n > (size_t(1) << 26) / unit;   // handed out an impossible size: do not touch it
			if (addr) e.j("p", hilo(p)); else { int b; long long of; resolve(p, b, of); e.i("b", b).i("of", of); }
			e.b("r", p != nullptr); 
			if (p && !big) { if (s >= nslots) nslots = s + 1; { Untrack ut; for (auto i = orig.begin(); i != orig.end();) if (i->first >= (char*)p && i->first < (char*)p + n * unit) i = orig.erase(i); else ++i; } slot[s] = { (char*)p, n, n * unit, v, true, false, (unsigned char)(0x40 + (gen++ % 0x60)), c->grp[v], reb }; fill(slot[s]); }
			fin(e); break; }
		case 'd': case 'D': case 'E': { int s = w; if (!slot[s].live || slot[s].obj) return; if (o == 'd') { v = slot[s].v; for (int u = 0; u < NV && !mayreturn(v, s); u++) v = u; } if (!mayreturn(v, s, o == 'E')) return;
			Slot k = slot[s]; bool good = intact(); slot[s].live = false;
			{ Track tk; if (k.reb) c->rdealloc(v, k.p, k.n); else c->dealloc(v, k.p, k.n); }
			Ev e("free"); e.i("v", v).i("s", s).i("n", encn(k.n)); if (!good) slot[s].live = false;
			fin(e); break; }
		case 'o': { int s = w; if (!c->usable(v) || !c->has('o')) return; void* p; const char* kind = "slot"; static char sta[64]; char loc[64];
			if (s >= 0) { if (s >= NS || !slot[s].live) return; p = slot[s].p; }
			else { kind = "foreign"; p = s == -1 ? (void*)sta : s == -2 ? (void*)loc : nullptr; if (s == -3) p = (void*)&c->unit; if (!p) return; }
			bool r; { Track tk; r = c->owns(v, p); }
			Ev e("owns"); e.i("v", v).i("s", s).s("k", kind).b("r", r); fin(e); break; }
		case 'x': { if (!c->usable(v) || !c->has('x')) return; size_t r; { Track tk; r = c->maxs(v); } Ev e("max"); e.i("v", v).i("n", encn(r)); fin(e); break; }
		case 'q': { if (!c->usable(v) || !c->usable(w)) return; bool a, b, a2, b2, a3, b3; { Track tk; a = c->eq(v, w); b = c->ne(v, w); a2 = c->req(v, w); b2 = c->rne(v, w); a3 = c->eq(w, v); b3 = c->ne(w, v); } Ev e("eq"); e.i("v", v).i("w", w).b("q", a).b("nq", b).b("q2", a2).b("nq2", b2).b("q3", a3).b("nq3", b3); fin(e); break; }
		case 'k': { int s = w; if (!c->has('k') || !slot[s].live || slot[s].obj || slot[s].bytes < sizeof(Obj) || slot[s].reb) return; v = slot[s].v; for (int u = 0; u < NV && !mayreturn(v, s); u++) v = u; if (!mayreturn(v, s)) return;
			slot[s].obj = true; int a = I(t, 3), b = I(t, 4); { Track tk; c->con(v, slot[s].p, a, b); }
			Ev e("con"); e.i("v", v).i("s", s).i("a", a).i("b", b); fin(e); break; }
		case 'K': { int s = w; if (!slot[s].live || !slot[s].obj) return; v = slot[s].v; for (int u = 0; u < NV && !mayreturn(v, s); u++) v = u; if (!mayreturn(v, s)) return;
			{ Track tk; c->des(v, slot[s].p); } slot[s].obj = false; fill(slot[s]);
			Ev e("des"); e.i("v", v).i("s", s); fin(e); break; }
		case 'w': { int s = w; if (!slot[s].live) return; int at = I(t, 3), val = I(t, 4) & 255; // change a byte next to a block: at < 0 before, at >= 0 after the end; 0 restores it
			char* p = at < 0 ? slot[s].p + at : slot[s].p + slot[s].bytes + at;
			auto it = orig.emplace(p, std::make_pair((unsigned char)*p, (unsigned char)*p)).first;
			if ((unsigned char)*p != it->second.second) it->second.first = (unsigned char)*p;
			it->second.second = it->second.first ^ (unsigned char)val; *p = (char)it->second.second;
			Ev e("smash"); e.i("s", s).i("at", at).b("good", val == 0); fin(e); break; }
		case 'U': { int s = v; if (!c->has('k') || !slot[s].live || slot[s].obj || slot[s].bytes < sizeof(Obj) || slot[s].reb) return; Untrack u; ::new((void*)slot[s].p) Obj(1, 2); slot[s].obj = true; break; } // constructed by its user
		case 'J': { int s = v; if (!slot[s].live || !slot[s].obj) return; Untrack u; ((Obj*)slot[s].p)->~Obj(); slot[s].obj = false; fill(slot[s]); break; } // destroyed by its user
		case 'L': leak(I(t, 1)); break;
		case 'f': g_fail_at = I(t, 1); g_fail_n = I(t, 2); break; // make the system allocator fail
		}
	}
	void join(int v, int w) { c->grp[v] = c->grp[w]; c->gone[v] = c->gone[w]; }
	void moved(int v, int w)
	{
		if (v == w) return;
		join(v, w);
		if (c->has('C')) { if (c->movegone) c->gone[w] = true; return; }
		c->grp[w] = ngrp++;
		for (int k = 0; k < nslots; k++) if (slot[k].live && slot[k].v == w) slot[k].v = v;
	}
};

inline void runAlloc(const Test& t, bool addr)
{
	if (!g_pool) { g_pool = (char*)mmap(0, REGION * MAXINST, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
	for (auto& i : g_inst) { V_UNPOISON(i.base, REGION); memset(i.base, 0xAB, i.used); }
	g_inst.clear(); g_blk.clear(); memset(g_single, 0, sizeof g_single); g_local.clear(); g_cleanup.clear(); memset(g_localgen, 0, sizeof g_localgen);
	for (int v = 0; v < NV; v++) for (int k = 0; k < 8; k++) { g_rec[v][k].t.clear(); if (g_oss[v][k]) g_oss[v][k]->str(""); }
	m_reset();
	auto it = registry().find(t.cfg);
	if (it == registry().end()) { fprintf(stdout, "no config %s\n", t.cfg.c_str()); _exit(4); }
	std::unique_ptr<Cfg> c(it->second()); g_stateful = c->single;
	{
		Runner r(c.get(), addr);
		g_inst.reserve(MAXINST + 8); g_blk.reserve(8192); g_calls.reserve(1 << 16); g_objs.reserve(1 << 14);
		for (auto& o : t.ops) { if (g_inst.size() + 64 > MAXINST) break; r.op(o); }
		// destroy whatever is left, then the objects referred to
		r.leakall(-1);
		for (int v = 0; v < NV; v++) if (c->alive[v]) { r.pre(); { Track tk; c->kill(v); } Ev e("del"); e.i("v", v); r.fin(e); }
		r.pre();
		{ Track tk; while (!g_cleanup.empty()) { auto f = g_cleanup.back(); g_cleanup.pop_back(); f(); } }
		Ev e("end"); e.i("leak", g_mlive).i("badfree", g_badfree); r.fin(e);
	}
}
}
