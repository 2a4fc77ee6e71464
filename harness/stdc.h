// Driver for standard containers on typed allocators that share their state.
#pragma once
#include "cont.h"
#include <vector>
#include <list>
#include <deque>
#include <forward_list>
#include <set>
#include <map>
#include <unordered_set>
#include <unordered_map>
#include <string>

namespace V {
// provider that reports its own lifetime
struct ProvL : Prov
{
	ProvL() noexcept { mlog("c", 0, 0, a, 0); }
	~ProvL() { mlog("x", 0, 0, a, 0); }
};
// what overflow allocators report
struct Quiet { int n = 0; template<class T> Quiet& operator<<(const T&) { n++; return *this; } };
inline Quiet g_quiet;
struct Over : ktl::overflow<ProvL, Quiet> { Over() : ktl::overflow<ProvL, Quiet>(g_quiet) {} };

template<class C, class = void> struct has_pf : std::false_type {}; template<class C> struct has_pf<C, std::void_t<decltype(&C::pop_front)>> : std::true_type {};
template<class C, class = void> struct has_pb : std::false_type {}; template<class C> struct has_pb<C, std::void_t<decltype(&C::pop_back)>> : std::true_type {};
template<class C, class = void> struct has_rsv : std::false_type {}; template<class C> struct has_rsv<C, std::void_t<decltype(std::declval<C&>().reserve(1))>> : std::true_type {};
template<class C, class = void> struct has_shr : std::false_type {}; template<class C> struct has_shr<C, std::void_t<decltype(std::declval<C&>().shrink_to_fit())>> : std::true_type {};
template<class C, class = void> struct has_key : std::false_type {}; template<class C> struct has_key<C, std::void_t<typename C::key_type>> : std::true_type {};
template<class C, class = void> struct has_map : std::false_type {}; template<class C> struct has_map<C, std::void_t<typename C::mapped_type>> : std::true_type {};
template<class C, class = void> struct has_hash : std::false_type {}; template<class C> struct has_hash<C, std::void_t<typename C::hasher>> : std::true_type {};
template<class C, class = void> struct is_fwd : std::false_type {}; template<class C> struct is_fwd<C, std::void_t<decltype(std::declval<C&>().before_begin())>> : std::true_type {};
template<class C, class = void> struct is_lst : std::false_type {}; template<class C> struct is_lst<C, std::void_t<decltype(std::declval<C&>().sort())>> : std::true_type {};
inline int val(char e) { return e; }
template<int S, int A> bool operator==(const El<S, A>& x, const El<S, A>& y) { return x.val() == y.val(); }
template<int S, int A> bool operator<(const El<S, A>& x, const El<S, A>& y) { return x.val() < y.val(); }
struct SR { int w = 0, i = 0, j = 0; long long n = 0; int x = 0; std::vector<int> xs; int h = 0; int r = -1; };
inline std::vector<int> intsOf(const Toks& o, size_t from) { std::vector<int> r; for (size_t k = from; k < o.size(); k++) r.push_back(atoi(o[k].c_str())); return r; }
template<class SA> using Handle = ktl::type_allocator<int, SA>;

template<class SA> struct Box
{
	std::string t;
	virtual ~Box() {}
	virtual std::vector<int> read() = 0;
	virtual size_t size() = 0;
	virtual Handle<SA> handle() = 0;
	virtual bool exec(const std::string& op, const Toks& o, SR& r, Box* w) = 0;
	virtual Box* twin(const std::string& op, const Handle<SA>* h) = 0;  // copy or move of this one
};
template<class SA, class C> struct BoxOf : Box<SA>
{
	typedef typename C::value_type T; typedef typename C::allocator_type A;
	static constexpr bool KEY = has_key<C>::value, MAP = has_map<C>::value, FWD = is_fwd<C>::value, LST = is_lst<C>::value;
	C c; long ways = 0;
	template<class... X> BoxOf(const std::string& t_, X&&... x) : c(std::forward<X>(x)...) { this->t = t_; }
	static C& of(Box<SA>* b) { return static_cast<BoxOf*>(b)->c; }
	std::vector<int> read() override
	{
		std::vector<int> r; const C& k = c; int q = 0;
		if constexpr (MAP) { for (auto i = k.begin(); i != k.end() && ++q < 3000; ++i) r.push_back(i->first * 1000 + peekval(i->second)); }
		else if constexpr (KEY) { for (auto i = k.begin(); i != k.end() && ++q < 3000; ++i) r.push_back(*i * 1000); }
		else { for (auto i = k.begin(); i != k.end() && ++q < 3000; ++i) r.push_back(peekval(*i)); }
		if constexpr (has_hash<C>::value) std::sort(r.begin(), r.end());
		return r;
	}
	size_t size() override { if constexpr (FWD) return std::distance(c.begin(), c.end()); else return c.size(); }
	Handle<SA> handle() override { return Handle<SA>(c.get_allocator()); }
	Box<SA>* twin(const std::string& op, const Handle<SA>* h) override
	{
		if (op == "ccon") return new BoxOf(this->t, (const C&)c);
		if (op == "mcon") { auto* b = new BoxOf(this->t, std::move(c)); c.clear(); return b; }
		if (op == "ccona") return new BoxOf(this->t, (const C&)c, A(*h));
		auto* b = new BoxOf(this->t, std::move(c), A(*h)); c.clear(); return b;
	}
	auto nth(size_t i) { return std::next(c.begin(), i); }
	auto before(size_t i) { if constexpr (FWD) return std::next(c.before_begin(), i); else return nth(i); }
	static std::vector<T> els(const std::vector<int>& x) { std::vector<T> r; if constexpr (!KEY) for (int y : x) r.push_back(T(y)); return r; }
	bool exec(const std::string& op, const Toks& o, SR& r, Box<SA>* wb) override
	{
		size_t n = size();
		if (op == "clr") { c.clear(); return true; }
		if (wb)
		{
			r.w = I(o, 2); if (wb->t != this->t) return false;
			C& d = of(wb);
			if (op == "cass") { c = (const C&)d; return true; }
			if (op == "mass") { if (&c == &d) return false; c = std::move(d); d.clear(); return true; } // what is left in it is not to be used
			bool same = c.get_allocator() == d.get_allocator();
			if (!same) return false;
			if (&c == &d) return false;
			if (op == "swap") { if (ways++ & 1) c.swap(d); else { using std::swap; swap(c, d); } return true; }
			if constexpr (LST)
			{
				size_t m = wb->size();
				if (op == "spl") { r.i = int(size_t(I(o, 3)) % (n + 1)); if constexpr (FWD) c.splice_after(before(r.i), d); else if (ways++ & 1) c.splice(nth(r.i), d); else c.splice(nth(r.i), std::move(d)); return true; }
				if (op == "splr") { r.i = int(size_t(I(o, 3)) % (n + 1)); r.j = int(size_t(I(o, 4)) % (m + 1)); r.n = int(size_t(I(o, 5)) % (m - r.j + 1));
					auto& q = *static_cast<BoxOf*>(wb);
					if constexpr (FWD) c.splice_after(before(r.i), d, q.before(r.j), std::next(q.before(r.j), r.n + 1));
					else if (r.n == 1) c.splice(nth(r.i), d, q.nth(r.j));
					else c.splice(nth(r.i), d, q.nth(r.j), q.nth(r.j + r.n));
					return true; }
				if (op == "mrg") { if (!std::is_sorted(c.begin(), c.end()) || !std::is_sorted(d.begin(), d.end())) return false; c.merge(d); return true; }
			}
			if constexpr (KEY)
			{
				if (op == "mrg") { c.merge(d); return true; }
				if (op == "xtr") { r.x = I(o, 3); auto nd = d.extract(r.x); if (!nd.empty() && (ways++ & 1)) { auto e2 = std::move(nd); c.insert(std::move(e2)); } else c.insert(std::move(nd)); return true; }
			}
			return false;
		}
		if constexpr (KEY)
		{
			if (op == "sin" || op == "asn")
			{
				r.x = I(o, 2); int key = r.x / 1000;
				if constexpr (MAP)
				{
					typedef typename C::mapped_type M;
					if (op == "asn") { c.insert_or_assign(key, M(r.x % 1000)); return true; }
					switch (ways++ % 3) { case 0: r.r = c.emplace(key, M(r.x % 1000)).second; break; case 1: r.r = c.try_emplace(key, r.x % 1000).second; break; default: r.r = c.insert(T(key, M(r.x % 1000))).second; }
				}
				else { if (op == "asn") return false; r.x = key * 1000; if (ways++ & 1) r.r = c.insert(key).second; else r.r = c.emplace(key).second; }
				return true;
			}
			if (op == "ser") { r.x = I(o, 2); r.r = int(c.erase(r.x)); return true; }
			if (op == "sfi") { r.x = I(o, 2); r.r = int(c.count(r.x)); return true; }
			if (op == "xdr") { r.x = I(o, 2); auto nd = c.extract(r.x); r.r = nd.empty() ? 0 : 1; return true; }
			if (op == "sir") { r.xs = intsOf(o, 2); if constexpr (MAP) { std::vector<std::pair<int, int>> y; for (int q : r.xs) y.push_back({ q / 1000, q % 1000 }); for (auto& q : y) c.emplace(q.first, q.second); } else { std::vector<int> y; for (int& q : r.xs) { q = q / 1000 * 1000; y.push_back(q / 1000); } c.insert(y.begin(), y.end()); } return true; }
			if (op == "rsv") { if constexpr (has_hash<C>::value) { r.n = I(o, 2); if (ways++ & 1) c.reserve(r.n); else c.rehash(r.n); return true; } }
			return false;
		}
		else
		{
			if (op == "pf") { if constexpr (has_pf<C>::value) { r.x = I(o, 2); if (ways++ & 1) c.emplace_front(r.x); else c.push_front(T(r.x)); return true; } return false; }
			if (op == "asg") { r.xs = intsOf(o, 2); auto y = els(r.xs); c.assign(y.begin(), y.end()); return true; }
			if (op == "asgn") { r.n = I(o, 2); r.x = I(o, 3); T e(r.x); c.assign((size_t)r.n, (const T&)e); return true; }
			if (op == "rsz") { r.n = I(o, 2); r.x = I(o, 3); T e(r.x); c.resize((size_t)r.n, (const T&)e); return true; }
			if (op == "ins") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.x = I(o, 3); if constexpr (FWD) c.insert_after(before(r.i), T(r.x)); else if constexpr (std::is_same_v<T, char>) c.insert(nth(r.i), T(r.x)); else if (ways++ & 1) c.emplace(nth(r.i), r.x); else { T e(r.x); c.insert(nth(r.i), (const T&)e); } return true; }
			if (op == "insr") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.xs = intsOf(o, 3); auto y = els(r.xs); if constexpr (FWD) c.insert_after(before(r.i), y.begin(), y.end()); else c.insert(nth(r.i), y.begin(), y.end()); return true; }
			if (op == "insn") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.n = I(o, 3); r.x = I(o, 4); T e(r.x); if constexpr (FWD) c.insert_after(before(r.i), (size_t)r.n, (const T&)e); else c.insert(nth(r.i), (size_t)r.n, (const T&)e); return true; }
			if (op == "erar") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.j = r.i + int(size_t(I(o, 3)) % (n - r.i + 1)); if constexpr (FWD) c.erase_after(before(r.i), std::next(before(r.i), r.j - r.i + 1)); else c.erase(nth(r.i), nth(r.j)); return true; }
			if (op == "shr") { if constexpr (has_shr<C>::value) { c.shrink_to_fit(); return true; } return false; }
			if (op == "rsv") { if constexpr (has_rsv<C>::value) { r.n = I(o, 2); c.reserve((size_t)r.n); return true; } return false; }
			if constexpr (LST)
			{
				if (op == "srt") { c.sort(); return true; }
				if (op == "rev") { c.reverse(); return true; }
				if (op == "unq") { c.unique(); return true; }
				if (op == "rmv") { r.x = I(o, 2); c.remove(T(r.x)); return true; }
			}
			if constexpr (!FWD)
			{
				if (op == "pb") { r.x = I(o, 2); if constexpr (std::is_same_v<T, char>) c.push_back(T(r.x)); else if (ways++ & 1) c.emplace_back(r.x); else c.push_back(T(r.x)); return true; }
				if (!n) return false;
				if (op == "popb") { c.pop_back(); return true; }
				if (op == "emp") { r.i = int(size_t(I(o, 2)) % (n + 1)); r.j = int(size_t(I(o, 3)) % n); if constexpr (std::is_same_v<T, char>) c.insert(nth(r.i), *nth(r.j)); else if (ways++ & 1) c.emplace(nth(r.i), *nth(r.j)); else c.insert(nth(r.i), *nth(r.j)); return true; }
				if (op == "pba") { r.j = int(size_t(I(o, 2)) % n); c.push_back(*nth(r.j)); return true; }
			}
			if (!n) return false;
			if (op == "popf") { if constexpr (has_pf<C>::value) { c.pop_front(); return true; } return false; }
			if (op == "set") { r.i = int(size_t(I(o, 2)) % n); r.x = I(o, 3); *nth(r.i) = T(r.x); return true; }
			if (op == "era") { r.i = int(size_t(I(o, 2)) % n); if constexpr (FWD) c.erase_after(before(r.i)); else c.erase(nth(r.i)); return true; }
			return false;
		}
	}
};

// SA: the shared allocator
template<class SA> struct StdT : Cfg
{
	template<class T> using A = ktl::type_allocator<T, SA>;
	typedef El<19, 1> B19; typedef El<3, 1> B3; typedef HC<2> H;
	Box<SA>* box[NV + 1] = {}; std::map<int, Handle<SA>> hs;
	// builds a container of a type from whatever its constructor takes
	template<class F> static Box<SA>* make(const std::string& t, F f)
	{
		if (t == "vi") return f((std::vector<int, A<int>>*)0);
		if (t == "vb") return f((std::vector<B19, A<B19>>*)0);
		if (t == "vh") return f((std::vector<H, A<H>>*)0);
		if (t == "st") return f((std::basic_string<char, std::char_traits<char>, A<char>>*)0);
		if (t == "di") return f((std::deque<B3, A<B3>>*)0);
		if (t == "li") return f((std::list<int, A<int>>*)0);
		if (t == "lh") return f((std::list<H, A<H>>*)0);
		if (t == "fi") return f((std::forward_list<int, A<int>>*)0);
		if (t == "si") return f((std::set<int, std::less<int>, A<int>>*)0);
		if (t == "mh") return f((std::map<int, H, std::less<int>, A<std::pair<const int, H>>>*)0);
		if (t == "ui") return f((std::unordered_set<int, std::hash<int>, std::equal_to<int>, A<int>>*)0);
		if (t == "um") return f((std::unordered_map<int, B19, std::hash<int>, std::equal_to<int>, A<std::pair<const int, B19>>>*)0);
		return nullptr;
	}
	bool has(int v) { return v >= 1 && v <= NV && box[v]; }
	std::string obs()
	{
		bool keep = g_elog; g_elog = false;
		std::vector<std::pair<int, Handle<SA>>> al; std::string s = "[";
		auto first = [&](const Handle<SA>& h, int id) { for (auto& p : al) if (p.second == h) { if (p.second != h) return -99; return p.first; } al.push_back({ id, h }); return id; };
		bool f = true;
		for (auto& h : hs) first(h.second, -h.first);
		for (int v = 1; v <= NV; v++) if (box[v])
		{
			std::vector<int> c = box[v]->read(); char t[128];
			snprintf(t, sizeof t, "%s{\"v\":%d,\"n\":%lld,\"q\":%d,\"c\":[", f ? "" : ",", v, encn(box[v]->size()), first(box[v]->handle(), v)); f = false; s += t;
			for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + std::to_string(c[i]);
			s += "]}";
		}
		g_elog = keep;
		return s + "]";
	}
	void emit(const std::string& op, int v, const std::string& t, const SR& r)
	{
		Ev e(op.c_str()); e.i("v", v).s("t", t).i("w", r.w).i("i", r.i).i("j", r.j).i("n", r.n).i("x", r.x).a("xs", r.xs).i("h", r.h).i("r", r.r);
		e.a("el", g_el); g_el.clear();
		std::string m = g_mem; g_mem.clear(); // what is looked at must not ask for memory
		std::string s = obs();
		e.j("mem", "[" + m + "]").j("obs", s); e.i("rep", g_quiet.n + (g_mem.empty() ? 0 : 1)).end();
	}
	bool one(const Toks& o, SR& r, int v, std::string& t)
	{
		const std::string& op = o[0];
		if (op == "hnd") { if (hs.count(v)) return false; hs.emplace(v, Handle<SA>()); return true; }
		if (op == "hcp") { r.w = I(o, 2); if (hs.count(v) || !hs.count(r.w)) return false; hs.emplace(v, hs.at(r.w)); return true; }
		if (op == "drop") { if (!hs.count(v)) return false; hs.erase(v); return true; }
		if (v < 1 || v > NV) return false;
		if (op == "new" || op == "newi" || op == "newr")
		{
			t = o[2]; r.h = I(o, 3); Handle<SA>* h = nullptr;
			if (op == "newr") { r.w = r.h; r.h = 0; }
			if (box[v] || (op == "newr" ? !has(r.w) : r.h && !hs.count(r.h))) return false;
			if (r.h) h = &hs.at(r.h);
			if (op == "newi") r.xs = intsOf(o, 4);
			box[v] = make(t, [&](auto* p) -> Box<SA>* {
				typedef std::remove_pointer_t<decltype(p)> C; typedef typename C::allocator_type CA;
				BoxOf<SA, C>* b;
				if (op == "newr") b = new BoxOf<SA, C>(t, CA(box[r.w]->handle()));
				else if (op == "newi" && !has_key<C>::value) { if constexpr (!has_key<C>::value) { auto y = BoxOf<SA, C>::els(r.xs); CA a = h ? CA(*h) : CA(); b = new BoxOf<SA, C>(t, y.begin(), y.end(), a); } else b = nullptr; }
				else { b = h ? new BoxOf<SA, C>(t, CA(*h)) : new BoxOf<SA, C>(t); r.xs.clear(); }
				return b; });
			return box[v] != nullptr;
		}
		if (op == "ccon" || op == "mcon" || op == "ccona" || op == "mcona")
		{
			r.w = I(o, 2); if (box[v] || !has(r.w)) return false;
			if (op.size() == 5) { r.h = I(o, 3); if (!hs.count(r.h)) return false; }
			t = box[r.w]->t;
			if (op == "ccona" || op == "mcona") box[v] = box[r.w]->twin(op, &hs.at(r.h)); else box[v] = box[r.w]->twin(op, nullptr);
			return true;
		}
		if (!box[v]) return false;
		t = box[v]->t;
		if (op == "del") { delete box[v]; box[v] = nullptr; return true; }
		Box<SA>* w = nullptr;
		if (op == "cass" || op == "mass" || op == "swap" || op == "spl" || op == "splr" || op == "mrg" || op == "xtr") { if (!has(I(o, 2))) return false; w = box[I(o, 2)]; }
		return box[v]->exec(op, o, r, w);
	}
	void run(const Test& t) override
	{
		g_el.clear(); g_elog = true; g_quiet.n = 0;
		auto go = [&](const Toks& o) { SR r; int v = I(o, 1); std::string k; if (one(o, r, v, k)) emit(o[0], v, k, r); };
		for (auto& o : t.ops) go(o);
		bool back = t.ops.size() & 1; // containers or handles may go first
		auto ha = [&] { while (!hs.empty()) go({ "drop", std::to_string(hs.begin()->first) }); };
		if (back) ha();
		for (int v = 1; v <= NV; v++) if (box[v]) go({ "del", std::to_string(v) });
		ha();
		int live = mlive(); bool g = mguards(); std::string rest = g_mem; g_mem.clear();
		mclear(); g_el.clear();
		if (g) Ev("end").i("live", live).j("mem", "[" + rest + "]").i("rep", g_quiet.n).end(); else Ev("crash").i("code", 2001).end();
	}
};
}
