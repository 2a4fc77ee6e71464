// Driver for packed pointers.
#pragma once
#include "core.h"
#include "ktl/containers/packed_ptr.h"
#include <utility>

namespace V {
struct Cfg { virtual ~Cfg() {} virtual void run(const Test&) = 0; };
inline std::map<std::string, std::function<Cfg*()>>& registry() { static std::map<std::string, std::function<Cfg*()>> r; return r; }
struct Reg { Reg(const char* n, std::function<Cfg*()> f) { registry()[n] = f; } };

inline std::vector<int> dig(uint64_t x) { return { int(x & 0xffff), int(x >> 16 & 0xffff), int(x >> 32 & 0xffff), int(x >> 48) }; }
template<class C, class P, int BITS> struct Pk : Cfg
{
	static constexpr int NV = 4;
	alignas(C) unsigned char mem[NV + 1][sizeof(C) + 16]; bool on[NV + 1] = {};
	C& at(int v) { return *(C*)(mem[v] + 8); }
	static P ptr(uint64_t x) { return reinterpret_cast<P>((uintptr_t)x); }
	static std::string js(const std::vector<int>& x) { std::string s = "["; for (size_t i = 0; i < x.size(); i++) s += (i ? "," : "") + std::to_string(x[i]); return s + "]"; }
	std::string obs()
	{
		std::string s = "[";
		for (int v = 1; v <= NV; v++) if (on[v])
		{
			const C& k = at(v);
			s += s.size() > 1 ? ",{" : "{";
			s += "\"v\":" + std::to_string(v) + ",\"p\":" + js(dig((uint64_t)reinterpret_cast<uintptr_t>(k.get_ptr()))) + ",\"n\":[" + js(dig(k.template get_int<uint64_t>()));
			if (BITS <= 32) s += "," + js(dig(k.template get_int<uint32_t>())) + "," + js(dig(k.template get_int<unsigned long>()));
			if (BITS <= 16) s += "," + js(dig(k.template get_int<uint16_t>()));
			if (BITS <= 8) s += "," + js(dig(k.template get_int<uint8_t>()));
			if (BITS <= 1) s += "," + js(dig(k.template get_int<bool>()));
			s += std::string("],\"b\":") + (static_cast<bool>(k) ? "true}" : "false}");
		}
		return s + "]";
	}
	template<class F> static bool width(int w, uint64_t n, uint64_t& real, F f)
	{
		switch (w) { case 1: real = (bool)(n & 1); f((bool)(n & 1)); return true; case 8: real = (uint8_t)n; f((uint8_t)n); return true; case 16: real = (uint16_t)n; f((uint16_t)n); return true; case 32: real = (uint32_t)n; f((uint32_t)n); return true; default: real = n; f(n); return true; }
	}
	void run(const Test& t) override
	{
		memset(mem, 0xB7, sizeof mem);
		for (auto& o : t.ops)
		{
			const std::string& op = o[0]; int v = I(o, 1), w = 0; uint64_t p = 0, n = 0; bool done = false;
			if (v < 1 || v > NV) continue;
			bool make = op == "new" || op == "newp" || op == "ccon" || op == "mcon";
			if (make == on[v]) continue;
			void* m = mem[v] + 8;
			if (op == "new") { ::new(m) C(); done = true; }
			else if (op == "newp") { p = strtoull(o[2].c_str(), 0, 16); done = width(I(o, 4), strtoull(o[3].c_str(), 0, 16), n, [&](auto x) { ::new(m) C(ptr(p), x); }); }
			else if (op == "setp") { p = strtoull(o[2].c_str(), 0, 16); at(v).set_ptr(ptr(p)); done = true; }
			else if (op == "seti") done = width(I(o, 3), strtoull(o[2].c_str(), 0, 16), n, [&](auto x) { at(v).set_int(x); });
			else if (op == "del") { at(v).~C(); on[v] = false; done = true; }
			else
			{
				w = I(o, 2); if (w < 1 || w > NV || !on[w]) continue;
				if (op == "ccon") { ::new(m) C((const C&)at(w)); done = true; }
				else if (op == "mcon") { ::new(m) C(std::move(at(w))); done = true; }
				else if (op == "cass") { at(v) = (const C&)at(w); done = true; }
				else if (op == "mass") { at(v) = std::move(at(w)); done = true; }
				else if (op == "swap") { std::swap(at(v), at(w)); done = true; }
			}
			if (!done) continue;
			if (make) on[v] = true;
			Ev(op.c_str()).i("v", v).i("w", w).a("p", dig(p)).a("n", dig(n)).j("obs", obs()).end();
		}
		Ev("end").end();
	}
};
inline void runPk(const Test& t) { std::unique_ptr<Cfg> c(registry().at(t.cfg)()); c->run(t); }
}
