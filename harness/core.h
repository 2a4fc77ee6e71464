// Common machinery of all drivers: event buffer, crash isolation, malloc interposition.
// A driver executes scripts (one line per operation) against the real library and writes one JSON
// line per test: {"id":..,"cfg":"..","ev":[..]}.  It contains no oracle: the TLA+ trace specs judge.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <memory>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define V_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define V_ASAN 1
#endif
#ifdef V_ASAN
#include <sanitizer/asan_interface.h>
#define V_POISON(p, n) ASAN_POISON_MEMORY_REGION(p, n)
#define V_UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION(p, n)
#ifdef V_MAIN
extern "C" __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=1024:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_sigtrap=0:log_path=/dev/null:quarantine_size_mb=16:detect_stack_use_after_return=0"; }
#endif
#else
#define V_POISON(p, n) ((void)0)
#define V_UNPOISON(p, n) ((void)0)
#endif

namespace V {

constexpr size_t BUFSZ = 8u << 20;
struct Shared { size_t done; size_t cur; size_t len; size_t mark; char id[128]; char cfg[128]; int started; int nev; char buf[BUFSZ]; };
inline Shared* S = nullptr;

// ---- event buffer -------------------------------------------------------------------------
inline void raw(const char* s, size_t n) { if (S->len + n < BUFSZ - 4096) { memcpy(S->buf + S->len, s, n); S->len += n; } }
inline void raw(const char* s) { raw(s, strlen(s)); }
inline void num(long long x) { char b[32]; int n = snprintf(b, sizeof b, "%lld", x); raw(b, n); }

// Builder for one event; committed when complete, so that a crash leaves only whole events behind.
struct Ev {
	bool first = true; bool afirst = true;
	Ev(const char* e) { if (S->nev) raw(","); raw("{\"e\":\""); raw(e); raw("\""); }
	Ev& k(const char* key) { raw(",\""); raw(key); raw("\":"); return *this; }
	Ev& i(const char* key, long long v) { k(key); num(v); return *this; }
	Ev& b(const char* key, bool v) { k(key); raw(v ? "true" : "false"); return *this; }
	Ev& s(const char* key, const char* v) { k(key); raw("\""); raw(v); raw("\""); return *this; }
	Ev& s(const char* key, const std::string& v) { return s(key, v.c_str()); }
	template<class It> Ev& a(const char* key, const It& xs) { k(key); raw("["); bool f = true; for (auto x : xs) { if (!f) raw(","); f = false; num((long long)x); } raw("]"); return *this; }
	Ev& j(const char* key, const std::string& json) { k(key); raw(json.data(), json.size()); return *this; }
	void end() { raw("}"); S->nev++; S->mark = S->len; }
};

// sizes beyond what TLC's integers can hold are all "huge"
constexpr long long HUGE_N = 1 << 30;
inline long long encn(size_t n) { return n >= size_t(HUGE_N) ? HUGE_N : (long long)n; }

// ---- malloc interposition (link with -Wl,--wrap=malloc,--wrap=free) ------------------------
struct MRec { size_t n; bool live; };
inline bool g_track = false;                 // count calls made by the code under test
inline long g_fail_at = -1;                  // fail the k-th tracked call from now (0 = next)
inline long g_fail_n = 0;                    // number of consecutive failures
inline long g_mlive = 0;                     // tracked blocks not yet freed
inline long g_mcalls = 0, g_mfails = 0, g_badfree = 0;
constexpr int MT = 1 << 16;
inline void* g_mtab[MT];
inline void m_reset() { if (g_mlive || g_badfree || g_mcalls) memset(g_mtab, 0, sizeof g_mtab); g_mlive = 0; g_mcalls = g_mfails = g_badfree = 0; g_fail_at = -1; g_fail_n = 0; }
inline unsigned m_hash(void* p) { return unsigned((uintptr_t(p) >> 4) * 2654435761u) % MT; }
static void* const MDEL = (void*)1;
inline void m_add(void* p) { unsigned h = m_hash(p); while (g_mtab[h] && g_mtab[h] != MDEL) h = (h + 1) % MT; g_mtab[h] = p; g_mlive++; }
inline bool m_del(void* p) { unsigned h = m_hash(p); for (int i = 0; i < MT && g_mtab[h]; i++, h = (h + 1) % MT) if (g_mtab[h] == p) { g_mtab[h] = MDEL; g_mlive--; return true; } return false; }
struct Untrack { bool o; Untrack() : o(g_track) { g_track = false; } ~Untrack() { g_track = o; } };
struct Track { bool o; Track() : o(g_track) { g_track = true; } ~Track() { g_track = o; } };
}

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
#ifdef V_MAIN
void* __wrap_malloc(size_t n)
{
	if (!V::g_track) return __real_malloc(n);
	V::g_mcalls++;
	if (V::g_fail_at >= 0) {
		if (V::g_fail_at == 0) { V::g_mfails++; if (--V::g_fail_n <= 0) V::g_fail_at = -1; return nullptr; }
		V::g_fail_at--;
	}
	void* p = __real_malloc(n);
	if (p) { if (n < (64u << 20)) memset(p, 0xCD, n); V::m_add(p); }
	else V::g_mfails++;
	return p;
}
void __wrap_free(void* p)
{
	if (p && V::g_track) { if (!V::m_del(p)) { V::g_badfree++; return; } }
	__real_free(p);
}
#endif
}

// ---- running tests ------------------------------------------------------------------------
namespace V {
typedef std::vector<std::string> Toks;
struct Test { std::string id, cfg; std::vector<Toks> ops; };
inline Toks split(const std::string& s) { Toks r; std::istringstream is(s); std::string t; while (is >> t) r.push_back(t); return r; }
inline std::vector<Test> load(const char* f)
{
	std::vector<Test> ts; std::ifstream in(f); std::string line;
	while (std::getline(in, line)) {
		if (line.empty()) continue;
		if (line[0] == 'T') { auto t = split(line); ts.push_back({ t[1], t[2], {} }); }
		else ts.back().ops.push_back(split(line));
	}
	return ts;
}
inline size_t sz(const std::string& t) // sizes: decimal, or M<k> = SIZE_MAX - k, or H<k>= 2^63 + k
{
	if (t[0] == 'M') return ~size_t(0) - strtoull(t.c_str() + 1, 0, 10);
	if (t[0] == 'H') return (size_t(1) << 63) + strtoull(t.c_str() + 1, 0, 10);
	if (t[0] == 'D') { size_t d = strtoull(t.c_str() + 1, 0, 10); return ~size_t(0) / d; }       // largest multiple that does not wrap
	if (t[0] == 'E') { size_t d = strtoull(t.c_str() + 1, 0, 10); return ~size_t(0) / d + 1; }   // smallest that does
	if (t[0] == 'F') { size_t d = strtoull(t.c_str() + 1, 0, 10); return ~size_t(0) / d + 2; }
	return strtoull(t.c_str(), 0, 10);
}
inline int I(const Toks& t, size_t i) { return i < t.size() ? atoi(t[i].c_str()) : 0; }

inline bool g_stateful = false; // the test leaves global state behind
inline void onalarm(int) { _exit(77); }
inline int drive(int argc, char** argv, const std::function<void(const Test&)>& run)
{
	if (argc < 3) { fprintf(stderr, "usage: driver script out\n"); return 2; }
	std::vector<Test> ts = load(argv[1]);
	FILE* out = fopen(argv[2], "w");
	if (!out) return 2;
	S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) return 2;
	size_t i = 0; int crashes = 0;
	while (i < ts.size()) {
		fflush(out);
		S->cur = i; S->started = 0;
		pid_t c = fork();
		if (c < 0) return 2;
		if (c == 0) {
			if (!getenv("V_ERR")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); }
			signal(SIGALRM, onalarm);
			for (size_t k = i; k < ts.size(); k++) {
				S->cur = k; S->len = S->mark = 0; S->nev = 0; S->started = 1;
				alarm(20);
				run(ts[k]);
				alarm(0);
				fprintf(out, "{\"id\":\"%s\",\"cfg\":\"%s\",\"ev\":[%.*s]}\n", ts[k].id.c_str(), ts[k].cfg.c_str(), (int)S->mark, S->buf);
				S->started = 0;
				S->cur = k + 1;
				if (g_stateful) { fflush(out); _exit(0); } // leaves global state behind
				if (k % 64 == 63) fflush(out);
				// a crash loses stdio buffers, so keep what is complete
				if (ferror(out)) _exit(3);
				fflush(out);
			}
			_exit(0);
		}
		int st = 0; waitpid(c, &st, 0);
		fseek(out, 0, SEEK_END);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !S->started) { i = S->cur; continue; }
		if (!S->started) { fprintf(stderr, "driver: child ended outside of a test (status %x)\n", st); return 2; }
		// the child died inside test S->cur: its trace ends with a crash event, which no spec accepts
		int code = WIFSIGNALED(st) ? WTERMSIG(st) : (WIFEXITED(st) && WEXITSTATUS(st) == 77 ? 1077 : 1000 + WEXITSTATUS(st));
		const Test& t = ts[S->cur];
		fprintf(out, "{\"id\":\"%s\",\"cfg\":\"%s\",\"ev\":[%.*s%s{\"e\":\"crash\",\"code\":%d,\"n\":%d}]}\n", t.id.c_str(), t.cfg.c_str(), (int)S->mark, S->buf, S->nev ? "," : "", code, S->nev);
		i = S->cur + 1;
		if (++crashes > 40) { // enough: skip the rest
			fflush(out); fprintf(stderr, "driver: too many crashes, stopping at %zu of %zu\n", i, ts.size()); break; }
	}
	fclose(out);
	return 0;
}
}
