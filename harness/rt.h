// Deterministic scheduler and recorder of memory accesses for code compiled with -fsanitize=thread, which calls the
// hooks defined in rt.cpp instead of the usual runtime.  One thread runs at a time; it may be exchanged before every
// atomic operation, lock, use of the wrapped allocator, and before accesses if asked to.
#pragma once
#include <cstddef>
#include <string>
#include <vector>
namespace RT {
constexpr int NT = 8; // threads, 0 being the main one
struct Sched { std::vector<std::pair<int, std::string>> list; int mode = 0; unsigned seed = 1; int depth = 0; int accp = 0; };
void begin(const Sched& s);                       // the calling thread is thread 0 from here on
void region(const void* p, size_t n);             // memory to be watched
void spawn(int n, void (*f)(int));                // runs f(1) .. f(n) and waits for them
void finish();                                    // writes the trace
int self();
void opBeg(const char* op, int h, int k, int s, int n);
void opEnd(int r, int b, int ov);
void in(int arena, bool write); void out(int arena);
void born(int arena); void gone(int arena);
int blockOf(const void* p);                       // number of an address
}
