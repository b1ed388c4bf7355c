// Deterministic simulation kernel: choice stream, clock and event queue, faults, memory, tasks, violations.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <random>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---- choices: every nondeterministic decision of a run is one draw; 0 is always the simplest alternative
uint32_t draw(uint32_t n);                   // 0..n-1
inline int range(int lo, int hi) { return hi <= lo ? lo : lo + int(draw(uint32_t(hi - lo) + 1)); }
inline bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
inline bool coin() { return draw(2); }
template <class T> const T &pick(const std::vector<T> &v) { return v[draw(uint32_t(v.size()))]; }
int weighted(std::initializer_list<int> w);  // index
// a value in lo..hi with the extremes over-represented
int edgy(int lo, int hi);
void begin_span();
void end_span();
struct Span { Span() { begin_span(); } ~Span() { end_span(); } };

// payload generator: one drawn seed, then a private stream (seed 0 gives zeros, the simplest payload)
struct Rng {
	uint64_t s; bool zero;
	explicit Rng(uint32_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567), zero(seed == 0) {}
	uint64_t raw() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t next() { return zero ? 0 : raw(); }
	uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 32) * n >> 32) : 0; }
	int range(int lo, int hi) { return lo + int(below(uint32_t(hi - lo) + 1)); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double gauss() { double u = 0; for (int i = 0; i < 12; ++i) u += unit(); return zero ? 0 : u - 6; }
	void fill(void *p, size_t n) { uint8_t *b = (uint8_t *)p; uint64_t v = 0; for (size_t i = 0; i < n; ++i) { if (!(i & 7)) v = next(); b[i] = v >> (8 * (i & 7)); } }
	// k distinct values of 0..n-1, in random order
	std::vector<int> sample(int n, int k);
};
Rng rng();

// ---- log, coverage, outcome
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool verbose();
void shape(uint64_t v);                      // mixes v into the interleaving/history identity of the run
void fault(const char *kind);                // a fault of this kind was actually injected
void probe(const char *name);                // a rare condition was reached
void count(const char *name, uint64_t n = 1);
void nontrivial();                           // the run exercised its property under at least one fault/switch
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // a case worth showing in the evidence
[[noreturn]] void violate(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
const char *property();
bool thorough();
uint64_t digest(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string hex(const void *p, size_t n);

// ---- simulated time
uint64_t now();                              // microseconds
void after(uint64_t delay, std::function<void()> fn);
void run_events(uint64_t max_events);        // until the queue is empty or stop()
void stop();
void drain();                                // forgets pending events

// ---- memory: everything the code under test can reach lives here, between guard zones, in seeded garbage
struct Mem { uint8_t *p = nullptr; size_t n = 0; int id = -1; };
Mem alloc(size_t n, size_t align, size_t skew = 0, const char *name = "");
void release(Mem &m);
// the end (or, with lower, the beginning) lies at an inaccessible page
Mem alloc_edge(size_t n, size_t align, bool lower, const char *name = "");
void garbage(void *p, size_t n);             // seeded garbage
int bad_guard(std::string *what);            // 0: intact
uint8_t *arena_mark();
void arena_reset(uint8_t *mark);

template <class T> struct Buf {
	Mem m;
	Buf() {}
	explicit Buf(size_t n, size_t align = 64, size_t skew = 0, const char *name = "") { m = alloc(n * sizeof(T), align < alignof(T) ? alignof(T) : align, skew, name); }
	T *data() const { return (T *)m.p; }
	size_t size() const { return m.n / sizeof(T); }
	T &operator[](size_t i) const { return ((T *)m.p)[i]; }
};

// ---- library calls: preemption and abort points exist only inside them
extern thread_local int in_lib;
struct Lib { Lib() { ++in_lib; } ~Lib() { --in_lib; } };

// ---- tasks (cooperatively parked threads); one runs at a time, the choice stream decides which
struct Task;
Task *spawn(const char *name, std::function<void()> fn);
void run_tasks(uint32_t mean_slice);         // preempts inside library calls roughly every mean_slice edges
bool instrumented();
// runs fn on its own dirty stack; if limit > 0 the call is abandoned after that many edges (true = abandoned)
bool run_abortable(std::function<void()> fn, uint64_t limit);
uint64_t edges();                            // edges executed inside library calls so far
uint64_t edge_digest();                      // identity of the set of edges visited in this run
void kill_task_at(Task *t, uint64_t edge);
void on_killed(std::function<void(Task *)> fn); // called between slices; may spawn a replacement
const char *task_name(Task *t);
// runs fn in a process that has executed nothing of the library yet; fn must not draw, log or judge
void in_child(const std::function<void()> &fn);
void *shared_pages(size_t n);                // memory both processes see

void world();                                // provided by each check: one simulated run

}

// property-specific world entry points register themselves
struct WorldReg { const char *property; void (*fn)(); WorldReg *next; static WorldReg *head; WorldReg(const char *p, void (*f)()) : property(p), fn(f), next(head) { head = this; } };
#define WORLD(ID) static void world_##ID(); static WorldReg reg_##ID(#ID, world_##ID); static void world_##ID()
