// Simulation kernel and run driver. See sim.hh.
#include "sim.hh"
#include <csetjmp>
#include <csignal>
#include <cerrno>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <queue>
#include <semaphore.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

WorldReg *WorldReg::head;

namespace sim {

static int cpu_limit_();
enum { CAP = 1 << 20, SPANS = 1 << 17, COUNTERS = 256, SAMPLE = 2048 };
enum { RUNNING = 0, OK = 1, VIOLATION = 2, HARNESS = 3 };

struct Shared {
	uint32_t status, nontrivial, steps, nsamp;
	char kind[96], msg[1024];
	char samp[SAMPLE];
	uint64_t log_hash, shape, time_us, events, edges, edge_digest, log_lines;
	struct { char name[56]; uint64_t n; } ctr[COUNTERS];
	uint32_t nctr, nchoices, nspans, pad;
	uint32_t choice[CAP];
	struct { uint32_t b, e; } span[SPANS];
};

static Shared *S;
static const uint32_t *replay_v;
static uint32_t replay_n;
static bool replaying;
static uint64_t gen_state;
static FILE *trace_file;
static const char *g_property = "";
static bool g_thorough;
static void (*g_world)();

const char *property() { return g_property; }
bool thorough() { return g_thorough; }
bool verbose() { return trace_file != nullptr; }

static uint64_t splitmix(uint64_t &s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

static void finish(uint32_t status) {
	S->status = status;
	if (trace_file) fflush(trace_file);
	_exit(0);
}

void harness_error(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
	snprintf(S->kind, sizeof S->kind, "harness");
	finish(HARNESS); abort();
}
void violate(const char *kind, const char *fmt, ...) {
	snprintf(S->kind, sizeof S->kind, "%s", kind);
	va_list ap; va_start(ap, fmt); vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
	for (char *c = S->msg; *c; ++c) if (*c == '\n') *c = ' ';
	if (trace_file) fprintf(trace_file, "[%9llu] VIOLATION %s: %s\n", (unsigned long long)now(), S->kind, S->msg);
	finish(VIOLATION); abort();
}

uint32_t draw(uint32_t n) {
	if (n <= 1) return 0;
	uint32_t i = S->nchoices;
	if (i >= CAP) harness_error("choice stream exhausted");
	uint32_t v;
	if (replaying) v = i < replay_n ? replay_v[i] % n : 0;
	else v = uint32_t((splitmix(gen_state) >> 32) * n >> 32);
	S->choice[i] = v;
	S->nchoices = i + 1;
	return v;
}
int weighted(std::initializer_list<int> w) {
	uint32_t t = 0; for (int x : w) t += x;
	uint32_t v = draw(t); int i = 0;
	for (int x : w) { if (v < uint32_t(x)) return i; v -= x; ++i; }
	return 0;
}
int edgy(int lo, int hi) {
	if (hi <= lo) return lo;
	switch (draw(6)) {
	case 0: return lo;
	case 1: return hi;
	case 2: return std::min(hi, lo + 1 + int(draw(3)));
	case 3: return std::max(lo, hi - 1 - int(draw(3)));
	default: return range(lo, hi);
	}
}
static uint32_t span_stack[256]; static int span_depth;
void begin_span() {
	if (span_depth < 256) {
		uint32_t id = S->nspans < SPANS ? S->nspans++ : SPANS;
		if (id < SPANS) { S->span[id].b = S->nchoices; S->span[id].e = ~0u; }
		span_stack[span_depth] = id;
	}
	++span_depth;
}
void end_span() {
	--span_depth;
	if (span_depth < 256 && span_stack[span_depth] < SPANS) S->span[span_stack[span_depth]].e = S->nchoices;
}
Rng rng() { return Rng(draw(0xffffffffu)); }
std::vector<int> Rng::sample(int n, int k) {
	std::vector<int> out;
	if (k > n) k = n;
	if (k * 3 >= n) {
		std::vector<int> a(n); for (int i = 0; i < n; ++i) a[i] = i;
		for (int i = 0; i < k; ++i) { std::swap(a[i], a[i + int(below(n - i))]); out.push_back(a[i]); }
	} else {
		std::set<int> seen;
		while (int(out.size()) < k) { int v = zero ? int(out.size()) : int(below(n)); if (seen.insert(v).second) out.push_back(v); }
	}
	return out;
}

uint64_t digest(const void *p, size_t n, uint64_t h) {
	const uint8_t *b = (const uint8_t *)p;
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; b += 8; n -= 8; }
	while (n--) { h = (h ^ *b++) * 0x9FB21C651E98DF25ull; h ^= h >> 29; }
	return h;
}
std::string hex(const void *p, size_t n) {
	std::string s; char t[4];
	for (size_t i = 0; i < n && i < 96; ++i) { snprintf(t, 4, "%02x", ((const uint8_t *)p)[i]); s += t; }
	if (n > 96) s += "..";
	return s;
}
static uint64_t g_now;
uint64_t now() { return g_now; }
void log(const char *fmt, ...) {
	char line[1024];
	va_list ap; va_start(ap, fmt); int n = vsnprintf(line, sizeof line, fmt, ap); va_end(ap);
	if (n < 0) n = 0;
	if (n > int(sizeof line) - 1) n = sizeof line - 1;
	S->log_hash = digest(line, n, S->log_hash ^ g_now * 0x9E3779B97F4A7C15ull);
	++S->log_lines;
	if (trace_file) fprintf(trace_file, "[%9llu] %s\n", (unsigned long long)g_now, line);
}
void shape(uint64_t v) { S->shape = digest(&v, 8, S->shape); }
void count(const char *name, uint64_t n) {
	for (uint32_t i = 0; i < S->nctr; ++i) if (!strcmp(S->ctr[i].name, name)) { S->ctr[i].n += n; return; }
	if (S->nctr >= COUNTERS) return;
	snprintf(S->ctr[S->nctr].name, sizeof S->ctr[0].name, "%s", name);
	S->ctr[S->nctr++].n = n;
}
void fault(const char *kind) {
	char b[56]; snprintf(b, sizeof b, "fault.%s", kind); count(b);
	shape(digest(kind, strlen(kind)));
	log("fault %s", kind);
	S->nontrivial = 1;
}
void probe(const char *name) { char b[56]; snprintf(b, sizeof b, "probe.%s", name); count(b); }
void nontrivial() { S->nontrivial = 1; }
void sample(const char *fmt, ...) {
	if (S->nsamp >= SAMPLE - 2) return;
	if (S->nsamp) { S->samp[S->nsamp++] = ';'; S->samp[S->nsamp++] = ' '; }
	va_list ap; va_start(ap, fmt); int n = vsnprintf(S->samp + S->nsamp, SAMPLE - S->nsamp, fmt, ap); va_end(ap);
	S->nsamp = std::min<uint32_t>(SAMPLE - 1, S->nsamp + (n > 0 ? n : 0));
}

// ---- events
struct Ev { uint64_t at, seq; std::function<void()> fn; };
struct Later { bool operator()(const Ev *a, const Ev *b) const { return a->at != b->at ? a->at > b->at : a->seq > b->seq; } };
static std::priority_queue<Ev *, std::vector<Ev *>, Later> Q;
static uint64_t ev_seq; static bool stopped;
void after(uint64_t delay, std::function<void()> fn) { Q.push(new Ev{ g_now + delay, ev_seq++, std::move(fn) }); }
void stop() { stopped = true; }
void drain() { while (!Q.empty()) { delete Q.top(); Q.pop(); } }
void run_events(uint64_t max_events) {
	stopped = false;
	while (!Q.empty() && !stopped && max_events--) {
		Ev *e = Q.top(); Q.pop();
		g_now = e->at;
		++S->events;
		e->fn();
		delete e;
	}
}

// ---- memory
static uint8_t *const BASE = (uint8_t *)0x200000000000ull;
static const size_t ARENA = size_t(4) << 30;
static uint8_t *brk_ = BASE;
struct Block { uint8_t *g0, *p; size_t n; uint8_t *g1; bool live; const char *name; };
static std::vector<Block> blocks;
static uint64_t garbage_state; static int garbage_mode = -1;
static inline uint8_t gpat(uint8_t *a) { uint64_t x = uint64_t(a) * 0x9E3779B97F4A7C15ull; return uint8_t(x >> 40) ^ 0xA5; }
static void arena_init() {
	void *p = mmap(BASE, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != BASE) { fprintf(stderr, "arena: %s\n", strerror(errno)); exit(2); }
}
void garbage(void *q, size_t n) {
	uint8_t *p = (uint8_t *)q;
	if (garbage_mode < 0) { garbage_mode = draw(4); garbage_state = draw(0xffffffffu) * 77ull + 5; }
	switch (garbage_mode) {
	case 0: memset(p, 0, n); break;
	case 1: memset(p, 0xff, n); break;
	default:
		for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = splitmix(garbage_state); memcpy(p + i, &v, 8); }
		for (size_t i = n & ~size_t(7); i < n; ++i) p[i] = uint8_t(splitmix(garbage_state));
	}
}
Mem alloc(size_t n, size_t align, size_t skew, const char *name) {
	uint8_t *g0 = brk_;
	uint8_t *p = g0 + 128;
	p = (uint8_t *)((uintptr_t(p) + align - 1) / align * align) + skew;
	uint8_t *end = p + n;
	uint8_t *g1 = (uint8_t *)((uintptr_t(end) + 128 + 63) & ~uintptr_t(63));
	if (g1 > BASE + ARENA) harness_error("arena exhausted");
	for (uint8_t *a = g0; a < p; ++a) *a = gpat(a);
	for (uint8_t *a = end; a < g1; ++a) *a = gpat(a);
	garbage(p, n);
	brk_ = g1;
	blocks.push_back({ g0, p, n, g1, true, name });
	Mem m; m.p = p; m.n = n; m.id = int(blocks.size()) - 1;
	return m;
}
static std::vector<Block> edge_blocks; static uint8_t *edge_at = (uint8_t *)0x280000000000ull;
Mem alloc_edge(size_t n, size_t align, bool lower, const char *name) {
	size_t body = (n + align + 4095) & ~size_t(4095);
	uint8_t *at = edge_at; edge_at += body + 8192;
	if (mmap(at, body + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != at || mprotect(at + 4096, body, PROT_READ | PROT_WRITE)) harness_error("edge pages: %s", strerror(errno));
	uint8_t *g0 = at + 4096, *g1 = g0 + body, *p = lower ? g0 : (uint8_t *)(uintptr_t(g1 - n) / align * align);
	for (uint8_t *a = g0; a < p; ++a) *a = gpat(a);
	for (uint8_t *a = p + n; a < g1; ++a) *a = gpat(a);
	garbage(p, n);
	edge_blocks.push_back({ g0, p, n, g1, true, name });
	Mem m; m.p = p; m.n = n; m.id = -2 - int(edge_blocks.size() - 1);
	return m;
}
void release(Mem &m) {
	if (m.id <= -2) { Block &b = edge_blocks[-2 - m.id]; b.live = false; munmap(b.g0 - 4096, size_t(b.g1 - b.g0) + 8192); m = Mem(); return; }
	if (m.id < 0) return;
	blocks[m.id].live = false;
	// give the memory back when it is on top of the arena, so that later objects find its remains
	while (!blocks.empty() && !blocks.back().live) { brk_ = blocks.back().g0; blocks.pop_back(); }
	m = Mem();
}
int bad_guard(std::string *what) {
	for (auto *list : { &blocks, &edge_blocks }) for (auto &b : *list) {
		if (!b.live) continue;
		for (uint8_t *a = b.g0; a < b.p; ++a) if (*a != gpat(a)) { if (what) { char t[200]; snprintf(t, sizeof t, "%s (%zu bytes): byte at offset %ld was modified", b.name, b.n, long(a - b.p)); *what = t; } return 1; }
		for (uint8_t *a = b.p + b.n; a < b.g1; ++a) if (*a != gpat(a)) { if (what) { char t[200]; snprintf(t, sizeof t, "%s (%zu bytes): byte at offset %ld was modified", b.name, b.n, long(a - b.p)); *what = t; } return 1; }
	}
	return 0;
}
uint8_t *arena_mark() { return brk_; }
void arena_reset(uint8_t *mark) {
	while (!blocks.empty() && blocks.back().g0 >= mark) blocks.pop_back();
	brk_ = mark;
}

// ---- edges, tasks, aborts
thread_local int in_lib;
static uint64_t g_edges; static int64_t countdown = INT64_MAX;
static uint8_t *cov; static uint32_t ncov; static bool g_instr;

struct Task {
	const char *name; std::function<void()> fn; sem_t go; pthread_t th; bool done = false, started = false, killed = false;
	uint64_t ran = 0, kill_at = 0; jmp_buf base; uint8_t *stack = nullptr;
};
static sem_t ctl;
static thread_local Task *self;
static int no_preempt;
static std::vector<Task *> tasks;
bool instrumented() { return g_instr; }
uint64_t edges() { return g_edges; }

static uint8_t *new_stack(size_t size, size_t dirty) {
	static uint8_t *at = (uint8_t *)0x300000000000ull;
	void *p = mmap(at, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != at) { snprintf(S->msg, sizeof S->msg, "stack: %s", strerror(errno)); S->status = HARNESS; _exit(0); }
	at += size + (1 << 20);
	garbage((uint8_t *)p + size - dirty, dirty);
	return (uint8_t *)p;
}
static void make_thread(pthread_t *th, void *(*fn)(void *), void *arg, uint8_t *stack, size_t size) {
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stack, size);
	if (pthread_create(th, &a, fn, arg)) { snprintf(S->msg, sizeof S->msg, "pthread_create"); S->status = HARNESS; _exit(0); }
	pthread_attr_destroy(&a);
}
enum { TASK_STACK = 2 << 20, TASK_DIRTY = 192 << 10 };
static void *task_main(void *arg) {
	Task *t = (Task *)arg; self = t;
	while (sem_wait(&t->go)) {}
	if (!setjmp(t->base)) t->fn();
	else t->killed = true;
	t->done = true;
	in_lib = 0;
	sem_post(&ctl);
	return nullptr;
}
Task *spawn(const char *name, std::function<void()> fn) {
	static bool init; if (!init) { sem_init(&ctl, 0, 0); init = true; }
	Task *t = new Task; t->name = name; t->fn = std::move(fn); sem_init(&t->go, 0, 0);
	t->stack = new_stack(TASK_STACK, TASK_DIRTY);
	make_thread(&t->th, task_main, t, t->stack, TASK_STACK);
	tasks.push_back(t);
	return t;
}
void kill_task_at(Task *t, uint64_t edge) { t->kill_at = edge; }
static std::function<void(Task *)> killed_fn;
void on_killed(std::function<void(Task *)> fn) { killed_fn = std::move(fn); }
const char *task_name(Task *t) { return t->name; }
void *shared_pages(size_t n) {
	void *p = mmap(nullptr, n ? n : 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) harness_error("shared pages: %s", strerror(errno));
	return p;
}
void in_child(const std::function<void()> &fn) {
	if (garbage_mode < 0) { uint8_t b; garbage(&b, 1); }
	uint64_t st = garbage_state;
	pid_t pid = fork();
	if (pid < 0) harness_error("fork: %s", strerror(errno));
	if (!pid) { if (trace_file) trace_file = nullptr; fn(); _exit(0); }
	garbage_state = st + 0x9E3779B97F4A7C15ull;
	int w; while (waitpid(pid, &w, 0) < 0) {}
	if (S->status == VIOLATION) { if (trace_file) { fprintf(trace_file, "[%9llu] VIOLATION in a fresh process: %s: %s\n", (unsigned long long)g_now, S->kind, S->msg); fflush(trace_file); } _exit(0); }
	if (S->status != RUNNING) _exit(0);
	if (WIFSIGNALED(w)) { if (WTERMSIG(w) == SIGXCPU) violate("hang", "a call did not return within %d s of CPU time", cpu_limit_()); violate("crash", "a fresh process died of signal %d (%s)", WTERMSIG(w), strsignal(WTERMSIG(w))); }
}
// runs t until it has executed slice more edges or finished
static void resume(Task *t, int64_t slice) {
	if (t->kill_at && int64_t(t->kill_at - t->ran) < slice) slice = std::max<int64_t>(1, t->kill_at - t->ran);
	uint64_t before = g_edges;
	countdown = slice;
	sem_post(&t->go);
	while (sem_wait(&ctl)) {}
	countdown = INT64_MAX;
	t->ran += g_edges - before;
	if (t->done) pthread_join(t->th, nullptr);
}
static void hook_slow() {
	Task *t = self;
	if (no_preempt) { countdown = 1; return; }
	if (!t) { countdown = INT64_MAX; return; }
	if (t->kill_at && !sim::in_lib) return;
	if (t->kill_at == ~0ull) longjmp(t->base, 1); // abandoned call
	sem_post(&ctl);
	while (sem_wait(&t->go)) {}
	if (t->kill_at && t->ran >= t->kill_at) longjmp(t->base, 1);
}
void run_tasks(uint32_t mean) {
	uint32_t slices = 0; Task *last = nullptr;
	for (;;) {
		std::vector<Task *> r; for (Task *t : tasks) if (!t->done) r.push_back(t);
		if (r.empty()) break;
		Task *t = r.size() > 1 ? r[draw(uint32_t(r.size()))] : r[0];
		int64_t slice;
		if (++slices > 4000) slice = INT64_MAX / 4;
		else switch (weighted({ 2, 3, 3, 2, 1 })) {
			case 0: slice = 1 + draw(mean * 16); break;
			case 1: slice = 1 + draw(mean * 2); break;
			case 2: slice = 1 + draw(mean); break;
			case 3: slice = 1 + draw(8); break;
			default: slice = 1 + draw(mean * 200); break;
		}
		if (t != last) { count("switches"); last = t; }
		resume(t, slice);
		shape(uint64_t(std::find(tasks.begin(), tasks.end(), t) - tasks.begin()) * 1000003 + (t->ran));
		if (t->done) { log("task %s %s after %llu edges", t->name, t->killed ? "killed" : "done", (unsigned long long)t->ran); if (t->killed) { fault("task_killed"); if (killed_fn) killed_fn(t); } }
	}
	tasks.clear(); killed_fn = nullptr;
}
bool run_abortable(std::function<void()> fn, uint64_t limit) {
	Task t; t.name = "call"; t.fn = std::move(fn); sem_init(&t.go, 0, 0);
	static bool init; if (!init) { sem_init(&ctl, 0, 0); init = true; }
	t.stack = new_stack(TASK_STACK, TASK_DIRTY);
	make_thread(&t.th, task_main, &t, t.stack, TASK_STACK);
	if (limit) t.kill_at = ~0ull;
	countdown = limit ? int64_t(limit) : INT64_MAX;
	sem_post(&t.go);
	while (sem_wait(&ctl)) {}
	countdown = INT64_MAX;
	pthread_join(t.th, nullptr);
	return t.killed;
}
uint64_t edge_digest() { return cov ? digest(cov, ncov) : 0; }

} // namespace sim

extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
	static uint32_t n;
	if (a == b || *a) return;
	for (; a < b; ++a) *a = ++n;
	sim::ncov = n + 1;
	sim::g_instr = true;
}
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
	if (!sim::in_lib) return;
	++sim::g_edges;
	if (sim::cov) sim::cov[*g] = 1;
	if (--sim::countdown <= 0) sim::hook_slow();
}
// stores are switching points as well, where the build traces them
static inline void stored() { if (sim::in_lib && (++sim::g_edges, --sim::countdown <= 0)) sim::hook_slow(); }
#define STORED(N) extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_store##N(void *) { stored(); }
STORED(1) STORED(2) STORED(4) STORED(8) STORED(16)
// function-local statics: their initialisation is not preempted (a real thread would wait, here nobody else runs)
extern "C" __attribute__((visibility("default"))) int __cxa_guard_acquire(uint64_t *g) {
	if (*(volatile char *)g) return 0;
	++sim::no_preempt;
	return 1;
}
extern "C" __attribute__((visibility("default"))) void __cxa_guard_release(uint64_t *g) { *(char *)g = 1; --sim::no_preempt; }
extern "C" __attribute__((visibility("default"))) void __cxa_guard_abort(uint64_t *) { --sim::no_preempt; }
// the code under test keeps its assertions; a failing one is a violation of the property being exercised
extern "C" __attribute__((visibility("default"))) void __assert_fail(const char *e, const char *f, unsigned l, const char *) {
	const char *b = strrchr(f, '/');
	if (!sim::S) { fprintf(stderr, "assert %s %s:%u\n", e, f, l); abort(); }
	(void)b;
	sim::violate("assert", "assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l);
}

namespace sim {

static void *world_main(void *) {
	g_world();
	if (cov) S->edge_digest = edge_digest();
	S->edges = g_edges;
	S->time_us = g_now;
	finish(OK);
	return nullptr;
}
static int cpu_limit = 60;
static int cpu_limit_() { return cpu_limit; }
// one run in a forked child; the parent only looks at S
static void execute(const uint32_t *v, uint32_t n, bool rep, uint64_t seed, const char *trace) {
	memset(S, 0, offsetof(Shared, choice));
	S->log_hash = 1469598103934665603ull; S->shape = 1469598103934665603ull;
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(2); }
	if (!pid) {
		replaying = rep; replay_v = v; replay_n = n; gen_state = seed;
		struct rlimit rl = { rlim_t(cpu_limit), rlim_t(cpu_limit + 5) }; setrlimit(RLIMIT_CPU, &rl);
		struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
		if (trace) trace_file = fopen(trace, "w");
		if (g_instr) { cov = (uint8_t *)mmap(nullptr, ncov + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
		size_t size = 16 << 20;
		uint8_t *st = new_stack(size, 512 << 10);
		pthread_t th; make_thread(&th, world_main, nullptr, st, size);
		pthread_join(th, nullptr);
		_exit(0);
	}
	int st; while (waitpid(pid, &st, 0) < 0) {}
	if (WIFSIGNALED(st)) {
		int sig = WTERMSIG(st);
		S->status = VIOLATION;
		if (sig == SIGXCPU || sig == SIGKILL) { snprintf(S->kind, sizeof S->kind, "hang"); snprintf(S->msg, sizeof S->msg, "a call did not return within %d s of CPU time", cpu_limit); if (sig == SIGKILL) { S->status = HARNESS; snprintf(S->msg, sizeof S->msg, "child was killed"); } }
		else { snprintf(S->kind, sizeof S->kind, "crash"); snprintf(S->msg, sizeof S->msg, "the process died of signal %d (%s)", sig, strsignal(sig)); }
	} else if (S->status == RUNNING) { S->status = HARNESS; snprintf(S->kind, sizeof S->kind, "harness"); snprintf(S->msg, sizeof S->msg, "child exited early with status %d", WEXITSTATUS(st)); }
}
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string esc(const char *s) { std::string o; for (; *s; ++s) { if (*s == '"' || *s == '\\') o += '\\'; if (uint8_t(*s) >= 32 && uint8_t(*s) < 127) o += *s; else if (*s == '\t') o += ' '; } return o; }

struct Rec { std::string property, kind, msg; uint64_t hash = 0, seed = 0, index = 0; std::vector<uint32_t> v; };
static void save(const char *file, const Rec &r) {
	FILE *f = fopen(file, "w"); if (!f) { perror(file); exit(2); }
	fprintf(f, "property %s\nkind %s\nmsg %s\nseed %llu\nrun %llu\nhash %016llx\nchoices %zu\n", r.property.c_str(), r.kind.c_str(), r.msg.c_str(), (unsigned long long)r.seed, (unsigned long long)r.index, (unsigned long long)r.hash, r.v.size());
	for (size_t i = 0; i < r.v.size(); ++i) fprintf(f, "%u%c", r.v[i], i % 24 == 23 ? '\n' : ' ');
	fprintf(f, "\nend\n");
	fclose(f);
}
static bool load(const char *file, Rec &r) {
	FILE *f = fopen(file, "r"); if (!f) return false;
	char line[4096];
	while (fgets(line, sizeof line, f)) {
		line[strcspn(line, "\n")] = 0;
		if (!strncmp(line, "property ", 9)) r.property = line + 9;
		else if (!strncmp(line, "kind ", 5)) r.kind = line + 5;
		else if (!strncmp(line, "msg ", 4)) r.msg = line + 4;
		else if (!strncmp(line, "seed ", 5)) r.seed = strtoull(line + 5, nullptr, 10);
		else if (!strncmp(line, "run ", 4)) r.index = strtoull(line + 4, nullptr, 10);
		else if (!strncmp(line, "hash ", 5)) r.hash = strtoull(line + 5, nullptr, 16);
		else if (!strncmp(line, "choices ", 8)) {
			size_t n = strtoull(line + 8, nullptr, 10); r.v.resize(n);
			for (size_t i = 0; i < n; ++i) if (fscanf(f, "%u", &r.v[i]) != 1) { fclose(f); return false; }
			break;
		}
	}
	fclose(f);
	return true;
}
static void take(Rec &r) { r.kind = S->kind; r.msg = S->msg; r.hash = S->log_hash; r.v.assign(S->choice, S->choice + S->nchoices); while (!r.v.empty() && !r.v.back()) r.v.pop_back(); }

struct Shrinker {
	Rec best; double deadline; int execs = 0; std::vector<std::pair<uint32_t, uint32_t>> spans;
	bool attempt(const std::vector<uint32_t> &v) {
		if (wall() > deadline) return false;
		++execs;
		execute(v.data(), uint32_t(v.size()), true, 0, nullptr);
		if (S->status != VIOLATION || best.kind != S->kind) return false;
		Rec r = best; take(r);
		if (r.v.size() > best.v.size() || (r.v.size() == best.v.size() && !(r.v < best.v))) return false;
		best = r; grab();
		return true;
	}
	void grab() {
		spans.clear();
		for (uint32_t i = 0; i < S->nspans && i < SPANS; ++i) { uint32_t b = S->span[i].b, e = std::min(S->span[i].e, S->nchoices); if (e > b && b < best.v.size()) spans.push_back({ b, e }); }
		std::sort(spans.begin(), spans.end(), [](auto &a, auto &b) { return a.second - a.first > b.second - b.first; });
	}
	void run() {
		execute(best.v.data(), uint32_t(best.v.size()), true, 0, nullptr);
		if (S->status != VIOLATION || best.kind != S->kind) return;
		take(best); grab();
		for (bool again = true; again && wall() < deadline;) {
			again = false;
			for (size_t cut = best.v.size() / 2; cut; cut /= 2)
				while (best.v.size() > cut) { auto v = best.v; v.resize(v.size() - cut); if (!attempt(v)) break; again = true; }
			for (size_t i = 0; i < spans.size() && i < 400 && wall() < deadline;) {
				auto sp = spans[i]; auto v = best.v;
				uint32_t e = std::min<uint32_t>(sp.second, uint32_t(v.size()));
				if (sp.first < e) { v.erase(v.begin() + sp.first, v.begin() + e); if (attempt(v)) { again = true; i = 0; continue; } }
				++i;
			}
			for (size_t c = std::min<size_t>(best.v.size(), 64); c; c /= 2)
				for (size_t i = best.v.size(); i >= c && wall() < deadline;) {
					if (i > best.v.size()) { i = best.v.size(); if (i < c) break; }
					auto v = best.v; v.erase(v.begin() + (i - c), v.begin() + i);
					if (attempt(v)) again = true;
					i -= c;
				}
			for (size_t c = std::min<size_t>(best.v.size(), 32); c; c /= 2)
				for (size_t i = 0; i + c <= best.v.size() && wall() < deadline; i += c) {
					auto v = best.v; bool any = false;
					for (size_t k = i; k < i + c; ++k) { any |= v[k]; v[k] = 0; }
					if (any && attempt(v)) again = true;
				}
			for (size_t i = 0; i < best.v.size() && wall() < deadline; ++i)
				for (uint32_t step = 0; step < 34 && i < best.v.size() && best.v[i]; ++step) {
					auto v = best.v; uint32_t o = v[i];
					uint32_t lo = step == 0 ? 1 : o - (o >> std::min<uint32_t>(step, 31));
					if (step && !(o >> std::min<uint32_t>(step, 31))) { if (o > 1) { v[i] = o - 1; if (attempt(v)) { again = true; step = 0; continue; } } break; }
					if (lo >= o) continue;
					v[i] = lo;
					if (attempt(v)) { again = true; }
				}
		}
	}
};

static const char *arg(int c, char **v, const char *k, const char *d) { for (int i = 2; i + 1 < c; ++i) if (!strcmp(v[i], k)) return v[i + 1]; return d; }
static bool flag(int c, char **v, const char *k) { for (int i = 2; i < c; ++i) if (!strcmp(v[i], k)) return true; return false; }

static int main_(int argc, char **argv) {
	if (argc < 2) { fprintf(stderr, "usage: run|replay|shrink\n"); return 2; }
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) return 2;
	arena_init();
	std::string mode = argv[1];
	std::string prop = arg(argc, argv, "--property", "");
	g_thorough = !strcmp(arg(argc, argv, "--tier", "quick"), "thorough");
	cpu_limit = atoi(arg(argc, argv, "--cpu", "60"));
	Rec r;
	if (mode != "run") {
		if (!load(arg(argc, argv, "--file", ""), r)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
		prop = r.property;
	}
	for (WorldReg *w = WorldReg::head; w; w = w->next) if (prop == w->property) { g_world = w->fn; g_property = w->property; }
	if (!g_world) { fprintf(stderr, "no world for %s\n", prop.c_str()); return 2; }
	if (mode == "replay") {
		execute(r.v.data(), uint32_t(r.v.size()), true, 0, arg(argc, argv, "--trace", nullptr));
		printf("RESULT %s kind=%s hash=%016llx msg=%s\n", S->status == OK ? "ok" : S->status == VIOLATION ? "violation" : "error", S->kind, (unsigned long long)S->log_hash, S->msg);
		return S->status == OK ? 0 : S->status == VIOLATION ? 1 : 2;
	}
	if (mode == "shrink") {
		Shrinker s; s.best = r; s.deadline = wall() + atof(arg(argc, argv, "--budget", "30"));
		size_t n0 = r.v.size(); s.run();
		s.best.property = r.property; s.best.seed = r.seed; s.best.index = r.index;
		save(arg(argc, argv, "--out", "shrunk.replay"), s.best);
		printf("shrunk %zu -> %zu choices in %d executions\n", n0, s.best.v.size(), s.execs);
		return 0;
	}
	uint64_t seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
	uint64_t first = strtoull(arg(argc, argv, "--first", "0"), nullptr, 10), step = strtoull(arg(argc, argv, "--step", "1"), nullptr, 10), count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
	double deadline = wall() + atof(arg(argc, argv, "--deadline", "60")), t0 = wall();
	const char *out = arg(argc, argv, "--out", "out");
	std::vector<std::string> known;
	for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], "--known")) known.push_back(argv[i + 1]);
	bool hashes = flag(argc, argv, "--hashes");
	std::map<std::string, uint64_t> ctr, knownhit;
	std::set<uint64_t> shapes, covs;
	uint64_t runs = 0, nontriv = 0, time_us = 0, events = 0, edges_ = 0, choices = 0, rechecked = 0;
	std::vector<std::string> samples;
	std::string vfile; std::string err;
	FILE *hf = hashes ? fopen((std::string(out) + ".hashes").c_str(), "w") : nullptr;
	for (uint64_t i = first; i < count && wall() < deadline; i += step) {
		uint64_t s0 = seed * 0x2545F4914F6CDD1Dull + i * 0x9E3779B97F4A7C15ull + digest(prop.data(), prop.size());
		splitmix(s0);
		execute(nullptr, 0, false, s0, nullptr);
		++runs;
		if (S->status == HARNESS) { err = S->msg; fprintf(stderr, "run %llu: %s\n", (unsigned long long)i, S->msg); break; }
		for (uint32_t k = 0; k < S->nctr; ++k) ctr[S->ctr[k].name] += S->ctr[k].n;
		if (S->nontrivial) { ++nontriv; shapes.insert(S->shape); }
		if (S->edge_digest) covs.insert(S->edge_digest);
		time_us += S->time_us; events += S->events; edges_ += S->edges; choices += S->nchoices;
		if (hf) fprintf(hf, "%llu %u %016llx %u\n", (unsigned long long)i, S->status, (unsigned long long)S->log_hash, S->nchoices);
		if (S->nsamp && samples.size() < 4) samples.push_back("run " + std::to_string(i) + ": " + S->samp);
		if (S->status == VIOLATION) {
			bool k = false;
			for (auto &x : known) if (x == S->kind) { k = true; ++knownhit[x]; }
			if (k) continue;
			Rec v; take(v); v.property = prop; v.seed = seed; v.index = i;
			vfile = std::string(out) + ".replay";
			save(vfile.c_str(), v);
			break;
		}
		if (runs % 97 == 1) { // replaying the recorded choices must give the same history
			uint64_t h = S->log_hash; std::vector<uint32_t> v(S->choice, S->choice + S->nchoices);
			execute(v.data(), uint32_t(v.size()), true, 0, nullptr);
			++rechecked;
			if (S->status != OK || S->log_hash != h) { err = "replay of run " + std::to_string(i) + " diverged: " + S->msg; fprintf(stderr, "%s\n", err.c_str()); break; }
		}
	}
	if (hf) fclose(hf);
	FILE *f = fopen((std::string(out) + ".json").c_str(), "w");
	fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"time_us\":%llu,\"events\":%llu,\"edges\":%llu,\"choices\":%llu,\"rechecked\":%llu,\"wall\":%.3f,\"error\":\"%s\",\"violation\":\"%s\",\"instrumented\":%d,\"ncov\":%u,",
		(unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)time_us, (unsigned long long)events, (unsigned long long)edges_, (unsigned long long)choices, (unsigned long long)rechecked, wall() - t0, esc(err.c_str()).c_str(), vfile.c_str(), int(g_instr), ncov);
	fprintf(f, "\"counters\":{"); bool c1 = false; for (auto &x : ctr) { fprintf(f, "%s\"%s\":%llu", c1 ? "," : "", esc(x.first.c_str()).c_str(), (unsigned long long)x.second); c1 = true; }
	fprintf(f, "},\"known\":{"); c1 = false; for (auto &x : knownhit) { fprintf(f, "%s\"%s\":%llu", c1 ? "," : "", esc(x.first.c_str()).c_str(), (unsigned long long)x.second); c1 = true; }
	fprintf(f, "},\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i].c_str()).c_str());
	fprintf(f, "],\"shapes\":["); c1 = false; for (uint64_t x : shapes) { fprintf(f, "%s\"%llx\"", c1 ? "," : "", (unsigned long long)x); c1 = true; }
	fprintf(f, "],\"covs\":["); c1 = false; for (uint64_t x : covs) { fprintf(f, "%s\"%llx\"", c1 ? "," : "", (unsigned long long)x); c1 = true; }
	fprintf(f, "]}\n"); fclose(f);
	return err.empty() ? (vfile.empty() ? 0 : 1) : 2;
}
}

int main(int argc, char **argv) {
	// same addresses in every process: an uninitialised pointer-sized read must replay too
	if (!getenv("SIM_NOASLR")) {
		int p = personality(0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
			setenv("SIM_NOASLR", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	return sim::main_(argc, argv);
}
