// Property-based testing engine: every generated case is a "choice tape" (sequence of bounded draws).
// A tape can be recorded from a seeded PRNG, mutated (coverage guided), replayed and shrunk.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>

namespace vt {
typedef uint64_t U64; typedef uint32_t U32; typedef int64_t I64;

struct Rng {                      // splitmix64
	U64 s;
	explicit Rng(U64 seed = 1) : s(seed) {}
	U64 next() { U64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	             z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	U32 below(U32 n) { return n ? (U32)(((next() >> 32) * (U64)n) >> 32) : 0; }
	U64 below64(U64 n) { return n ? next() % n : next(); }
	bool chance(U32 a, U32 b) { return below(b) < a; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Shm;
extern Shm *shm;

struct Ctx {
	// --- choices ---
	U32 below(U32 n);                          // uniform in [0,n); n==0 => any u32. Shrinks towards 0
	U32 bits() { return below(0); }
	U64 bits64() { U64 a = bits(); return (a << 32) | bits(); }
	I64 range(I64 a, I64 b) { return a + (I64)below((U32)(b - a + 1)); }   // inclusive
	bool chance(U32 a, U32 b) { return below(b) >= b - a; }               // true with prob. a/b; shrinks to false
	bool coin() { return below(2); }
	template <class T> T pick(const std::vector<T> &v) { return v[below((U32)v.size())]; }
	int weighted(std::initializer_list<int> w);   // index, shrinks to 0
	Rng bulk() { U64 s = bits64(); return Rng(s * 0x9E3779B97F4A7C15ull + 12345); }
	// --- observations ---
	void nontrivial(bool b = true) { if (b) nontriv = true; }
	void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void feed(const void *p, size_t n);        // contributes to the identity of the case
	void feed64(U64 v) { feed(&v, 8); }
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	// --- verdict ---
	[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
	[[noreturn]] void discard();
	bool nontriv = false;
	U64 h = 1469598103934665603ull; bool fed = false;
	bool thorough = false;
	bool xl = false, strip = false;            // streams of large inputs (few cases): large matrices; one huge dimension
	int xlimit = 1200; int big(int v) { return xl ? (int)std::min<I64>((I64)v * 24, xlimit > v ? xlimit : v) : v; }   // a size bound
	bool verbose = false;
	int size = 0;                              // size class 0..100 hint
	int steps = 0;
};
#define CHECK(c, key, cond, ...) do { if (!(cond)) (c).fail(key, __VA_ARGS__); } while (0)

typedef void (*PropFn)(Ctx &);
struct Prop { const char *id; PropFn fn; const char *rule; int weight; const char *sub; };
std::vector<Prop> &registry();
struct Reg { Reg(const char *id, const char *sub, int weight, PropFn fn, const char *rule) { registry().push_back({id, fn, rule, weight, sub}); } };
// several sub-properties may be registered for one id: a case picks one by weight (first choice of the tape)
#define PROPERTY(id, sub, weight, rule) \
	static void prop_##id##_##sub(vt::Ctx &c); \
	static vt::Reg reg_##id##_##sub(#id, #sub, weight, prop_##id##_##sub, rule); \
	static void prop_##id##_##sub(vt::Ctx &c)

// --- control over the library under test (see hooks.cpp) ---
enum OutcomeKind { RETURNED, EXITED, ABORTED };
struct Outcome { OutcomeKind kind; int status; std::string msg; };
Outcome guarded(const std::function<void()> &f);    // runs f, catching exit()/err()/abort()/assert of the library
struct AllocCtl { long count; long fail_at; bool failed; int fill; long long fail_size; bool sticky; bool track; };
void alloc_release();       // frees what was allocated while alloc_ctl.track was on
void alloc_keep();
size_t alloc_live(size_t &bytes);   // blocks allocated by the library while alloc_ctl.track was on and not freed yet
extern "C" void hk_free(void *);
extern AllocCtl alloc_ctl;
void alloc_fill(int mode, U64 seed);   // contents of fresh memory
void hooks_reset();          // per case
extern char hk_last_message[512];
extern long hk_err_bytes;      // bytes written by the library on its error stream

// --- thread shim (see rt/omp_shim.cpp) ---
struct SchedCfg { int threads; int policy; U64 seed; double param; bool scale_chunks; };
void sched_set(const SchedCfg &c);
void sched_reset();
bool sched_preemptive();      // true when the library is compiled with access instrumentation
void sched_draw(Ctx &c, int force_threads = 0, bool real_chunks = false);   // draws a thread count and a schedule
void sched_callers(const std::vector<std::function<void()>> &f, int inner);   // one thread of the program per element; each forks OpenMP teams of `inner` threads
U64 sched_switches();
int sched_threads();
std::string scratch_dir();
extern int variant_is_sched;
Ctx *current();
}
