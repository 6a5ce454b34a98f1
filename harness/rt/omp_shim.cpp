// A cooperative implementation of the GNU OpenMP runtime: threads are coroutines of one OS thread, so that the
// interleaving is a deterministic function of a seed. In the "sched" variant the library is compiled with
// -fsanitize=thread and every memory access is a potential preemption point (see bottom of the file).
#include "../engine.hpp"
#include <map>
#include <sys/mman.h>
#include <link.h>
#if defined(__SANITIZE_ADDRESS__) || defined(VT_ASAN)
extern "C" { void __sanitizer_start_switch_fiber(void **fake, const void *bottom, size_t size); void __sanitizer_finish_switch_fiber(void *fake, const void **bottom, size_t *size); void __asan_unpoison_memory_region(void const volatile *addr, size_t size); }
#define FIBERS 1
#endif
using vt::U64; using vt::U32; using vt::Rng;
namespace vt {
static SchedCfg cfg = {1, 0, 0, 0, false};
static const size_t STACK = 512 * 1024, BIG_STACK = 8 << 20; static const int MAXT = 16;
enum St { READY, LOCKWAIT, BARWAIT, DONE, JOINWAIT };
struct Team;
struct WorkShare { bool init; long next, end, incr, chunk; int sched; int finished; long ordered_next; bool single_taken; void *copy; };
struct Co { void *sp; char *stack; Team *team; int id; St st; void *wait; U64 ws; WorkShare *cur; void *fake; double prio; long since; bool static_done; long st_pos; Team *inner; int inner_id; void (*fn)(void *); void *data; size_t stack_size; bool forked; };   // inner: the team seen by a thread of the program, or by a thread that one has forked
struct Team { int n; void (*fn)(void *); void *data; Co co[MAXT]; int cur; int arrived; std::map<U64, WorkShare> *ws; Team *parent; void *main_sp; void *main_fake; U64 cancelled; int live; bool callers; Co *master; };     // callers: threads of the program itself, each of which calls the library
static Team *team;
static char *stacks[MAXT], *big_stacks[MAXT]; static Rng srng(1); static U64 nswitch, naccess; static long budget; static U64 pct_next[8]; static int pct_n; static U32 pcmask, pcval;
static std::map<void *, int> *locks;      // lock address -> owner co id + 1
static const void *main_bottom; static size_t main_size;
bool preempt_on; static double lowprio;
extern "C" void vt_switch(void **save, void *to);
asm(R"(
.text
.globl vt_switch
.type vt_switch,@function
vt_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size vt_switch, .-vt_switch
)");
void sched_set(const SchedCfg &c) { cfg = c; if (cfg.threads < 1) cfg.threads = 1; if (cfg.threads > MAXT) cfg.threads = MAXT; }
void sched_reset() { cfg = {1, 0, 0, 0, false}; team = NULL; preempt_on = false; nswitch = 0; naccess = 0; if (locks) locks->clear(); }
static void tls_switch(int to);
void sched_abandon() { tls_switch(0); team = NULL; preempt_on = false; if (locks) locks->clear(); }
U64 sched_switches() { return nswitch; }
int sched_threads() { return cfg.threads; }
bool sched_preemptive() { return variant_is_sched; }
void sched_draw(Ctx &c, int force, bool chunks) {
	SchedCfg s; static const int tc[] = {1, 2, 3, 4, 2, 8, 5, 3};
	s.threads = force ? force : variant_is_sched ? tc[1 + c.below(7)] : tc[c.chance(1, 2) ? c.below(8) : 0];
	s.policy = 0; s.seed = 0; s.param = 0; s.scale_chunks = false;
	if (s.threads > 1) {
		s.policy = c.below(5); s.seed = c.bits();
		s.param = c.below(6); s.scale_chunks = !c.chance(1, 3) && !chunks;
	}
	c.label("threads:%d", s.threads);
	if (s.threads > 1) c.label("policy:%d", s.policy);
	c.note("threads=%d policy=%d.%d sseed=%llu scale=%d; ", s.threads, s.policy, (int)s.param, (unsigned long long)s.seed, s.scale_chunks);
	sched_set(s);
}
static const long intervals[6] = {3, 10, 1, 40, 200, 2000};
static void new_budget() {
	long k = intervals[(int)cfg.param % 6];
	switch (cfg.policy) {
	case 0: budget = 1 + srng.below(2 * k); break;                        // random intervals
	case 1: budget = 1 + (long)(-__builtin_log(srng.unit() + 1e-12) * k * 20); break;
	case 2: budget = 200000; break;                                      // priorities, change points below
	case 3: budget = 20000; break;                                        // PC subset
	default: budget = 100000; break;                                      // run until blocked
	}
}
static int choose() {
	Team *t = team; int ready[MAXT], n = 0;
	for (int i = 0; i < t->n; i++) if (t->co[i].st == READY) ready[n++] = i;
	if (!n) return -1;
	if (cfg.policy == 2) { int b = ready[0]; for (int i = 1; i < n; i++) if (t->co[ready[i]].prio > t->co[b].prio) b = ready[i]; return b; }
	return ready[srng.below(n)];
}
// thread-local variables of the library: one copy per thread (thread 0 is the main thread), swapped on every switch
static char *tls_live, *tls_store[MAXT]; static size_t tls_size; static int tls_owner = -1;
static int tls_find(struct dl_phdr_info *i, size_t, void *) {
	if (i->dlpi_name && i->dlpi_name[0]) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_live = (char *)i->dlpi_tls_data; tls_size = tls_live ? i->dlpi_phdr[k].p_memsz : 0;
		for (int t = 1; t < MAXT && tls_size; t++) { tls_store[t] = (char *)calloc(1, tls_size); memcpy(tls_store[t], (void *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz); } }
	return 1; }
static void tls_switch(int to) {
	if (tls_owner < 0) { tls_owner = 0; dl_iterate_phdr(tls_find, NULL); if (tls_size) tls_store[0] = (char *)calloc(1, tls_size); }
	if (!tls_size || to == tls_owner) return;
	memcpy(tls_store[tls_owner], tls_live, tls_size); memcpy(tls_live, tls_store[to], tls_size); tls_owner = to; }
static void go(Co *from, int to) {   // from==NULL: main
	Team *t = team; nswitch++;
	tls_switch(to >= 0 ? to : 0); t->cur = to; Co *d = to >= 0 ? &t->co[to] : NULL; if (d && t->callers) d->inner->cur = d->inner_id;
	void **save = from ? &from->sp : &t->main_sp; void *target = d ? d->sp : t->main_sp;
#ifdef FIBERS
	void **sf = from ? &from->fake : &t->main_fake;
	bool dying = from && from->st == DONE;
	__sanitizer_start_switch_fiber(dying ? NULL : sf, d ? (const void *)d->stack : main_bottom, d ? d->stack_size : main_size);
	vt_switch(save, target);
	__sanitizer_finish_switch_fiber(from ? from->fake : t->main_fake, NULL, NULL);
#else
	vt_switch(save, target);
#endif
	new_budget();
}
static void yield_now() {            // called from a coroutine that may be blocked
	Team *t = team; Co *me = &t->co[t->cur];
	int k = choose();
	if (k < 0) {
		int blocked = 0; for (int i = 0; i < t->n; i++) blocked += t->co[i].st != DONE;
		if (blocked) { current()->fail("deadlock", "all %d remaining threads are blocked (barrier or lock never released)", blocked); }
		go(me, -1); return;
	}
	if (k == t->cur && me->st == READY) { new_budget(); return; }
	go(me, k);
}
static void co_main() {
#ifdef FIBERS
	if (!main_bottom) __sanitizer_finish_switch_fiber(NULL, &main_bottom, &main_size); else __sanitizer_finish_switch_fiber(NULL, NULL, NULL);
#endif
	Team *t = team; Co *me = &t->co[t->cur];
	new_budget();
	if (me->forked) me->fn(me->data); else t->fn(t->data);
	t = team; me->st = DONE;
	if (me->forked) { Team *v = me->inner; if (--v->live == 0 && v->master->st == JOINWAIT) v->master->st = READY; }
	// a finished thread counts as arrived at the implicit final barrier
	yield_now();
	__builtin_trap();
}
static Co *self() { return team ? &team->co[team->cur] : NULL; }
static Team *vis() { return team && team->callers ? team->co[team->cur].inner : team; }   // the team the running code sees
static void run_team(Team &T, char **stk, size_t size);
static void co_init(Co &c, char **slot, size_t size);
static int inner_threads = 1;
static void parallel(void (*fn)(void *), void *data, unsigned nt, std::map<U64, WorkShare> *pre) {
	bool caller = team && team->callers; int n = nt ? (int)nt : caller ? inner_threads : cfg.threads; if (n > MAXT) n = MAXT;
	if (caller ? vis()->n > 1 : team != NULL) n = 1;          // no nested parallelism (the OpenMP default)
	Team T; memset((void *)&T, 0, sizeof T); std::map<U64, WorkShare> wsm; T.ws = pre ? pre : &wsm; T.n = n; T.fn = fn; T.data = data; T.parent = team; T.live = n;
	for (int i = 0; i < n; i++) { T.co[i].id = i; T.co[i].team = &T; T.co[i].st = READY; }
	if (!locks) locks = new std::map<void *, int>();
	if (caller) {           // a region within a thread of the program: its own team, preempted by all other threads
		Co *me = self(); Team *saved = me->inner; int sid = me->inner_id; std::vector<int> slots; T.live = 0; T.master = me;
		for (int i = 0; i < MAXT && (int)slots.size() < n - 1; i++) if (team->co[i].st == DONE && i != team->cur) slots.push_back(i);
		T.n = n = 1 + (int)slots.size(); T.live = n - 1; me->inner = &T; me->inner_id = 0; T.cur = 0;
		for (int i = 1; i < n; i++) { int sl = slots[i - 1]; Co &c = team->co[sl]; double prio = 10 + srng.unit(); memset((void *)&c, 0, sizeof c); c.id = sl; c.team = team; c.inner = &T; c.inner_id = i; c.fn = fn; c.data = data; c.forked = true; c.prio = prio; co_init(c, &stacks[sl], STACK); c.st = READY; }
		fn(data);
		me = self(); while (T.live) { me->st = JOINWAIT; yield_now(); }
		me->inner = saved; me->inner_id = sid; saved->cur = sid; return; }
	if (n == 1) { bool sp = preempt_on; preempt_on = false; Team *saved = team; team = &T; fn(data); team = saved; preempt_on = sp; return; }
	run_team(T, stacks, STACK);
}
static void run_team(Team &T, char **stk, size_t size) {
	int n = T.n;
	team = &T; srng = Rng(cfg.seed * 7919 + 13); pct_n = 0; lowprio = 0;
	if (cfg.policy == 2) { for (int i = 0; i < n; i++) T.co[i].prio = 10 + srng.unit(); pct_n = 1 + srng.below(5); long span = intervals[(int)cfg.param % 6] * 50; for (int i = 0; i < pct_n; i++) pct_next[i] = naccess + 1 + srng.below64(span); }
	if (cfg.policy == 3) { pcval = srng.below(8); pcmask = 7; }
	for (int i = 0; i < n; i++) if (T.co[i].st != DONE) co_init(T.co[i], &stk[i], size);
	preempt_on = true;   // every access (sched variant) or basic block (asan variant) is a preemption point
	go(NULL, choose());
	preempt_on = false;
	team = NULL;
}
struct CallerArgs { const std::vector<std::function<void()>> *f; };
static void caller_main(void *d) { ((*((CallerArgs *)d)->f)[team->cur])(); }
void sched_callers(const std::vector<std::function<void()>> &f, int inner) {
	int n = f.size(); if (n > MAXT || team) abort();
	Team T; memset((void *)&T, 0, sizeof T); std::map<U64, WorkShare> wsm; CallerArgs a = {&f}; T.ws = &wsm; T.n = MAXT; T.fn = caller_main; T.data = &a; T.callers = true; inner_threads = inner; for (int i = 0; i < MAXT; i++) { T.co[i].id = i; T.co[i].team = &T; T.co[i].st = DONE; }
	std::vector<Team> solo(n); std::vector<std::map<U64, WorkShare>> sw(n);
	for (int i = 0; i < n; i++) { Team &S = solo[i]; memset((void *)&S, 0, sizeof S); S.n = 1; S.ws = &sw[i]; T.co[i].st = READY; T.co[i].inner = &S; }
	if (!locks) locks = new std::map<void *, int>();
	if (n < 2) { for (auto &g : f) g(); return; }
	run_team(T, big_stacks, BIG_STACK);
}
static void co_init(Co &c, char **slot, size_t size) {
	if (!*slot) *slot = (char *)mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#ifdef FIBERS
	__asan_unpoison_memory_region(*slot, size);
#endif
	c.stack = *slot; c.stack_size = size;
	U64 *sp = (U64 *)(*slot + size - 64); sp = (U64 *)((U64)sp & ~15ull);
	*--sp = 0; *--sp = (U64)(void *)co_main;        // return address; rsp is 16n+8 at entry as the ABI wants
	for (int k = 0; k < 6; k++) *--sp = 0;
	sp--; unsigned mx = 0x1f80; unsigned short cw = 0x37f; memcpy(sp, &mx, 4); memcpy((char *)sp + 4, &cw, 2);
	c.sp = sp; c.fake = NULL; }
static void barrier() {
	Team *v = vis(); if (!v || v->n == 1) { if (v) v->co[0].cur = NULL; return; }
	Team *t = team; Co *me = self();
	v->arrived++;
	if (v->arrived == v->n) { v->arrived = 0; for (int i = 0; i < t->n; i++) if (t->co[i].st == BARWAIT && (!t->callers || t->co[i].inner == v)) t->co[i].st = READY; yield_now(); return; }
	me->st = BARWAIT; yield_now();
}
static void lock(void *a) {
	if (!team || team->n == 1) { if (!locks) locks = new std::map<void *, int>(); return; }
	Co *me = self();
	yield_now();
	while ((*locks)[a]) { me->st = LOCKWAIT; me->wait = a; yield_now(); }
	(*locks)[a] = me->id + 1;
}
static void unlock(void *a) {
	if (!team || team->n == 1) return;
	(*locks)[a] = 0;
	for (int i = 0; i < team->n; i++) if (team->co[i].st == LOCKWAIT && team->co[i].wait == a) team->co[i].st = READY;
	yield_now();
}
enum { S_STATIC = 1, S_DYN = 2, S_GUIDED = 3 };
static Team solo_team; static std::map<U64, WorkShare> solo_ws;
static Team *cur_team() {
	if (team) return vis();
	solo_team.n = 1; solo_team.ws = &solo_ws; solo_team.cur = 0; return &solo_team;   // orphaned construct outside a region
}
static bool next_chunk(Co *me, Team *t, long *a, long *b) {
	WorkShare *w = me->cur;
	long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
	if (w->sched == S_STATIC) {
		long tot = left; // next is not advanced for static
		long ch = w->chunk;
		if (ch <= 0) { if (me->st_pos > 0) return false; long q = tot / t->n, r = tot % t->n; long s = me->id < r ? me->id * (q + 1) : me->id * q + r; long e = s + q + (me->id < r ? 1 : 0); me->st_pos = 1; if (s >= e) return false; *a = w->next + s * w->incr; *b = w->next + e * w->incr; return true; }
		long s = (me->st_pos * t->n + me->id) * ch; me->st_pos++; if (s >= tot) return false; long e = s + ch < tot ? s + ch : tot; *a = w->next + s * w->incr; *b = w->next + e * w->incr; return true;
	}
	if (left <= 0) return false;
	long k = w->chunk > 0 ? w->chunk : 1;
	if (w->sched == S_GUIDED) { long g = (left + t->n - 1) / t->n; if (g > k) k = g; }
	if (k > left) k = left;
	*a = w->next; w->next += k * w->incr; *b = w->next; return true;
}
static bool loop_start(long start, long end, long incr, long chunk, int sched, long *a, long *b, bool whole = false) {
	Team *t = cur_team(); Co *me = &t->co[t->cur];
	if (t->n > 1) yield_now();
	WorkShare *w = &(*t->ws)[me->ws++];
	if (!w->init) {
		memset((void *)w, 0, sizeof *w); w->init = true; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->sched = sched;
		if (incr > 0 ? start > end : start < end) w->end = start;
		if (!whole && cfg.scale_chunks && t->n > 1 && sched != S_STATIC && chunk > 1) { long it = (w->end - w->next) / incr; long k = it / (3 * t->n); if (k < 1) k = 1; if (k < w->chunk) w->chunk = k; }
	}
	me->cur = w; me->st_pos = 0;
	return next_chunk(me, t, a, b);
}
static bool loop_next(long *a, long *b) { Team *t = cur_team(); Co *me = &t->co[t->cur]; if (t->n > 1) yield_now(); return next_chunk(me, t, a, b); }
static void loop_end(bool wait) { Team *t = cur_team(); t->co[t->cur].cur = NULL; if (wait) barrier(); else if (t->n > 1) yield_now(); }
static void parallel_loop(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long ch, int sched) {
	std::map<U64, WorkShare> pre; WorkShare w; memset((void *)&w, 0, sizeof w); w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = ch; w.sched = sched;
	if (i > 0 ? s > e : s < e) w.end = s;
	int n = nt ? nt : cfg.threads;
	if (cfg.scale_chunks && n > 1 && sched != S_STATIC && ch > 1) { long it = (w.end - w.next) / i; long k = it / (3 * n); if (k < 1) k = 1; if (k < w.chunk) w.chunk = k; }
	pre[(U64)-1] = w;
	parallel(fn, d, nt, &pre);
}
static bool pre_next(long *a, long *b) {   // loops started by GOMP_parallel_loop_*: the share is pre-installed under key -1
	Team *t = cur_team(); Co *me = &t->co[t->cur];
	if (!me->cur) { auto it = t->ws->find((U64)-1); if (it != t->ws->end()) { me->cur = &it->second; me->st_pos = 0; } }
	if (t->n > 1) yield_now();
	return next_chunk(me, t, a, b);
}
void sched_access(void *pc) {
	naccess++;
	if (cfg.policy == 2) { for (int i = 0; i < pct_n; i++) if (pct_next[i] == naccess) { self()->prio = (double)i - 5; yield_now(); return; } }
	if (cfg.policy == 3) { U32 h = (U32)((U64)pc >> 2) * 2654435761u; if (((h >> 20) & pcmask) == pcval && srng.below(2)) { yield_now(); return; } }
	if (--budget <= 0) { if (cfg.policy == 2) { lowprio += 1; self()->prio = -100 - lowprio; } yield_now(); }
}
}
using namespace vt;
#define WEAK
extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) { (void)flags; parallel(fn, data, nt, NULL); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned flags) { (void)flags; parallel(fn, data, nt, NULL); return nt ? nt : cfg.threads; }
void GOMP_barrier(void) { barrier(); }
static char crit; static char atom;
void GOMP_critical_start(void) { lock(&crit); }
void GOMP_critical_end(void) { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&atom); }
void GOMP_atomic_end(void) { unlock(&atom); }
#define LOOP(NAME, S) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, S, a, b); } \
	bool GOMP_loop_##NAME##_next(long *a, long *b) { return pre_next(a, b); } \
	void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned f) { (void)f; parallel_loop(fn, d, nt, s, e, i, c, S); }
LOOP(static, S_STATIC) LOOP(dynamic, S_DYN) LOOP(guided, S_GUIDED) LOOP(nonmonotonic_dynamic, S_DYN) LOOP(nonmonotonic_guided, S_GUIDED)
#define LOOPR(NAME) \
	bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, S_DYN, a, b); } \
	bool GOMP_loop_##NAME##_next(long *a, long *b) { return pre_next(a, b); } \
	void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned f) { (void)f; parallel_loop(fn, d, nt, s, e, i, 1, S_DYN); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
// ordered loops: the first thread that arrives takes all iterations, in order
#define LOOPO(NAME, ARGS, PASS) \
	bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i ARGS, long *a, long *b) { return loop_start(s, e, i, 1 + (i > 0 ? e - s : s - e), S_DYN, a, b, true); } \
	bool GOMP_loop_ordered_##NAME##_next(long *a, long *b) { return loop_next(a, b); }
#define CH , long c
LOOPO(static, CH, c) LOOPO(dynamic, CH, c) LOOPO(guided, CH, c) LOOPO(runtime, , )
void GOMP_ordered_start(void) {}
void GOMP_ordered_end(void) {}
// unsigned long long loops
struct ULL { };
static bool ull(bool ok, long a, long b, unsigned long long *x, unsigned long long *y) { if (ok) { *x = a; *y = b; } return ok; }
#define LOOPU(NAME, S) \
	bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *x, unsigned long long *y) { (void)up; long a = 0, b = 0; bool ok = loop_start(s, e, i, c, S, &a, &b); return ull(ok, a, b, x, y); } \
	bool GOMP_loop_ull_##NAME##_next(unsigned long long *x, unsigned long long *y) { long a = 0, b = 0; bool ok = loop_next(&a, &b); return ull(ok, a, b, x, y); }
LOOPU(static, S_STATIC) LOOPU(dynamic, S_DYN) LOOPU(guided, S_GUIDED) LOOPU(nonmonotonic_dynamic, S_DYN) LOOPU(nonmonotonic_guided, S_GUIDED)
void GOMP_loop_end(void) { loop_end(true); }
void GOMP_loop_end_nowait(void) { loop_end(false); }
bool GOMP_single_start(void) { Team *t = cur_team(); Co *me = &t->co[t->cur]; if (t->n > 1) yield_now(); WorkShare *w = &(*t->ws)[me->ws++]; if (w->single_taken) return false; w->single_taken = true; return true; }
void *GOMP_single_copy_start(void) { Team *t = cur_team(); Co *me = &t->co[t->cur]; WorkShare *w = &(*t->ws)[me->ws++]; me->cur = w; if (!w->single_taken) { w->single_taken = true; return NULL; } barrier(); return w->copy; }
void GOMP_single_copy_end(void *d) { Team *t = cur_team(); Co *me = &t->co[t->cur]; me->cur->copy = d; barrier(); }
unsigned GOMP_sections_start(unsigned n) { long a = 0, b = 0; return loop_start(1, n + 1, 1, 1, S_DYN, &a, &b) ? a : 0; }
unsigned GOMP_sections_next(void) { long a = 0, b = 0; return pre_next(&a, &b) ? a : 0; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned f) { (void)f; parallel_loop(fn, d, nt, 1, n + 1, 1, 1, S_DYN); }
void GOMP_sections_end(void) { loop_end(true); }
void GOMP_sections_end_nowait(void) { loop_end(false); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long as, long aa, bool ifc, unsigned fl, void **dep, int prio, void *det) {
	(void)ifc; (void)fl; (void)dep; (void)prio; (void)det;   // tasks are executed immediately
	if (cpy) { char *buf = (char *)malloc(as + aa); char *arg = (char *)(((U64)buf + aa - 1) & ~(U64)(aa - 1)); cpy(arg, data); fn(arg); free(buf); } else fn(data); }
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long as, long aa, unsigned fl, unsigned long nt, int prio, long start, long end, long step) {
	(void)fl; (void)nt; (void)prio; if (step > 0 ? start >= end : start <= end) return;   // one task for all iterations
	char *buf = (char *)malloc(as + aa); char *arg = (char *)(((U64)buf + aa - 1) & ~(U64)(aa - 1)); if (cpy) cpy(arg, data); else memcpy(arg, data, as); ((long *)arg)[0] = start; ((long *)arg)[1] = end; fn(arg); free(buf); }
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { Team *v = vis(); return v ? v->cur : 0; }
int omp_get_num_threads(void) { Team *v = vis(); return v ? v->n : 1; }
int omp_get_max_threads(void) { return team && team->callers ? inner_threads : cfg.threads; }
int omp_get_num_procs(void) { return cfg.threads; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { if (n >= 1) cfg.threads = n > MAXT ? MAXT : n; }
int omp_in_parallel(void) { Team *v = vis(); return v && v->n > 1; }
int omp_get_level(void) { return vis() ? 1 : 0; }
int omp_get_active_level(void) { Team *v = vis(); return v && v->n > 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {} int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {} int omp_get_max_active_levels(void) { return 1; }
double omp_get_wtime(void) { return 0; } double omp_get_wtick(void) { return 1e-9; }
typedef struct { int x; } shim_lock;
void omp_init_lock(void *l) { *(int *)l = 0; } void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock(l); } void omp_unset_lock(void *l) { unlock(l); }
int omp_test_lock(void *l) { if (!team || team->n == 1) return 1; if ((*locks)[l]) { yield_now(); return 0; } (*locks)[l] = self()->id + 1; return 1; }

// ------------------------- access instrumentation (library compiled with -fsanitize=thread) -------------------------
#define ACC() do { if (__builtin_expect(preempt_on, 0)) sched_access(__builtin_return_address(0)); } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *) {} void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *) { ACC(); } void __tsan_write##n(void *) { ACC(); } void __tsan_read##n##_pc(void *, void *) { ACC(); } void __tsan_write##n##_pc(void *, void *) { ACC(); } \
	void __tsan_unaligned_read##n(void *) { ACC(); } void __tsan_unaligned_write##n(void *) { ACC(); } void __tsan_volatile_read##n(void *) { ACC(); } void __tsan_volatile_write##n(void *) { ACC(); } \
	void __tsan_unaligned_volatile_read##n(void *) { ACC(); } void __tsan_unaligned_volatile_write##n(void *) { ACC(); } void __tsan_read_write##n(void *) { ACC(); } void __tsan_unaligned_read_write##n(void *) { ACC(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *, long) { ACC(); } void __tsan_write_range(void *, long) { ACC(); }
void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {}
#define ATOM(N, T) \
	T __tsan_atomic##N##_load(const volatile T *a, int) { ACC(); return *a; } \
	void __tsan_atomic##N##_store(volatile T *a, T v, int) { ACC(); *a = v; } \
	T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { ACC(); T o = *a; *a = v; return o; } \
	T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { ACC(); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { ACC(); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { ACC(); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { ACC(); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { ACC(); T o = *a; *a = o ^ v; return o; } \
	T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { ACC(); T o = *a; *a = ~(o & v); return o; } \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { ACC(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { ACC(); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
	T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T e, T v, int, int) { ACC(); T o = *a; if (o == e) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { ACC(); } void __tsan_atomic_signal_fence(int) {}
}
