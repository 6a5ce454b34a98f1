// Replacements for the libc symbols used by the library under test (objcopy --redefine-sym X=hk_X on its objects).
#include "../engine.hpp"
#include <setjmp.h>
#include <malloc.h>
#include <errno.h>
#include <unistd.h>
#include <set>
namespace vt {
int variant_is_sched;
AllocCtl alloc_ctl;
char hk_last_message[512];
long hk_err_bytes;
static jmp_buf *jb; static int jb_kind, jb_status; static unsigned hk_seed = 1; static U64 fillseed;
void sched_abandon();      // omp_shim: forget running coroutines
}
using namespace vt;
extern "C" {
FILE *hk_stderr;
static void leave(int kind, int status) {
	if (jb) { jb_kind = kind; jb_status = status; jmp_buf *t = jb; longjmp(*t, 1); }
	Ctx *c = current();
	c->fail(kind == ABORTED ? "abort" : "unexpected-exit", "the library %s (status %d) although it should have returned; message: %s", kind == ABORTED ? "aborted (assertion or abort)" : "terminated the program", status, hk_last_message);
}
void __attribute__((noreturn)) hk_exit(int s) { leave(EXITED, s); __builtin_unreachable(); }
void __attribute__((noreturn)) hk__exit(int s) { leave(EXITED, s); __builtin_unreachable(); }
void __attribute__((noreturn)) hk_quick_exit(int s) { leave(EXITED, s); __builtin_unreachable(); }
void __attribute__((noreturn)) hk_abort(void) { leave(ABORTED, 134); __builtin_unreachable(); }
void __attribute__((noreturn)) hk___assert_fail(const char *a, const char *f, unsigned l, const char *fn) {
	snprintf(hk_last_message, sizeof hk_last_message, "assertion `%s' failed in %s (%s:%u)", a, fn ? fn : "?", f, l); leave(ABORTED, 134); __builtin_unreachable(); }
static void vmsg(const char *f, va_list ap, bool e) { int en = errno; int k = 0; if (f) k = vsnprintf(hk_last_message, sizeof hk_last_message - 64, f, ap); else hk_last_message[0] = 0; if (k > 400) k = 400; if (e) snprintf(hk_last_message + k, 64, ": errno %d", en); hk_err_bytes += k + 1; }
void __attribute__((noreturn)) hk_err(int s, const char *f, ...) { va_list ap; va_start(ap, f); vmsg(f, ap, true); leave(EXITED, s); __builtin_unreachable(); }
void __attribute__((noreturn)) hk_errx(int s, const char *f, ...) { va_list ap; va_start(ap, f); vmsg(f, ap, false); leave(EXITED, s); __builtin_unreachable(); }
void __attribute__((noreturn)) hk_verr(int s, const char *f, va_list ap) { vmsg(f, ap, true); leave(EXITED, s); __builtin_unreachable(); }
void __attribute__((noreturn)) hk_verrx(int s, const char *f, va_list ap) { vmsg(f, ap, false); leave(EXITED, s); __builtin_unreachable(); }
void hk_warn(const char *f, ...) { va_list ap; va_start(ap, f); vmsg(f, ap, true); va_end(ap); }
void hk_warnx(const char *f, ...) { va_list ap; va_start(ap, f); vmsg(f, ap, false); va_end(ap); }
void hk_perror(const char *m) { snprintf(hk_last_message, sizeof hk_last_message, "%s: errno %d", m ? m : "", errno); hk_err_bytes += strlen(hk_last_message) + 1; }
int hk_rand(void) { hk_seed = hk_seed * 1103515245u + 12345u; unsigned a = hk_seed; hk_seed = hk_seed * 1103515245u + 12345u; return (int)(((a >> 16) << 16 | (hk_seed >> 16)) & 0x7fffffff); }
void hk_srand(unsigned s) { hk_seed = s * 2654435761u + 1; }

static void fill(void *p, size_t n) {
	if (!p || alloc_ctl.fill == 1) { if (p && n <= (64u << 20)) memset(p, 0, n); return; }
	if (n > (64u << 20)) n = 64u << 20;
	switch (alloc_ctl.fill) {
	case 0: memset(p, 0xBE, n); break;
	case 2: memset(p, 0xFF, n); break;
	case 3: { U32 *w = (U32 *)p; size_t k = n / 4; U64 s = fillseed += 0x9E3779B97F4A7C15ull; U32 x = (U32)(s >> 32) | 1; static const U32 masks[4] = {7, 1, 15, 63}; U32 mask = masks[(s >> 20) & 3], off = (s >> 24) & 1; for (size_t i = 0; i < k; i++) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; w[i] = (x & mask) - off; } break; }
	case 4: memset(p, 0x01, n); break;
	}
}
static std::set<void *> *live;
static void *born(void *p) { if (p && alloc_ctl.track) { if (!live) live = new std::set<void *>(); live->insert(p); } return p; }
static void dead(void *p) { if (p && live && !live->empty()) live->erase(p); }
static bool inject(size_t n) {
	long k = alloc_ctl.count++;
	if (k == alloc_ctl.fail_at || (alloc_ctl.sticky && alloc_ctl.fail_at >= 0 && k > alloc_ctl.fail_at)) { alloc_ctl.failed = true; alloc_ctl.fail_size = n; errno = ENOMEM; return true; }
	return false;
}
void *hk_malloc(size_t n) { if (inject(n)) return NULL; void *p = malloc(n); fill(p, n); return born(p); }
void *hk_calloc(size_t a, size_t b) { if (inject(a * b)) return NULL; return born(calloc(a, b)); }
void *hkx_malloc(size_t n) { return born(malloc(n)); }
int hkx_posix_memalign(void **q, size_t a, size_t n) { int r = posix_memalign(q, a, n); if (!r) born(*q); return r; }
void hk_free(void *p) { dead(p); free(p); }
void *hk_realloc(void *q, size_t n) {
	if (inject(n)) return NULL;
	size_t old = q ? malloc_usable_size(q) : 0;
	bool was = q && live && live->count(q);
	void *p = realloc(q, n);
	if (was && (p || !n)) dead(q);
	if (was || !q) born(p);
	if (p && n > old) fill((char *)p + old, n - old);
	return p;
}
int hk_posix_memalign(void **q, size_t a, size_t n) { if (inject(n)) return ENOMEM; int r = posix_memalign(q, a, n); if (!r) { fill(*q, n); born(*q); } return r; }
void *hk_aligned_alloc(size_t a, size_t n) { if (inject(n)) return NULL; void *p = aligned_alloc(a, n); fill(p, n); return born(p); }
void *hk_reallocarray(void *q, size_t a, size_t b) { return hk_realloc(q, a * b); }
char *hk_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)hk_malloc(n); if (p) memcpy(p, s, n); return p; }
}
namespace vt {
void alloc_release() { alloc_ctl.track = false; if (live) { for (void *p : *live) free(p); live->clear(); } }   // what an interrupted operation left behind
size_t alloc_live(size_t &bytes) { bytes = 0; if (!live) return 0; for (void *p : *live) bytes += malloc_usable_size(p); return live->size(); }
void alloc_keep() { alloc_ctl.track = false; if (live) live->clear(); }
void alloc_fill(int mode, U64 seed) { alloc_ctl.fill = mode; fillseed = 42 + seed; }
void hooks_reset() {
	if (!hk_stderr) hk_stderr = fopen("/dev/null", "w");
	alloc_ctl.count = 0; alloc_ctl.fail_at = -1; alloc_ctl.sticky = alloc_ctl.track = false; if (live) live->clear(); alloc_ctl.failed = false; alloc_ctl.fill = 0; alloc_ctl.fail_size = 0; fillseed = 42;
	hk_seed = 1; hk_last_message[0] = 0; hk_err_bytes = 0; jb = NULL;
}
Outcome guarded(const std::function<void()> &f) {
	jmp_buf here, *saved = jb; Outcome o;
	jb = &here;
	if (setjmp(here) == 0) { f(); jb = saved; o.kind = RETURNED; o.status = 0; }
	else { jb = saved; sched_abandon(); o.kind = (OutcomeKind)jb_kind; o.status = jb_status; o.msg = hk_last_message; }
	return o;
}
}
