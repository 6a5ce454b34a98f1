// F01: every parallel computation under explored interleavings.
#include "spec.hpp"
#include "piv.hpp"
using namespace vt; using namespace gen;
static int crowd(Ctx &c) { return c.pick(std::vector<int>{2, 3, 4, 8, 5, 6}); }
// matrices on which many rows compete for the same columns in the greedy search
static SMat contended(Ctx &c, U64 p) {
	int n = c.range(8, 60), m = c.range(6, 60), kind = c.below(4), w = c.range(2, 5); Rng g = c.bulk(); SMat A(n, m, p);
	for (int i = 0; i < n; i++) { std::set<int> s; switch (kind) {
		case 0: for (int k = 0; k < w; k++) s.insert(g.below(m)); break;
		case 1: s.insert(i % std::max(1, m / 2)); for (int k = 0; k < w; k++) s.insert(g.below(m)); break;                            // the leftmost columns are taken first
		case 2: { int b = g.below(m); for (int k = 0; k < w + 1; k++) if (b + k < m && g.chance(3, 4)) s.insert(b + k); s.insert(0); break; }  // all rows share column 0: the first phase finds one pivot
		default: { int b = i * m / n; s.insert(b); for (int k = 0; k < w; k++) s.insert(g.below(m)); s.insert(m - 1 - (int)g.below(std::min(m, 4))); } }
		for (int j : s) A.row[i].push_back({j, (U32)rvalue(g, p, 0)}); shuffle_row(g, A.row[i]); }
	feed(c, A); c.note("A=%s ", show(A, 500).c_str()); return A; }
PROPERTY(F01, pivots, 6, "structural pivot search by 2 to 8 threads on matrices whose rows compete for columns, chunks of the work-sharing loops scaled down so that all threads work at once; the pivots are compared with the definition; non-trivial when at least 2 but not all rows are pivotal") { int t = crowd(c); pivots(c, Shape{10, 60, 6, 60}, t, false, contended); }
static SMat big(Ctx &c, U64 p) { int n = c.range(2000, 3200), m = c.range(1500, 3000), w = c.range(1, 3), kind = c.below(2); Rng g = c.bulk(); SMat A(n, m, p); for (int i = 0; i < n; i++) { std::set<int> s; if (kind) s.insert(i % (m / 2)); for (int k = 0; k < w + (int)g.below(2); k++) s.insert(g.below(m)); for (int j : s) A.row[i].push_back({j, (U32)rvalue(g, p, 0)}); } feed(c, A); return A; }
static void chain(Ctx &c, const SMat &A, int schedules, bool chunks) {
	int rk = any_rank(A); U64 p = A.p; echelonize_opts o0 = draw_opts(c, 1 + c.below(2)); spasm_csr *M = to_csr(A); Snapshot s(M); SMat Rh = draw_rhs(c, A, 6); spasm_csr *RB = to_csr(Rh); U64 sw = sched_switches();
	for (int t = 0; t < schedules; t++) {
		if (t) sched_draw(c, t == 1 && schedules > 2 ? 1 : crowd(c), chunks); echelonize_opts o = o0;
		spasm_lu *f = spasm_echelonize(M, &o); Basis B = check_echelon(c, A, f, rk); check_LU(c, A, f, B, o0.complete);
		Heap<int> q(A.m, -77); spasm_csr *R = spasm_rref(f, q); check_rref(c, B, R, q); spasm_csr *K = spasm_kernel(f); check_kernel(c, A, B.r, K, "kernel");
		Heap<bool> ok(Rh.n, false); spasm_csr *X = spasm_gesv(f, RB, ok); check_csr(c, "X-storage", "X", X, Rh.n, A.n, p); SMat SX = sfrom_csr(X);
		for (int k = 0; k < Rh.n; k++) { auto b = drow(Rh, k); bool want = B.contains(b); CHECK(c, "verdict", ok[k] == want, "schedule %d: solvability of right-hand side %d is %d", t, k, ok[k]); if (want) check_solution(c, A, f, B.r, b, drow(SX, k), k); }
		spasm_csr_free(R); spasm_csr_free(K); spasm_csr_free(X); spasm_lu_free(f); }
	CHECK(c, "modified", s == Snapshot(M), "the input matrix was modified"); c.nontrivial(rk >= 4 && sched_switches() - sw >= 20); spasm_csr_free(M); spasm_csr_free(RB); }
PROPERTY(F01, chain, 4, "echelonization with left factor, reduced form, kernel and several right-hand sides of one matrix under 2 to 3 different thread counts and schedules, each result compared with its specification and the exact rank; non-trivial when rank >= 4 and at least 20 thread switches happened") { U64 p = prime(c); sched_draw(c, crowd(c)); SMat A = c.coin() ? contended(c, p) : bulk_matrix(c, p, Shape{8, 60, 8, 60}); feed(c, A); chain(c, A, 2 + c.below(2), false); }
PROPERTY(F01, nolower, 4, "echelonization without left factor (all finishing methods) under 2 different schedules, followed by the reduced form and the kernel; non-trivial when rank >= 4") {
	U64 p = prime(c); sched_draw(c, crowd(c)); SMat A = c.coin() ? contended(c, p) : bulk_matrix(c, p, Shape{8, 80, 8, 60}); feed(c, A); c.note("A=%s ", show(A, 300).c_str()); int rk = any_rank(A); echelonize_opts o0 = draw_opts(c, NO_L); spasm_csr *M = to_csr(A);
	for (int t = 0; t < 2; t++) { if (t) sched_draw(c, crowd(c)); echelonize_opts o = o0; spasm_lu *f = spasm_echelonize(M, &o); Basis B = check_echelon(c, A, f, rk); Heap<int> q(A.m, -77); spasm_csr *R = spasm_rref(f, q); check_rref(c, B, R, q); spasm_csr *K = spasm_kernel(f); check_kernel(c, A, B.r, K, "kernel"); spasm_csr_free(R); spasm_csr_free(K); spasm_lu_free(f); }
	c.nontrivial(rk >= 4); spasm_csr_free(M); }
// rare, expensive: the work-sharing chunks of the library as they are, on matrices large enough for several threads
static void huge(Ctx &c) { int t = c.range(2, 4); pivots(c, Shape{1, 1, 1, 1}, t, true, big); }
PROPERTY(F01, pivots_big, 1, "one case in 40 (else contended): 2000-3200 rows with 1-4 entries each, work-sharing chunks of the library unchanged, 2 to 4 threads") { if (c.chance(1, 40)) huge(c); else { int t = crowd(c); pivots(c, Shape{10, 60, 6, 60}, t, false, contended); } }
