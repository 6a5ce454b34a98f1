#include "spec.hpp"
using namespace vt; using namespace gen;

static SMat input(Ctx &c, U64 p, int mx) { c.xlimit = 600; // shapes: mostly small, some tall, some wide, some larger
	switch (c.weighted({6, 2, 2, 1})) { case 0: return matrix(c, p, Shape{0, mx, 0, mx}); case 1: return matrix(c, p, Shape{mx, 4 * mx, 1, mx / 2 + 1}, 0); case 2: return matrix(c, p, Shape{1, mx / 2 + 1, mx, 4 * mx}, 0); default: return matrix(c, p, Shape{mx, 3 * mx, mx, 3 * mx}, 0); } }
static void echelonize(Ctx &c, int mx) {
	U64 p = prime(c); sched_draw(c); echelonize_opts o = draw_opts(c); bool dflt = c.chance(1, 20); SMat A = input(c, p, mx); int rk = any_rank(A); c.label("%s", plan(A, rk));
	spasm_csr *M = to_csr(A, c.below(3)); Snapshot s(M); spasm_lu *f = spasm_echelonize(M, dflt ? NULL : &o); CHECK(c, "modified", s == Snapshot(M), "the input matrix was modified"); check_echelon(c, A, f, rk);
	c.nontrivial(rk >= 2 && rk < std::max(A.n, A.m) && A.nnz() > (size_t)rk); spasm_lu_free(f); spasm_csr_free(M);
}
PROPERTY(D01, echelonize, 3, "matrix of 13 structural kinds (rank-deficient, duplicated, staircase, arrow, planted...) or entry by entry, up to 40x160, under random options with an applicable finishing method, thread count and schedule; the output is compared with the definition and the independently computed rank; non-trivial when 2 <= rank < max(n,m)") { echelonize(c, 40); }
PROPERTY(D01, small, 2, "same, at most 12 rows or columns (48 on the long side)") { echelonize(c, 12); }
// the same final part reached after several sparse rounds: first rounds eliminate a big sparse triangular part, what remains is dense or low-rank
static SMat layered(Ctx &c, U64 p) {
	c.xlimit = 600;
	int t = c.range(0, c.big(40)), kn = c.range(1, c.xl ? 150 : 40), km = c.range(1, c.xl ? 150 : 30), vm = c.below(5), lay = c.range(1, 3), rk = c.range(0, c.xl ? 90 : 12), kind = c.below(4); if (c.strip) { kn = c.pick(std::vector<int>{300, 1000, 5000, 33000, 66000}) + (int)c.below(300); t = c.range(0, 20); rk = c.range(0, 4); kind = c.chance(2, 3) ? 2 : 0; } else if (c.xl && c.chance(1, 3)) { kn = c.range(200, 900); rk = c.range(0, 6); kind = 2; } Rng g = c.bulk(); int n = t + kn, m = t + km; SMat A(n, m, p);
	int bs = c.below(4); // bs >= 2: the first part is made of dense blocks that release one pivot per round, so that the core is reached after bs rounds
	if (bs >= 2) { t -= t % bs; n = t + kn; m = t + km; A = SMat(n, m, p); for (int i = 0; i < t; i++) for (int q = i - i % bs, e = q + bs; q < e; q++) A.row[i].push_back({q, (U32)rvalue(g, p, vm)}); for (int i = 0; i < t; i++) if (g.chance(1, 6)) A.row[i].push_back({t + g.below(km), (U32)rvalue(g, p, vm)}); }
	else for (int i = 0; i < t; i++) { int layer = i * lay / std::max(1, t); A.row[i].push_back({i, (U32)rvalue(g, p, vm)}); for (int q = 0; q < 3; q++) { int j = i + 1 + g.below(std::max(1, m - i - 1)); bool d = j >= m; for (auto &e : A.row[i]) d |= e.first == j; if (!d && (layer == 0 || g.chance(1, 2))) A.row[i].push_back({j, (U32)rvalue(g, p, vm)}); } }
	std::vector<SRow> base; for (int k = 0; k < rk; k++) { SRow r = srow(g, km, kind == 1 ? 0.1 : 0.7, p, vm); for (auto &e : r) e.first += t; base.push_back(r); }
	for (int i = t; i < n; i++) { SRow core; switch (kind) { case 0: case 1: core = combo(g, base, 1 + g.below(3), p, 0); break; case 2: if (i >= n - rk) core = base[i - (n - rk)]; break; default: core = srow(g, km, 0.5, p, vm); for (auto &e : core) e.first += t; }
		std::vector<SRow> v; v.push_back(core); std::map<int, U64> q; for (auto &e : core) q[e.first] = e.second; for (int k = g.below(4); k > 0 && t; k--) { int a = g.below(t); U64 f = rvalue(g, p, vm); for (auto &e : A.row[a]) q[e.first] = (q[e.first] + f * e.second) % p; } for (auto &e : q) if (e.second) A.row[i].push_back({e.first, (U32)e.second}); }
	if (c.coin()) { A = permute(A, rperm(g, n), rperm(g, m)); for (auto &r : A.row) shuffle_row(g, r); }
	feed(c, A); c.note("A=%s ", show(A, 500).c_str()); return A;
}
PROPERTY(D01, layered, 3, "a sparse triangular part (t rows) whose elimination leaves a low-rank, concentrated or random core of up to 40 rows, so that later rounds and finishing methods work on a Schur complement with fewer rows than pivots already found; non-trivial when both parts have rank >= 1") {
	U64 p = prime(c); sched_draw(c); echelonize_opts o = draw_opts(c); SMat A = layered(c, p); int rk = any_rank(A);
	spasm_csr *M = to_csr(A); Snapshot s(M); spasm_lu *f = spasm_echelonize(M, &o); CHECK(c, "modified", s == Snapshot(M), "the input matrix was modified"); check_echelon(c, A, f, rk); c.nontrivial(rk >= 2 && rk < std::max(A.n, A.m)); spasm_lu_free(f); spasm_csr_free(M);
}
// rows in stretches: some that raise the rank, then a long run that depends on them, then others that raise it again
static SMat stretches(Ctx &c, U64 p) {
	int m = c.range(2, 30), n = c.xl || c.strip ? c.pick(std::vector<int>{300, 1100, 5100, 10100, 20000}) + (int)c.below(2000) : c.range(20, c.chance(1, 8) ? 700 : 160), vm = c.below(5), seg = 2 + c.below(3), wide = c.coin(); Rng g = c.bulk(); SMat A(n, m, p); std::vector<SRow> b; int i = 0;
	for (int s = 0; s < seg; s++) { int fresh = 1 + g.below(s ? 2 : 5); for (int t = 0; t < fresh && i < n; t++) { SRow r = srow(g, m, wide ? 1.0 : 0.4, p, vm); if (r.empty()) continue; b.push_back(r); A.row[i++] = r; } int end = s + 1 == seg ? n - (g.chance(1, 2) ? 0 : g.below(3)) : std::min<int>(n, i + (n - i) / (seg - s) + g.below(20)); if (b.empty()) continue; while (i < end) A.row[i++] = g.chance(1, 12) ? SRow() : combo(g, b, 1 + g.below(2), p, vm); }
	feed(c, A); c.note("stretches %dx%d ", n, m); return A;
}
PROPERTY(D01, stretches, 1, "a tall matrix whose rows come in stretches (rows that raise the rank, a long run of rows that depend on them, again rows that raise the rank), up to 22000 rows in the streams of large inputs, under random options and often row by row elimination only; non-trivial when 2 <= rank < n") {
	U64 p = prime(c); if (c.chance(1, 3)) p = c.pick(std::vector<U64>{3, 3, 5, 7}); sched_draw(c); echelonize_opts o = draw_opts(c, c.chance(1, 4) ? -1 : NO_L); if (c.coin()) { o.enable_GPLU = 1; o.enable_dense = o.enable_tall_and_skinny = 0; o.max_round = c.below(2); o.enable_greedy_pivot_search = 0; c.label("row by row"); }
	SMat A = stretches(c, p); int rk = any_rank(A); spasm_csr *M = to_csr(A); Snapshot s(M); spasm_lu *f = spasm_echelonize(M, &o); CHECK(c, "modified", s == Snapshot(M), "the input matrix was modified"); check_echelon(c, A, f, rk); c.nontrivial(rk >= 2 && rk < A.n); spasm_lu_free(f); spasm_csr_free(M);
}
static SMat any(Ctx &c, U64 p, int mx) { return c.chance(1, 3) ? layered(c, p) : input(c, p, mx); }
PROPERTY(D02, factor, 1, "matrix and options as for D01 with the left factor requested (complete or for pivotal rows only); A = L*U recomputed row by row, shape of L, pivotal rows and rank; non-trivial when 2 <= rank < number of rows") {
	U64 p = prime(c); sched_draw(c); bool complete = c.coin(); echelonize_opts o = draw_opts(c, complete ? COMPLETE : PARTIAL); SMat A = any(c, p, 30);
	spasm_csr *M = to_csr(A); Snapshot s(M); spasm_lu *f = spasm_echelonize(M, &o); CHECK(c, "modified", s == Snapshot(M), "the input matrix was modified"); Basis B = check_echelon(c, A, f); check_LU(c, A, f, B, complete); c.label("%s", plan(A, B.r)); c.label(complete ? "complete" : "partial"); c.nontrivial(B.r >= 2 && B.r < A.n); spasm_lu_free(f); spasm_csr_free(M);
}
PROPERTY(D03, rref, 1, "an echelonization obtained under random options, then its reduced form; compared with the definition; non-trivial when the rank is at least 2, below the number of columns, and the echelonization was not reduced already") {
	U64 p = prime(c); sched_draw(c); echelonize_opts o = draw_opts(c); SMat A = any(c, p, 30); spasm_csr *M = to_csr(A); spasm_lu *f = spasm_echelonize(M, &o); Basis B = check_echelon(c, A, f); Snapshot s(f->U);
	Heap<int> q(A.m, -77); spasm_csr *R = spasm_rref(f, q); check_rref(c, B, R, q); CHECK(c, "modified", s == Snapshot(f->U), "the echelonization was modified"); bool was = true; for (auto &r : B.E.U.row) for (size_t k = 1; k < r.size(); k++) was &= B.E.qinv[r[k].first] < 0; c.nontrivial(B.r >= 2 && B.r < A.m && !was); spasm_csr_free(R); spasm_lu_free(f); spasm_csr_free(M);
}
PROPERTY(D04, kernel, 1, "an echelonization obtained under random options; kernel from it and from its reduced form: dimensions, orthogonality to every row, independence, canonical coefficients; non-trivial when 1 <= rank and the kernel has dimension >= 2") {
	U64 p = prime(c); sched_draw(c); echelonize_opts o = draw_opts(c); SMat A = any(c, p, 24); spasm_csr *M = to_csr(A); spasm_lu *f = spasm_echelonize(M, &o); Basis B = check_echelon(c, A, f); Snapshot s(f->U);
	spasm_csr *K = spasm_kernel(f); check_kernel(c, A, B.r, K, "kernel"); spasm_csr_free(K); Heap<int> q(A.m, -77); spasm_csr *R = spasm_rref(f, q); check_rref(c, B, R, q); Snapshot sr(R); K = spasm_kernel_from_rref(R, q); check_kernel(c, A, B.r, K, "kernel from the reduced form"); CHECK(c, "modified", s == Snapshot(f->U) && sr == Snapshot(R), "an input was modified");
	c.nontrivial(B.r >= 1 && A.m - B.r >= 2); spasm_csr_free(K); spasm_csr_free(R); spasm_lu_free(f); spasm_csr_free(M);
}
PROPERTY(D05, solve, 1, "a factorization (complete or not) and right-hand sides inside and outside the row space, solved one by one and all together; verdicts compared with exact elimination, x*A recomputed, support checked; non-trivial when both answers occur or rank >= 2 with a non-zero solution") {
	U64 p = prime(c); sched_draw(c); echelonize_opts o = draw_opts(c, 1 + c.below(2)); SMat A = any(c, p, 24); spasm_csr *M = to_csr(A); spasm_lu *f = spasm_echelonize(M, &o); Basis B = check_echelon(c, A, f); check_LU(c, A, f, B, o.complete);
	SMat R = draw_rhs(c, A, 8); spasm_csr *RB = to_csr(R); Snapshot s(RB), sl(f->L), su(f->U); int yes = 0, no = 0; std::vector<char> want(R.n);
	for (int t = 0; t < R.n; t++) { auto b = drow(R, t); want[t] = B.contains(b); (want[t] ? yes : no)++; }
	for (int t = 0; t < std::min(R.n, 3); t++) { auto b = drow(R, t); std::vector<spasm_ZZp> bv(A.m); for (int j = 0; j < A.m; j++) bv[j] = bal(b[j], p); Heap<spasm_ZZp> bb(bv), x(A.n, (spasm_ZZp)0x1234567); bool ok = spasm_solve(f, bb, x); CHECK(c, "verdict", ok == (bool)want[t], "spasm_solve returned %d for right-hand side %d, which %s in the row space", ok, t, want[t] ? "is" : "is not");
		for (int j = 0; j < A.m; j++) CHECK(c, "modified", bb[j] == bv[j], "the right-hand side was modified"); std::vector<U64> xv(A.n); for (int i = 0; i < A.n; i++) { CHECK(c, "canonical", canonical(x[i], p), "x[%d] = %d is not canonical", i, x[i]); xv[i] = tomod(x[i], p); } if (ok) check_solution(c, A, f, B.r, b, xv, t); }
	bool wantok = !c.chance(1, 6); Heap<bool> ok(R.n, false); for (int t = 0; t < R.n; t++) ok[t] = !want[t]; spasm_csr *X = spasm_gesv(f, RB, wantok ? (bool *)ok : NULL); check_csr(c, "X-storage", "X", X, R.n, A.n, p); SMat SX = sfrom_csr(X);
	for (int t = 0; t < R.n; t++) { if (wantok) CHECK(c, "verdict", ok[t] == (bool)want[t], "spasm_gesv: ok[%d] = %d, but right-hand side %d %s in the row space", t, ok[t], t, want[t] ? "is" : "is not"); if (want[t]) check_solution(c, A, f, B.r, drow(R, t), drow(SX, t), t); }
	CHECK(c, "modified", s == Snapshot(RB) && sl == Snapshot(f->L) && su == Snapshot(f->U), "an input was modified"); c.nontrivial((yes && no) || (B.r >= 2 && X->p[R.n] > 0)); c.label("rhs:%s", yes && no ? "mixed" : yes ? "solvable" : no ? "unsolvable" : "none");
	spasm_csr_free(X); spasm_csr_free(RB); spasm_lu_free(f); spasm_csr_free(M);
}
// ---------------------------------------------------------------- D06
static double lg2(U64 p) { return __builtin_log2((double)p); }
PROPERTY(D06, accept, 1, "a factorization produced under random options, checked with several random seeds; non-trivial when rank >= 2") {
	U64 p = prime(c); sched_draw(c); echelonize_opts o = draw_opts(c, 1 + c.below(2)); SMat A = any(c, p, 20); spasm_csr *M = to_csr(A); spasm_lu *f = spasm_echelonize(M, &o); Basis B = check_echelon(c, A, f); check_LU(c, A, f, B, o.complete); Snapshot s(M), sl(f->L), su(f->U);
	for (int t = 0; t < 4; t++) { U64 seed = t ? c.bits64() : c.below(4); c.feed64(seed); CHECK(c, "reject", spasm_factorization_verify(M, f, seed), "a correct factorization is rejected with seed %llu", (unsigned long long)seed); }
	CHECK(c, "modified", s == Snapshot(M) && sl == Snapshot(f->L) && su == Snapshot(f->U), "an input was modified"); c.nontrivial(B.r >= 2); spasm_lu_free(f); spasm_csr_free(M);
}
PROPERTY(D06, alter, 2, "a factorization in which one coefficient of U, of a pivotal row of L, or of a pivotal row of the matrix is changed, added or removed such that the product of the factors differs on a pivotal row; checked with enough seeds that the number of acceptances must stay below mean + 9 standard deviations of a Binomial(k,1/p); non-trivial when rank >= 2") {
	U64 p = prime(c); sched_draw(c); echelonize_opts o = draw_opts(c, 1 + c.below(2)); SMat A = any(c, p, 16); if (A.n == 0 || A.m == 0) c.discard(); spasm_csr *M = to_csr(A); spasm_lu *f = spasm_echelonize(M, &o); Basis B = check_echelon(c, A, f); if (B.r == 0) { spasm_lu_free(f); spasm_csr_free(M); c.discard(); }
	SMat L = sfrom_csr(f->L), U = B.E.U; int what = c.below(3); SMat &T = what == 0 ? U : what == 1 ? L : A; int row = what == 0 ? c.below(B.r) : f->p[c.below(B.r)]; int col = c.below(T.m); bool rem = c.chance(1, 3); SRow &r = T.row[row]; size_t k = 0; while (k < r.size() && r[k].first != col) k++;
	if (k < r.size()) { if (rem) r.erase(r.begin() + k); else r[k].second = (r[k].second + 1 + c.bits64() % (p - 1)) % p; if (k < r.size() && r[k].first == col && !r[k].second) r.erase(r.begin() + k); } else r.push_back({col, (U32)(1 + c.bits64() % (p - 1))});
	if (c.chance(1, 4) && B.r > 1) { std::swap(f->p[0], f->p[B.r - 1]); }
	int bad = 0; for (int t = 0; t < B.r; t++) { int i = f->p[t]; std::vector<U64> w(A.m, 0); for (auto &e : L.row[i]) for (auto &u : U.row[e.first]) w[u.first] = (w[u.first] + (U64)e.second * u.second) % p; bad += w != drow(A, i); }
	c.note("altered %s(%d,%d), %d wrong rows ", what == 0 ? "U" : what == 1 ? "L" : "A", row, col, bad); c.feed64(((U64)what << 40) | ((U64)row << 20) | col);
	spasm_csr *M2 = to_csr(A), *L2 = to_csr(L), *U2 = to_csr(U); spasm_lu g = *f; g.L = L2; g.U = U2; int K = p < 1000 ? 200 : (int)(60 / lg2(p)) + 6, acc = 0; U64 base = c.bits64(); for (int t = 0; t < K; t++) acc += spasm_factorization_verify(M2, &g, base + t * 0x9E3779B97F4A7C15ull);
	if (!bad) CHECK(c, "reject", acc == K, "the alteration does not change any pivotal row, but %d of %d seeds reject", K - acc, K);
	else { double q = 1.0 / p, lim = K * q + 9 * __builtin_sqrt(K * q * (1 - q)) + (p < 1000 ? 0 : 4); CHECK(c, "accept", acc <= lim && acc < K, "%d of %d seeds accept a factorization with %d wrong pivotal rows modulo %llu", acc, K, bad, (unsigned long long)p); }
	c.nontrivial(B.r >= 2 && bad); c.label(bad ? "wrong" : "unchanged"); spasm_csr_free(M2); spasm_csr_free(L2); spasm_csr_free(U2); spasm_lu_free(f); spasm_csr_free(M);
}
// ---------------------------------------------------------------- D07 / D08
struct Cert { SMat A; spasm_csr *M; spasm_lu *f; Basis B; uint8_t hash[32]; spasm_rank_certificate *pf; };
static Cert make_cert(Ctx &c, U64 p, int mx) { Cert K; sched_draw(c); echelonize_opts o = draw_opts(c, 1 + c.below(2)); K.A = any(c, p, mx); Rng g = c.bulk(); for (auto &h : K.hash) h = g.below(256); if (c.chance(1, 6)) memset(K.hash, c.coin() ? 0 : 0xff, 32); c.feed(K.hash, 32); K.M = to_csr(K.A); K.f = spasm_echelonize(K.M, &o); K.B = check_echelon(c, K.A, K.f); check_LU(c, K.A, K.f, K.B, o.complete); K.pf = spasm_certificate_rank_create(K.M, K.hash, K.f); return K; }
// the rows of the certified matrix (and of L) rescaled so that chosen coefficients of the proof take prescribed values (0x7fffffff-like sentinels, +-1, +-2, extremes of the canonical range)
static void craft(Ctx &c, Cert &K) { U64 p = K.A.p; spasm_rank_certificate &q = *K.pf; if (!q.r) return; Rng g = c.bulk(); int h = p / 2, tgt = c.below(9), done = 0; std::vector<int> want = {-2, -1, 1, 2, h, -h, h - 1, 0x7ffffffe, 0}; 
	for (int k = 0; k < q.r; k++) { if (!g.chance(2, 3)) continue; I64 v = want[g.chance(1, 2) ? tgt : g.below(9)]; if (v == 0) v = bal(1 + g.below64(p - 1), p); U64 t = tomod(v, p), old = tomod(g.chance(2, 3) ? q.y[k] : q.x[k], p); if (!t || !old) continue; U64 f = mulm(old, invm(t, p), p); done++; int i = q.i[k]; for (auto &e : K.A.row[i]) e.second = mulm(e.second, f, p); for (i64 z = K.M->p[i]; z < K.M->p[i + 1]; z++) K.M->x[z] = bal(mulm(tomod(K.M->x[z], p), f, p), p); for (i64 z = K.f->L->p[i]; z < K.f->L->p[i + 1]; z++) K.f->L->x[z] = bal(mulm(tomod(K.f->L->x[z], p), f, p), p); }
	if (!done) return; release(q); vt::hk_free(K.pf); K.pf = spasm_certificate_rank_create(K.M, K.hash, K.f); c.note("%d rows rescaled ", done); c.label("prescribed-values"); }
static void drop(Cert &K) { release(*K.pf); vt::hk_free(K.pf); spasm_lu_free(K.f); spasm_csr_free(K.M); }
PROPERTY(D07, genuine, 1, "matrix, options, digest; certificate created, verified, saved, loaded, compared and verified again; non-trivial when 1 <= rank < number of rows") {
	U64 p = prime(c); Cert K = make_cert(c, p, 24); if (c.chance(1, 2)) craft(c, K); spasm_rank_certificate &q = *K.pf; Snapshot s(K.M); CHECK(c, "rank", q.r == K.B.r, "certificate of rank %d for a matrix of rank %d", q.r, K.B.r); CHECK(c, "fields", q.prime == (I64)p && !memcmp(q.hash, K.hash, 32), "modulus or digest not recorded");
	CHECK(c, "verify", spasm_certificate_rank_verify(K.M, K.hash, K.pf), "the certificate created for the matrix is rejected"); CHECK(c, "protocol", ref_verify(K.A, K.hash, q), "the certificate does not satisfy the protocol");
	std::set<int> si(q.i, q.i + q.r), sj(q.j, q.j + q.r); CHECK(c, "indices", (int)si.size() == q.r && (int)sj.size() == q.r, "repeated row or column index");
	std::string t = saved([&](FILE *o) { spasm_rank_certificate_save(K.pf, o); }); FILE *in = reader(t); spasm_rank_certificate l; memset(&l, 0x5b, sizeof l); bool ok = spasm_rank_certificate_load(in, &l); fclose(in); CHECK(c, "load", ok, "a saved certificate cannot be loaded back"); CHECK(c, "roundtrip", same(q, l), "the certificate loaded back differs from the one saved"); CHECK(c, "reverify", spasm_certificate_rank_verify(K.M, K.hash, &l), "the certificate loaded back is rejected");
	CHECK(c, "modified", s == Snapshot(K.M), "the matrix was modified"); release(l); c.nontrivial(K.B.r >= 1 && K.B.r < K.A.n); c.label("%s", plan(K.A, K.B.r)); drop(K);
}
PROPERTY(D08, forged, 1, "a genuine certificate altered by up to 3 operations (values, indices in and out of range, rank up or down with extra or fewer entries, digest, modulus, pairs swapped, two values compensated) or offered for a changed matrix; the verdict is compared with an independent implementation of the protocol; non-trivial when the reference rejects") {
	U64 p = prime(c); Cert K = make_cert(c, p, 14); if (c.chance(1, 3)) craft(c, K); spasm_rank_certificate q = clone(*K.pf); SMat A = K.A; uint8_t hash[32]; memcpy(hash, K.hash, 32); int ops = 1 + c.below(3); auto val = [&]() { return (spasm_ZZp)bal(c.bits64() % p, p); };
	for (int t = 0; t < ops; t++) { int op = c.below(12); int k = q.r ? c.below(q.r) : 0; c.note("op%d@%d ", op, k); c.feed64(op * 1000 + k);
		switch (op) {
		case 0: if (q.r) q.x[k] = val(); break; case 1: if (q.r) q.y[k] = val(); break;
		case 2: if (q.r) { int v = c.pick(std::vector<int>{-1, A.n, INT32_MIN, INT32_MAX, A.n + 1000, -1000}); q.i[k] = v; } break; case 3: if (q.r) q.j[k] = c.pick(std::vector<int>{-1, A.m, INT32_MIN, INT32_MAX, A.m + 1000, -1000}); break;
		case 4: if (q.r) { std::set<int> u(q.i, q.i + q.r); int v = A.n ? c.below(A.n) : 0; if (!u.count(v)) q.i[k] = v; } break; case 5: if (q.r && A.m) q.j[k] = c.below(A.m); break;
		case 6: { std::set<int> u(q.i, q.i + q.r); int v = -1; for (int i = 0; i < A.n; i++) if (!u.count(i)) v = i; if (v < 0 || !A.m) break; int r = q.r + 1; q.i = (int *)realloc(q.i, r * 4); q.j = (int *)realloc(q.j, r * 4); q.x = (int *)realloc(q.x, r * 4); q.y = (int *)realloc(q.y, r * 4); q.i[q.r] = v; q.j[q.r] = c.below(A.m); q.x[q.r] = c.coin() ? 0 : val(); q.y[q.r] = val(); q.r = r; break; }
		case 7: if (q.r) { int b = q.r - 1; std::swap(q.i[k], q.i[b]); std::swap(q.x[k], q.x[b]); std::swap(q.y[k], q.y[b]); std::swap(q.j[k], q.j[b]); q.r--; } break;
		case 8: { int b = c.below(32); if (c.coin()) q.hash[b] ^= 1 << c.below(8); else hash[b] ^= 1 << c.below(8); break; }
		case 9: { I64 v = c.pick(std::vector<I64>{(I64)next_prime(p + 2), (I64)p + (1ll << 32), -(I64)p, 0, 3, (I64)p - 1}); q.prime = v; break; }
		case 10: if (q.r > 1) { int b = c.below(q.r); if (c.coin()) std::swap(q.x[k], q.x[b]); else std::swap(q.j[k], q.j[b]); } break;
		case 11: if (A.n && A.m) { int i = c.below(A.n), j = c.below(A.m); SRow &r = A.row[i]; size_t z = 0; while (z < r.size() && r[z].first != j) z++; if (z < r.size()) { U32 v = (r[z].second + 1) % p; if (v) r[z].second = v; else r.erase(r.begin() + z); } else r.push_back({j, 1}); } break; } }
	bool want = ref_verify(A, hash, q); spasm_csr *M = to_csr(A); Snapshot s(M); bool got = spasm_certificate_rank_verify(M, hash, &q); CHECK(c, "verdict", got == want, "the verifier %s a certificate that %s the protocol", got ? "accepts" : "rejects", want ? "satisfies" : "does not satisfy"); CHECK(c, "modified", s == Snapshot(M), "the matrix was modified");
	c.nontrivial(!want); c.label(want ? "valid" : "invalid"); release(q); spasm_csr_free(M); drop(K);
}
PROPERTY(D08, rank_lie, 1, "for p > 2^20, a cheating prover that knows the digest, the matrix and the whole protocol but claims a rank different from the true one (larger: dependent rows added and the systems solved exactly when possible; smaller: rows dropped and values recomputed): must be rejected; non-trivial when the two systems the cheater can choose freely are individually consistent or the matrix has rank >= 2") {
	U64 p = prime(c); if (p < (1u << 20)) p = 2147483647; Cert K = make_cert(c, p, 10); SMat &A = K.A; int r = K.B.r; if (A.n == 0 || A.m == 0) { drop(K); c.discard(); }
	int claim = c.coin() ? r + 1 : r - 1; if (claim < 0 || claim > std::min(A.n, A.m)) claim = 2 * r - claim; if (claim < 0 || claim > std::min(A.n, A.m)) { drop(K); c.discard(); }
	Rng g = c.bulk(); std::vector<int> rows = rperm(g, A.n), cols = rperm(g, A.m); { std::vector<int> pr, rest; std::set<int> s(K.f->p, K.f->p + r); for (int i : rows) (s.count(i) ? pr : rest).push_back(i); pr.insert(pr.end(), rest.begin(), rest.end()); rows = pr; std::vector<int> pc, rc; for (int j : cols) (K.f->qinv[j] >= 0 ? pc : rc).push_back(j); pc.insert(pc.end(), rc.begin(), rc.end()); cols = pc; }
	rows.resize(claim); cols.resize(claim); std::sort(cols.begin(), cols.end()); spasm_rank_certificate q; q.r = claim; q.prime = p; memcpy(q.hash, K.hash, 32); std::vector<int> qi = rows, qj = cols, qx(claim, 0), qy(claim, 0);
	// best effort of the cheater: solve both linear systems over the claimed rows, least failing
	RefPrng G(K.hash, p, 0); std::vector<U64> chal(claim); for (auto &v : chal) v = G.zzp(); std::vector<U64> rhs(A.m, 0); { std::vector<char> in(A.n, 0); for (int i : rows) in[i] = 1; for (int i = 0; i < A.n; i++) if (!in[i]) { U64 f = p - G.zzp(); for (auto &e : A.row[i]) rhs[e.first] = (rhs[e.first] + f % p * e.second) % p; } }
	auto solve = [&](const std::vector<int> &cs, const std::vector<U64> &b, std::vector<int> &out) { DMat T(cs.size(), claim + 1, p); std::vector<int> at(A.m, -1); for (size_t k = 0; k < cs.size(); k++) at[cs[k]] = k; for (int k = 0; k < claim; k++) for (auto &e : A.row[rows[k]]) if (at[e.first] >= 0) T.at(at[e.first], k) = e.second; for (size_t k = 0; k < cs.size(); k++) T.at(k, claim) = b[k]; auto pv = rref(T); bool ok = true; for (size_t i = 0; i < pv.size(); i++) if (pv[i] == claim) ok = false; else out[pv[i]] = bal(T.at(i, claim), p); return ok; };
	std::vector<int> allc(A.m); std::iota(allc.begin(), allc.end(), 0); bool okx = solve(cols, chal, qx), oky = solve(allc, rhs, qy); q.i = qi.data(); q.j = qj.data(); q.x = qx.data(); q.y = qy.data(); c.note("true rank %d, claimed %d, systems %d %d ", r, claim, okx, oky); c.feed64(claim * 4 + okx * 2 + oky);
	CHECK(c, "soundness", !(okx && oky), "protocol satisfied for a wrong rank (the reference itself would accept)"); CHECK(c, "rank-lie", !spasm_certificate_rank_verify(K.M, K.hash, &q), "a certificate claiming rank %d is accepted for a matrix of rank %d", claim, r); c.nontrivial(okx || oky || r >= 2); c.label(claim > r ? "claim:too-big" : "claim:too-small"); drop(K);
}
PROPERTY(D08, targeted, 1, "a certificate of the right rank whose values are recomputed exactly so that the products miss their targets in one prescribed way only (one bit, the sign, a power of two, a neighbouring target, two opposite errors, all targets shifted by one); non-trivial when the reference rejects") {
	U64 p = prime(c); if (c.coin() && p < (1u << 25)) p = c.coin() ? 4294967291ull : 2147483647ull; Cert K = make_cert(c, p, 12); SMat &A = K.A; spasm_rank_certificate q = clone(*K.pf); int r = q.r; if (!r) { release(q); drop(K); c.discard(); }
	std::vector<int> rows(q.i, q.i + r), cols(q.j, q.j + r); RefPrng G(K.hash, p, 0); std::vector<U64> t(r); for (auto &v : t) v = G.zzp(); bool second = c.coin();
	if (second) { std::vector<char> in(A.n, 0); for (int i : rows) in[i] = 1; std::vector<U64> w(A.m, 0); for (int i = 0; i < A.n; i++) if (!in[i]) { U64 f = G.zzp(); for (auto &e : A.row[i]) w[e.first] = subm(w[e.first], mulm(f, e.second, p), p); } for (int k = 0; k < r; k++) t[k] = w[cols[k]]; }
	std::vector<U64> want = t; int k = c.below(r), kind = c.below(7), b = c.below(32); I64 h = p / 2;
	auto flip = [&](U64 v) { I64 x = bal(v, p), y = second ? (x ? x : 0) : (I64)(int)((U32)x ^ (1u << b)); if (second) { I64 d = (I64)1 << b; if (d > h) d = h; y = x + d; } return tomod(y, p); };
	switch (kind) {
	case 0: case 1: want[k] = flip(t[k]); break;                                                                          // one bit
	case 2: want[k] = second ? addm(t[k], tomod(h, p), p) : (p - t[k]) % p; break;                                        // sign, or the extreme residue
	case 3: want[k] = subm(t[k], tomod((I64)1 << b, p), p); break;
	case 4: { int l = c.below(r); U64 d = 1 + c.bits64() % (p - 1); want[k] = addm(want[k], d, p); want[l] = subm(want[l], d, p); break; }          // opposite errors
	case 5: { if (r > 1) std::rotate(want.begin(), want.begin() + 1, want.end()); else want[0] = 0; break; }            // targets of the neighbours
	case 6: { U64 f = 1 + c.bits64() % (p - 1); if (c.coin()) f = p - 1; for (auto &v : want) v = mulm(v, f, p); break; } }   // proportional targets
	DMat T(r, r + 1, p); std::vector<int> at(A.m, -1); for (int l = 0; l < r; l++) at[cols[l]] = l; for (int l = 0; l < r; l++) for (auto &e : A.row[rows[l]]) if (at[e.first] >= 0) T.at(at[e.first], l) = e.second; for (int l = 0; l < r; l++) T.at(l, r) = want[l]; auto pv = rref(T);
	if ((int)pv.size() != r || pv[r - 1] >= r) { release(q); drop(K); c.discard(); }
	for (int l = 0; l < r; l++) (second ? q.y : q.x)[l] = bal(T.at(l, r), p);
	bool ok = ref_verify(A, K.hash, q), got = spasm_certificate_rank_verify(K.M, K.hash, &q); c.note("system %d kind %d at %d bit %d ", 1 + second, kind, k, b); c.feed64(kind * 4096 + b * 64 + k);
	CHECK(c, "verdict", got == ok, "the verifier %s a certificate that %s the protocol (targets of system %d missed)", got ? "accepts" : "rejects", ok ? "satisfies" : "does not satisfy", 1 + second); c.nontrivial(!ok); c.label("system:%d", 1 + second); release(q); drop(K);
}
