// Executable specifications of echelonization, factorization, reduced form, kernel, solving and certificates.
#pragma once
#include "ech.hpp"
#include "../io.hpp"
#include <memory>
namespace gen {
enum { NO_L = 0, PARTIAL = 1, COMPLETE = 2 };
// options with at least one finishing method that applies whatever the (random) density estimate is
inline echelonize_opts draw_opts(Ctx &c, int L = -1) {
	echelonize_opts o; spasm_echelonize_init_opts(&o); if (L < 0) L = c.weighted({3, 1, 1}); if (L == PARTIAL) o.L = 1; if (L == COMPLETE) { o.complete = 1; o.L = c.coin(); }
	if (!c.chance(1, 6)) {
		o.enable_greedy_pivot_search = !c.chance(1, 4);
		o.max_round = c.pick(std::vector<int>{3, 0, 1, 2, 5, 100, -1}); o.min_pivot_proportion = c.pick(std::vector<double>{0.1, -1, 0, 0.5, 1.0, 2.0}); o.sparsity_threshold = c.pick(std::vector<double>{0.05, -1, 0, 0.01, 0.3, 1.1});
		o.dense_block_size = c.pick(std::vector<int>{1000, 1, 2, 3, 5, 10, 50}); o.low_rank_ratio = c.pick(std::vector<double>{0.5, -1, 0, 0.9, 1.0, 2.0}); o.tall_and_skinny_ratio = c.pick(std::vector<double>{5, -1, 0, 0.5, 1, 2}); o.low_rank_start_weight = c.pick(std::vector<double>{-1, 0, 1, 2, 5});
		switch (c.below(6)) { case 1: o.enable_dense = 0; break; case 2: o.enable_tall_and_skinny = 0; break; case 3: o.enable_dense = 0; o.enable_tall_and_skinny = 0; break;
			case 4: o.enable_GPLU = 0; o.enable_dense = 1; o.sparsity_threshold = -1; o.enable_tall_and_skinny = c.coin(); break;
			case 5: if (L == NO_L) { o.enable_GPLU = 0; o.enable_dense = 0; o.enable_tall_and_skinny = 1; o.tall_and_skinny_ratio = -1; } break; default: break; }
		if (c.chance(1, 6)) { // several sparse rounds, then small dense blocks, and the low-rank method as soon as the yield drops
			o.max_round = c.pick(std::vector<int>{3, 1, 2, 5}); o.min_pivot_proportion = c.pick(std::vector<double>{0, 0.1, -1}); o.sparsity_threshold = c.pick(std::vector<double>{0.3, 0.1, 0.2, 0.5}); o.enable_dense = 1; o.enable_GPLU = 1; o.enable_tall_and_skinny = 1; o.tall_and_skinny_ratio = c.pick(std::vector<double>{100, 5}); o.dense_block_size = c.range(1, 8); o.low_rank_ratio = c.pick(std::vector<double>{1.0, 0.9, 2.0, 0.5}); c.label("opts:dense-late"); }
		if (c.strip && c.chance(2, 3)) { o.max_round = c.below(3); o.enable_greedy_pivot_search = c.coin(); o.enable_dense = 1; o.sparsity_threshold = c.pick(std::vector<double>{-1, 0, 0.01}); o.tall_and_skinny_ratio = c.pick(std::vector<double>{1e9, 100, -1}); o.low_rank_ratio = c.pick(std::vector<double>{1.0, 0.9, 2.0}); if (o.sparsity_threshold >= 0) o.enable_GPLU = 1; }
	} else c.label("opts:default");
	if (c.strip) o.dense_block_size = c.pick(std::vector<int>{200, 150, 300});
	c.note("opts{greedy=%d tall=%d dense=%d gplu=%d L=%d complete=%d minpiv=%g rounds=%d sparsity=%g block=%d lowrank=%g tallratio=%g w=%g} ", o.enable_greedy_pivot_search, o.enable_tall_and_skinny, o.enable_dense, o.enable_GPLU, o.L, o.complete, o.min_pivot_proportion, o.max_round, o.sparsity_threshold, o.dense_block_size, o.low_rank_ratio, o.tall_and_skinny_ratio, o.low_rank_start_weight);
	c.feed(&o.min_pivot_proportion, sizeof(double)); c.feed64(o.enable_greedy_pivot_search | o.enable_tall_and_skinny << 1 | o.enable_dense << 2 | o.enable_GPLU << 3 | o.L << 4 | o.complete << 5); c.feed64(o.max_round); c.feed64(o.dense_block_size); c.feed(&o.sparsity_threshold, 8); c.feed(&o.low_rank_ratio, 32);
	return o;
}
// a verified basis of the row space of A, in reference form
struct Basis { Ech E; int r; bool contains(std::vector<U64> y) const { reduce1(y); for (U64 v : y) if (v) return false; return true; }
	void reduce1(std::vector<U64> &y) const { U64 p = E.U.p; for (int i = 0; i < E.U.n; i++) { U64 f = y[E.pc[i]]; if (f) for (auto &e : E.U.row[i]) y[e.first] = subm(y[e.first], mulm(f, e.second, p), p); } } };
// D01: U is an echelonized basis of the row space of A. rk = rank of A (or -1: computed here)
inline Basis check_echelon(Ctx &c, const SMat &A, const spasm_lu *f, int rk = -1) {
	CHECK(c, "null", f && f->U && f->qinv, "no factorization returned"); const spasm_csr *U = f->U; int m = A.m; U64 p = A.p;
	check_csr(c, "storage", "U", U, U->n, m, p, true, false); if (rk < 0) rk = any_rank(A);
	CHECK(c, "rank", U->n == rk, "U has %d rows, the rank of the matrix is %d", U->n, rk); CHECK(c, "rank", f->r == rk, "reported rank %d, the rank of the matrix is %d", f->r, rk);
	Basis B; B.r = rk; B.E.U = sfrom_csr(U); B.E.pc.assign(rk, -1); B.E.qinv.assign(m, -1);
	for (int i = 0; i < rk; i++) { CHECK(c, "pivot", !B.E.U.row[i].empty(), "row %d of U is empty", i); auto e = B.E.U.row[i][0]; CHECK(c, "pivot", e.second == 1, "row %d of U starts with coefficient %u on column %d", i, e.second, e.first); CHECK(c, "pivot", B.E.qinv[e.first] < 0, "two pivots on column %d", e.first); B.E.pc[i] = e.first; B.E.qinv[e.first] = i; }
	for (int j = 0; j < m; j++) CHECK(c, "qinv", f->qinv[j] == B.E.qinv[j], "qinv[%d] = %d, but the pivot of column %d is on row %d", j, f->qinv[j], j, B.E.qinv[j]);
	for (int i = 0; i < rk; i++) for (auto &e : B.E.U.row[i]) CHECK(c, "echelon", B.E.qinv[e.first] < 0 || B.E.qinv[e.first] >= i || e.second == 0, "row %d of U has an entry on column %d, the pivot of the earlier row %d", i, e.first, B.E.qinv[e.first]);
	for (int i = 0; i < A.n; i++) CHECK(c, "rowspace", B.contains(drow(A, i)), "row %d of the matrix is not in the span of U", i);
	return B;
}
// D02
inline void check_LU(Ctx &c, const SMat &A, const spasm_lu *f, const Basis &B, bool complete) {
	CHECK(c, "L", f->L != NULL && f->p != NULL, "no left factor returned"); int n = A.n, r = B.r; U64 p = A.p; check_csr(c, "L-storage", "L", f->L, n, r, p); SMat L = sfrom_csr(f->L); CHECK(c, "complete", f->complete == complete, "completeness flag is %d", f->complete);
	std::vector<int> prow(n, -1); for (int j = 0; j < r; j++) { CHECK(c, "pivot-rows", f->p[j] >= 0 && f->p[j] < n && prow[f->p[j]] < 0, "p[%d] = %d is out of range or repeated", j, f->p[j]); prow[f->p[j]] = j; }
	for (int j = 0; j < r; j++) { bool diag = false; for (auto &e : L.row[f->p[j]]) { CHECK(c, "triangular", e.first <= j, "row p[%d] = %d of L has an entry on column %d", j, f->p[j], e.first); diag |= e.first == j; } CHECK(c, "diagonal", diag, "row p[%d] = %d of L has no entry on column %d", j, f->p[j], j); }
	std::vector<U64> w(A.m);
	for (int i = 0; i < n; i++) { if (!complete && prow[i] < 0) continue; std::fill(w.begin(), w.end(), 0); for (auto &e : L.row[i]) for (auto &u : B.E.U.row[e.first]) w[u.first] = (w[u.first] + (U64)e.second * u.second) % p; CHECK(c, "product", w == drow(A, i), "row %d of L*U differs from the matrix", i); }
}
// D03. Returns R as reference rows
inline SMat check_rref(Ctx &c, const Basis &B, const spasm_csr *R, const int *Rqinv) {
	int m = B.E.U.m, r = B.r; U64 p = B.E.U.p; check_csr(c, "R-storage", "R", R, r, m, p); SMat S = sfrom_csr(R); std::vector<int> own(m, -1);
	for (int i = 0; i < r; i++) { CHECK(c, "R-pivot", !S.row[i].empty() && S.row[i][0].second == 1, "row %d of R does not start with a pivot equal to 1", i); int j = S.row[i][0].first; CHECK(c, "R-pivot", own[j] < 0, "two rows of R start on column %d", j); own[j] = i; }
	for (int j = 0; j < m; j++) CHECK(c, "Rqinv", Rqinv[j] == own[j], "Rqinv[%d] = %d, expected %d", j, Rqinv[j], own[j]);
	for (int i = 0; i < r; i++) { for (size_t k = 1; k < S.row[i].size(); k++) CHECK(c, "reduced", own[S.row[i][k].first] < 0, "row %d of R has an entry on the pivotal column %d", i, S.row[i][k].first); CHECK(c, "R-rowspace", B.contains(drow(S, i)), "row %d of R is not in the row space", i); }
	return S;
}
// D04. A basis of the right kernel; own[] unused columns
inline void check_kernel(Ctx &c, const SMat &A, int rk, const spasm_csr *K, const char *what) {
	int m = A.m, k = m - rk; U64 p = A.p; check_csr(c, "K-storage", what, K, k, m, p); SMat S = sfrom_csr(K);
	std::vector<SRow> col(m); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) col[e.first].push_back({i, e.second}); std::vector<U64> s(A.n, 0); std::vector<int> cnt(m, 0);
	for (int t = 0; t < k; t++) { for (auto &e : S.row[t]) { cnt[e.first]++; for (auto &a : col[e.first]) s[a.first] = (s[a.first] + (U64)e.second * a.second) % p; } for (auto &e : S.row[t]) for (auto &a : col[e.first]) { CHECK(c, "orthogonal", s[a.first] == 0, "%s: row %d times row %d of the matrix is %llu", what, t, a.first, (unsigned long long)s[a.first]); } }
	bool priv = true; for (int t = 0; t < k && priv; t++) { bool own = false; for (auto &e : S.row[t]) own |= e.second && cnt[e.first] == 1; priv = own; }      // every vector owns a column: independent
	int kr = priv ? k : any_rank(S); CHECK(c, "independent", kr == k, "%s: %d vectors of rank %d", what, k, kr);
}
// D05 for one solution row
inline void check_solution(Ctx &c, const SMat &A, const spasm_lu *f, int r, const std::vector<U64> &b, const std::vector<U64> &x, int row) {
	std::vector<U64> w(A.m, 0); std::vector<char> pr(A.n, 0); for (int j = 0; j < r; j++) pr[f->p[j]] = 1;
	for (int i = 0; i < A.n; i++) { if (!x[i]) continue; CHECK(c, "support", pr[i], "right-hand side %d: x[%d] is not zero, but row %d is not pivotal", row, i, i); for (auto &e : A.row[i]) w[e.first] = (w[e.first] + x[i] * e.second) % A.p; }
	CHECK(c, "solution", w == b, "right-hand side %d: x*A differs from b", row);
}
inline SMat draw_rhs(Ctx &c, const SMat &A, int nmax) { // rows in the row space, rows out of it, zero rows
	U64 p = A.p; int k = c.below(nmax + 1); Rng g = c.bulk(); SMat B(k, A.m, p);
	for (auto &r : B.row) switch (g.below(6)) { case 0: case 1: case 2: r = combo(g, A.row, 1 + g.below(4), p, 0); break; case 3: r = combo(g, A.row, 1 + g.below(4), p, 0); if (A.m) { int j = g.below(A.m); bool d = false; for (auto &e : r) if (e.first == j) d = true; if (!d) r.push_back({j, (U32)rvalue(g, p, 0)}); } break; case 4: r = srow(g, A.m, 0.3, p, 0); break; default: break; }
	feed(c, B); c.note("B=%s ", show(B, 250).c_str()); return B; }
inline spasm_rank_certificate clone(const spasm_rank_certificate &s) { spasm_rank_certificate d = s; size_t z = s.r > 0 ? s.r : 0; d.i = (int *)malloc(z * 4); d.j = (int *)malloc(z * 4); d.x = (spasm_ZZp *)malloc(z * 4); d.y = (spasm_ZZp *)malloc(z * 4); memcpy(d.i, s.i, z * 4); memcpy(d.j, s.j, z * 4); memcpy(d.x, s.x, z * 4); memcpy(d.y, s.y, z * 4); return d; }
inline void release(spasm_rank_certificate &d) { vt::hk_free(d.i); vt::hk_free(d.j); vt::hk_free(d.x); vt::hk_free(d.y); }
inline bool same(const spasm_rank_certificate &a, const spasm_rank_certificate &b) { size_t z = a.r; return a.r == b.r && a.prime == b.prime && !memcmp(a.hash, b.hash, 32) && !memcmp(a.i, b.i, z * 4) && !memcmp(a.j, b.j, z * 4) && !memcmp(a.x, b.x, z * 4) && !memcmp(a.y, b.y, z * 4); }
// the published protocol
inline bool ref_verify(const SMat &A, const uint8_t *hash, const spasm_rank_certificate &c) {
	if (memcmp(hash, c.hash, 32) || (U64)c.prime != A.p) return false; U64 p = A.p; for (int k = 0; k < c.r; k++) if (c.i[k] < 0 || c.i[k] >= A.n || c.j[k] < 0 || c.j[k] >= A.m) return false;
	RefPrng g(hash, p, 0); std::vector<U64> x(A.n, 0), w(A.m, 0); bool ok = true; for (int k = 0; k < c.r; k++) x[c.i[k]] = tomod(c.x[k], p); for (int i = 0; i < A.n; i++) if (x[i]) for (auto &e : A.row[i]) w[e.first] = (w[e.first] + x[i] * e.second) % p;
	for (int k = 0; k < c.r; k++) ok &= g.zzp() == w[c.j[k]];
	std::vector<char> in(A.n, 0); for (int k = 0; k < c.r; k++) { in[c.i[k]] = 1; x[c.i[k]] = tomod(c.y[k], p); } for (int i = 0; i < A.n; i++) if (!in[i]) x[i] = g.zzp();
	std::fill(w.begin(), w.end(), 0); for (int i = 0; i < A.n; i++) if (x[i]) for (auto &e : A.row[i]) w[e.first] = (w[e.first] + x[i] * e.second) % p; for (U64 v : w) ok &= v == 0; return ok;
}
inline const char *plan(const SMat &A, int rk) { return rk == 0 ? "rank:0" : rk == std::min(A.n, A.m) ? "rank:full" : "rank:deficient"; }
}
