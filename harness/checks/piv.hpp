// Specification of the structural pivot search (C04, F01).
#pragma once
#include "ech.hpp"
namespace gen { using namespace vt;
inline void pivots(Ctx &c, const Shape &sh, int threads = 0, bool chunks = false, const std::function<SMat(Ctx &, U64)> &make = nullptr) {
	U64 p = prime(c); sched_draw(c, threads, chunks); SMat A = make ? make(c, p) : matrix(c, p, sh); int n = A.n, m = A.m;
	echelonize_opts opts; spasm_echelonize_init_opts(&opts); opts.enable_greedy_pivot_search = !c.chance(1, 4);
	// optional rows found earlier: their pivots live on extra columns, where A has no entry
	int u0 = c.chance(1, 3) ? c.below(5) : 0, M = m + u0; Rng g = c.bulk(); spasm_csr *U = spasm_csr_alloc(n + u0, M, c.coin() ? 0 : 1 + g.below(50), p, true); U->n = 0;
	std::vector<int> qinv(M, -1); std::vector<SRow> old; i64 unz = 0;
	if (u0) { spasm_csr_realloc(U, (i64)u0 * (M + 1)); for (int k = 0; k < u0; k++) { SRow r; r.push_back({m + k, 1}); for (int j = 0; j < m; j++) if (g.chance(1, 4)) r.push_back({j, (U32)rvalue(g, p, 0)}); old.push_back(r); qinv[m + k] = k; for (auto &e : r) { U->j[unz] = e.first; U->x[unz] = bal(e.second, p); unz++; } U->p[k + 1] = unz; U->n++; } }
	SMat A2 = A; A2.m = M; spasm_csr *MA = to_csr(A2); Snapshot s(MA);
	int extra = c.below(3); bool ident = extra == 0; std::vector<int> pin(n); { std::vector<int> q = rperm(g, n + 7); for (int i = 0; i < n; i++) pin[i] = ident ? i : q[i]; }
	bool wantL = c.coin(); spasm_triplet *L = wantL ? spasm_triplet_alloc(n + 8, n + u0, c.below(4), p, true) : NULL;
	spasm_lu fact; memset(&fact, 0, sizeof fact); fact.U = U; Heap<int> q(qinv), Lp(n + u0, -7), P(n, -9), PI(pin); fact.qinv = q; fact.p = wantL ? (int *)Lp : NULL; fact.Ltmp = L;
	c.note("greedy=%d L=%d u0=%d ", opts.enable_greedy_pivot_search, wantL, u0); c.feed64(opts.enable_greedy_pivot_search + 2 * wantL + 4 * u0);
	i64 l0 = L ? L->nz : 0; int np = spasm_pivots_extract_structural(MA, ident ? NULL : (int *)PI, &fact, P, &opts);
	L = fact.Ltmp; U = fact.U;
	CHECK(c, "count", np >= 0 && np <= std::min(n, m) && U->n == u0 + np, "%d pivots reported, U has %d rows (%d before)", np, U->n, u0);
	CHECK(c, "none", np > 0 || A.nnz() == 0, "no pivot found in a non-zero matrix");
	std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) { CHECK(c, "perm", P[i] >= 0 && P[i] < n && !seen[P[i]], "p is not a permutation (p[%d] = %d)", i, P[i]); seen[P[i]] = 1; }
	CHECK(c, "storage", U->p[U->n] <= U->nzmax, "U overflows its capacity"); std::vector<int> pcol(np); 
	for (int k = 0; k < u0; k++) { SRow r; for (i64 px = U->p[k]; px < U->p[k + 1]; px++) r.push_back({U->j[px], (U32)tomod(U->x[px], p)}); CHECK(c, "old-rows", r == old[k], "row %d of U, present before the call, has changed", k); }
	std::vector<int> owner(M, -1);
	for (int k = 0; k < np; k++) {
		i64 a = U->p[u0 + k], b = U->p[u0 + k + 1]; CHECK(c, "row", b > a, "pivotal row %d is empty", k); int j = U->j[a]; CHECK(c, "pivot-first", j >= 0 && j < m && U->x[a] == 1, "row %d of U starts with (%d, %d)", k, j, U->x[a]);
		CHECK(c, "distinct", owner[j] < 0, "two pivots on column %d", j); owner[j] = k; pcol[k] = j; CHECK(c, "qinv", q[j] == u0 + k, "qinv[%d] = %d, pivot is on row %d", j, q[j], u0 + k);
		std::vector<U64> w = drow(A2, P[k]); U64 piv = w[j]; CHECK(c, "pivot", piv != 0, "row %d has no entry on its pivot column %d", P[k], j);
		CHECK(c, "multiple", (size_t)(b - a) == A.row[P[k]].size(), "row %d of U has %lld entries, row %d of A has %zu", k, (long long)(b - a), P[k], A.row[P[k]].size());
		std::set<int> dup; for (i64 px = a; px < b; px++) { int jj = U->j[px]; CHECK(c, "multiple", jj >= 0 && jj < m && dup.insert(jj).second, "bad column %d in row %d of U", jj, k); CHECK(c, "canonical", canonical(U->x[px], p), "U has a non-canonical coefficient"); CHECK(c, "multiple", mulm(tomod(U->x[px], p), piv, p) == w[jj], "row %d of U is not row %d of A divided by its pivot (column %d)", k, P[k], jj); }
		for (int jj : dup) CHECK(c, "triangular", owner[jj] < 0 || owner[jj] == k, "row %d of U has an entry on column %d, the pivot of the earlier row %d", k, jj, owner[jj]);
	}
	for (int j = 0; j < M; j++) if (owner[j] < 0) CHECK(c, "qinv", q[j] == qinv[j], "qinv[%d] = %d changed although no pivot was found there", j, q[j]);
	if (wantL) { CHECK(c, "L", L->nz == l0 + np && L->nz <= L->nzmax, "%lld elimination coefficients for %d pivots", (long long)(L->nz - l0), np); std::map<std::pair<int, int>, U64> got; triplet_of(L, got, p, l0, c, "L");
		for (int k = 0; k < np; k++) { int orig = pin[P[k]]; CHECK(c, "Lp", Lp[u0 + k] == orig, "p[%d] = %d, expected original row %d", u0 + k, Lp[u0 + k], orig); auto it = got.find({orig, u0 + k}); CHECK(c, "L", it != got.end() && it->second == drow(A2, P[k])[pcol[k]], "coefficient of row %d on pivot %d missing or wrong", orig, u0 + k); } }
	CHECK(c, "modified", s == Snapshot(MA), "the matrix was modified"); int greedy = np; (void)greedy; c.nontrivial(np >= 2 && np < n); c.label(np == n || np == m ? "pivots:all" : "pivots:some");
	spasm_csr_free(MA); spasm_csr_free(U); if (L) spasm_triplet_free(L);
}
}
