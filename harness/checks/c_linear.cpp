#include "piv.hpp"
using namespace vt; using namespace gen;

// ---------------------------------------------------------------- C01
PROPERTY(C01, scatter, 1, "a generated matrix (optionally with repeated positions), a row, a factor and a dense vector; result compared with 128-bit arithmetic; non-trivial when the row has an entry and the factor is not 0 or 1") {
	U64 p = prime(c); SMat A = matrix(c, p, Shape{1, 12, 1, 40}); if (A.n == 0 || A.m == 0) { c.discard(); }
	if (c.chance(1, 4)) { Rng g = c.bulk(); for (auto &r : A.row) if (!r.empty() && g.chance(1, 2)) r.push_back({r[g.below(r.size())].first, (U32)rvalue(g, p, 0)}); }
	spasm_csr *M = to_csr(A); Snapshot s(M); int i = c.below(A.n); I64 beta = bal(c.weighted({3, 1, 1}) == 0 ? value(c, p) : c.bits64() % p, p); auto xv = bvec(c, A.m, p); c.feed64(i); c.feed64(beta); for (auto x : xv) c.feed64(x); c.note("row %d beta %lld ", i, (long long)beta);
	Heap<spasm_ZZp> x(xv); spasm_scatter(M, i, beta, x);
	std::vector<U64> w(A.m); for (int j = 0; j < A.m; j++) w[j] = tomod(xv[j], p); for (auto &e : A.row[i]) w[e.first] = addm(w[e.first], mulm(tomod(beta, p), e.second, p), p);
	for (int j = 0; j < A.m; j++) CHECK(c, "scatter", x[j] == bal(w[j], p), "spasm_scatter(row %d, beta=%lld): x[%d] = %d, expected %lld", i, (long long)beta, j, x[j], (long long)bal(w[j], p));
	CHECK(c, "modified", s == Snapshot(M), "spasm_scatter modified the matrix"); c.nontrivial(A.row[i].size() && beta != 0 && beta != 1);
	spasm_csr_free(M);
}
static void spmv(Ctx &c, bool left) {
	U64 p = prime(c); SMat A = matrix(c, p, Shape{0, 40, 0, 40});
	if (c.chance(1, 4)) { Rng g = c.bulk(); for (auto &r : A.row) if (!r.empty() && g.chance(1, 2)) r.push_back({r[g.below(r.size())].first, (U32)rvalue(g, p, 0)}); }
	spasm_csr *M = to_csr(A); Snapshot s(M); auto xv = bvec(c, left ? A.n : A.m, p), yv = bvec(c, left ? A.m : A.n, p); for (auto x : xv) c.feed64(x); for (auto x : yv) c.feed64(x);
	Heap<spasm_ZZp> x(xv), y(yv); if (left) spasm_xApy(x, M, y); else spasm_Axpy(M, x, y);
	std::vector<U64> w(yv.size()); for (size_t j = 0; j < w.size(); j++) w[j] = tomod(yv[j], p);
	for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) { int in = left ? i : e.first, out = left ? e.first : i; w[out] = addm(w[out], mulm(tomod(xv[in], p), e.second, p), p); }
	for (size_t j = 0; j < w.size(); j++) CHECK(c, left ? "xApy" : "Axpy", y[j] == bal(w[j], p), "%s: y[%d] = %d, expected %lld", left ? "y += x*A" : "y += A*x", (int)j, y[j], (long long)bal(w[j], p));
	for (size_t j = 0; j < xv.size(); j++) CHECK(c, "modified", x[j] == xv[j], "input vector modified at %d", (int)j);
	CHECK(c, "modified", s == Snapshot(M), "matrix modified"); c.nontrivial(A.nnz() > 1 && A.n != A.m);
	spasm_csr_free(M);
}
PROPERTY(C01, xApy, 1, "a generated rectangular matrix and two dense vectors, y + x*A against 128-bit arithmetic; non-trivial when the matrix is not square and has entries") { spmv(c, true); }
PROPERTY(C01, Axpy, 1, "a generated rectangular matrix and two dense vectors, y + A*x against 128-bit arithmetic; non-trivial when the matrix is not square and has entries") { spmv(c, false); }

// ---------------------------------------------------------------- C02
PROPERTY(C02, back, 1, "a permuted lower-trapezoidal matrix with non-zero diagonal and extra non-pivotal rows, a dense right-hand side; x*L recomputed; non-trivial when L has at least 2 columns and an off-diagonal entry") {
	U64 p = prime(c); int r = c.below(c.big(13)), n = r + c.below(c.big(6)), dm = c.below(4), vm = c.below(5); if (c.strip) { n = 65530 + c.below(40000); r = c.coin() ? n - c.below(5) : c.below(6); if (r > 10) dm = 3; } bool ident = c.coin(); Rng g = c.bulk(); static const double ds[4] = {0.4, 0.15, 1.0, 0.0};
	std::vector<int> rp = rperm(g, n); if (ident) std::iota(rp.begin(), rp.end(), 0);
	SMat L(n, r, p); int off = 0; for (int k = 0; k < n; k++) { SRow &x = L.row[rp[k]]; if (c.strip && r > 10) { std::set<int> js; for (int t = g.below(4); t > 0 && k; t--) js.insert(g.below(std::min(k, r))); for (int j : js) { x.push_back({j, (U32)rvalue(g, p, vm)}); off++; } } else for (int j = 0; j < std::min(k, r); j++) if (g.unit() < ds[dm]) { x.push_back({j, (U32)rvalue(g, p, vm)}); off++; } if (k < r) x.push_back({k, (U32)rvalue(g, p, g.chance(1, 2) ? 0 : vm)}); shuffle_row(g, x); }
	auto bv = bvec(c, r, p); if (c.chance(1, 3)) for (auto &x : bv) x = 0;
	feed(c, L); for (auto x : bv) c.feed64(x); c.note("L=%s ident=%d ", show(L).c_str(), ident);
	spasm_csr *M = to_csr(L); Snapshot s(M); Heap<spasm_ZZp> b(bv), x(n, (spasm_ZZp)12345); Heap<int> P(std::vector<int>(rp.begin(), rp.begin() + r));
	spasm_dense_back_solve(M, b, x, ident && c.coin() ? NULL : (int *)P);
	std::vector<U64> w(r, 0); std::vector<char> piv(n, 0); for (int k = 0; k < r; k++) piv[rp[k]] = 1;
	for (int i = 0; i < n; i++) { CHECK(c, "canonical", canonical(x[i], p), "x[%d] = %d is not canonical", i, x[i]); CHECK(c, "support", piv[i] || x[i] == 0, "x[%d] = %d on a non-pivotal row", i, x[i]); for (auto &e : L.row[i]) w[e.first] = addm(w[e.first], mulm(tomod(x[i], p), e.second, p), p); }
	for (int j = 0; j < r; j++) CHECK(c, "solution", bal(w[j], p) == bv[j], "(x*L)[%d] = %lld but b[%d] = %d", j, (long long)bal(w[j], p), j, bv[j]);
	CHECK(c, "modified", s == Snapshot(M), "L modified"); c.nontrivial(r >= 2 && off); spasm_csr_free(M);
}
PROPERTY(C02, forward, 1, "a permuted unit upper-trapezoidal matrix and a right-hand side inside or outside its row space; success compared with exact elimination and x*U recomputed; non-trivial when U has at least 2 rows and b is not zero") {
	U64 p = prime(c); int m = c.strip ? 32760 + c.below(40000) : c.below(c.big(16)); bool ident = c.chance(1, 3); Ech E; EchOpt o; o.inorder = true; E = echelon(c, p, m, c.strip ? m : c.big(12), o); int n = E.U.n;
	if (ident) { std::vector<int> to(m, -1); int k = 0; for (int i = 0; i < n; i++) to[E.pc[i]] = k++; for (int j = 0; j < m; j++) if (to[j] < 0) to[j] = k++; for (auto &r : E.U.row) for (auto &e : r) e.first = to[e.first]; E.qinv.assign(m, -1); for (int i = 0; i < n; i++) { E.pc[i] = i; E.qinv[i] = i; } }
	Rng g = c.bulk(); std::vector<U64> b(m, 0); int kind = c.below(4); int terms = 0;
	if (kind != 3) for (int i = 0; i < n; i++) if (g.chance(2, 3)) { terms++; U64 f = rvalue(g, p, 0); for (auto &e : E.U.row[i]) b[e.first] = (b[e.first] + f * e.second) % p; }
	if (kind == 1 && m) { int j = g.below(m); b[j] = (b[j] + rvalue(g, p, 0)) % p; } if (kind == 3) for (auto &x : b) if (g.chance(1, 3)) x = rvalue(g, p, 0);
	std::vector<U64> y = b; std::vector<U64> coef = reduce(E, y); bool in = true; for (U64 v : y) in &= v == 0;
	std::vector<spasm_ZZp> bv(m); for (int j = 0; j < m; j++) { bv[j] = bal(b[j], p); c.feed64(b[j]); } c.note("rhs kind %d ident %d solvable %d ", kind, ident, in); c.label(in ? "solvable" : "unsolvable");
	spasm_csr *M = to_csr(E.U); Snapshot s(M); Heap<spasm_ZZp> bb(bv), x(n, (spasm_ZZp)777); Heap<int> q(E.pc);
	bool ok = spasm_dense_forward_solve(M, bb, x, ident && c.coin() ? NULL : (int *)q);
	CHECK(c, "verdict", ok == in, "spasm_dense_forward_solve returned %d on a right-hand side that is %s the row space", ok, in ? "in" : "not in");
	if (in) for (int i = 0; i < n; i++) CHECK(c, "solution", x[i] == bal(coef[i], p), "x[%d] = %d, expected %lld", i, x[i], (long long)bal(coef[i], p));
	CHECK(c, "modified", s == Snapshot(M), "U modified"); bool nz = false; for (U64 v : b) nz |= v != 0; c.nontrivial(n >= 2 && nz); spasm_csr_free(M);
}

// ---------------------------------------------------------------- C03
PROPERTY(C03, solve, 3, "rows with unit pivots, triangular up to row and column permutations (pivots anywhere in the row, optional non-pivotal rows), several right-hand sides solved one after another in the same workspace; identity x_b*U + x_a = b, pattern = reachable set, elimination order; non-trivial when some solve eliminates at least 2 pivots") {
	U64 p = prime(c); int m = c.strip ? c.pick(std::vector<int>{2000, 5000, 32760, 65530}) + (int)c.below(3000) : c.range(0, c.big(40)); EchOpt o; o.extra = c.chance(1, 3); Ech E = echelon(c, p, m, c.strip ? m : c.big(30), o); bool self = E.U.n && c.chance(1, 4), few = c.strip && !self && c.chance(2, 3), st = c.strip; c.strip = false;
	SMat B = self ? E.U : bulk_matrix(c, p, Shape{1, 8, m, m}); c.strip = st;
	if (few) { Rng g = c.bulk(); for (auto &r : B.row) { std::set<int> js; for (int t = g.below(4); t >= 0; t--) js.insert(g.chance(1, 2) ? g.below(m) : E.U.n ? E.pc[g.below(E.U.n)] : 0); r.clear(); for (int j : js) r.push_back({j, (U32)rvalue(g, p, 0)}); } B.row[0] = {{E.first, 1}}; }
	 if (!self) { B.m = m; for (auto &r : B.row) { SRow t; for (auto &e : r) if (e.first < m) t.push_back(e); r = t; } feed(c, B); c.note("B=%s ", show(B, 300).c_str()); }
	spasm_csr *U = to_csr(E.U), *MB = self ? U : to_csr(B); Snapshot s1(U), s2(MB); Heap<int> xj((size_t)3 * m, 0), qinv(E.qinv); Heap<spasm_ZZp> x(m, (spasm_ZZp)0x3eadbeef);
	int solves = 1 + c.below(6);
	for (int t = 0; t < solves && B.n; t++) {
		int k = c.below(B.n); c.feed64(k); c.note("k=%d ", k); if (c.chance(1, 5) ) for (int j = 0; j < m; j++) x[j] = 0x55555555;
		int top = spasm_sparse_triangular_solve(U, MB, k, xj, x, qinv);
		CHECK(c, "pattern", top >= 0 && top <= m, "top = %d out of [0,%d]", top, m);
		std::vector<char> R(m, 0); std::vector<int> st; for (auto &e : B.row[k]) if (!R[e.first]) { R[e.first] = 1; st.push_back(e.first); }
		while (!st.empty()) { int j = st.back(); st.pop_back(); if (E.qinv[j] < 0) continue; for (auto &e : E.U.row[E.qinv[j]]) if (!R[e.first]) { R[e.first] = 1; st.push_back(e.first); } }
		std::vector<int> pos(m, -1); int cnt = 0; for (int j = 0; j < m; j++) cnt += R[j];
		for (int px = top; px < m; px++) { int j = xj[px]; CHECK(c, "pattern", j >= 0 && j < m, "column %d in the pattern (m=%d)", j, m); CHECK(c, "pattern", pos[j] < 0, "column %d twice in the pattern", j); pos[j] = px; CHECK(c, "pattern", R[j], "column %d is in the pattern but cannot be reached from row %d", j, k); }
		CHECK(c, "pattern", m - top == cnt, "pattern has %d columns, %d are reachable", m - top, cnt);
		int elim = 0;
		for (int px = top; px < m; px++) { int j = xj[px], i = E.qinv[j]; if (i < 0) continue; elim++; for (auto &e : E.U.row[i]) if (e.first != j) CHECK(c, "order", pos[e.first] > px, "column %d is listed before column %d whose elimination changes it", e.first, j); }
		std::vector<U64> w(m, 0); for (int px = top; px < m; px++) { int j = xj[px], i = E.qinv[j]; CHECK(c, "canonical", canonical(x[j], p), "x[%d] = %d is not canonical", j, x[j]); U64 v = tomod(x[j], p); if (i < 0) w[j] = addm(w[j], v, p); else for (auto &e : E.U.row[i]) w[e.first] = addm(w[e.first], mulm(v, e.second, p), p); }
		std::vector<U64> b = drow(B, k); for (int j = 0; j < m; j++) CHECK(c, "solution", w[j] == b[j], "solve %d, row %d: (x_b*U + x_a)[%d] = %llu, expected %llu", t, k, j, (unsigned long long)w[j], (unsigned long long)b[j]);
		c.nontrivial(elim >= 2);
	}
	CHECK(c, "modified", s1 == Snapshot(U) && s2 == Snapshot(MB), "a matrix was modified"); if (!self) spasm_csr_free(MB); spasm_csr_free(U);
}
PROPERTY(C03, reach, 1, "arbitrary patterns (alternating cycles allowed) and partial pivot maps: the reachable set along alternating paths, several queries in the same workspace; non-trivial when a path of length 2 or more is followed") {
	U64 p = 3; int m = c.range(1, c.big(30)); SMat A = bulk_matrix(c, p, Shape{1, 30, m, m}); A.m = m; feed(c, A); bool vals = c.coin(); Rng g = c.bulk(); std::vector<int> qinv(m, -1);
	for (int i = 0; i < A.n; i++) if (!A.row[i].empty() && g.chance(3, 4)) { int j = A.row[i][g.below(A.row[i].size())].first; if (qinv[j] < 0) qinv[j] = i; }
	c.note("A=%s ", show(A, 300).c_str()); spasm_csr *M = to_csr(A, 0, vals); Heap<int> xj((size_t)3 * m, 0), q(qinv); for (int j : qinv) c.feed64(j);
	for (int t = 1 + c.below(5); t > 0; t--) { int k = c.below(A.n); c.feed64(k); c.note("k=%d ", k); int top = spasm_reach(M, M, k, m, xj, q);
		std::vector<int> R(m, 0), st; for (auto &e : A.row[k]) if (!R[e.first]) { R[e.first] = 1; st.push_back(e.first); }
		while (!st.empty()) { int j = st.back(); st.pop_back(); if (qinv[j] < 0) continue; for (auto &e : A.row[qinv[j]]) if (!R[e.first]) { R[e.first] = R[j] + 1; st.push_back(e.first); if (R[j] >= 2) c.nontrivial(); } }
		int cnt = 0; for (int j = 0; j < m; j++) cnt += R[j] > 0; std::vector<char> seen(m, 0); CHECK(c, "reach", top >= 0 && m - top == cnt, "%d columns returned, %d reachable", m - top, cnt);
		for (int px = top; px < m; px++) { int j = xj[px]; CHECK(c, "reach", j >= 0 && j < m && R[j] && !seen[j], "column %d is not reachable or listed twice", j); seen[j] = 1; }
		for (int j = 0; j < m; j++) CHECK(c, "workspace", xj[2 * m + j] == 0, "mark left on column %d", j); }
	spasm_csr_free(M);
}

// ---------------------------------------------------------------- C04
PROPERTY(C04, small, 3, "matrix of any kind up to 60x60, greedy search on or off, with or without previously found rows and elimination coefficients, any thread count and schedule; pivots checked against the definition; non-trivial when at least 2 but not all rows are pivotal") { pivots(c, Shape{0, 60, 0, 60}); }
PROPERTY(C04, contended, 2, "sparse matrices of 10-40 rows with many candidate pivots that conflict (few entries per row), greedy search") { pivots(c, Shape{10, 40, 6, 30}); }

// ---------------------------------------------------------------- C05 / C06
struct SchurIn { U64 p; Ech E; SMat A; std::vector<int> rows, pin; bool ident; spasm_csr *U, *MA; };
static SchurIn schur_input(Ctx &c, bool inorder, int nmax, int mmax, bool rare = false) {
	SchurIn I; I.p = prime(c); sched_draw(c); mmax = c.big(mmax); int m = c.range(1, mmax); bool wide = c.strip && c.coin(); if (wide) { m = 32760 + c.below(c.coin() ? 40 : 40000); nmax = mmax = 6; } EchOpt o; o.inorder = inorder; o.pivfirst = inorder || c.coin(); I.E = echelon(c, I.p, m, mmax, o);
	bool st = c.strip; c.strip = st && !wide; I.A = bulk_matrix(c, I.p, Shape{1, nmax, m, m}); c.strip = st; I.A.m = m; for (auto &r : I.A.row) { SRow t; for (auto &e : r) if (e.first < m) t.push_back(e); r = t; }
	if (c.chance(1, 3)) { Rng g = c.bulk(); for (auto &r : I.A.row) if (I.E.U.n && g.chance(1, 2)) r = combo(g, I.E.U.row, 1 + g.below(4), I.p, 0); }   // rows that vanish in the complement
	if (rare) { Rng g = c.bulk(); int n = c.strip ? std::max(1, I.A.n) : 20 + g.below(c.coin() ? 60 : 230); std::vector<SRow> base; int k = g.below(3); for (int t = 0; t < k; t++) base.push_back(srow(g, m, 0.5, I.p, 0)); I.A = SMat(n, m, I.p); for (auto &r : I.A.row) if (k) r = combo(g, base, k, I.p, 0); int s = 1 + g.below(3); while (s--) I.A.row[g.chance(1, 2) ? g.below(n) : std::max(0, n - 1 - (int)g.below(3))] = srow(g, m, 0.5, I.p, 0); c.label("rare-directions"); }   // directions carried by a single row among many
	feed(c, I.A); c.note("A=%s ", show(I.A, 400).c_str()); I.rows = subset(c, I.A.n); I.ident = c.coin(); Rng g = c.bulk(); std::vector<int> q = rperm(g, I.A.n + 5); I.pin.resize(I.A.n); for (int i = 0; i < I.A.n; i++) I.pin[i] = I.ident ? i : q[i];
	for (int i : I.rows) c.feed64(i); I.U = to_csr(I.E.U); I.MA = to_csr(I.A); return I; }
typedef std::map<std::pair<int, int>, U64> Coef;
static Coef expected_coef(const SchurIn &I, std::vector<std::vector<U64>> &rem) { Coef k; for (int i : I.rows) { std::vector<U64> y = drow(I.A, i); std::vector<U64> x = reduce(I.E, y); rem.push_back(y); for (int t = 0; t < I.E.U.n; t++) if (x[t]) k[{I.pin[i], t}] = x[t]; } return k; }
static void check_L(Ctx &c, const spasm_triplet *L, i64 l0, const Coef &want, U64 p) { CHECK(c, "L", L->nz <= L->nzmax, "L overflows"); Coef got; triplet_of(L, got, p, l0, c, "L"); for (auto &e : got) { auto it = want.find(e.first); CHECK(c, "L", it != want.end() && it->second == e.second, "L(%d,%d) = %llu, expected %llu", e.first.first, e.first.second, (unsigned long long)e.second, (unsigned long long)(it == want.end() ? 0 : it->second)); } CHECK(c, "L", got.size() == want.size(), "%zu elimination coefficients recorded, %zu expected", got.size(), want.size()); }
PROPERTY(C05, sparse, 1, "known rows with unit pivots (any triangular order), a matrix, a set of requested rows, an optional origin map, optional elimination coefficients, estimated or given density, any thread count and schedule; every row compared with the exact remainder; non-trivial when at least 2 rows are requested, some elimination occurs and a remainder is non-zero") {
	SchurIn I = schur_input(c, false, 30, 30); U64 p = I.p; int n = I.rows.size(), m = I.A.m; bool wantL = c.coin(), wantout = !c.chance(1, 5); double dens = c.pick(std::vector<double>{-1, 0, 0.05, 0.5, 1});
	spasm_triplet *L = wantL ? spasm_triplet_alloc(I.A.n + 6, I.E.U.n, c.pick(std::vector<int>{0, 1, 10, 1000}), p, true) : NULL; int pre = wantL ? c.below(3) : 0; for (int k = 0; k < pre; k++) spasm_add_entry(L, k, 0, 1 + k % 2); i64 l0 = L ? L->nz : 0;
	spasm_lu fact; memset(&fact, 0, sizeof fact); Heap<int> q(I.E.qinv), P(I.rows), PI(I.pin), PO(n, -3); fact.U = I.U; fact.qinv = q; Snapshot s1(I.U), s2(I.MA);
	c.note("density %.2f L=%d pre=%d out=%d ident=%d n=%d ", dens, wantL, pre, wantout, I.ident, n);
	spasm_csr *S = spasm_schur(I.MA, P, n, &fact, dens, L, I.ident ? NULL : (int *)PI, wantout ? (int *)PO : NULL);
	check_csr(c, "storage", "Schur complement", S, n, m, p); std::vector<std::vector<U64>> rem; Coef want = expected_coef(I, rem); SMat SS = sfrom_csr(S);
	for (int i = 0; i < n; i++) for (auto &e : SS.row[i]) CHECK(c, "pivotal", I.E.qinv[e.first] < 0, "row %d of S has an entry on the pivotal column %d", i, e.first);
	if (wantout) { std::map<int, int> idx; for (int k = 0; k < n; k++) idx[I.pin[I.rows[k]]] = k; std::vector<char> seen(n, 0);
		for (int i = 0; i < n; i++) { auto it = idx.find(PO[i]); CHECK(c, "origin", it != idx.end() && !seen[it->second], "p_out[%d] = %d is not a requested row or occurs twice", i, PO[i]); seen[it->second] = 1; CHECK(c, "remainder", drow(SS, i) == rem[it->second], "row %d of S is not the remainder of row %d", i, PO[i]); } }
	else { std::vector<std::vector<U64>> a, b = rem; for (int i = 0; i < n; i++) a.push_back(drow(SS, i)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(c, "remainder", a == b, "the rows of S are not the remainders of the requested rows"); }
	if (L) { for (int k = 0; k < pre; k++) CHECK(c, "L", L->i[k] == k && L->j[k] == 0 && tomod(L->x[k], p) == tomod(1 + k % 2, p), "elimination coefficient %d recorded before the call has changed", k); check_L(c, L, l0, want, p); }
	CHECK(c, "modified", s1 == Snapshot(I.U) && s2 == Snapshot(I.MA), "an input matrix was modified"); c.nontrivial(n >= 2 && want.size() && S->p[n]);
	spasm_csr_free(S); spasm_csr_free(I.U); spasm_csr_free(I.MA); if (L) spasm_triplet_free(L);
}
static spasm_datatype draw_type(Ctx &c, U64 p) { spasm_datatype d = spasm_datatype_choose(p); if (c.chance(1, 4)) d = d == SPASM_FLOAT ? (c.coin() ? SPASM_DOUBLE : SPASM_I64) : SPASM_I64; c.label("type:%s", spasm_datatype_name(d)); return d; }      // the selected representation or a wider one
PROPERTY(C06, dense, 4, "known rows with unit pivots, a matrix, requested rows, machine representation selected by the modulus or a wider one; each dense row compared with the exact remainder, maps and elimination coefficients checked; non-trivial when at least 2 rows are requested, some elimination occurs and a remainder is non-zero") {
	SchurIn I = schur_input(c, false, 30, 30); U64 p = I.p; int n = I.rows.size(), m = I.A.m, Sm = m - I.E.U.n; spasm_datatype dt = draw_type(c, p); bool wantL = c.coin();
	spasm_triplet *L = wantL ? spasm_triplet_alloc(I.A.n + 6, I.E.U.n, c.pick(std::vector<int>{0, 1, 10}), p, true) : NULL; int pre = wantL ? c.below(3) : 0; for (int k = 0; k < pre; k++) spasm_add_entry(L, k, 0, 1 + k % 2); i64 l0 = L ? L->nz : 0;
	spasm_lu fact; memset(&fact, 0, sizeof fact); Heap<int> q(I.E.qinv), P(I.rows), PI(I.pin), PO(n, -3), Q(Sm, -1); fact.U = I.U; fact.qinv = q; fact.Ltmp = L; Snapshot s1(I.U), s2(I.MA);
	Heap<char> S((size_t)n * Sm * spasm_datatype_size(dt), (char)0x7a); c.note("L=%d ident=%d n=%d Sm=%d ", wantL, I.ident, n, Sm);
	spasm_schur_dense(I.MA, P, n, I.ident ? NULL : (int *)PI, &fact, (void *)(char *)S, dt, Q, PO);
	std::vector<char> seen(m, 0); for (int k = 0; k < Sm; k++) { CHECK(c, "column-map", Q[k] >= 0 && Q[k] < m && I.E.qinv[Q[k]] < 0 && !seen[Q[k]], "q[%d] = %d is not a non-pivotal column or occurs twice", k, Q[k]); seen[Q[k]] = 1; }
	std::vector<std::vector<U64>> rem; Coef want = expected_coef(I, rem); std::map<int, int> idx; for (int k = 0; k < n; k++) idx[I.pin[I.rows[k]]] = k; std::vector<char> sr(n, 0); bool nz = false;
	for (int i = 0; i < n; i++) { auto it = idx.find(PO[i]); CHECK(c, "origin", it != idx.end() && !sr[it->second], "p_out[%d] = %d is not a requested row or occurs twice", i, PO[i]); sr[it->second] = 1;
		for (int k = 0; k < Sm; k++) { spasm_ZZp v = spasm_datatype_read((char *)S, (size_t)i * Sm + k, dt); nz |= v != 0; CHECK(c, "remainder", v == bal(rem[it->second][Q[k]], p), "S[%d,%d] = %d, the remainder of row %d has %lld on column %d", i, k, v, PO[i], (long long)bal(rem[it->second][Q[k]], p), Q[k]); } }
	if (L) check_L(c, L, l0, want, p);
	CHECK(c, "modified", s1 == Snapshot(I.U) && s2 == Snapshot(I.MA), "an input matrix was modified"); c.nontrivial(n >= 2 && want.size() && nz);
	spasm_csr_free(I.U); spasm_csr_free(I.MA); if (L) spasm_triplet_free(L);
}
static void randomized(Ctx &c, bool spanning) {
	bool rare = spanning && c.chance(1, c.strip ? 2 : 12); SchurIn I = schur_input(c, true, spanning ? 8 : 24, spanning ? 12 : 24, rare); U64 p = I.p; if (I.rows.empty()) { spasm_csr_free(I.U); spasm_csr_free(I.MA); c.discard(); }
	int n = I.rows.size(), m = I.A.m, Sm = m - I.E.U.n, w = c.pick(std::vector<int>{0, -1, 1, 2, 3, 10}), N = spanning ? (w > 0 ? 120 * n : n + 45) : 1 + c.below(12), calls = spanning && c.chance(1, 3) ? N : 1; if (calls > 1) { calls = w > 0 ? 120 * n : n + 45; if (calls > 400) calls = 400, w = 0; N = 1; }
	if (calls > 1 && w <= 0) calls = n + 45; if (c.strip) { calls = 1; w = 0; N = spanning ? std::min(n, m) + 60 : N; } spasm_datatype dt = draw_type(c, p); Heap<int> q(I.E.qinv), P(I.rows), Q(Sm, -1); Snapshot s1(I.U), s2(I.MA);
	std::vector<std::vector<U64>> rem; expected_coef(I, rem); DMat R(n, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) R.at(i, j) = rem[i][j]; int rk = rank(R);
	c.note("N=%d w=%d calls=%d n=%d Sm=%d ", N, w, calls, n, Sm); c.feed64(N * 100 + w); DMat all(n + N * calls, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) all.at(i, j) = R.at(i, j); DMat got(N * calls, m, p); int at = 0;
	for (int t = 0; t < calls; t++) {
		Heap<char> S((size_t)N * Sm * spasm_datatype_size(dt), (char)0x7a); spasm_schur_dense_randomized(I.MA, P, n, I.U, q, (void *)(char *)S, dt, Q, N, w);
		std::vector<char> seen(m, 0); for (int k = 0; k < Sm; k++) { CHECK(c, "column-map", Q[k] >= 0 && Q[k] < m && I.E.qinv[Q[k]] < 0 && !seen[Q[k]], "q[%d] = %d is not a non-pivotal column or occurs twice", k, Q[k]); seen[Q[k]] = 1; }
		for (int i = 0; i < N; i++, at++) for (int k = 0; k < Sm; k++) { spasm_ZZp v = spasm_datatype_read((char *)S, (size_t)i * Sm + k, dt); CHECK(c, "canonical", canonical(v, p), "S[%d,%d] = %d is not canonical", i, k, v); got.at(at, Q[k]) = tomod(v, p); all.at(n + at, Q[k]) = tomod(v, p); } }
	CHECK(c, "combination", rank(all) == rk, "a row of the randomized complement is not the remainder of a combination of the requested rows");
	if (spanning) CHECK(c, "span", rank(got) == rk, "%d random combinations (weight %d, %d calls) span a space of dimension %d, the remainders have rank %d: some directions never appear", N * calls, w, calls, rank(got), rk);
	CHECK(c, "modified", s1 == Snapshot(I.U) && s2 == Snapshot(I.MA), "an input matrix was modified"); c.nontrivial(n >= 2 && rk >= 2 && I.E.U.n >= 1);
	spasm_csr_free(I.U); spasm_csr_free(I.MA);
}
PROPERTY(C06, randomized, 3, "randomized complements of weight -1..10 (all rows or subsets): every row lies in the span of the exact remainders; non-trivial when the remainders have rank >= 2 and at least one pivot is known") { randomized(c, false); }
PROPERTY(C06, spanning, 1, "many random combinations (in one call or over successive calls) must together span all remainders (failure probability below 1e-15); non-trivial when the remainders have rank >= 2 and at least one pivot is known") { randomized(c, true); }
PROPERTY(C06, density, 2, "density estimate from 1-60 sampled rows, including complements without columns or rows; in [0,1]; non-trivial when some columns are pivotal") {
	SchurIn I = schur_input(c, false, 20, 20); int n = I.rows.size(); int R = 1 + c.below(60); Heap<int> q(I.E.qinv), P(I.rows); double d = spasm_schur_estimate_density(I.MA, P, n, I.U, q, R); c.note("R=%d n=%d density=%g ", R, n, d); bool exact0 = true; std::vector<std::vector<U64>> rem; expected_coef(I, rem); double mx = 0, mn = 1; int Sm = I.A.m - I.E.U.n; for (auto &r : rem) { int k = 0; for (U64 v : r) k += v != 0; if (k) exact0 = false; if (Sm) { mx = std::max(mx, (double)k / Sm); mn = std::min(mn, (double)k / Sm); } }
	CHECK(c, "density", d >= 0 && d <= 1, "estimated density %g is not in [0,1]", d); if (exact0) CHECK(c, "density", d == 0, "density %g estimated for a zero complement", d); else CHECK(c, "density", d <= mx + 1e-9 && d >= mn - 1e-9, "estimated density %g, but every sampled row has density in [%g, %g]", d, mn, mx);
	c.nontrivial(I.E.U.n > 0 && !exact0); spasm_csr_free(I.U); spasm_csr_free(I.MA);
}

// ---------------------------------------------------------------- C07
static DMat dense_input(Ctx &c, U64 p, int &lda) { c.xlimit = 400; bool big = c.chance(1, 30); SMat A = big ? bulk_matrix(c, p, Shape{60, 220, 60, 220}) : matrix(c, p, Shape{1, 40, 1, 40}); if (big) feed(c, A); if (A.n == 0 || A.m == 0) c.discard(); if (c.chance(1, 3)) { Rng g = c.bulk(); int vm = c.below(5); int rk = c.below(std::min(A.n, A.m) + 1); std::vector<SRow> b; for (int i = 0; i < rk; i++) b.push_back(srow(g, A.m, 1.0, p, vm)); for (auto &r : A.row) r = combo(g, b, rk, p, 0); feed(c, A); c.note("replaced by a dense matrix of rank <= %d ", rk); } lda = A.m + (c.chance(1, 4) ? c.below(5) : 0); return dense(A); }
struct Buf { void *p; spasm_datatype dt; Buf(size_t n, spasm_datatype d) : p(malloc(n * spasm_datatype_size(d))), dt(d) {} ~Buf() { free(p); } };
PROPERTY(C07, rref, 4, "dense matrix (any kind, also dense low-rank, up to 220x220) in the representation selected for the modulus or a wider one, optional padding; rank, column map and reduced basis compared with reference elimination; non-trivial when 1 < rank < max(n,m)") {
	U64 p = prime(c); int lda; DMat A = dense_input(c, p, lda); int n = A.n, m = A.m; spasm_datatype dt = draw_type(c, p); Buf B((size_t)n * lda, dt); for (int i = 0; i < n; i++) for (int j = 0; j < lda; j++) spasm_datatype_write(B.p, (size_t)i * lda + j, dt, j < m ? bal(A.at(i, j), p) : 1);
	Heap<size_t> q(m, (size_t)-1); int r = spasm_ffpack_rref(p, n, m, B.p, lda, dt, q); DMat T = A; int rk = (int)rref(T).size(); c.note("lda=%d rank=%d ", lda, rk);
	CHECK(c, "rank", r == rk, "rank %d returned, the matrix has rank %d", r, rk); std::vector<char> seen(m, 0); for (int j = 0; j < m; j++) { CHECK(c, "column-map", q[j] < (size_t)m && !seen[q[j]], "qinv is not a permutation (qinv[%d] = %zu)", j, q[j]); seen[q[j]] = 1; }
	DMat R(r, m, p); for (int i = 0; i < r; i++) { R.at(i, q[i]) = 1; for (int l = r; l < m; l++) { spasm_ZZp v = spasm_datatype_read(B.p, (size_t)i * lda + l, dt); CHECK(c, "canonical", canonical(v, p), "coefficient (%d,%d) = %d is not canonical", i, l, v); R.at(i, q[l]) = tomod(v, p); } }
	DMat R2 = R; auto pv = rref(R2); CHECK(c, "rowspace", (int)pv.size() == r, "the returned rows are dependent"); bool same = true; for (int i = 0; i < r; i++) for (int j = 0; j < m; j++) same &= R2.at(i, j) == T.at(i, j); CHECK(c, "rowspace", same, "the returned rows do not span the row space of the input");
	for (int i = 0; i < n; i++) for (int j = m; j < lda; j++) CHECK(c, "padding", spasm_datatype_read(B.p, (size_t)i * lda + j, dt) == 1, "padding modified at (%d,%d)", i, j);
	c.nontrivial(rk > 1 && rk < std::max(n, m)); c.label("rank:%s", rk == std::min(n, m) ? "full" : rk == 0 ? "0" : "deficient");
}
PROPERTY(C07, LU, 4, "dense matrix as above; rank, row and column maps, and the product of the two factors recomputed; non-trivial when 1 < rank < max(n,m)") {
	U64 p = prime(c); int lda; DMat A = dense_input(c, p, lda); int n = A.n, m = A.m; spasm_datatype dt = draw_type(c, p); Buf B((size_t)n * lda, dt); for (int i = 0; i < n; i++) for (int j = 0; j < lda; j++) spasm_datatype_write(B.p, (size_t)i * lda + j, dt, j < m ? bal(A.at(i, j), p) : 1);
	Heap<size_t> P(n, (size_t)-1), q(m, (size_t)-1); int r = spasm_ffpack_LU(p, n, m, B.p, lda, dt, P, q); int rk = rank(A); c.note("lda=%d rank=%d ", lda, rk);
	CHECK(c, "rank", r == rk, "rank %d returned, the matrix has rank %d", r, rk); std::vector<char> s1(m, 0), s2(n, 0); for (int j = 0; j < m; j++) { CHECK(c, "column-map", q[j] < (size_t)m && !s1[q[j]], "qinv is not a permutation (qinv[%d] = %zu)", j, q[j]); s1[q[j]] = 1; } for (int j = 0; j < n; j++) { CHECK(c, "row-map", P[j] < (size_t)n && !s2[P[j]], "p is not a permutation (p[%d] = %zu)", j, P[j]); s2[P[j]] = 1; }
	DMat L(n, r, p), U(r, m, p); for (int i = 0; i < n; i++) for (int j = 0; j < std::min(i + 1, r); j++) { spasm_ZZp v = spasm_datatype_read(B.p, (size_t)i * lda + j, dt); CHECK(c, "canonical", canonical(v, p), "L coefficient (%d,%d) = %d is not canonical", i, j, v); L.at(P[i], j) = tomod(v, p); if (i == j) CHECK(c, "diagonal", v != 0, "L has a zero on its diagonal (%d)", i); }
	for (int i = 0; i < r; i++) { U.at(i, q[i]) = 1; for (int j = i + 1; j < m; j++) { spasm_ZZp v = spasm_datatype_read(B.p, (size_t)i * lda + j, dt); CHECK(c, "canonical", canonical(v, p), "U coefficient (%d,%d) = %d is not canonical", i, j, v); U.at(i, q[j]) = tomod(v, p); } }
	DMat X = mul(L, U); CHECK(c, "product", X == A, "L*U differs from the input: %s", diff(X, A).c_str());
	for (int i = 0; i < n; i++) for (int j = m; j < lda; j++) CHECK(c, "padding", spasm_datatype_read(B.p, (size_t)i * lda + j, dt) == 1, "padding modified at (%d,%d)", i, j);
	c.nontrivial(rk > 1 && rk < std::max(n, m));
}
PROPERTY(C07, datatype, 1, "coefficients written at random positions and read back in the representation selected for the modulus, against an array model; non-trivial when values beyond 2^24 or positions beyond the first occur") {
	U64 p = prime(c); spasm_datatype dt = spasm_datatype_choose(p); size_t sz = spasm_datatype_size(dt); CHECK(c, "size", sz == (dt == SPASM_FLOAT ? 4u : 8u), "size of %s is %zu", spasm_datatype_name(dt), sz); int n = 1 + c.below(30); Buf B(n, dt); std::vector<I64> m(n, 0); for (int i = 0; i < n; i++) spasm_datatype_write(B.p, i, dt, 0);
	for (int t = 0; t < 40; t++) { int i = c.below(n); I64 v = bal(c.weighted({3, 2}) == 0 ? c.bits64() % p : value(c, p), p); c.feed64(v * 64 + i); spasm_datatype_write(B.p, i, dt, v); m[i] = v; for (int k = 0; k < n; k++) CHECK(c, "roundtrip", spasm_datatype_read(B.p, k, dt) == m[k], "position %d holds %d, expected %lld", k, spasm_datatype_read(B.p, k, dt), (long long)m[k]); if (n > 1) c.nontrivial(); }
}
