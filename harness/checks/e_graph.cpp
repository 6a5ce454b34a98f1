// Matching, Dulmage-Mendelsohn decomposition, strongly connected components.
#include "../gens.hpp"
using namespace vt; using namespace gen;
typedef std::vector<std::vector<int>> Adj;
static void connect(Adj &a, int i, int j) { for (int k : a[i]) if (k == j) return; a[i].push_back(j); }
static void scramble(Ctx &c, Rng &g, Adj &a, int m, bool same) { // random relabelling and row order
	int n = a.size(); std::vector<int> rp = rperm(g, n), cp = same ? rp : rperm(g, m); Adj b(n); for (int i = 0; i < n; i++) for (int j : a[i]) b[rp[i]].push_back(cp[j]); a = b; for (auto &r : a) for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[g.below(i)]); c.label("scrambled"); }
static const char *bkind[] = {"explicit", "random", "hidden-matching", "chain", "hall", "three-parts", "matrix-kinds"};
static Adj bipartite(Ctx &c, int &n, int &m) {
	int kind = c.xl || c.strip ? 1 + c.below(6) : c.below(7); c.label("kind:%s", bkind[kind]); Adj a;
	if (kind == 0) { n = c.below(8); m = c.below(8); int d = c.range(2, 4); a.resize(n); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (c.chance(1, d)) a[i].push_back(j); }
	else if (kind == 6) { SMat A = bulk_matrix(c, 3, Shape{0, 60, 0, 60}); n = A.n; m = A.m; a.resize(n); for (int i = 0; i < n; i++) for (auto &e : A.row[i]) a[i].push_back(e.first); }
	else if (c.strip && c.chance(1, 3)) { // one alternating path through everything
		n = 32760 + c.below(50000); m = n + 1 - (int)c.below(3); int first = c.below(3), extra = c.below(3); bool flip = c.coin(); Rng g = c.bulk(); a.resize(n); c.label("one long path");
		for (int i = 0; i < n; i++) { if (i + 1 < m && !(i + 1 == n && first != 2)) a[i].push_back(i + 1); if (i < m && (i || first)) a[i].push_back(i); for (int t = 0; t < extra; t++) if (g.chance(1, 200)) connect(a, i, g.below(i + 1 < m ? i + 1 : m)); }
		if (flip) { for (auto &r : a) for (int &j : r) j = m - 1 - j; std::reverse(a.begin(), a.end()); } }
	else { int mx = c.xl ? 3000 : c.chance(1, 12) ? 300 : 40; n = c.below(mx + 1); m = c.chance(1, 3) ? n : c.below(mx + 1); if (c.strip) { int big = 32760 + c.below(100000), small = 1 + c.below(c.coin() ? 200 : 6); n = c.coin() ? big : small; m = n == big ? small : big; kind = kind == 3 ? 1 : kind; } int deg = c.range(1, 4); int lo = c.below(4); Rng g = c.bulk(); a.resize(n); int mn = std::min(n, m); auto col = [&]() { return (int)g.below(m); };
		if (m) switch (kind) {
		case 1: for (int i = 0; i < n; i++) for (int k = g.below(2 * deg + 1); k > 0; k--) connect(a, i, col()); break;
		case 2: for (int i = 0; i < mn; i++) if (!lo || g.below(8) >= (U32)lo) a[i].push_back(i); for (int k = n * deg / 2; k > 0; k--) connect(a, g.below(n), col()); break;
		case 3: for (int i = 0; i < mn; i++) { if (i + 1 < m) a[i].push_back(i + 1); if (i || lo) a[i].push_back(i); if (g.chance(1, 10)) connect(a, i, col()); } break;      // every augmentation shifts a long path
		case 4: { int k = 1 + g.below(mn + 1), t = std::max(1, (int)g.below(std::min(k, m) + 1)); for (int i = 0; i < n; i++) for (int d = 1 + g.below(deg); d > 0; d--) connect(a, i, i < k ? g.below(t) : col()); break; }   // k rows confined to t columns
		default: { int h = n / 3, s = (n - h) / 2, hc = std::min(m, h + (int)g.below(m / 3 + 1)), sc = std::min(m - hc, s); for (int i = 0; i < n; i++) { if (i < h) { if (hc) { a[i].push_back(i % hc); for (int d = g.below(deg + 1); d > 0; d--) connect(a, i, g.below(hc)); } if (g.chance(1, 3)) connect(a, i, col()); } else if (i < h + s) { if (i - h < sc) a[i].push_back(hc + i - h); if (sc && g.chance(2, 3)) connect(a, i, hc + g.below(sc)); } else if (hc + sc < m) for (int d = 1 + g.below(deg); d > 0; d--) connect(a, i, hc + sc + g.below(m - hc - sc)); } } }
		if (c.coin()) scramble(c, g, a, m, false); }
	c.feed64(n * 65536ull + m); for (auto &r : a) { c.feed64(~0ull); for (int j : r) c.feed64(j); }
	c.note("pattern %dx%d {", n, m); for (int i = 0; i < n && i < 40; i++) { if (a[i].empty()) continue; c.note("%d:", i); for (int j : a[i]) c.note("%d ", j); } c.note("} "); return a;
}
static spasm_csr *pattern(Ctx &c, const Adj &a, int n, int m) { bool val = c.coin(); SMat A(n, m, 42013); for (int i = 0; i < n; i++) for (int j : a[i]) A.row[i].push_back({j, 1 + (U32)((i * 7 + j) % 42012)}); return to_csr(A, c.below(2), val); }
static bool has(const Adj &a, int i, int j) { for (int k : a[i]) if (k == j) return true; return false; }
static void check_matching(Ctx &c, const char *key, const Adj &a, int n, int m, const int *p, const int *q, int size) {
	int k = 0; for (int i = 0; i < n; i++) { CHECK(c, key, p[i] >= -1 && p[i] < m, "row %d matched to column %d", i, p[i]); if (p[i] < 0) continue; k++; CHECK(c, key, has(a, i, p[i]), "row %d is matched to column %d, where it has no entry", i, p[i]); CHECK(c, key, q[p[i]] == i, "row %d is matched to column %d, which is matched to row %d", i, p[i], q[p[i]]); }
	for (int j = 0; j < m; j++) { CHECK(c, key, q[j] >= -1 && q[j] < n, "column %d matched to row %d", j, q[j]); if (q[j] >= 0) CHECK(c, key, p[q[j]] == j, "column %d is matched to row %d, which is matched to column %d", j, q[j], p[q[j]]); }
	CHECK(c, key, k == size, "size %d reported for %d pairs", size, k); }
PROPERTY(E01, maximum, 3, "sparse pattern of 7 kinds (explicit, random degrees, hidden matching plus noise, long alternating chains, Hall violators, three-part, structural kinds), up to 300x300; compared with an independent breadth-first matching; non-trivial when the first-fit greedy matching is not maximum") {
	int n, m; Adj a = bipartite(c, n, m); spasm_csr *A = pattern(c, a, n, m); Snapshot s(A); std::vector<int> p(n, -7), q(m, -7); int size = spasm_maximum_matching(A, p.data(), q.data()); CHECK(c, "modified", s == Snapshot(A), "the matrix was modified");
	check_matching(c, "matching", a, n, m, p.data(), q.data(), size); int best = max_matching(a, m); CHECK(c, "maximum", size == best, "matching of size %d, a matching of size %d exists", size, best);
	std::vector<char> used(m, 0); int gr = 0; for (auto &r : a) for (int j : r) if (!used[j]) { used[j] = 1; gr++; break; } c.nontrivial(gr < best); spasm_csr_free(A); }
PROPERTY(E01, transport, 1, "a pattern, the library's matching of it, row and column permutations, and a window that contains the matching of its rows; the transported and restricted matchings are compared with their definitions and checked to be matchings of the permuted matrix; non-trivial with >= 2 pairs and a non-identity permutation") {
	int n, m; Adj a = bipartite(c, n, m); spasm_csr *A = pattern(c, a, n, m); std::vector<int> jm(n), im(m); int size = spasm_maximum_matching(A, jm.data(), im.data()); Rng g = c.bulk(); std::vector<int> p = rperm(g, n), q = rperm(g, m), pinv(n), qinv(m); for (int i = 0; i < n; i++) pinv[p[i]] = i; for (int j = 0; j < m; j++) qinv[q[j]] = j;
	int *jj = spasm_permute_row_matching(n, jm.data(), p.data(), qinv.data()), *ii = spasm_permute_column_matching(m, im.data(), pinv.data(), q.data());
	spasm_csr *B = spasm_permute(A, p.data(), qinv.data(), SPASM_IGNORE_VALUES); Adj b(n); for (int i = 0; i < n; i++) for (i64 k = B->p[i]; k < B->p[i + 1]; k++) b[i].push_back(B->j[k]);
	check_matching(c, "permuted", b, n, m, jj, ii, size); for (int i = 0; i < n; i++) CHECK(c, "permuted", jj[i] == (jm[p[i]] < 0 ? -1 : qinv[jm[p[i]]]), "row %d of the permuted matching", i); for (int j = 0; j < m; j++) CHECK(c, "permuted", ii[j] == (im[q[j]] < 0 ? -1 : pinv[im[q[j]]]), "column %d of the permuted matching", j);
	int r0 = n ? g.below(n + 1) : 0, r1 = r0 + (n ? g.below(n - r0 + 1) : 0), c0 = m, c1 = 0; for (int i = r0; i < r1; i++) if (jm[i] >= 0) { c0 = std::min(c0, jm[i]); c1 = std::max(c1, jm[i] + 1); } if (c0 >= c1) { c0 = 0; c1 = m; } else { c0 = g.below(c0 + 1); c1 += g.below(m - c1 + 1); }
	c.note("window rows %d..%d columns %d..%d", r0, r1, c0, c1); c.feed64(((U64)r0 << 48) ^ ((U64)r1 << 32) ^ (c0 << 16) ^ c1); c.feed(p.data(), 4 * n); c.feed(q.data(), 4 * m); int *sub = spasm_submatching(jm.data(), r0, r1, c0, c1); for (int i = r0; i < r1; i++) CHECK(c, "window", sub[i - r0] == (jm[i] < 0 ? -1 : jm[i] - c0), "restricted matching of row %d is %d", i, sub[i - r0]);
	c.nontrivial(size >= 2 && !std::is_sorted(p.begin(), p.end())); free(jj); free(ii); free(sub); spasm_csr_free(A); spasm_csr_free(B); }
// canonical coarse sets from the independent matching
struct Coarse { std::vector<int> r, c; int size; }; // row set: 0 = unmatched, 1, 2, 3; same for columns
static Coarse coarse(const Adj &a, int m) { int n = a.size(); Adj t(m); for (int i = 0; i < n; i++) for (int j : a[i]) t[j].push_back(i); std::vector<int> R, C; Coarse o; o.size = max_matching(a, m, &R, &C);
	o.r.assign(n, 2); o.c.assign(m, 2); std::vector<int> q; // from unmatched rows: row -> column by any entry, column -> row by the matching
	std::vector<char> vr(n, 0); for (int i = 0; i < n; i++) if (R[i] < 0) { vr[i] = 1; q.push_back(i); } for (size_t h = 0; h < q.size(); h++) for (int j : a[q[h]]) { o.c[j] = 3; int k = C[j]; if (k >= 0 && !vr[k]) { vr[k] = 1; q.push_back(k); } } for (int i = 0; i < n; i++) if (vr[i]) o.r[i] = R[i] < 0 ? 0 : 3;
	std::vector<char> vc(m, 0); q.clear(); for (int j = 0; j < m; j++) if (C[j] < 0) { vc[j] = 1; q.push_back(j); } for (size_t h = 0; h < q.size(); h++) for (int i : t[q[h]]) { o.r[i] = 1; int k = R[i]; if (k >= 0 && !vc[k]) { vc[k] = 1; q.push_back(k); } } for (int j = 0; j < m; j++) if (vc[j]) o.c[j] = C[j] < 0 ? 0 : 1;
	// unmatched rows and columns are not unique, the union R0+R3 and C0+C1 are: encode as 3 and 1
	return o; }
static void check_dm(Ctx &c, const Adj &a, int n, int m, const spasm_dm *D, const Coarse &K, bool fine_too);
static std::vector<std::vector<char>> closure(const Adj &a) { int n = a.size(); std::vector<std::vector<char>> R(n, std::vector<char>(n, 0)); for (int s = 0; s < n; s++) { std::vector<int> st = {s}; R[s][s] = 1; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v : a[u]) if (!R[s][v]) { R[s][v] = 1; st.push_back(v); } } } return R; }
// strongly connected components by two depth-first searches (large graphs)
static std::vector<int> kosaraju(const Adj &a) { int n = a.size(); Adj t(n); for (int i = 0; i < n; i++) for (int j : a[i]) t[j].push_back(i); std::vector<int> ord, id(n, -1); std::vector<char> in(n, 0);
	for (int s = 0; s < n; s++) { if (in[s]) continue; std::vector<std::pair<int, size_t>> st = {{s, 0}}; in[s] = 1; while (!st.empty()) { auto &f = st.back(); if (f.second < a[f.first].size()) { int v = a[f.first][f.second++]; if (!in[v]) { in[v] = 1; st.push_back({v, 0}); } } else { ord.push_back(f.first); st.pop_back(); } } }
	int k = 0; for (int z = n - 1; z >= 0; z--) { if (id[ord[z]] >= 0) continue; std::vector<int> st = {ord[z]}; id[ord[z]] = k; while (!st.empty()) { int u = st.back(); st.pop_back(); for (int v : t[u]) if (id[v] < 0) { id[v] = k; st.push_back(v); } } k++; } return id; }
static void check_dm(Ctx &c, const Adj &a, int n, int m, const spasm_dm *D, const Coarse &K, bool fine) {
	const int *rr = D->rr, *cc = D->cc; std::vector<int> pr(n, -1), pc(m, -1);
	for (int i = 0; i < n; i++) { CHECK(c, "p", D->p[i] >= 0 && D->p[i] < n && pr[D->p[i]] < 0, "p[%d] = %d is out of range or repeated", i, D->p[i]); pr[D->p[i]] = i; }
	for (int j = 0; j < m; j++) { CHECK(c, "q", D->q[j] >= 0 && D->q[j] < m && pc[D->q[j]] < 0, "q[%d] = %d is out of range or repeated", j, D->q[j]); pc[D->q[j]] = j; }
	CHECK(c, "bounds", rr[0] == 0 && rr[4] == n && cc[0] == 0 && cc[4] == m, "coarse bounds rows %d..%d of %d, columns %d..%d of %d", rr[0], rr[4], n, cc[0], cc[4], m); for (int k = 0; k < 4; k++) CHECK(c, "bounds", rr[k] <= rr[k + 1] && cc[k] <= cc[k + 1], "decreasing coarse bounds");
	// rows: R1 | R2 | R3 | R0   columns: C0 | C1 | C2 | C3
	CHECK(c, "sizes", rr[1] == cc[2] - cc[1] && rr[2] - rr[1] == cc[3] - cc[2] && rr[3] - rr[2] == cc[4] - cc[3], "blocks R1,R2,R3 have %d,%d,%d rows and C1,C2,C3 %d,%d,%d columns", rr[1], rr[2] - rr[1], rr[3] - rr[2], cc[2] - cc[1], cc[3] - cc[2], cc[4] - cc[3]);
	CHECK(c, "structural-rank", rr[3] == K.size && m - cc[1] == K.size, "the matched parts have %d rows and %d columns, the structural rank is %d", rr[3], m - cc[1], K.size);
	for (int i = 0; i < n; i++) { int s = pr[i] < rr[1] ? 1 : pr[i] < rr[2] ? 2 : 3, w = K.r[i] == 0 ? 3 : K.r[i]; CHECK(c, "coarse", s == w, "row %d is in part %d, it belongs to part %d", i, s, w); }
	for (int j = 0; j < m; j++) { int s = pc[j] < cc[2] ? 1 : pc[j] < cc[3] ? 2 : 3, w = K.c[j] == 0 ? 1 : K.c[j]; CHECK(c, "coarse", s == w, "column %d is in part %d, it belongs to part %d", j, s, w); }
	// the three matched blocks have perfect matchings carried by the orders
	for (int k = 0; k < rr[1]; k++) CHECK(c, "diagonal", has(a, D->p[k], D->q[cc[1] + k]), "no entry on the diagonal of block (R1,C1), position %d", k); for (int k = rr[2]; k < rr[3]; k++) CHECK(c, "diagonal", has(a, D->p[k], D->q[cc[3] + k - rr[2]]), "no entry on the diagonal of block (R3,C3), position %d", k - rr[2]);
	for (int i = 0; i < n; i++) for (int j : a[i]) { int s = pr[i] < rr[1] ? 1 : pr[i] < rr[2] ? 2 : 3, t = pc[j] < cc[2] ? 1 : pc[j] < cc[3] ? 2 : 3; CHECK(c, "zero-blocks", s <= t, "entry (%d,%d) in row part %d and column part %d", i, j, s, t); }
	if (!fine) return; int sq = rr[2] - rr[1]; if (!sq) { CHECK(c, "fine", D->nb == 0 || D->nb == 2, "%d fine blocks for an empty square part", D->nb); return; }
	int nb = D->nb; CHECK(c, "fine", nb >= 3 && nb <= sq + 2, "%d fine blocks for a square part of size %d", nb, sq); CHECK(c, "fine", D->r[0] == 0 && D->c[0] == 0 && D->r[nb] == n && D->c[nb] == m, "fine bounds do not cover rows %d..%d of %d, columns %d..%d of %d", D->r[0], D->r[nb], n, D->c[0], D->c[nb], m); CHECK(c, "fine", D->r[1] == rr[1] && D->c[1] == cc[2] && D->r[nb - 1] == rr[2] && D->c[nb - 1] == cc[3], "fine bounds do not match the coarse ones");
	std::vector<int> blk(sq); for (int k = 1; k < nb - 1; k++) { int h = D->r[k + 1] - D->r[k], w = D->c[k + 1] - D->c[k]; CHECK(c, "fine", h == w && h > 0, "fine block %d is %d x %d", k, h, w); CHECK(c, "fine", D->r[k] - rr[1] == D->c[k] - cc[2], "fine block %d is not on the diagonal", k); for (int t = 0; t < h; t++) blk[D->r[k] - rr[1] + t] = k; }
	Adj g(sq); for (int t = 0; t < sq; t++) { CHECK(c, "fine-diagonal", has(a, D->p[rr[1] + t], D->q[cc[2] + t]), "zero on the diagonal of the square part, position %d", t); for (int j : a[D->p[rr[1] + t]]) if (pc[j] >= cc[2] && pc[j] < cc[3]) { int u = pc[j] - cc[2]; CHECK(c, "fine-order", blk[t] <= blk[u], "entry below the diagonal blocks (block row %d, block column %d)", blk[t], blk[u]); g[t].push_back(u); } }
	c.nontrivial(nb >= 4); if (sq > 1500) { auto id = kosaraju(g); for (int t = 1; t < sq; t++) if (blk[t] == blk[t - 1]) CHECK(c, "irreducible", id[t] == id[t - 1], "fine block %d is reducible", blk[t]); return; }
	auto R = closure(g); for (int t = 0; t < sq; t++) for (int u = 0; u < sq; u++) if (blk[t] == blk[u]) CHECK(c, "irreducible", R[t][u], "fine block %d is reducible", blk[t]); }
PROPERTY(E02, coarse, 1, "sparse pattern of the 7 bipartite kinds; the canonical sets are computed by alternating search from an independent maximum matching; non-trivial when at least two of the three parts are non-empty on rows and there is an unmatched row or column") {
	int n, m; Adj a = bipartite(c, n, m); spasm_csr *A = pattern(c, a, n, m); Snapshot s(A); spasm_dm *D = spasm_dulmage_mendelsohn(A); CHECK(c, "modified", s == Snapshot(A), "the matrix was modified"); Coarse K = coarse(a, m); check_dm(c, a, n, m, D, K, false);
	int parts = (D->rr[1] > 0) + (D->rr[2] > D->rr[1]) + (D->rr[4] > D->rr[2]); c.nontrivial(parts >= 2 && (K.size < n || K.size < m)); c.label("parts:%d", parts); spasm_dm_free(D); spasm_csr_free(A); }
static const char *dkind[] = {"explicit", "random", "cycles+chords", "layered-components", "nested", "functional"};
static Adj digraph(Ctx &c, int &n) {
	int kind = c.xl || c.strip ? 1 + c.below(5) : c.below(6); c.label("graph:%s", dkind[kind]); Adj a;
	if (kind == 0) { n = c.below(9); int d = c.range(2, 5); a.resize(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (c.chance(1, d)) a[i].push_back(j); }
	else { n = c.strip ? 32760 + (int)c.below(90000) : 1 + c.below(c.xl ? 1500 : c.chance(1, 10) ? 200 : 40); int deg = c.range(1, 4), loops = c.below(3); Rng g = c.bulk(); a.resize(n);
		switch (kind) {
		case 1: for (int k = n * deg * (1 + g.below(4)) / 4; k > 0; k--) connect(a, g.below(n), g.below(n)); break;
		case 2: { for (int i = 0; i < n;) { int len = 1 + g.below(8); len = std::min(len, n - i); for (int t = 0; t < len; t++) if (len > 1) connect(a, i + t, i + (t + 1) % len); i += len; } for (int k = g.below(n + 1); k > 0; k--) { int x = g.below(n), y = g.below(n); if (x < y || g.chance(1, 12)) connect(a, x, y); } break; }
		case 3: { std::vector<int> lab(n); int L = 1 + g.below(std::min(n, 12)); for (auto &l : lab) l = g.below(L); for (int l = 0; l < L; l++) { std::vector<int> v; for (int i = 0; i < n; i++) if (lab[i] == l) v.push_back(i); if (g.chance(3, 4)) for (size_t t = 0; v.size() > 1 && t < v.size(); t++) connect(a, v[t], v[(t + 1) % v.size()]); } for (int k = n * deg; k > 0; k--) { int x = g.below(n), y = g.below(n); if (lab[x] <= lab[y]) connect(a, x, y); } break; }
		case 4: for (int i = 0; i + 1 < n; i++) { connect(a, i, i + 1); if (g.chance(1, 3)) connect(a, i + 1, g.below(i + 1)); if (g.chance(1, 8)) a[i].clear(); } break;
		default: for (int i = 0; i < n; i++) connect(a, i, g.below(n)); }
		for (int i = 0; i < n; i++) if (loops == 1 || (loops == 2 && g.chance(1, 2))) connect(a, i, i);
		if (c.coin()) scramble(c, g, a, n, true); else for (auto &r : a) for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[g.below(i)]); }
	c.feed64(n); for (auto &r : a) { c.feed64(~0ull); for (int j : r) c.feed64(j); }
	c.note("graph %d {", n); for (int i = 0; i < n && i < 40; i++) { if (a[i].empty()) continue; c.note("%d:", i); for (int j : a[i]) c.note("%d ", j); } c.note("} "); return a;
}
PROPERTY(E03, components, 2, "directed graph of 6 kinds (explicit, random near the critical degree, cycles with chords, layered components, nested back edges, functional), up to 200 vertices, with or without self-loops; components compared with mutual reachability; non-trivial with at least two components, one of size >= 2") {
	int n; Adj a = digraph(c, n); spasm_csr *A = pattern(c, a, n, n); Snapshot s(A); spasm_dm *D = spasm_strongly_connected_components(A); CHECK(c, "modified", s == Snapshot(A), "the matrix was modified"); std::vector<int> pos(n, -1), blk(n, -1); int nb = D->nb;
	for (int i = 0; i < n; i++) { CHECK(c, "p", D->p[i] >= 0 && D->p[i] < n && pos[D->p[i]] < 0, "p[%d] = %d is out of range or repeated", i, D->p[i]); pos[D->p[i]] = i; CHECK(c, "q", D->q[i] == D->p[i], "row and column orders differ at %d", i); }
	CHECK(c, "bounds", nb >= (n > 0) && nb <= n && D->r[0] == 0 && D->r[nb] == n, "%d components covering %d..%d of %d", nb, D->r[0], D->r[nb], n); for (int k = 0; k <= nb; k++) CHECK(c, "bounds", D->c[k] == D->r[k], "row and column bounds differ at %d", k); for (int k = 0; k < nb; k++) { CHECK(c, "bounds", D->r[k] < D->r[k + 1], "component %d is empty", k); for (int t = D->r[k]; t < D->r[k + 1]; t++) blk[D->p[t]] = k; }
	if (n > 3000) { auto id = kosaraju(a); std::map<int, int> f, b; for (int i = 0; i < n; i++) { auto x = f.insert({id[i], blk[i]}), y = b.insert({blk[i], id[i]}); CHECK(c, "components", x.first->second == blk[i] && y.first->second == id[i], "vertex %d is in component %d, with the wrong vertices", i, blk[i]); } }
	else { auto R = closure(a); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(c, "components", (blk[i] == blk[j]) == (R[i][j] && R[j][i]), "vertices %d and %d are %smutually reachable, but are in components %d and %d", i, j, R[i][j] && R[j][i] ? "" : "not ", blk[i], blk[j]); }
	for (int i = 0; i < n; i++) for (int j : a[i]) CHECK(c, "order", blk[i] <= blk[j], "edge %d -> %d goes from component %d back to component %d", i, j, blk[i], blk[j]); bool big = false; for (int k = 0; k < nb; k++) big |= D->r[k + 1] - D->r[k] >= 2; c.nontrivial(nb >= 2 && big); spasm_dm_free(D); spasm_csr_free(A); }
PROPERTY(E03, fine, 1, "pattern with a large square part (hidden permutation of a directed graph with self-loops, bordered by extra rows and columns) or any bipartite kind; the fine blocks are checked against reachability inside the square part; non-trivial with at least two fine blocks") {
	int n, m; Adj a; if (c.strip || c.chance(1, 3)) a = bipartite(c, n, m); else { a = digraph(c, n); m = n; for (int i = 0; i < n; i++) connect(a, i, i); int er = c.below(4), ec = c.below(4); Rng g = c.bulk(); int k = n; for (int t = 0; t < er; t++) { a.push_back({}); } n += er; m += ec; for (int t = 0; t < er; t++) for (int d = g.below(3); d > 0; d--) if (m) connect(a, k + t, g.below(m)); for (int j = k; j < m; j++) for (int d = g.below(3); d > 0 && k; d--) connect(a, g.below(k), j); scramble(c, g, a, m, false); c.feed64(er * 4 + ec); }
	spasm_csr *A = pattern(c, a, n, m); spasm_dm *D = spasm_dulmage_mendelsohn(A); check_dm(c, a, n, m, D, coarse(a, m), true); spasm_dm_free(D); spasm_csr_free(A); }
