#include "../io.hpp"
using namespace vt; using namespace gen;

struct Ent { int i, j; I64 x; };
static I64 val64(Ctx &c, U64 p) { switch (c.weighted({4, 2, 2, 2})) { case 0: return (I64)c.range(-3, 3); case 1: return (I64)c.bits64(); case 2: return (I64)p * (I64)c.range(-3, 3) + (I64)c.range(-1, 1); default: return bal(c.bits64() % p, p); } }
// entries with frequent duplicates and cancellations
static std::vector<Ent> entries(Ctx &c, U64 p, int n, int m, int maxk) {
	std::vector<Ent> v; if (n <= 0 || m <= 0) return v;
	if (c.strip) { Rng r = c.bulk(); int k = 66000 + r.below(120000), hot = r.below(4); int hi = r.below(n), hj = r.below(m); U32 dup = r.below(8); for (int t = 0; t < k; t++) { int i = hot & 1 && r.below(8) ? hi : (int)r.below(n), j = hot & 2 && r.below(8) ? hj : (int)r.below(m); if (!v.empty() && r.below(16) < dup) { Ent e = v[r.below(v.size())]; e.x = r.chance(1, 2) ? -e.x : (I64)rvalue(r, p, 0); v.push_back(e); } else v.push_back({i, j, bal(rvalue(r, p, r.below(3)), p)}); } return v; }   // rows or columns with more than 2^16 entries
	if (c.xl || c.chance(1, 4)) { Rng r = c.bulk(); int k = r.below(maxk * (c.xl ? 1500 : 20) + 1); U32 dup = r.below(4); for (int t = 0; t < k; t++) { if (!v.empty() && r.below(4) < dup) { Ent e = v[r.below(v.size())]; e.x = r.chance(1, 2) ? -e.x : (I64)rvalue(r, p, 0); v.push_back(e); } else v.push_back({(int)r.below(n), (int)r.below(m), bal(rvalue(r, p, r.below(3)), p)}); } return v; }
	int k = c.below(maxk + 1);
	for (int t = 0; t < k; t++) {
		if (!v.empty() && c.chance(2, 5)) { Ent e = v[c.below(v.size())]; switch (c.below(3)) { case 0: e.x = (I64)(0 - (U64)e.x); break; case 1: e.x = val64(c, p); break; default: break; } v.push_back(e); }
		else { int i = c.below(n), j = c.below(m); v.push_back({i, j, val64(c, p)}); }
	}
	return v;
}
typedef std::map<std::pair<int, int>, U64> Model;
static void cmp_model(Ctx &c, const char *key, const char *what, const spasm_csr *A, const Model &mod, bool values, U64 p) {
	Model got; for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) got[{i, A->j[k]}] = values ? tomod(A->x[k], p) : 1;
	for (auto &e : mod) if (!values || e.second) { auto f = got.find(e.first); CHECK(c, key, f != got.end(), "%s: coefficient (%d,%d)=%lld was lost", what, e.first.first, e.first.second, (long long)bal(e.second, p)); if (values) CHECK(c, key, f->second == e.second, "%s: coefficient (%d,%d) is %lld, expected %lld", what, e.first.first, e.first.second, (long long)bal(f->second, p), (long long)bal(e.second, p)); }
	for (auto &e : got) { auto f = mod.find(e.first); CHECK(c, key, f != mod.end() && (!values || f->second), "%s: unexpected entry at (%d,%d)", what, e.first.first, e.first.second); }
}
PROPERTY(B01, compress, 1, "a declared size, an initial capacity (often 0 or too small) and a sequence of entries with duplicates, exact cancellations, arbitrary 64-bit values and entries beyond the declared size, with or without values; non-trivial when a position receives two entries") {
	U64 p = prime(c); bool values = !c.chance(1, 5); int n0 = c.below(8), m0 = c.below(8); int n = n0 + c.below(3), m = m0 + c.below(3); if (c.strip) { n = n0 = 1 + c.below(c.coin() ? 100000 : 4); m = m0 = 1 + c.below(c.coin() ? 100000 : 4); } else if (c.xl) { n = 1 + c.below(c.coin() ? 70000 : 2000); m = 1 + c.below(c.coin() ? 70000 : 300); n0 = c.coin() ? n : c.below(n); m0 = c.coin() ? m : c.below(m); } else if (c.chance(1, 6)) { n = n0 = 1 + c.below(300); m = m0 = 1 + c.below(40); }
	auto es = entries(c, p, n, m, 30); i64 cap = c.pick(std::vector<int>{0, 1, 2, 7, 64, 1000});
	spasm_triplet *T = spasm_triplet_alloc(n0, m0, cap, values ? (i64)p : -1, values); Model mod; int N = n0, M = m0, N2 = n0, M2 = m0; bool dup = false;
	c.note("%dx%d cap=%d values=%d p=%llu entries:", n0, m0, (int)cap, values, (unsigned long long)p);
	for (auto &e : es) { spasm_add_entry(T, e.i, e.j, e.x); c.feed64(((U64)e.i << 32) | e.j); c.feed64(e.x); if (es.size() < 60) c.note(" (%d,%d)%lld", e.i, e.j, (long long)e.x);
		U64 x = tomod(e.x, p); auto k = std::make_pair(e.i, e.j); N2 = std::max(N2, e.i + 1); M2 = std::max(M2, e.j + 1); if (values && !x) continue; if (mod.count(k)) dup = true; mod[k] = addm(mod.count(k) ? mod[k] : 0, x, p); N = std::max(N, e.i + 1); M = std::max(M, e.j + 1); }
	CHECK(c, "dims", (T->n == N || T->n == N2) && (T->m == M || T->m == M2), "triplet dimensions %dx%d, expected %dx%d", T->n, T->m, N, M);
	i64 nz = T->nz; std::vector<int> ti(T->i, T->i + nz), tj(T->j, T->j + nz); std::vector<int> tx; if (values) tx.assign(T->x, T->x + nz);
	spasm_csr *A = spasm_compress(T);
	CHECK(c, "input", T->nz == nz && std::equal(ti.begin(), ti.end(), T->i) && std::equal(tj.begin(), tj.end(), T->j) && (!values || std::equal(tx.begin(), tx.end(), T->x)), "spasm_compress modified its input");
	check_csr(c, "wellformed", "compressed matrix", A, T->n, T->m, values ? (I64)p : 0);
	CHECK(c, "values", !values || A->p[A->n] == 0 || A->x != NULL, "the values disappeared");
	cmp_model(c, "sum", "compress", A, mod, values, p);
	c.nontrivial(dup); spasm_csr_free(A); spasm_triplet_free(T);
}

static void same(Ctx &c, const char *key, const char *what, const spasm_csr *A, const SMat &want, bool values) {
	check_csr(c, key, what, A, want.n, want.m, (I64)want.p);
	Model m; for (int i = 0; i < want.n; i++) for (auto &e : want.row[i]) m[{i, e.first}] = e.second;
	if (values) CHECK(c, key, A->x != NULL || A->p[A->n] == 0, "%s: values missing", what); else CHECK(c, key, A->x == NULL, "%s: values stored although not requested", what);
	cmp_model(c, key, what, A, m, values, want.p);
}
static std::vector<int> tperm(Ctx &c, int n) { std::vector<int> p; p.reserve(n + 1); p.resize(n); std::iota(p.begin(), p.end(), 0); int mode = c.below(3); if (mode == 1) { Rng r = c.bulk(); auto q = rperm(r, n); std::copy(q.begin(), q.end(), p.begin()); } else if (mode == 2 && n > 1) { int a = c.below(n), b = c.below(n); std::swap(p[a], p[b]); } return p; }
PROPERTY(B02, transpose, 2, "a matrix of any shape (0 to 60 rows and columns, structured families) and the keep_values flag") {
	U64 p = prime(c); Shape sh; sh.nmin = sh.mmin = 0; SMat A = matrix(c, p, sh); spasm_csr *C = to_csr(A, c.below(3)); Snapshot s(C); int kv = c.below(2); c.note("keep=%d ", kv);
	spasm_csr *T = spasm_transpose(C, kv); SMat W(A.m, A.n, p); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) W.row[e.first].push_back({i, e.second});
	same(c, "transpose", "transpose", T, W, kv); CHECK(c, "input", Snapshot(C) == s, "spasm_transpose modified its input"); 
	spasm_csr *TT = spasm_transpose(T, kv); same(c, "transpose", "transpose of transpose", TT, A, kv);
	c.nontrivial(A.nnz() > 1); spasm_csr_free(C); spasm_csr_free(T); spasm_csr_free(TT);
}
PROPERTY(B02, permute, 2, "a matrix, a row permutation and an inverse column permutation (identity, NULL, one transposition or random), and the values flag") {
	U64 p = prime(c); Shape sh; sh.nmin = sh.mmin = 0; SMat A = matrix(c, p, sh); spasm_csr *C = to_csr(A, c.below(3)); Snapshot s(C); int v = c.below(2);
	auto rp = tperm(c, A.n), q = tperm(c, A.m); bool np = c.chance(1, 4), nq = c.chance(1, 4);
	c.note("values=%d pnull=%d qnull=%d ", v, np, nq); spasm_csr *B = spasm_permute(C, np ? NULL : rp.data(), nq ? NULL : q.data(), v);
	SMat W(A.n, A.m, p); for (int i = 0; i < A.n; i++) for (auto &e : A.row[np ? i : rp[i]]) W.row[i].push_back({nq ? e.first : q[e.first], e.second});
	same(c, "permute", "permuted matrix", B, W, v); CHECK(c, "input", Snapshot(C) == s, "spasm_permute modified its input"); c.nontrivial(A.nnz() > 1 && !(np && nq)); spasm_csr_free(C); spasm_csr_free(B);
}
PROPERTY(B02, submatrix, 2, "a matrix and a window, including empty and inverted windows") {
	U64 p = prime(c); Shape sh; sh.nmin = sh.mmin = 0; SMat A = matrix(c, p, sh); spasm_csr *C = to_csr(A, c.below(3)); Snapshot s(C); int v = c.below(2);
	int r0 = c.below(A.n + 1), r1 = c.below(A.n + 1), c0 = c.below(A.m + 1), c1 = c.below(A.m + 1); if (!c.chance(1, 5)) { if (r0 > r1) std::swap(r0, r1); if (c0 > c1) std::swap(c0, c1); }
	c.note("rows %d:%d cols %d:%d values=%d ", r0, r1, c0, c1, v); c.feed64(((U64)r0 << 48) | ((U64)r1 << 32) | (c0 << 16) | c1);
	spasm_csr *B = spasm_submatrix(C, r0, r1, c0, c1, v); SMat W(std::max(0, r1 - r0), std::max(0, c1 - c0), p); for (int i = r0; i < r1; i++) for (auto &e : A.row[i]) if (e.first >= c0 && e.first < c1) W.row[i - r0].push_back({e.first - c0, e.second});
	same(c, "submatrix", "window", B, W, v); CHECK(c, "input", Snapshot(C) == s, "spasm_submatrix modified its input"); c.nontrivial(W.nnz() > 0 && W.nnz() < A.nnz()); spasm_csr_free(C); spasm_csr_free(B);
}
PROPERTY(B02, vectors, 2, "permutation vectors and data vectors of length 0 to 80 (up to 140000 in a few cases); in-range permutation of a random sub-range; random permutations after a random seeding") {
	 bool lg = c.xl || c.strip || c.chance(1, 300); int n = lg ? c.range(500, c.coin() ? 3000 : 140000) : (int)c.below(80); std::vector<int> p; if (lg) { Rng g = c.bulk(); p = rperm(g, n); c.feed64(n); } else p = tperm(c, n); bool null = n && c.chance(1, 5); std::vector<spasm_ZZp> b(n + 1), x(n + 1, 12345), y(n + 1, 777); { Rng g = lg ? c.bulk() : Rng(1); for (int i = 0; i < n; i++) b[i] = (int)(lg ? g.below(1000) : c.below(1000)) - 500; }
	if (!lg) for (int i : p) c.feed64(i); static int none; const int *pp = null ? NULL : n ? p.data() : &none; auto p0 = p; auto b0 = b;
	spasm_pvec(pp, b.data(), x.data(), n); spasm_ipvec(pp, b.data(), y.data(), n);
	for (int i = 0; i < n; i++) { int j = null ? i : p[i]; CHECK(c, "pvec", x[i] == b[j], "spasm_pvec: x[%d] != b[p[%d]]", i, i); CHECK(c, "ipvec", y[j] == b[i], "spasm_ipvec: x[p[%d]] != b[%d]", i, i); }
	CHECK(c, "pvec", x[n] == 12345 && y[n] == 777 && p == p0 && b == b0, "a vector permutation wrote outside its output");
	int *q = spasm_pinv(pp, n); CHECK(c, "pinv", (q == NULL) == null, "spasm_pinv: NULL must map to NULL"); if (q) { for (int i = 0; i < n; i++) CHECK(c, "pinv", q[p[i]] == i, "spasm_pinv is wrong at %d", i); free(q); }
	int *rp = spasm_random_permutation(n); std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) { CHECK(c, "random", rp[i] >= 0 && rp[i] < n && !seen[rp[i]], "spasm_random_permutation(%d) is not a permutation", n); seen[rp[i]] = 1; } free(rp);
	int a = c.below(n + 1), e = a + c.below(n - a + 1); Rng r = c.bulk(); auto sp = rperm(r, e - a), sp0 = sp; std::vector<int> z(b.begin(), b.end()), z0 = z; sp.push_back(-1);
	spasm_range_pvec(z.data(), a, e, sp.data()); for (int i = 0; i <= n; i++) { int w = i >= a && i < e ? z0[a + sp0[i - a]] : z0[i]; CHECK(c, "range_pvec", z[i] == w, "spasm_range_pvec(%d,%d): wrong element at %d", a, e, i); }
	c.note("n=%d null=%d range %d:%d ", n, null, a, e); c.nontrivial(n > 1);
}

// ---------------------------------------------------------------- B03: histories of container operations
struct Slot { spasm_triplet *T = nullptr; spasm_csr *C = nullptr; std::vector<Ent> ents; Model mod; int n = 0, m = 0; bool values = true; U64 p = 3; };
static void audit(Ctx &c, const Slot &s, const char *after) {
	if (s.C) { const spasm_csr *A = s.C; check_csr(c, "history", after, A, s.n, s.m, 0); CHECK(c, "history", !s.values || A->p[A->n] == 0 || A->x, "%s: values lost", after); CHECK(c, "history", s.values || !A->x, "%s: values appeared", after);
		cmp_model(c, "history", after, A, s.mod, s.values, s.p);
		volatile int t = 0; if (A->nzmax > 0) { int *j = &A->j[A->nzmax - 1]; t = *j; *j = t; if (A->x) { spasm_ZZp *x = &A->x[A->nzmax - 1]; t = *x; *x = t; } } }
	else { const spasm_triplet *T = s.T; CHECK(c, "history", T->n == s.n && T->m == s.m, "%s: triplet is %dx%d, expected %dx%d", after, T->n, T->m, s.n, s.m); CHECK(c, "history", T->nz <= T->nzmax && T->nz >= 0, "%s: %lld entries in a triplet of capacity %lld", after, (long long)T->nz, (long long)T->nzmax);
		CHECK(c, "history", !s.values || T->nz == 0 || T->x, "%s: triplet lost its values", after);
		Model g; for (i64 k = 0; k < T->nz; k++) { auto key = std::make_pair(T->i[k], T->j[k]); CHECK(c, "history", T->i[k] >= 0 && T->i[k] < T->n && T->j[k] >= 0 && T->j[k] < T->m, "%s: triplet entry out of range", after); U64 x = s.values ? tomod(T->x[k], s.p) : 1; g[key] = s.values ? addm(g.count(key) ? g[key] : 0, x, s.p) : 1; }
		for (auto &e : s.mod) { auto it = g.find(e.first); U64 v = it == g.end() ? 0 : it->second; CHECK(c, "history", v == e.second, "%s: triplet coefficient (%d,%d) is %llu, expected %llu", after, e.first.first, e.first.second, (unsigned long long)v, (unsigned long long)e.second); }
		for (auto &e : g) if (e.second) CHECK(c, "history", s.mod.count(e.first), "%s: unexpected triplet entry (%d,%d)", after, e.first.first, e.first.second);
		if (T->nzmax > 0) { volatile int t; t = T->i[T->nzmax - 1]; T->i[T->nzmax - 1] = t; t = T->j[T->nzmax - 1]; T->j[T->nzmax - 1] = t; if (T->x) { t = T->x[T->nzmax - 1]; T->x[T->nzmax - 1] = t; } } }
}
static Model clean(const Model &m) { Model r; for (auto &e : m) if (e.second) r.insert(e); return r; }
PROPERTY(B03, history, 1, "a sequence of up to 40 operations (new, add entries, realloc/trim, grow, transpose, compress, permute, window, save/load, free) over up to 6 live containers, checked against a model after every step; non-trivial when at least 4 different kinds of operations touched a non-empty matrix") {
	U64 p = prime(c); std::vector<Slot> S; int steps = 1 + c.below(40); std::set<int> kinds; c.note("p=%llu:", (unsigned long long)p);
	for (int st = 0; st < steps; st++) {
		if (S.empty() || (S.size() < 6 && c.chance(1, 8))) { Slot s; s.p = p; s.n = c.below(c.big(6)); s.m = c.below(c.big(6)); s.values = !c.chance(1, 4); i64 cap = c.below(5); s.T = spasm_triplet_alloc(s.n, s.m, cap, s.values ? (i64)p : -1, s.values); S.push_back(s); c.note(" new%d(%dx%d,cap %d,v%d)", (int)S.size() - 1, s.n, s.m, (int)cap, s.values); audit(c, S.back(), "new"); continue; }
		int k = c.below(S.size()); Slot &s = S[k]; bool ne = !s.mod.empty(); const char *name = "?"; int op = -1;
		if (s.T) {
			op = c.weighted({8, 2, 2, 3, 2, 1});
			switch (op) {
			case 0: { int cnt = 1 + c.below(c.xl ? 300 : 6); for (int q = 0; q < cnt; q++) { int i = c.below(s.n + 2), j = c.below(s.m + 2); I64 x = val64(c, p); if (!s.mod.empty() && c.chance(1, 4)) { auto it = s.mod.begin(); std::advance(it, c.below(s.mod.size())); i = it->first.first; j = it->first.second; if (c.coin()) x = -bal(it->second, p); }
				U64 v = s.values ? tomod(x, p) : 1; spasm_add_entry(s.T, i, j, x); c.note(" add%d(%d,%d,%lld)", k, i, j, (long long)x);
				if (v) { auto key = std::make_pair(i, j); s.mod[key] = s.values ? addm(s.mod.count(key) ? s.mod[key] : 0, v, p) : 1; s.n = std::max(s.n, i + 1); s.m = std::max(s.m, j + 1); } else { s.n = s.T->n; s.m = s.T->m; } } name = "add_entry"; break; }
			case 1: { i64 nz = c.coin() ? -1 : s.T->nz + c.below(9); spasm_triplet_realloc(s.T, nz); c.note(" trealloc%d(%d)", k, (int)nz); CHECK(c, "history", s.T->nzmax == (nz < 0 ? s.T->nz : nz), "spasm_triplet_realloc: capacity %lld", (long long)s.T->nzmax); name = "triplet_realloc"; break; }
			case 2: { spasm_triplet_transpose(s.T); Model m; for (auto &e : s.mod) m[{e.first.second, e.first.first}] = e.second; s.mod = m; std::swap(s.n, s.m); c.note(" ttrans%d", k); name = "triplet_transpose"; break; }
			case 3: { if (S.size() >= 6) continue; Slot d; d.p = p; d.n = s.n; d.m = s.m; d.values = s.values; d.mod = clean(s.mod); d.C = spasm_compress(s.T); c.note(" compress%d", k); audit(c, s, "after compress (input)"); S.push_back(d); audit(c, S.back(), "compress"); if (ne) kinds.insert(3); continue; }
			case 4: { if (S.size() >= 6) continue; std::string f = saved([&](FILE *o) { spasm_triplet_save(s.T, o); }); FILE *in = reader(f); Slot d; d.p = p; d.values = !c.chance(1, 5); d.n = s.n; d.m = s.m; d.mod = s.mod; if (!s.values && d.values) { d.mod.clear(); for (i64 q = 0; q < s.T->nz; q++) { auto key = std::make_pair(s.T->i[q], s.T->j[q]); d.mod[key] = addm(d.mod.count(key) ? d.mod[key] : 0, 1, p); } } if (!d.values) { d.mod.clear(); for (i64 q = 0; q < s.T->nz; q++) d.mod[{s.T->i[q], s.T->j[q]}] = 1; }
				d.T = spasm_triplet_load(in, d.values ? (i64)p : -1, NULL); fclose(in); c.note(" tsaveload%d", k); S.push_back(d); audit(c, S.back(), "triplet save/load"); if (ne) kinds.insert(4); continue; }
			default: spasm_triplet_free(s.T); S.erase(S.begin() + k); c.note(" free%d", k); if (ne) kinds.insert(5); continue;
			}
			if (ne) kinds.insert(op); audit(c, S[k], name);
		} else {
			op = c.weighted({2, 3, 3, 3, 3, 2, 2});
			Slot d; d.p = p; d.values = s.values; d.n = s.n; d.m = s.m;
			switch (op) {
			case 0: { i64 nz = c.coin() ? -1 : spasm_nnz(s.C) + c.below(9); spasm_csr_realloc(s.C, nz); c.note(" crealloc%d(%d)", k, (int)nz); CHECK(c, "history", s.C->nzmax == (nz < 0 ? spasm_nnz(s.C) : nz), "spasm_csr_realloc: capacity %lld", (long long)s.C->nzmax); audit(c, s, "csr_realloc"); break; }
			case 1: { int n2 = s.n + c.below(5), m2 = s.m + c.below(5); spasm_csr_resize(s.C, n2, m2); s.n = n2; s.m = m2; c.note(" resize%d(%d,%d)", k, n2, m2); audit(c, s, "csr_resize"); break; }
			case 2: { if (S.size() >= 6) continue; bool kv = !c.chance(1, 4); d.values = kv && s.values; std::swap(d.n, d.m); for (auto &e : s.mod) d.mod[{e.first.second, e.first.first}] = e.second; d.C = spasm_transpose(s.C, kv); c.note(" trans%d(%d)", k, kv); S.push_back(d); audit(c, S.back(), "transpose"); break; }
			case 3: { if (S.size() >= 6) continue; auto rp = tperm(c, s.n), q = tperm(c, s.m); bool v = !c.chance(1, 4); d.values = v && s.values; std::vector<int> ri(s.n); for (int i = 0; i < s.n; i++) ri[rp[i]] = i; for (auto &e : s.mod) d.mod[{ri[e.first.first], q[e.first.second]}] = e.second; d.C = spasm_permute(s.C, rp.data(), q.data(), v); c.note(" permute%d(%d)", k, v); S.push_back(d); audit(c, S.back(), "permute"); break; }
			case 4: { if (S.size() >= 6) continue; int r0 = c.below(s.n + 1), r1 = r0 + c.below(s.n - r0 + 1), c0 = c.below(s.m + 1), c1 = c0 + c.below(s.m - c0 + 1); bool v = !c.chance(1, 4); d.values = v && s.values; d.n = r1 - r0; d.m = c1 - c0; for (auto &e : s.mod) if (e.first.first >= r0 && e.first.first < r1 && e.first.second >= c0 && e.first.second < c1) d.mod[{e.first.first - r0, e.first.second - c0}] = e.second; d.C = spasm_submatrix(s.C, r0, r1, c0, c1, v); c.note(" window%d(%d:%d,%d:%d)", k, r0, r1, c0, c1); S.push_back(d); audit(c, S.back(), "submatrix"); break; }
			case 5: { if (S.size() >= 6) continue; std::string f = saved([&](FILE *o) { spasm_csr_save(s.C, o); }); FILE *in = reader(f); d.values = true; for (auto &e : s.mod) d.mod[e.first] = s.values ? e.second : 1; d.T = spasm_triplet_load(in, (i64)p, NULL); fclose(in); c.note(" saveload%d", k); S.push_back(d); audit(c, S.back(), "csr save/load"); break; }
			default: spasm_csr_free(s.C); S.erase(S.begin() + k); c.note(" free%d", k); if (ne) kinds.insert(16); continue;
			}
			if (ne) kinds.insert(10 + op);
		}
		if (!S.empty()) audit(c, S[c.below(S.size())], "a container not involved in the last operation");
	}
	for (auto &s : S) { audit(c, s, "end of history"); if (s.T) spasm_triplet_free(s.T); else spasm_csr_free(s.C); }
	c.fed = false; c.h = 1469598103934665603ull; c.nontrivial(kinds.size() >= 4); c.label("kinds:%d", (int)kinds.size());
}

// ---------------------------------------------------------------- B04
static void cmp_trip(Ctx &c, const char *key, const spasm_triplet *T, const Model &want, int n, int m, bool values, U64 p) {
	CHECK(c, key, T->n == n && T->m == m, "loaded matrix is %dx%d, expected %dx%d", T->n, T->m, n, m); Model g;
	for (i64 k = 0; k < T->nz; k++) { CHECK(c, key, T->i[k] >= 0 && T->i[k] < n && T->j[k] >= 0 && T->j[k] < m, "loaded entry out of range"); auto kk = std::make_pair(T->i[k], T->j[k]); if (values) { CHECK(c, key, canonical(T->x[k], p), "loaded value %d not canonical", T->x[k]); g[kk] = addm(g.count(kk) ? g[kk] : 0, tomod(T->x[k], p), p); } else g[kk] = 1; }
	for (auto &e : want) if (e.second) CHECK(c, key, g.count(e.first) && g[e.first] == e.second, "coefficient (%d,%d): got %lld, expected %lld", e.first.first, e.first.second, g.count(e.first) ? (long long)bal(g[e.first], p) : 0LL, (long long)bal(e.second, p));
	for (auto &e : g) if (e.second) CHECK(c, key, want.count(e.first) && want.at(e.first), "unexpected coefficient at (%d,%d)", e.first.first, e.first.second);
}
PROPERTY(B04, roundtrip, 2, "a matrix in either container, with or without values, saved then loaded modulo the same prime") {
	U64 p = prime(c); Shape sh; sh.nmin = sh.mmin = 0; SMat A = matrix(c, p, sh); bool values = !c.chance(1, 4), trip = c.coin(); Model m; for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) m[{i, e.first}] = values ? e.second : 1; std::string f;
	if (trip) { spasm_triplet *T = spasm_triplet_alloc(A.n, A.m, 1, values ? (i64)p : -1, values); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) spasm_add_entry(T, i, e.first, bal(e.second, p)); f = saved([&](FILE *o) { spasm_triplet_save(T, o); }); spasm_triplet_free(T); }
	else { spasm_csr *C = to_csr(A, 2, values); f = saved([&](FILE *o) { spasm_csr_save(C, o); }); spasm_csr_free(C); }
	u8 h[32]; memset(h, 0, 32); bool wanth = c.coin(); FILE *in = reader(f); spasm_triplet *L = spasm_triplet_load(in, p, wanth ? h : NULL); fclose(in);
	c.note("values=%d triplet=%d ", values, trip); cmp_trip(c, "roundtrip", L, m, A.n, A.m, true, p);
	if (wanth) { auto w = Sha256::digest(f.data(), f.size()); CHECK(c, "digest", !memcmp(h, w.data(), 32), "the digest is not the SHA-256 of the %zu bytes of the file", f.size()); }
	spasm_triplet_free(L); c.nontrivial(A.nnz() > 0);
}
PROPERTY(B04, parse, 3, "a valid SMS or MatrixMarket text with random dimensions, comments, letter case, white space, duplicate entries, zero and extreme 64-bit values, possibly no entry, with or without final newline; non-trivial when it contains a comment, a duplicate or a value not already reduced") {
	U64 p = prime(c); bool mm = c.coin(), values = !c.chance(1, 6); int n = c.below(9), m = c.below(9); if (c.chance(1, 8)) { n = 1 + c.below(100000); m = 1 + c.below(100000); }
	auto es = entries(c, p, n, m, 12); Model mod; bool dup = false, big = false, com = false; std::string f; char b[200];
	if (mm) { static const char *hd[] = {"%%MatrixMarket matrix coordinate integer general", "%%MatrixMarket MATRIX Coordinate INTEGER General", "%%MatrixMarket  matrix   coordinate\tinteger general "}; f = hd[c.below(3)]; f += "\n"; int nc = c.below(4); bool many = c.chance(1, 14); if (many) nc = c.chance(1, 3) ? 1000 + c.below(100) : c.below(300); for (int k = 0; k < nc; k++) { com = true; switch (many ? 1 - (k & 1) : c.below(3)) { case 0: f += "%\n"; break; case 1: f += "% 3 3 3\n"; break; default: f += "%"; f += std::string(c.chance(1, 3) ? 1015 + c.below(7) : c.below(1022), 'x'); f += "\n"; } } snprintf(b, 200, "%d %d %zu\n", n, m, es.size()); f += b; }
	else { static const char *fm[] = {"%d %d M\n", "%d\t%d M\n", "  %d  %d   M  \n"}; snprintf(b, 200, fm[c.below(3)], n, m); f += b; }
	static const char *ef[] = {"%d %d %lld\n", "%d\t%d\t%lld\n", "  %d  %d  %lld  \n", "%07d %+d %022lld\n"}; int eform = c.below(4);
	for (auto &e : es) { snprintf(b, 200, ef[eform], e.i + 1, e.j + 1, (long long)e.x); f += b; U64 v = values ? tomod(e.x, p) : 1; auto k = std::make_pair(e.i, e.j); if (mod.count(k)) dup = true; mod[k] = values ? addm(mod.count(k) ? mod[k] : 0, v, p) : 1; if (!canonical(e.x, p)) big = true; }
	if (!mm) f += "0 0 0\n"; if (c.chance(1, 4) && !f.empty() && (es.size() || !mm)) f.pop_back();
	if (c.chance(1, 8)) { std::string g; for (char ch : f) { if (ch == '\n' && (g.empty() || g.size() - (g.rfind('\n') == std::string::npos ? 0 : g.rfind('\n') + 1) < 1000)) g += '\r'; g += ch; } f = g; c.label("line-ends:crlf"); }
	c.note("%s p=%llu values=%d text: %.500s ", mm ? "MM" : "SMS", (unsigned long long)p, values, f.c_str()); c.feed(f.data(), f.size()); c.label("fmt:%s", mm ? "MM" : "SMS");
	u8 h[32]; FILE *in = reader(f); spasm_triplet *L = spasm_triplet_load(in, values ? (i64)p : -1, h); fclose(in); if (!values) for (auto it = mod.begin(); it != mod.end(); ++it) it->second = 1;
	cmp_trip(c, "parse", L, mod, n, m, values, p); auto w = Sha256::digest(f.data(), f.size()); CHECK(c, "digest", !memcmp(h, w.data(), 32), "the digest is not the SHA-256 of the %zu bytes of the file", f.size());
	spasm_triplet_free(L); c.nontrivial(dup || big || com);
}

// ---------------------------------------------------------------- B06
// very long or very wide matrix (product of two of its extents beyond 31 and 32 bits), few entries
static SMat extent(Ctx &c, U64 p, bool tall) { int L = 46300 + c.below(c.coin() ? 100 : 100000), k = 1 + c.below(4); SMat A(tall ? L : k, tall ? k : L, p); Rng g = c.bulk(); int e = g.below(60); for (int t = 0; t < e; t++) { int a = g.chance(1, 2) ? L - 1 - (int)g.below(200) : (int)g.below(L), b = g.below(k), i = tall ? a : b, j = tall ? b : a; bool dup = false; for (auto &q : A.row[i]) dup |= q.first == j; if (!dup) A.row[i].push_back({j, (U32)(1 + g.below(p - 1))}); } feed(c, A); c.note("A=%s ", show(A, 300).c_str()); return A; }
// a rectangle of 2^16 entries (or one more, or one less) among a few others: many entries per pixel
static SMat crowded(Ctx &c, U64 p) { int lg = c.below(17), h = 1 << lg, w = 1 << (16 - lg), adj = c.below(3), full = c.coin(), n = full ? h : 2 * h, m = full ? w : 2 * w; SMat A(n, m, p); for (int i = 0; i < h; i++) for (int j = 0; j < w; j++) if (adj != 1 || i || j) A.row[i].push_back({j, 1}); if (adj == 2 && !full) A.row[h].push_back({0, 1}); c.feed64(lg * 10 + adj * 2 + full); c.note("2^%d x 2^%d entries %d %d", lg, 16 - lg, adj, full); c.label("65536 entries"); return A; }
PROPERTY(B06, image, 1, "a matrix with at least one row and column (up to 60x60, sometimes 0 entries), requested sizes from 1 to beyond the matrix, the three modes (colour mode with its decomposition); non-trivial when some pixels hold entries and some do not") {
	U64 p = 42013; bool wide = c.chance(1, 1000), tall = wide && c.coin(); SMat A = wide ? extent(c, p, tall) : c.chance(1, 2000) ? crowded(c, p) : matrix(c, p); if (A.n < 1 || A.m < 1) { A = SMat(1 + c.below(5), 1 + c.below(5), p); } bool values = c.coin(); spasm_csr *C = to_csr(A, 0, values); Snapshot s(C); int mode = 1 + c.below(3), x = 1 + c.below(A.m + 10), y = 1 + c.below(A.n + 10); if (wide) { mode = 1 + c.below(2); (tall ? y : x) = c.chance(3, 4) ? (tall ? A.n : A.m) - (int)c.below(3) : 1 + (int)c.below(300000); c.label("extent>46340"); } else if (A.nnz() > 60000) { x = 1 + c.below(4); y = 1 + c.below(4); mode = c.chance(2, 3) ? 2 : 1 + c.below(2); }
	c.note("mode=%d request %dx%d ", mode, x, y); c.feed64(mode * 1000000 + x * 1000 + y); spasm_dm *D = NULL; if (mode == 3) D = spasm_dulmage_mendelsohn(C);
	// in colour mode the caller passes the permuted matrix
	spasm_csr *B = C; if (D) { int *qi = spasm_pinv(D->q, A.m); B = spasm_permute(C, D->p, qi, 0); free(qi); }
	std::string f = saved([&](FILE *o) { spasm_save_pnm(B, o, x, y, mode, D); }); CHECK(c, "input", Snapshot(C) == s, "spasm_save_pnm modified the matrix");
	int w = std::min(x, A.m), h = std::min(y, A.n); const char *q = f.c_str(); char *e; std::vector<long> tok; CHECK(c, "format", q[0] == 'P' && q[1] == '0' + mode && q[2] == '\n', "bad magic number"); q += 3;
	for (;;) { while (*q == ' ' || *q == '\n') q++; if (!*q) break; long v = strtol(q, &e, 10); CHECK(c, "format", e != q, "non-numeric token '%.10s' in the image", q); tok.push_back(v); q = e; }
	size_t hd = mode == 1 ? 2 : 3, per = mode == 3 ? 3 : 1; CHECK(c, "format", tok.size() == hd + (size_t)w * h * per, "image holds %zu numbers, expected %zu", tok.size(), hd + (size_t)w * h * per); CHECK(c, "format", tok[0] == w && tok[1] == h, "image is %ldx%ld, expected %dx%d", tok[0], tok[1], w, h); if (hd == 3) CHECK(c, "format", tok[2] == 255, "maximum value %ld", tok[2]);
	std::vector<char> has((size_t)w * h, 0); for (int i = 0; i < A.n; i++) for (i64 k = B->p[i]; k < B->p[i + 1]; k++) has[(size_t)((I64)i * h / A.n) * w + (I64)B->j[k] * w / A.m] = 1; int on = 0;
	for (int k = 0; k < w * h; k++) { on += has[k]; if (mode == 1) CHECK(c, "pixel", tok[2 + k] == has[k], "pixel (%d,%d) is %ld but its rectangle %s", k / w, k % w, tok[2 + k], has[k] ? "contains an entry" : "is empty");
		else if (mode == 2) { CHECK(c, "pixel", tok[3 + k] >= 0 && tok[3 + k] <= 255, "grey level out of range"); CHECK(c, "pixel", (tok[3 + k] < 255) == (has[k] != 0), "grey pixel (%d,%d) is %ld but its rectangle %s", k / w, k % w, tok[3 + k], has[k] ? "contains an entry" : "is empty"); }
		else { long r = tok[3 + 3 * k], g = tok[4 + 3 * k], b = tok[5 + 3 * k]; CHECK(c, "pixel", r >= 0 && r <= 255 && g >= 0 && g <= 255 && b >= 0 && b <= 255, "colour out of range"); CHECK(c, "pixel", (r + g + b == 0) == (has[k] != 0), "colour pixel (%d,%d) is %ld %ld %ld but its rectangle %s", k / w, k % w, r, g, b, has[k] ? "contains an entry" : "is empty"); } }
	if (D) { // background: determined by the block of the decomposition the pixel lies in (pixels that straddle two blocks are left out)
		auto part = [](const int *b, int k, int e) { auto f = [&](int t) { return t < b[0] ? 0 : t < b[1] ? 1 : 2; }; return f(k) == f(e - 1) ? f(k) : -1; }; int lr[2] = {D->rr[1], D->rr[2]}, lc[2] = {D->cc[2], D->cc[3]};
		auto fine = [&](const int *b, int k, int e) { int t = 0; while (t < D->nb && b[t + 1] <= k) t++; return t < D->nb && e <= b[t + 1] ? t : -1; }; std::map<int, long> col; long below = -1;
		for (int i = 0; i < h; i++) { int r0 = ((I64)i * A.n + h - 1) / h, r1 = ((I64)(i + 1) * A.n + h - 1) / h, v = part(lr, r0, r1); if (v < 0) continue; for (int j = 0; j < w; j++) { size_t k = (size_t)i * w + j; if (has[k]) continue; int c0 = ((I64)j * A.m + w - 1) / w, c1 = ((I64)(j + 1) * A.m + w - 1) / w, u = part(lc, c0, c1); if (u < 0) continue;
			int cls = 10 + v * 3 + u; if (u < v) cls = 0; else if (u == 1 && v == 1) { int a = fine(D->r, r0, r1), b = fine(D->c, c0, c1); if (a < 0 || b < 0) continue; cls = b < a ? 0 : b == a ? 1 : 2; } long rgb = tok[3 + 3 * k] << 16 | tok[4 + 3 * k] << 8 | tok[5 + 3 * k]; auto it = col.insert({cls, rgb}).first; CHECK(c, "background", it->second == rgb, "two empty pixels of the same kind of block (%d) have colours %06lx and %06lx, the second at (%d,%d)", cls, it->second, rgb, i, j); } }
		for (auto &x : col) for (auto &y : col) CHECK(c, "background", x.first == y.first || x.second != y.second, "blocks of kind %d and %d have the same background %06lx", x.first, y.first, x.second); c.label("blocks:%zu", col.size()); (void)below; }
	c.label("mode:%d", mode); c.nontrivial(on > 0 && on < w * h); if (D) { spasm_dm_free(D); spasm_csr_free(B); } spasm_csr_free(C);
}
