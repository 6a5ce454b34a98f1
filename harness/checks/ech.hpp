// Generated systems of known pivots (rows with unit pivots, triangular up to permutation) and reference elimination.
#pragma once
#include "../gens.hpp"
namespace gen {
struct Ech { SMat U; std::vector<int> qinv, pc; int first = 0; };     // pc[i] = pivot column of row i, or -1
struct EchOpt { bool inorder = false, pivfirst = false, extra = false; };
// strip streams: thousands of rows with a few entries each, most of them on one long chain of eliminations
inline Ech long_echelon(Ctx &c, U64 p, int m, EchOpt o) {
	int r = c.coin() ? m - c.below(std::min(6, m)) : c.below(m + 1), vm = c.below(5), chain = c.below(3), fill = c.below(3); bool shuf = !o.inorder && c.coin(), ident = c.coin(); Rng g = c.bulk(); Ech E; E.qinv.assign(m, -1);
	std::vector<int> cols(m); std::iota(cols.begin(), cols.end(), 0); if (!ident) cols = rperm(g, m);
	std::vector<int> rowof(r); std::iota(rowof.begin(), rowof.end(), 0); if (shuf) rowof = rperm(g, r); E.U = SMat(r, m, p); E.pc.assign(r, -1); E.first = cols[0];
	for (int k = 0; k < r; k++) { SRow x; x.push_back({cols[k], 1}); std::set<int> js; if (k + 1 < m && !(chain == 2 && g.chance(1, 50)) && (chain || g.chance(1, 2))) js.insert(k + 1); for (int t = 0; t < fill && k + 1 < m; t++) if (g.chance(1, 2)) js.insert(g.chance(1, 3) ? m - 1 - g.below(std::min<int>(m - k - 1, 10)) : k + 1 + g.below(std::min<int>(m - k - 1, 1 + g.below(300))));
		for (int j : js) x.push_back({cols[j], (U32)rvalue(g, p, vm)}); if (!o.pivfirst) shuffle_row(g, x); E.U.row[rowof[k]] = x; E.pc[rowof[k]] = cols[k]; E.qinv[cols[k]] = rowof[k]; }
	feed(c, E.U); c.note("U=%d long rows chain=%d fill=%d ", r, chain, fill); return E;
}
inline Ech echelon(Ctx &c, U64 p, int m, int rmax, EchOpt o) {
	if (c.strip && m > 1000 && rmax > 1000) return long_echelon(c, p, m, o);
	int r = m ? c.below(std::min(rmax, m) + 1) : 0, ex = o.extra ? c.below(4) : 0; int dm = c.below(5), vm = c.below(5); bool shuf = !o.inorder && c.coin(); Rng g = c.bulk();
	static const double ds[5] = {0.25, 0.6, 1.0, 0.05, 0.0}; double d = ds[dm]; if (c.xl) d = std::min(d, 3.0 / (m + 1) * (1 + dm));
	Ech E; E.qinv.assign(m, -1); std::vector<int> cols = rperm(g, m); cols.resize(r);
	std::vector<int> rank_of(m, -1); for (int k = 0; k < r; k++) rank_of[cols[k]] = k;
	std::vector<int> rowof(r + ex); std::iota(rowof.begin(), rowof.end(), 0); if (shuf || ex) rowof = rperm(g, r + ex);
	E.U = SMat(r + ex, m, p); E.pc.assign(r + ex, -1);
	for (int k = 0; k < r; k++) {
		SRow x; x.push_back({cols[k], 1}); int fill = 0;
		for (int j = 0; j < m; j++) if (j != cols[k] && (rank_of[j] < 0 || rank_of[j] > k)) { bool put = d > 0 ? g.unit() < d : g.unit() < 1.5 / m; if (put) { x.push_back({j, (U32)rvalue(g, p, vm)}); fill++; } }
		if (!o.pivfirst) shuffle_row(g, x); else if (x.size() > 2) { for (size_t i = x.size() - 1; i > 1; i--) std::swap(x[i], x[1 + g.below(i)]); }
		E.U.row[rowof[k]] = x; E.pc[rowof[k]] = cols[k]; E.qinv[cols[k]] = rowof[k];
	}
	for (int k = r; k < r + ex; k++) E.U.row[rowof[k]] = srow(g, m, 0.3, p, vm);
	feed(c, E.U); c.note("U=%s ", show(E.U, 400).c_str());
	return E;
}
// reduces a dense row by the pivots; coefficient of every row of U used
inline std::vector<U64> reduce(const Ech &E, std::vector<U64> &y) {
	U64 p = E.U.p; std::vector<U64> x(E.U.n, 0); bool again = true; int guard = 0;
	while (again && guard++ <= E.U.n + 1) { again = false; for (int i = 0; i < E.U.n; i++) { int j = E.pc[i]; if (j < 0 || !y[j]) continue; again = true; U64 f = y[j]; x[i] = (x[i] + f) % p; for (auto &e : E.U.row[i]) y[e.first] = subm(y[e.first], mulm(f, e.second, p), p); } }
	return x;
}
inline std::vector<U64> drow(const SMat &A, int i) { std::vector<U64> y(A.m, 0); for (auto &e : A.row[i]) y[e.first] = (y[e.first] + e.second) % A.p; return y; }
inline std::vector<int> subset(Ctx &c, int n) {   // a random injection of [0,k) into [0,n)
	Rng g(0); int k; switch (c.below(3)) { case 0: k = n; break; case 1: k = n ? c.below(n + 1) : 0; break; default: { std::vector<int> id(n); std::iota(id.begin(), id.end(), 0); return id; } }
	g = c.bulk(); std::vector<int> p = rperm(g, n); p.resize(k); return p; }
// heap copies of exact size, so that the address sanitizer sees every overrun
template <class T> struct Heap { T *p; size_t n; Heap(const std::vector<T> &v) : n(v.size()) { p = (T *)malloc(n * sizeof(T)); if (n) memcpy(p, v.data(), n * sizeof(T)); } Heap(size_t n_, T v) : n(n_) { p = (T *)malloc(n * sizeof(T)); for (size_t i = 0; i < n; i++) p[i] = v; } ~Heap() { free(p); } Heap(const Heap &) = delete; operator T *() { return p; } T &operator[](size_t i) { return p[i]; } };
inline std::vector<spasm_ZZp> bvec(Ctx &c, int n, U64 p) { std::vector<spasm_ZZp> v(n); int vm = c.below(6); Rng g = c.bulk(); for (auto &x : v) x = vm == 5 ? 0 : g.chance(1, 4) ? 0 : (spasm_ZZp)bal(rvalue(g, p, vm), p); return v; }
inline void triplet_of(const spasm_triplet *L, std::map<std::pair<int, int>, U64> &out, U64 p, i64 from, Ctx &c, const char *key) { for (i64 k = from; k < L->nz; k++) { auto q = std::make_pair(L->i[k], L->j[k]); CHECK(c, key, !out.count(q), "elimination coefficient (%d,%d) recorded twice", q.first, q.second); out[q] = tomod(L->x[k], p); } }
}
