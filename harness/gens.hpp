// Generators of primes, matrices and options from choice tapes.
#pragma once
#include "ref.hpp"
namespace gen {
using namespace ref;
inline U64 next_prime(U64 x) { if (x <= 3) return 3; if (!(x & 1)) x++; while (!is_prime(x)) x += 2; return x; }
inline U64 prev_prime(U64 x) { if (!(x & 1)) x--; while (!is_prime(x)) x -= 2; return x; }
static const U64 PMAX = 4294967291ull;
// odd primes up to 2^32-5, boundary values of the representations used by the library over-represented
inline U64 prime(Ctx &c, U64 limit = PMAX) {
	static const std::vector<U64> fixed = {7, 3, 5, 11, 251, 257, 8179, 8191, 8209, 42013, 65521, 65537, 67108859, 94906249, 94906297, 189812507, 189812531, 189812533, 2147483629, 2147483647, 2147483659, 4294967279, 4294967291};
	U64 p;
	switch (c.weighted({6, 3, 2, 2})) {
	case 0: p = fixed[c.below(fixed.size())]; break;
	case 1: p = 42013; break;
	case 2: { int b = c.range(2, 32); U64 lo = 1ull << (b - 1); p = next_prime(lo + c.below((U32)std::min<U64>(lo, 0xffffffffu))); break; }
	default: { U64 base = fixed[c.below(fixed.size())]; p = c.coin() ? next_prime(base + 1) : (base > 5 ? prev_prime(base - 2) : 3); break; }
	}
	if (p > PMAX) p = PMAX; if (p < 3) p = 3;
	if (p > limit) p = prev_prime(limit);
	while (!is_prime(p)) p = next_prime(p + 2);
	c.feed64(p);
	const char *cl = p < 10 ? "tiny" : p <= 8191 ? "<=8191" : p <= 189812531 ? "<=189812531" : p < (1ull << 31) ? "<2^31" : ">2^31"; c.label("p:%s", cl);
	return p;
}
inline U64 value(Ctx &c, U64 p) {        // any residue, small tape footprint, shrinks to 1
	switch (c.weighted({5, 3, 3, 2, 1})) {
	case 0: return 1; case 1: return p - 1; case 2: return 1 + c.below((U32)std::min<U64>(p - 1, 12)); case 3: return p / 2 + c.below(2);
	default: return 1 + c.below((U32)(p - 1)); }
}
inline U64 rvalue(Rng &r, U64 p, int mode) {  // non-zero residue
	switch (mode) { case 0: return 1 + r.below64(p - 1); case 1: return 1; case 2: return r.chance(1, 2) ? 1 : p - 1; case 3: return (p / 2 + r.below(2)) % p ? (p / 2 + r.below(2)) : 1; default: return 1 + r.below64(std::min<U64>(p - 1, 3)); }
}
inline void shuffle_row(Rng &r, SRow &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); }
inline std::vector<int> rperm(Rng &r, int n) { std::vector<int> p(n); std::iota(p.begin(), p.end(), 0); for (int i = n; i > 1; i--) std::swap(p[i - 1], p[r.below(i)]); return p; }
inline SMat permute(const SMat &A, const std::vector<int> &rp, const std::vector<int> &cp) { SMat B(A.n, A.m, A.p); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) B.row[rp[i]].push_back({cp[e.first], e.second}); return B; }
inline SRow srow(Rng &r, int m, double d, U64 p, int vm) { SRow o; if (d >= 0.15 || m < 40) { for (int j = 0; j < m; j++) if (r.unit() < d) o.push_back({j, (U32)rvalue(r, p, vm)}); }
	else { std::set<int> s; int k = (int)(d * m) + (r.unit() < d * m - (int)(d * m)); for (int t = 0; t < k; t++) s.insert(r.below(m)); for (int j : s) o.push_back({j, (U32)rvalue(r, p, vm)}); } return o; }
inline SRow combo(Rng &r, const std::vector<SRow> &base, int k, U64 p, int vm) { std::map<int, U64> q; for (int t = 0; t < k && !base.empty(); t++) { U64 f = rvalue(r, p, vm); for (auto &e : base[r.below(base.size())]) q[e.first] = (q[e.first] + f * e.second) % p; }
	SRow o; for (auto &e : q) if (e.second) o.push_back({e.first, (U32)e.second}); return o; }

// a matrix whose every coefficient is a tape choice (shrinks entry by entry)
inline SMat explicit_matrix(Ctx &c, U64 p, int maxn, int maxm) {
	int n = c.below(maxn + 1), m = c.below(maxm + 1); SMat A(n, m, p); int den = c.pick(std::vector<int>{2, 3, 1, 5});
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (c.chance(1, den)) A.row[i].push_back({j, (U32)(value(c, p) % p ? value(c, p) % p : 1)});
	for (int i = 0; i < n; i++) for (size_t k = 0; k < A.row[i].size(); k++) if (!A.row[i][k].second) A.row[i][k].second = 1;
	return A;
}
struct Shape { int nmin = 1, nmax = 60, mmin = 1, mmax = 60; };
static const char *kind_names[] = {"random", "lowrank", "triangular", "duplicated", "banded", "blocks", "pivots+core", "few/row", "holes", "planted-sparse", "tall-combos", "staircase", "arrow"};
inline SMat bulk_matrix(Ctx &c, U64 p, const Shape &sh0, int kind = -1) {
	Shape sh = sh0; if (c.xl) { if (sh.nmin < sh.nmax) sh.nmax = c.big(sh.nmax); if (sh.mmin < sh.mmax) sh.mmax = c.big(sh.mmax); }
	if (kind < 0) kind = c.below(13);
	int n = c.range(sh.nmin, sh.nmax), m = c.range(sh.mmin, sh.mmax);
	switch (c.weighted({4, 2, 1, 1})) { case 1: { int lo = std::max(sh.nmin, sh.mmin), hi = std::min(sh.nmax, sh.mmax); if (lo <= hi) { n = std::max(lo, std::min(n, hi)); m = n; } break; }
		case 2: m = std::max(sh.mmin, m / 4); break; case 3: n = std::max(sh.nmin, n / 4); break; default: break; }
	if (c.strip) { bool fn = sh.nmin < sh.nmax, fm = sh.mmin < sh.mmax; int big = c.pick(std::vector<int>{32760, 65530, 65536, 98304}) + (int)c.below(c.coin() ? 40 : 40000), small = 1 + (int)c.below(4); if (fn && (!fm || c.coin())) { n = big; if (fm) m = std::max(small, sh.mmin); } else if (fm) { m = big; if (fn) n = std::max(small, sh.nmin); } }   // one huge dimension
	int vm = c.below(5); int dmode = c.below(6); Rng r = c.bulk();
	static const double ds[6] = {0.1, 0.3, 0.6, 1.0, 0.03, 0.0}; double d = ds[dmode]; if (dmode == 5) d = 2.5 / (m + 1); double dl = 0.3; if (c.strip) d = std::min(d, 400000.0 / ((double)n * m + 1)); if (c.xl) { d = std::min(d, 20000.0 / ((double)n * m + 1)); dl = 30.0 / (m + 100); }
	SMat A(n, m, p); int mn = std::min(n, m);
	switch (kind) {
	case 0: for (auto &x : A.row) x = srow(r, m, d, p, vm); break;
	case 1: { int k = r.below(mn + 1); if (r.chance(1, 2)) k = std::min(k, 1 + (int)r.below(4)); std::vector<SRow> b; for (int i = 0; i < k; i++) b.push_back(srow(r, m, std::max(d, dl), p, vm)); for (auto &x : A.row) x = combo(r, b, k, p, 0); break; }
	case 2: { int k = r.chance(1, 2) ? mn : r.below(mn + 1); for (int i = 0; i < k; i++) { SRow s = srow(r, m, d, p, vm), o; o.push_back({i, (U32)rvalue(r, p, r.chance(1, 2) ? 1 : vm)}); for (auto &e : s) if (e.first > i) o.push_back(e); A.row[i] = o; }
		std::vector<SRow> b(A.row.begin(), A.row.begin() + k); for (int i = k; i < n; i++) if (r.chance(2, 3)) A.row[i] = combo(r, b, 1 + r.below(3), p, vm); break; }
	case 3: { int k = 1 + r.below(std::max(1, n / 2)); for (int i = 0; i < n; i++) if (i < k) A.row[i] = srow(r, m, d, p, vm); else { A.row[i] = A.row[r.below(i)]; if (r.chance(1, 2)) { U64 f = rvalue(r, p, 0); for (auto &e : A.row[i]) e.second = mulm(e.second, f, p); } } break; }
	case 4: { int w = 1 + r.below(5); for (int i = 0; i < n; i++) { int cj = n > 1 ? (long)i * (m - 1) / (n - 1) : 0; for (int j = std::max(0, cj - w); j <= std::min(m - 1, cj + w); j++) if (r.chance(3, 4)) A.row[i].push_back({j, (U32)rvalue(r, p, vm)}); } break; }
	case 5: { int bs = 1 + r.below(std::max(1, mn / 2)); for (int i = 0; i < n; i++) { int b = i / bs; for (int j = b * bs; j < std::min(m, (b + 1) * bs); j++) if (r.unit() < 0.7) A.row[i].push_back({j, (U32)rvalue(r, p, vm)}); if (r.chance(1, 4)) { int j = r.below(m); bool dup = false; for (auto &e : A.row[i]) dup |= e.first == j; if (!dup) A.row[i].push_back({j, (U32)rvalue(r, p, vm)}); } } break; }
	case 6: { int k = r.below(mn + 1); for (int i = 0; i < n; i++) { if (i < k) { A.row[i].push_back({i, (U32)rvalue(r, p, vm)}); int t = r.below(4); for (int q = 0; q < t; q++) { int j = i + 1 + r.below(std::max(1, m - i - 1)); if (j < m) { bool dup = false; for (auto &e : A.row[i]) dup |= e.first == j; if (!dup) A.row[i].push_back({j, (U32)rvalue(r, p, vm)}); } } }
			else A.row[i] = srow(r, m, std::max(d, dl), p, vm); }
		if (k < n && r.chance(1, 2)) { std::vector<SRow> b; int rk = 1 + r.below(4); for (int i = 0; i < rk; i++) b.push_back(srow(r, m, 0.5, p, vm)); for (int i = k; i < n; i++) A.row[i] = combo(r, b, rk, p, 0); } break; }
	case 7: for (auto &x : A.row) { std::set<int> s; int k = r.below(4); while (k--) s.insert(r.below(m)); for (int j : s) x.push_back({j, (U32)rvalue(r, p, vm)}); } break;
	case 8: for (auto &x : A.row) if (r.chance(2, 3)) { x = srow(r, m, d, p, vm); SRow o; for (auto &e : x) if (e.first % 3) o.push_back(e); x = o; } break;
	case 9: { int k = r.below(mn + 1); std::vector<SRow> b; for (int i = 0; i < k; i++) { SRow s = srow(r, m, 2.0 / (m + 1), p, vm); bool has = false; for (auto &e : s) has |= e.first == i; if (!has) s.push_back({i, (U32)rvalue(r, p, vm)}); b.push_back(s); } for (int i = 0; i < n; i++) A.row[i] = i < k && r.chance(1, 2) ? b[i] : combo(r, b, 1 + r.below(3), p, vm); break; }
	case 10: { int k = std::min(1 + (int)r.below(6), mn); std::vector<SRow> b; for (int i = 0; i < k; i++) b.push_back(srow(r, m, std::max(d, std::min(dl, 0.2)), p, vm)); for (int i = 0; i < n; i++) A.row[i] = i >= n - k && r.chance(1, 2) ? b[i - (n - k)] : combo(r, b, 1 + r.below(2), p, vm); break; }
	case 11: { for (int i = 0; i < n; i++) { int s = n > 1 ? (long)i * m / n : 0; A.row[i].push_back({s, (U32)rvalue(r, p, vm)}); for (int j = s + 1; j < m; j++) if (r.unit() < d) A.row[i].push_back({j, (U32)rvalue(r, p, vm)}); } break; }
	case 12: { for (int i = 0; i < n; i++) { if (i < m) A.row[i].push_back({i, (U32)rvalue(r, p, vm)}); if (i == 0) for (int j = 1; j < m; j++) A.row[0].push_back({j, (U32)rvalue(r, p, vm)}); else if (r.chance(9, 10)) { if (i) A.row[i].push_back({0, (U32)rvalue(r, p, vm)}); } } break; }
	}
	// keep the generators honest: in range, no zero, no duplicate
	for (auto &x : A.row) { std::set<int> s; SRow o; for (auto &e : x) if (e.second && e.first < m && s.insert(e.first).second) o.push_back(e); x.swap(o); }
	int post = c.below(4);
	if (post & 1) { A = permute(A, rperm(r, n), rperm(r, m)); }
	if (post & 2) for (auto &x : A.row) shuffle_row(r, x);
	c.label("kind:%s", kind_names[kind]);
	return A;
}
inline void feed(Ctx &c, const SMat &A) { c.feed64(((U64)A.n << 32) | (U32)A.m); c.feed64(A.p); for (int i = 0; i < A.n; i++) { c.feed64(0xabcdef + i); for (auto &e : A.row[i]) { c.feed64(((U64)e.first << 32) | e.second); } } }
inline SMat matrix(Ctx &c, U64 p, const Shape &sh = Shape(), int explicit_weight = 2) {
	SMat A = c.weighted({c.xl || c.strip ? 0 : explicit_weight, 5}) == 0 ? explicit_matrix(c, p, std::min(8, sh.nmax), std::min(8, sh.mmax)) : bulk_matrix(c, p, sh);
	feed(c, A); c.note("A=%s ", show(A).c_str());
	return A;
}
}
