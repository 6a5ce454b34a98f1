// Independent reference arithmetic, linear algebra, hashing and combinatorics (no code shared with the library).
#pragma once
#include "engine.hpp"
#include <algorithm>
#include <vector>
#include <map>
#include <queue>
#include <set>
#include <numeric>
extern "C" {
#include "spasm.h"
}
namespace ref {
using vt::U64; using vt::U32; using vt::I64; using vt::Ctx; using vt::Rng;
typedef unsigned __int128 U128;
inline U64 mulm(U64 a, U64 b, U64 p) { return (U64)((U128)a * b % p); }
inline U64 addm(U64 a, U64 b, U64 p) { U64 s = a + b; return s >= p ? s - p : s; }
inline U64 subm(U64 a, U64 b, U64 p) { return a >= b ? a - b : a + p - b; }
inline U64 powm(U64 a, U64 e, U64 p) { U64 r = 1 % p; a %= p; while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
inline U64 invm(U64 a, U64 p) { return powm(a, p - 2, p); }
inline U64 tomod(I64 x, U64 p) { I64 r = (I64)((__int128)x % (I64)p); return r < 0 ? (U64)(r + (I64)p) : (U64)r; }
inline I64 bal(U64 x, U64 p) { return x > p / 2 ? (I64)x - (I64)p : (I64)x; }
inline bool is_prime(U64 n) {
	if (n < 2) return false; for (U64 q : {2ull, 3ull, 5ull, 7ull, 11ull, 13ull, 17ull, 19ull, 23ull, 29ull, 31ull, 37ull}) { if (n % q == 0) return n == q; }
	U64 d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, s++;
	for (U64 a : {2ull, 3ull, 5ull, 7ull, 11ull, 13ull}) { U64 x = powm(a, d, n); if (x == 1 || x == n - 1) continue; bool ok = false; for (int i = 1; i < s && !ok; i++) { x = mulm(x, x, n); ok = x == n - 1; } if (!ok) return false; }
	return true;
}
// canonical balanced representative?
inline bool canonical(I64 x, U64 p) { I64 h = (I64)(p / 2); return p == 2 ? (x == 0 || x == 1) : (x >= -h && x <= h); }

struct DMat { int n, m; U64 p; std::vector<U32> a; DMat(int n_ = 0, int m_ = 0, U64 p_ = 3) : n(n_), m(m_), p(p_), a((size_t)n_ * m_, 0) {}
	U32 &at(int i, int j) { return a[(size_t)i * m + j]; } U32 at(int i, int j) const { return a[(size_t)i * m + j]; } 
	bool operator==(const DMat &o) const { return n == o.n && m == o.m && p == o.p && a == o.a; } };
// in-place reduced row echelon form. Returns the pivot columns; rows [0,r) are the reduced basis
inline std::vector<int> rref(DMat &M) {
	std::vector<int> piv; int r = 0; U64 p = M.p;
	for (int j = 0; j < M.m && r < M.n; j++) {
		int k = r; while (k < M.n && !M.at(k, j)) k++;
		if (k == M.n) continue;
		if (k != r) for (int t = 0; t < M.m; t++) std::swap(M.at(k, t), M.at(r, t));
		U64 iv = invm(M.at(r, j), p);
		for (int t = j; t < M.m; t++) M.at(r, t) = mulm(M.at(r, t), iv, p);
		for (int i = 0; i < M.n; i++) if (i != r && M.at(i, j)) { U64 f = p - M.at(i, j); for (int t = j; t < M.m; t++) if (M.at(r, t)) M.at(i, t) = (f * M.at(r, t) + M.at(i, t)) % p; }
		piv.push_back(j); r++;
	}
	return piv;
}
inline int rank(DMat M) { // forward elimination only
	int r = 0; U64 p = M.p;
	for (int j = 0; j < M.m && r < M.n; j++) {
		int k = r; while (k < M.n && !M.at(k, j)) k++;
		if (k == M.n) continue;
		if (k != r) for (int t = 0; t < M.m; t++) std::swap(M.at(k, t), M.at(r, t));
		U64 iv = invm(M.at(r, j), p);
		for (int i = r + 1; i < M.n; i++) if (M.at(i, j)) { U64 f = p - mulm(M.at(i, j), iv, p); for (int t = j; t < M.m; t++) if (M.at(r, t)) M.at(i, t) = (f * M.at(r, t) + M.at(i, t)) % p; }
		r++;
	}
	return r;
}
inline DMat mul(const DMat &A, const DMat &B) { DMat C(A.n, B.m, A.p); for (int i = 0; i < A.n; i++) for (int k = 0; k < A.m; k++) if (U64 f = A.at(i, k)) for (int j = 0; j < B.m; j++) C.at(i, j) = (f * B.at(k, j) + C.at(i, j)) % A.p; return C; }

// sparse matrix = rows of (column, residue in [1,p))
typedef std::vector<std::pair<int, U32>> SRow;
struct SMat { int n = 0, m = 0; U64 p = 3; std::vector<SRow> row; SMat() {} SMat(int n_, int m_, U64 p_) : n(n_), m(m_), p(p_), row(n_) {} 
	size_t nnz() const { size_t k = 0; for (auto &r : row) k += r.size(); return k; } };
inline DMat dense(const SMat &A) { DMat D(A.n, A.m, A.p); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) D.at(i, e.first) = (D.at(i, e.first) + (U64)e.second) % A.p; return D; }
inline SMat sparse(const DMat &D) { SMat A(D.n, D.m, D.p); for (int i = 0; i < D.n; i++) for (int j = 0; j < D.m; j++) if (D.at(i, j)) A.row[i].push_back({j, D.at(i, j)}); return A; }
inline DMat from_csr(const spasm_csr *A) { U64 p = A->field->p; DMat D(A->n, A->m, p); for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) D.at(i, A->j[k]) = addm(D.at(i, A->j[k]), tomod(A->x[k], p), p); return D; }
inline SMat sfrom_csr(const spasm_csr *A) { U64 p = A->field->p; SMat D(A->n, A->m, p); for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) D.row[i].push_back({A->j[k], (U32)tomod(A->x[k], p)}); return D; }
inline SMat normal(SMat A) { for (auto &r : A.row) { std::map<int, U64> q; for (auto &e : r) q[e.first] = (q[e.first] + e.second) % A.p; r.clear(); for (auto &e : q) if (e.second) r.push_back({e.first, (U32)e.second}); } return A; }
inline bool equal(const SMat &A, const SMat &B) { if (A.n != B.n || A.m != B.m) return false; SMat X = normal(A), Y = normal(B); return X.row == Y.row; }
inline spasm_csr *to_csr(const SMat &A, int extra = 0, bool values = true) {
	spasm_csr *C = spasm_csr_alloc(A.n, A.m, (i64)A.nnz() + extra, values ? (i64)A.p : -1, values); i64 k = 0;
	for (int i = 0; i < A.n; i++) { C->p[i] = k; for (auto &e : A.row[i]) { C->j[k] = e.first; if (values) C->x[k] = (spasm_ZZp)bal(e.second, A.p); k++; } }
	C->p[A.n] = k; return C;
}
struct Snapshot { int n, m; std::vector<i64> p; std::vector<int> j; std::vector<spasm_ZZp> x; i64 nzmax; bool v;
	explicit Snapshot(const spasm_csr *A) : n(A->n), m(A->m), p(A->p, A->p + A->n + 1), nzmax(A->nzmax), v(A->x != NULL) { i64 k = A->p[A->n]; j.assign(A->j, A->j + k); if (v) x.assign(A->x, A->x + k); }
	bool operator==(const Snapshot &o) const { return n == o.n && m == o.m && p == o.p && j == o.j && x == o.x; } };
// storage sanity of a CSR matrix returned by the library
inline void check_csr(Ctx &c, const char *key, const char *what, const spasm_csr *A, int n, int m, I64 p, bool nodup = true, bool nozero = true, bool sorted = false) {
	CHECK(c, key, A != NULL, "%s: NULL matrix", what);
	CHECK(c, key, A->n == n && A->m == m, "%s: dimensions %d x %d, expected %d x %d", what, A->n, A->m, n, m);
	if (p > 0) CHECK(c, key, A->field->p == p, "%s: modulus %lld, expected %lld", what, (long long)A->field->p, (long long)p);
	CHECK(c, key, A->p[0] == 0, "%s: row pointers start at %lld", what, (long long)A->p[0]);
	for (int i = 0; i < n; i++) CHECK(c, key, A->p[i] <= A->p[i + 1], "%s: row pointers decrease at row %d (%lld > %lld)", what, i, (long long)A->p[i], (long long)A->p[i + 1]);
	CHECK(c, key, A->p[n] <= A->nzmax, "%s: %lld entries for a capacity of %lld", what, (long long)A->p[n], (long long)A->nzmax);
	std::vector<int> seen(m, -1);
	for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) {
		int j = A->j[k];
		CHECK(c, key, j >= 0 && j < m, "%s: row %d has an entry on column %d (m=%d)", what, i, j, m);
		if (nodup) CHECK(c, key, seen[j] != i, "%s: row %d has two entries on column %d", what, i, j);
		seen[j] = i;
		if (A->x && A->field->p > 0) { CHECK(c, key, canonical(A->x[k], A->field->p), "%s: entry (%d,%d) = %d is not a canonical residue modulo %lld", what, i, j, A->x[k], (long long)A->field->p);
			if (nozero) CHECK(c, key, A->x[k] != 0, "%s: explicit zero stored at (%d,%d)", what, i, j); }
	}
}
// first differing coefficient, for messages
inline std::string diff(const DMat &A, const DMat &B) {
	char b[160]; if (A.n != B.n || A.m != B.m) { snprintf(b, 160, "dimensions %dx%d vs %dx%d", A.n, A.m, B.n, B.m); return b; }
	for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (A.at(i, j) != B.at(i, j)) { snprintf(b, 160, "coefficient (%d,%d) is %u, expected %u", i, j, A.at(i, j), B.at(i, j)); return b; }
	return "";
}
inline std::string show(const SMat &A, size_t maxlen = 700) {
	char b[64]; snprintf(b, 64, "%dx%d mod %llu {", A.n, A.m, (unsigned long long)A.p); std::string s = b;
	for (int i = 0; i < A.n && s.size() < maxlen; i++) { if (A.row[i].empty()) continue; snprintf(b, 64, "%d:", i); s += b; for (auto &e : A.row[i]) { if (s.size() > maxlen) { s += "..."; break; } snprintf(b, 64, "(%d)%lld ", e.first, (long long)bal(e.second, A.p)); s += b; } }
	return s + "}";
}

// row-by-row sparse echelon basis (dictionary by pivot column); independent sparse rank for big sparse inputs
struct SparseElim {
	U64 p; int m; std::vector<int> piv_of, pcol; std::vector<SRow> rows; std::vector<U64> w; std::vector<char> mark;
	SparseElim(int m_, U64 p_) : p(p_), m(m_), piv_of(m_, -1), w(m_, 0), mark(m_, 0) {}
	// reduces the row; returns true and adds it when independent. Pivot choice: a column of minimal weight given
	bool add(const SRow &r, const std::vector<int> &colw) {
		std::vector<int> touched;
		for (auto &e : r) { if (!mark[e.first]) { mark[e.first] = 1; touched.push_back(e.first); } w[e.first] = (w[e.first] + e.second) % p; }
		// a stored row has no entry on the pivot of an earlier one: eliminating in order of creation, each pivot is used at most once
		std::priority_queue<int, std::vector<int>, std::greater<int>> todo; for (int j : touched) if (piv_of[j] >= 0) todo.push(piv_of[j]);
		int last = -1; while (!todo.empty()) { int q = todo.top(); todo.pop(); if (q == last) continue; last = q; int j = pcol[q]; if (!w[j]) continue; U64 f = p - w[j];
			for (auto &e : rows[q]) { int k = e.first; if (!mark[k]) { mark[k] = 1; touched.push_back(k); if (piv_of[k] >= 0) todo.push(piv_of[k]); } w[k] = (w[k] + f * e.second) % p; } }
		int best = -1; for (int j : touched) if (w[j] && (best < 0 || colw[j] < colw[best])) best = j;
		bool ok = best >= 0;
		if (ok) { U64 iv = invm(w[best], p); SRow q; for (int j : touched) if (w[j]) q.push_back({j, (U32)mulm(w[j], iv, p)}); piv_of[best] = rows.size(); pcol.push_back(best); rows.push_back(q); }
		for (int j : touched) { w[j] = 0; mark[j] = 0; }
		return ok;
	}
};
inline int sparse_rank(const SMat &A) {
	SparseElim E(A.m, A.p); std::vector<int> cw(A.m, 0), ord(A.n); for (auto &r : A.row) for (auto &e : r) cw[e.first]++;
	std::iota(ord.begin(), ord.end(), 0); std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return A.row[a].size() < A.row[b].size(); });
	int r = 0; for (int i : ord) r += E.add(A.row[i], cw); return r;
}
inline int any_rank(const SMat &A) { if ((size_t)A.n * A.m <= 40000) return rank(dense(A)); return sparse_rank(A); }

// SHA-256 (FIPS 180-4)
struct Sha256 {
	U32 h[8]; std::vector<uint8_t> buf; U64 len = 0;
	static U32 ror(U32 x, int k) { return x >> k | x << (32 - k); }
	Sha256() { static const U32 i[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19}; memcpy(h, i, 32); }
	static const U32 *K() { static U32 k[64]; static bool init = false; if (!init) { // cube roots of the first 64 primes, fractional bits
			int n = 0; for (U64 q = 2; n < 64; q++) if (is_prime(q)) { U128 lo = 0, hi = (U128)8 << 32; while (hi - lo > 1) { U128 mid = (lo + hi) / 2; // mid^3 <= q * 2^96 ?
					if (mid * mid * mid <= ((U128)q << 96)) lo = mid; else hi = mid; } k[n++] = (U32)lo; } init = true; } return k; }
	void block(const uint8_t *b) { U32 w[64]; for (int i = 0; i < 16; i++) w[i] = (U32)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3];
		for (int i = 16; i < 64; i++) { U32 s0 = ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3), s1 = ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10); w[i] = w[i - 16] + s0 + w[i - 7] + s1; }
		U32 v[8]; memcpy(v, h, 32); const U32 *k = K();
		for (int i = 0; i < 64; i++) { U32 t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i]; U32 t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2; }
		for (int i = 0; i < 8; i++) h[i] += v[i]; }
	static std::vector<uint8_t> digest(const void *d, size_t n) { Sha256 s; const uint8_t *b = (const uint8_t *)d; size_t i = 0; for (; i + 64 <= n; i += 64) s.block(b + i);
		uint8_t t[128]; memset(t, 0, 128); memcpy(t, b + i, n - i); t[n - i] = 0x80; int L = n - i + 9 <= 64 ? 64 : 128; U64 bits = (U64)n * 8; for (int k = 0; k < 8; k++) t[L - 1 - k] = bits >> (8 * k);
		s.block(t); if (L == 128) s.block(t + 64); std::vector<uint8_t> o(32); for (int k = 0; k < 8; k++) for (int q = 0; q < 4; q++) o[4 * k + q] = s.h[k] >> (24 - 8 * q); return o; }
};
// documented random generator: SHA-256 in counter mode over (seed, prime, counter, sequence)
struct RefPrng { uint8_t block[44]; U32 ctr = 0; std::vector<uint8_t> h; int i = 0; U64 p; U32 mask;
	RefPrng(const uint8_t *seed, U64 prime, U32 seq) : p(prime) { memcpy(block, seed, 32); be(32, prime); be(36, 0); be(40, seq); U64 m = 1; while (m < p) m <<= 1; mask = m - 1; fillb(); }
	void be(int k, U32 v) { for (int q = 0; q < 4; q++) block[k + q] = v >> (24 - 8 * q); }
	void fillb() { be(36, ctr); h = Sha256::digest(block, 44); ctr++; i = 0; }
	U32 u32() { if (i == 8) fillb(); U32 v = (U32)h[4 * i] << 24 | h[4 * i + 1] << 16 | h[4 * i + 2] << 8 | h[4 * i + 3]; i++; return v; }
	U64 zzp() { for (;;) { U32 x = u32() & mask; if (x < p) return x; } } };
// maximum bipartite matching size (Hopcroft-Karp-free: simple augmenting, different from the library's)
inline int max_matching(const std::vector<std::vector<int>> &adj, int m, std::vector<int> *ri = nullptr, std::vector<int> *ci = nullptr) {
	int n = adj.size(); std::vector<int> R(n, -1), C(m, -1), seen(m, -1); int k = 0;
	std::vector<int> par(m, -1);
	for (int s = 0; s < n; s++) { // BFS augmentation
		std::vector<int> q = {s}; int endc = -1;
		for (size_t h = 0; h < q.size() && endc < 0; h++) for (int j : adj[q[h]]) if (seen[j] != s) { seen[j] = s; par[j] = q[h]; if (C[j] < 0) { endc = j; break; } q.push_back(C[j]); }
		if (endc >= 0) { k++; while (endc >= 0) { int i = par[endc], nx = R[i]; R[i] = endc; C[endc] = i; endc = nx; } } }
	if (ri) *ri = R; if (ci) *ci = C; return k;
}
}
