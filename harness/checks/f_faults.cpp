// F02: allocation failures. F03: histories of calls in one process. F04: memory in use afterwards. F05: calls from several threads.
#include "spec.hpp"
using namespace vt; using namespace gen;
struct World {          // valid inputs for every operation, built without injected faults
	U64 p; SMat A; int rk; spasm_csr *M, *Mt; spasm_lu *f, *fl; spasm_csr *R; std::vector<int> rq; spasm_csr *RB; SMat Rh; std::string sms, cert; uint8_t hash[32]; spasm_rank_certificate *pf; Basis B, Bl; echelonize_opts o, ol; std::vector<int> pr, pc; Rng g{1}; spasm_triplet *T; };
static World build(Ctx &c, int mx) {
	World w; w.p = prime(c); sched_draw(c, variant_is_sched ? 0 : 1); w.A = matrix(c, w.p, Shape{0, mx, 0, mx}); SMat &A = w.A; w.rk = any_rank(A); w.M = to_csr(A); w.o = draw_opts(c, NO_L); w.ol = draw_opts(c, 1 + c.below(2)); if (w.o.dense_block_size > 50) w.o.dense_block_size = 50; if (w.ol.dense_block_size > 50) w.ol.dense_block_size = 50;
	echelonize_opts o = w.o, ol = w.ol; w.f = spasm_echelonize(w.M, &o); w.fl = spasm_echelonize(w.M, &ol); w.B = check_echelon(c, A, w.f, w.rk); w.Bl = check_echelon(c, A, w.fl, w.rk); check_LU(c, A, w.fl, w.Bl, w.ol.complete); w.rq.assign(A.m + 1, -1); w.R = spasm_rref(w.f, w.rq.data()); check_rref(c, w.B, w.R, w.rq.data());
	w.Rh = draw_rhs(c, A, 4); w.RB = to_csr(w.Rh); w.g = c.bulk(); w.pr = rperm(w.g, A.n); w.pc = rperm(w.g, A.m); for (auto &h : w.hash) h = w.g.below(256); w.pf = spasm_certificate_rank_create(w.M, w.hash, w.fl); w.T = spasm_triplet_alloc(A.n, A.m, A.nnz() + 1, w.p, true); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) spasm_add_entry(w.T, i, e.first, bal(e.second, w.p));
	w.sms = saved([&](FILE *o) { spasm_csr_save(w.M, o); }); w.cert = saved([&](FILE *o) { spasm_rank_certificate_save(w.pf, o); }); return w; }
static void destroy(World &w) { spasm_csr_free(w.M); spasm_csr_free(w.R); spasm_csr_free(w.RB); spasm_lu_free(w.f); spasm_lu_free(w.fl); spasm_triplet_free(w.T); release(*w.pf); vt::hk_free(w.pf); }
struct Op { const char *name; std::function<void()> run; std::function<bool()> verify; };      // verify: false = the operation reported a failure
static void check_solve_all(Ctx &c, World &w, spasm_csr *X, bool *ok) { check_csr(c, "X", "X", X, w.Rh.n, w.A.n, w.p); SMat SX = sfrom_csr(X); for (int t = 0; t < w.Rh.n; t++) { auto b = drow(w.Rh, t); bool want = w.Bl.contains(b); CHECK(c, "verdict", ok[t] == want, "solvability of right-hand side %d is %d", t, ok[t]); if (want) check_solution(c, w.A, w.fl, w.Bl.r, b, drow(SX, t), t); } }
static std::vector<U64> remainder_of(const World &w, int i, i64 *elim = nullptr) { std::vector<U64> y = drow(w.Rh, i); U64 p = w.p; SMat R = sfrom_csr(w.R); for (int j = 0; j < w.A.m; j++) if (w.rq[j] >= 0 && y[j]) { U64 f = y[j]; if (elim) ++*elim; for (auto &e : R.row[w.rq[j]]) y[e.first] = subm(y[e.first], mulm(f, e.second, p), p); } return y; }
enum { NOPS = 33 };
static Op operation(Ctx &c, World &w, int k) {
	const SMat *AP = &w.A; U64 p = w.p; int n = AP->n, m = AP->m; Op op; auto C = std::make_shared<spasm_csr *>(nullptr); auto F = std::make_shared<spasm_lu *>(nullptr); auto opts = std::make_shared<echelonize_opts>(w.o);
	auto freec = [C] { if (*C) spasm_csr_free(*C); *C = NULL; };
	switch (k) {
	case 0: op.name = "load"; op.run = [&w, C] { uint8_t hh[32]; FILE *f = reader(w.sms); spasm_triplet *T = spasm_triplet_load(f, w.p, hh); fclose(f); *C = spasm_compress(T); spasm_triplet_free(T); }; op.verify = [=, &c, &w] { CHECK(c, "load", equal(sfrom_csr(*C), w.A), "the loaded matrix differs"); freec(); return true; }; break;
	case 1: op.name = "compress"; op.run = [&w, C] { *C = spasm_compress(w.T); }; op.verify = [=, &c, &w] { CHECK(c, "compress", equal(sfrom_csr(*C), w.A), "the compressed matrix differs"); freec(); return true; }; break;
	case 2: op.name = "transpose"; op.run = [&w, C] { *C = spasm_transpose(w.M, true); }; op.verify = [=, &c, &w] { SMat S = sfrom_csr(*C), T(m, n, p); for (int i = 0; i < n; i++) for (auto &e : w.A.row[i]) T.row[e.first].push_back({i, e.second}); CHECK(c, "transpose", equal(S, T), "the transpose is wrong"); freec(); return true; }; break;
	case 3: op.name = "permute"; op.run = [&w, C] { *C = spasm_permute(w.M, w.pr.data(), w.pc.data(), true); }; op.verify = [=, &c, &w] { SMat T(n, m, p); for (int i = 0; i < n; i++) for (auto &e : w.A.row[w.pr[i]]) T.row[i].push_back({w.pc[e.first], e.second}); CHECK(c, "permute", equal(sfrom_csr(*C), T), "the permuted matrix is wrong"); freec(); return true; }; break;
	case 4: op.name = "submatrix"; { int r0 = n ? w.g.below(n + 1) : 0, r1 = r0 + w.g.below(n - r0 + 1), c0 = m ? w.g.below(m + 1) : 0, c1 = c0 + w.g.below(m - c0 + 1); op.run = [=, &w] { *C = spasm_submatrix(w.M, r0, r1, c0, c1, true); }; op.verify = [=, &c, &w] { SMat T(r1 - r0, c1 - c0, w.p); for (int i = r0; i < r1; i++) for (auto &e : w.A.row[i]) if (e.first >= c0 && e.first < c1) T.row[i - r0].push_back({e.first - c0, e.second}); CHECK(c, "submatrix", equal(sfrom_csr(*C), T), "the submatrix is wrong"); freec(); return true; }; } break;
	case 5: case 6: case 7: op.name = "echelonize"; op.run = [&w, F, opts] { *opts = w.o; *F = spasm_echelonize(w.M, opts.get()); }; op.verify = [=, &c, &w] { check_echelon(c, w.A, *F, w.rk); spasm_lu_free(*F); *F = NULL; return true; }; break;
	case 8: case 9: case 10: op.name = "factor"; op.run = [&w, F, opts] { *opts = w.ol; *F = spasm_echelonize(w.M, opts.get()); }; op.verify = [=, &c, &w] { Basis B = check_echelon(c, w.A, *F, w.rk); check_LU(c, w.A, *F, B, w.ol.complete); spasm_lu_free(*F); *F = NULL; return true; }; break;
	case 11: { op.name = "rref"; auto q = std::make_shared<std::vector<int>>(m + 1, -3); op.run = [&w, C, q] { *C = spasm_rref(w.f, q->data()); }; op.verify = [=, &c, &w] { check_rref(c, w.B, *C, q->data()); freec(); return true; }; break; }
	case 12: op.name = "kernel"; op.run = [&w, C] { *C = spasm_kernel(w.f); }; op.verify = [=, &c, &w] { check_kernel(c, w.A, w.rk, *C, "kernel"); freec(); return true; }; break;
	case 13: op.name = "kernel-from-rref"; op.run = [&w, C] { *C = spasm_kernel_from_rref(w.R, w.rq.data()); }; op.verify = [=, &c, &w] { check_kernel(c, w.A, w.rk, *C, "kernel"); freec(); return true; }; break;
	case 14: { op.name = "gesv"; auto ok = std::make_shared<std::vector<char>>(w.Rh.n + 1, 2); op.run = [&w, C, ok] { *C = spasm_gesv(w.fl, w.RB, (bool *)ok->data()); }; op.verify = [=, &c, &w] { check_solve_all(c, w, *C, (bool *)ok->data()); freec(); return true; }; break; }
	case 15: { op.name = "solve"; if (!w.Rh.n) { op.run = nullptr; break; } auto x = std::make_shared<std::vector<spasm_ZZp>>(n + 1, 77); auto b = std::make_shared<std::vector<spasm_ZZp>>(m + 1, 0); auto ok = std::make_shared<bool>(false); for (auto &e : w.Rh.row[0]) (*b)[e.first] = bal(e.second, p); op.run = [=, &w] { *ok = spasm_solve(w.fl, b->data(), x->data()); }; op.verify = [=, &c, &w] { auto bb = drow(w.Rh, 0); bool want = w.Bl.contains(bb); CHECK(c, "verdict", *ok == want, "solvability is %d", *ok); std::vector<U64> xx(n); for (int i = 0; i < n; i++) xx[i] = tomod((*x)[i], w.p); if (want) check_solution(c, w.A, w.fl, w.Bl.r, bb, xx, 0); return true; }; break; }
	case 16: { op.name = "certificate"; auto q = std::make_shared<spasm_rank_certificate *>(nullptr); op.run = [&w, q] { *q = spasm_certificate_rank_create(w.M, w.hash, w.fl); }; op.verify = [=, &c, &w] { CHECK(c, "certificate", (*q)->r == w.rk && ref_verify(w.A, w.hash, **q), "the certificate does not satisfy the protocol"); release(**q); vt::hk_free(*q); return true; }; break; }
	case 17: { op.name = "certificate-verify"; auto v = std::make_shared<bool>(false); op.run = [&w, v] { *v = spasm_certificate_rank_verify(w.M, w.hash, w.pf); }; op.verify = [=, &c, &w] { CHECK(c, "certificate", *v, "a valid certificate is rejected"); return true; }; break; }
	case 18: { op.name = "certificate-load"; auto q = std::make_shared<spasm_rank_certificate>(); auto v = std::make_shared<bool>(false); op.run = [&w, q, v] { FILE *f = reader(w.cert); *v = spasm_rank_certificate_load(f, q.get()); fclose(f); }; op.verify = [=, &c, &w] { if (!*v) return false; CHECK(c, "certificate", same(*q, *w.pf), "the loaded certificate differs"); release(*q); return true; }; break; }
	case 19: { op.name = "factorization-verify"; U64 seed = w.g.next(); auto v = std::make_shared<bool>(false); op.run = [&w, v, seed] { *v = spasm_factorization_verify(w.M, w.fl, seed); }; op.verify = [=, &c, &w] { CHECK(c, "factorization-verify", *v, "a correct factorization is rejected"); return true; }; break; }
	case 20: { op.name = "dm"; auto d = std::make_shared<spasm_dm *>(nullptr); op.run = [&w, d] { *d = spasm_dulmage_mendelsohn(w.M); }; op.verify = [=, &c, &w] { std::vector<std::vector<int>> adj(n); for (int i = 0; i < n; i++) for (auto &e : w.A.row[i]) adj[i].push_back(e.first); CHECK(c, "dm", (*d)->rr[3] == max_matching(adj, m), "wrong structural rank"); std::vector<int> ip(n, -1), iq(m, -1); for (int i = 0; i < n; i++) { CHECK(c, "dm", (*d)->p[i] >= 0 && (*d)->p[i] < n && ip[(*d)->p[i]] < 0, "p is not a permutation"); ip[(*d)->p[i]] = i; } for (int j = 0; j < m; j++) { CHECK(c, "dm", (*d)->q[j] >= 0 && (*d)->q[j] < m && iq[(*d)->q[j]] < 0, "q is not a permutation"); iq[(*d)->q[j]] = j; } spasm_dm_free(*d); *d = NULL; return true; }; break; }
	case 21: { op.name = "save"; auto s = std::make_shared<std::string>(); op.run = [&w, s] { *s = saved([&](FILE *o) { spasm_csr_save(w.M, o); }); }; op.verify = [=, &c, &w] { CHECK(c, "save", *s == w.sms, "the saved matrix differs"); return true; }; break; }
	case 22: case 23: { op.name = "schur"; if (!w.Rh.n) break; auto T = std::make_shared<spasm_triplet *>(nullptr); auto fc = std::make_shared<spasm_lu>(); memset(fc.get(), 0, sizeof(spasm_lu)); fc->U = w.R; fc->qinv = w.rq.data(); bool wl = w.g.chance(1, 2); double dens = w.g.chance(1, 2) ? -1 : 0.01 * w.g.below(100); auto rows = std::make_shared<std::vector<int>>(w.Rh.n + 1, 0), out = std::make_shared<std::vector<int>>(w.Rh.n + 1, -3); for (int i = 0; i < w.Rh.n; i++) (*rows)[i] = i;
		op.run = [=, &w] { if (wl) *T = spasm_triplet_alloc(w.Rh.n, w.rk, 1, p, true); *C = spasm_schur(w.RB, rows->data(), w.Rh.n, fc.get(), dens, *T, NULL, out->data()); };
		op.verify = [=, &c, &w] { check_csr(c, "schur", "S", *C, w.Rh.n, m, p); SMat S = sfrom_csr(*C); i64 ec = 0; for (int i = 0; i < w.Rh.n; i++) { int k = (*out)[i]; CHECK(c, "schur", k >= 0 && k < w.Rh.n, "bad origin %d", k); CHECK(c, "schur", drow(S, i) == remainder_of(w, k, &ec), "row %d of the complement is not the remainder of row %d", i, k); } if (wl) { CHECK(c, "schur", (*T)->nz == ec, "%lld elimination coefficients recorded, %lld expected", (long long)(*T)->nz, (long long)ec); spasm_triplet_free(*T); *T = NULL; } freec(); return true; }; break; }
	case 24: case 25: { bool rnd = k == 25; op.name = rnd ? "schur-randomized" : "schur-dense"; int nr = w.Rh.n; if (!nr) break; auto fc = std::make_shared<spasm_lu>(); memset(fc.get(), 0, sizeof(spasm_lu)); fc->U = w.R; fc->qinv = w.rq.data(); spasm_datatype dt = spasm_datatype_choose(p); int Sm = m - w.rk, N = rnd ? 1 + w.g.below(6) : nr, ww = (int)w.g.below(5) - 1; auto rows = std::make_shared<std::vector<int>>(nr + 1, 0), out = std::make_shared<std::vector<int>>(nr + 1, -3), q = std::make_shared<std::vector<int>>(Sm + 1, -3); for (int i = 0; i < nr; i++) (*rows)[i] = i; auto buf = std::make_shared<std::vector<char>>((size_t)N * (Sm + 1) * spasm_datatype_size(dt) + 8, 'z');
		op.run = [=, &w] { if (rnd) spasm_schur_dense_randomized(w.RB, rows->data(), nr, w.R, w.rq.data(), buf->data(), dt, q->data(), N, ww); else spasm_schur_dense(w.RB, rows->data(), nr, NULL, fc.get(), buf->data(), dt, q->data(), out->data()); };
		op.verify = [=, &c, &w] { std::vector<std::vector<U64>> rem; for (int i = 0; i < nr; i++) rem.push_back(remainder_of(w, i)); DMat all(nr + (rnd ? N : 0), m, p); for (int i = 0; i < nr; i++) for (int j = 0; j < m; j++) all.at(i, j) = rem[i][j]; int rk = rank(all);
			for (int i = 0; i < N; i++) { int src = rnd ? 0 : (*out)[i]; CHECK(c, "schur", src >= 0 && src < nr, "bad origin %d", src); for (int l = 0; l < Sm; l++) { int j = (*q)[l]; CHECK(c, "schur", j >= 0 && j < m && w.rq[j] < 0, "bad column %d", j); spasm_ZZp v = spasm_datatype_read(buf->data(), (size_t)i * Sm + l, dt); CHECK(c, "schur", canonical(v, p), "coefficient %d is not canonical", v); if (rnd) all.at(nr + i, j) = tomod(v, p); else CHECK(c, "schur", tomod(v, p) == rem[src][j], "row %d of the dense complement is not the remainder of row %d", i, src); } }
			if (rnd) CHECK(c, "schur", rank(all) == rk, "a row of the randomized complement is not a combination of the remainders"); return true; }; break; }
	case 26: { op.name = "schur-density"; int nr = w.Rh.n; if (!nr) break; auto rows = std::make_shared<std::vector<int>>(nr + 1, 0); for (int i = 0; i < nr; i++) (*rows)[i] = i; auto d = std::make_shared<double>(-1); op.run = [=, &w] { *d = spasm_schur_estimate_density(w.RB, rows->data(), nr, w.R, w.rq.data(), 10); }; op.verify = [=, &c] { CHECK(c, "density", *d >= 0 && *d <= 1, "density %g", *d); return true; }; break; }
	case 27: case 28: { op.name = "pivots"; auto fc = std::make_shared<spasm_lu>(); memset(fc.get(), 0, sizeof(spasm_lu)); auto q = std::make_shared<std::vector<int>>(m + 1, -1), P = std::make_shared<std::vector<int>>(n + 1, -9), lp = std::make_shared<std::vector<int>>(n + 1, -9); bool wl = w.g.chance(1, 2), gr = w.g.chance(3, 4); auto np = std::make_shared<int>(-1);
		op.run = [=, &w] { memset(fc.get(), 0, sizeof(spasm_lu)); std::fill(q->begin(), q->end(), -1); fc->U = spasm_csr_alloc(n, m, 1, p, true); fc->U->n = 0; fc->qinv = q->data(); if (wl) { fc->p = lp->data(); fc->Ltmp = spasm_triplet_alloc(n, n, 1, p, true); } *opts = w.o; opts->enable_greedy_pivot_search = gr; *np = spasm_pivots_extract_structural(w.M, NULL, fc.get(), P->data(), opts.get()); };
		op.verify = [=, &c, &w] { spasm_csr *U = fc->U; CHECK(c, "pivots", *np == U->n && *np <= w.rk && (*np > 0 || !w.A.nnz()), "%d pivots reported, U has %d rows, the rank is %d", *np, U->n, w.rk); for (int i = 0; i < *np; i++) { CHECK(c, "pivots", U->p[i] < U->p[i + 1] && U->x[U->p[i]] == 1 && (*q)[U->j[U->p[i]]] == i, "pivotal row %d is wrong", i); std::vector<U64> y(m, 0); for (i64 px = U->p[i]; px < U->p[i + 1]; px++) y[U->j[px]] = tomod(U->x[px], p); CHECK(c, "pivots", w.B.contains(y), "pivotal row %d is outside of the row space", i); }
			if (wl) { CHECK(c, "pivots", fc->Ltmp->nz == *np, "%lld coefficients for %d pivots", (long long)fc->Ltmp->nz, *np); spasm_triplet_free(fc->Ltmp); } spasm_csr_free(U); return true; }; break; }
	case 29: { op.name = "matching"; auto jm = std::make_shared<std::vector<int>>(n + 1, -7), im = std::make_shared<std::vector<int>>(m + 1, -7); auto sz = std::make_shared<int>(-1); auto o = std::make_shared<std::array<int *, 3>>(); *o = {NULL, NULL, NULL}; auto pi = std::make_shared<std::vector<int>>(n + 1, 0), qi = std::make_shared<std::vector<int>>(m + 1, 0); for (int i = 0; i < n; i++) (*pi)[w.pr[i]] = i; for (int j = 0; j < m; j++) (*qi)[w.pc[j]] = j;
		op.run = [=, &w] { *sz = spasm_maximum_matching(w.M, jm->data(), im->data()); (*o)[0] = spasm_permute_row_matching(n, jm->data(), w.pr.data(), qi->data()); (*o)[1] = spasm_permute_column_matching(m, im->data(), pi->data(), w.pc.data()); (*o)[2] = spasm_submatching(jm->data(), 0, n, 0, m); };
		op.verify = [=, &c, &w] { std::vector<std::vector<int>> adj(n); for (int i = 0; i < n; i++) for (auto &e : w.A.row[i]) adj[i].push_back(e.first); CHECK(c, "matching", *sz == max_matching(adj, m), "matching of size %d", *sz); int cnt = 0; for (int i = 0; i < n; i++) { int j = (*jm)[i]; cnt += j >= 0; CHECK(c, "matching", j < 0 || (j < m && (*im)[j] == i && std::find(adj[i].begin(), adj[i].end(), j) != adj[i].end()), "row %d is matched to %d", i, j); CHECK(c, "matching", (*o)[2][i] == j, "restriction to everything"); int s = (*jm)[w.pr[i]]; CHECK(c, "matching", (*o)[0][i] == (s < 0 ? -1 : (*qi)[s]), "transported matching of row %d", i); } CHECK(c, "matching", cnt == *sz, "%d rows are matched", cnt); for (int t = 0; t < 3; t++) { vt::hk_free((*o)[t]); (*o)[t] = NULL; } return true; }; break; }
	case 30: { op.name = "components"; if (n != m) break; auto d = std::make_shared<spasm_dm *>(nullptr); op.run = [&w, d] { *d = spasm_strongly_connected_components(w.M); }; op.verify = [=, &c, &w] { spasm_dm *D = *d; std::vector<int> blk(n, -1); CHECK(c, "components", D->nb >= 0 && D->nb <= n, "%d blocks", D->nb); for (int b = 0; b < D->nb; b++) for (int t = D->r[b]; t < D->r[b + 1]; t++) { CHECK(c, "components", t >= 0 && t < n && D->p[t] >= 0 && D->p[t] < n && blk[D->p[t]] < 0, "bad vertex at %d", t); blk[D->p[t]] = b; } std::vector<std::vector<char>> re(n, std::vector<char>(n, 0)); for (int i = 0; i < n; i++) { re[i][i] = 1; for (auto &e : w.A.row[i]) re[i][e.first] = 1; } for (int z = 0; z < n; z++) for (int i = 0; i < n; i++) if (re[i][z]) for (int j = 0; j < n; j++) re[i][j] |= re[z][j]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) CHECK(c, "components", (re[i][j] && re[j][i]) == (blk[i] == blk[j] && (i == j || blk[i] >= 0)), "vertices %d and %d", i, j); spasm_dm_free(D); *d = NULL; return true; }; break; }
	case 31: { op.name = "triplets"; op.run = [&w, C, n, m, p] { spasm_triplet *T = spasm_triplet_alloc(0, 0, 1, p, true); for (int i = 0; i < n; i++) for (auto &e : w.A.row[i]) spasm_add_entry(T, i, e.first, bal(e.second, p)); if (T->n < n) T->n = n; if (T->m < m) T->m = m; spasm_triplet_realloc(T, -1); spasm_triplet_transpose(T); *C = spasm_compress(T); spasm_triplet_free(T); spasm_csr_realloc(*C, spasm_nnz(*C) + 5); spasm_csr_realloc(*C, -1); }; op.verify = [=, &c, &w] { SMat S = sfrom_csr(*C), T(m, n, p); for (int i = 0; i < n; i++) for (auto &e : w.A.row[i]) T.row[e.first].push_back({i, e.second}); CHECK(c, "triplets", equal(S, T), "the transposed triplets are wrong"); freec(); return true; }; break; }
	default: { op.name = "image"; auto s = std::make_shared<std::string>(); int mode = 1 + w.g.below(2); op.run = [&w, s, mode] { *s = saved([&](FILE *o) { spasm_save_pnm(w.M, o, 8, 8, mode, NULL); }); }; op.verify = [=, &c] { CHECK(c, "image", s->size() > 2 && (*s)[0] == 'P', "no image"); return true; }; break; } }
	return op; }
PROPERTY(F02, single, 1, "one of 33 operations (loading, conversions, echelonization, factorization, pivot search, sparse, dense and randomized complements, reduced form, kernels, solving, certificates, matching, decompositions, saving) on a generated matrix up to 14x14; for every allocation index (all of them up to 40, else 40 sampled) the run is repeated with that allocation failing, alone or with all later ones; non-trivial when at least 3 different allocations failed") {
	World w = build(c, 14); int k = c.below(NOPS); Op op = operation(c, w, k); if (!op.run) { destroy(w); c.discard(); } c.label("op:%s", op.name); c.note("op=%s ", op.name); c.feed64(k); bool sticky = c.chance(1, 3); U64 pick = c.bits64();
	hk_last_message[0] = 0; alloc_ctl.count = 0; op.run(); long N = alloc_ctl.count; CHECK(c, "fault-free", op.verify(), "%s reports a failure without any fault", op.name); Rng g(pick); Snapshot s(w.M), su(w.f->U), sl(w.fl->L); int hit = 0, died = 0;
	std::vector<long> idx; if (N <= 40) for (long i = 0; i < N; i++) idx.push_back(i); else { for (int i = 0; i < 40; i++) idx.push_back(g.below(N)); }
	for (long i : idx) {
		hk_last_message[0] = 0; hk_err_bytes = 0; alloc_ctl.count = 0; alloc_ctl.fail_at = i; alloc_ctl.failed = false; alloc_ctl.sticky = sticky; alloc_ctl.track = true; c.note("[fail #%ld%s]", i, sticky ? "+" : "");
		Outcome o = guarded(op.run); long long fs = alloc_ctl.fail_size; alloc_ctl.fail_at = -1; alloc_ctl.sticky = false; hit += alloc_ctl.failed;
		CHECK(c, "abort", o.kind != ABORTED, "%s: allocation %ld of %ld (%lld bytes) fails: aborted: %s", op.name, i, N, fs, o.msg.c_str());
		if (o.kind == EXITED) { alloc_release(); died++; CHECK(c, "status", o.status != 0, "%s: allocation %ld of %ld fails: exit status 0", op.name, i, N); CHECK(c, "message", hk_err_bytes > 0, "%s: allocation %ld of %ld fails: no error message", op.name, i, N); }
		else { alloc_keep(); bool rep = !op.verify(); (void)rep; }
		CHECK(c, "modified", s == Snapshot(w.M) && su == Snapshot(w.f->U) && sl == Snapshot(w.fl->L), "%s: inputs modified", op.name); }
	c.nontrivial(hit >= 3 && died >= 1); destroy(w); }
// ---------------------------------------------------------------- F03
PROPERTY(F03, history, 1, "a sequence of 4 to 24 operations (33 kinds) over 1 to 3 worlds (matrix, modulus, factorizations, reduced form, right-hand sides, certificate) in one process, thread count, schedule and contents of fresh memory redrawn between operations; every result verified, all live objects compared with their initial contents after every operation, worlds created and freed along the way; non-trivial with at least 2 worlds and 6 operations") {
	std::vector<std::unique_ptr<World>> ws; int steps = c.range(4, 24), done = 0; size_t most = 0; struct Snap { Snapshot m, u, lu, l, r, b; std::vector<int> q, ql, p; }; std::vector<Snap> sn;
	auto snap = [](World &w) { return Snap{Snapshot(w.M), Snapshot(w.f->U), Snapshot(w.fl->U), Snapshot(w.fl->L), Snapshot(w.R), Snapshot(w.RB), std::vector<int>(w.f->qinv, w.f->qinv + w.A.m), std::vector<int>(w.fl->qinv, w.fl->qinv + w.A.m), std::vector<int>(w.fl->p, w.fl->p + w.rk)}; };
	for (int t = 0; t < steps; t++) {
		
		if (ws.empty() || (ws.size() < 3 && c.chance(1, 5))) { c.note("[new] "); ws.emplace_back(new World(build(c, 12))); sn.push_back(snap(*ws.back())); most = std::max(most, ws.size()); continue; }
		if (c.chance(1, 12)) { int k = c.below(ws.size()); c.note("[free %d] ", k); destroy(*ws[k]); ws.erase(ws.begin() + k); sn.erase(sn.begin() + k); continue; }
		int wi = c.below(ws.size()), k = c.below(NOPS); if (c.coin()) sched_draw(c); Op op = operation(c, *ws[wi], k); if (!op.run) continue; c.note("[%s on %d] ", op.name, wi); c.label("op:%s", op.name); c.feed64(wi * 64 + k); op.run(); CHECK(c, "result", op.verify(), "%s reports a failure", op.name); done++;
		for (size_t q = 0; q < ws.size(); q++) { Snap x = snap(*ws[q]); CHECK(c, "modified", x.m == sn[q].m && x.u == sn[q].u && x.lu == sn[q].lu && x.l == sn[q].l && x.r == sn[q].r && x.b == sn[q].b && x.q == sn[q].q && x.ql == sn[q].ql && x.p == sn[q].p, "an object of world %zu changed during %s on world %d", q, op.name, wi); } }
	for (auto &w : ws) destroy(*w); c.nontrivial(most >= 2 && done >= 6); }
// ---------------------------------------------------------------- F04
PROPERTY(F04, release, 1, "a world (matrix up to 14x14, modulus, options, factorizations, reduced form, right-hand sides, certificate) on which 1 to 8 operations (33 kinds) are run, every returned object being freed with its release function; afterwards every block the library allocated since the beginning must have been freed; non-trivial with at least 2 operations on a non-zero matrix") {
	auto balanced = [&](const char *after, size_t base) { size_t by; size_t k = alloc_live(by); CHECK(c, "leak", k <= base, "%s: %zu blocks allocated by the library (%zu bytes in all) are still in use after its results were freed", after, k - base, by); };
	alloc_ctl.track = true; size_t by; World w = build(c, 14); alloc_ctl.track = true; int steps = c.range(1, 8), done = 0; size_t base = alloc_live(by);
	for (int t = 0; t < steps; t++) { int k = c.below(NOPS); if (c.coin()) sched_draw(c); Op op = operation(c, w, k); if (!op.run) continue; c.note("[%s] ", op.name); c.label("op:%s", op.name); c.feed64(k); op.run(); CHECK(c, "result", op.verify(), "%s reports a failure", op.name); done++; balanced(op.name, base); }
	bool nz = w.A.nnz() > 0; destroy(w); balanced("building and destroying the factorizations", 0); alloc_keep(); c.nontrivial(nz && done >= 2); }
// F05: calls made at the same time from several threads of the program, on objects that are not shared or are only read
PROPERTY(F05, callers, 1, "2 to 4 threads of the program, each with OpenMP teams of 1 to 3 threads, each making 1 to 4 calls (33 kinds) on one of 1 or 2 worlds (matrix up to 14x14, in some cases 90x90, factorizations, reduced form, right-hand sides, certificate; all of them only read), preempted at memory accesses or basic blocks of the library by a drawn schedule; every result compared with its specification, the shared inputs with their initial contents; non-trivial with at least 2 threads that each complete a call on a non-zero matrix and at least 10 switches") {
	int nw = 1 + c.chance(1, 3); std::vector<std::unique_ptr<World>> ws; for (int i = 0; i < nw; i++) ws.emplace_back(new World(build(c, c.chance(1, 6) ? c.chance(1, 6) ? 90 : 40 : 14)));
	int nt = c.range(2, 4), same = c.chance(1, 3) ? (int)c.below(NOPS) : -1; std::vector<std::vector<Op>> ops(nt); std::vector<std::vector<int>> on(nt); int busy = 0;
	for (int t = 0; t < nt; t++) { int k = c.range(1, 4), done = 0; for (int i = 0; i < k; i++) { int kind = same >= 0 && c.chance(3, 4) ? same : (int)c.below(NOPS), wi = c.below(nw); c.feed64(kind * 2 + wi); Op op = operation(c, *ws[wi], kind); if (!op.run) continue; c.note("[thread %d: %s on %d] ", t, op.name, wi); c.label("op:%s", op.name); ops[t].push_back(op); done += ws[wi]->A.nnz() > 0; } busy += done > 0; }
	std::vector<Snapshot> sn; for (auto &w : ws) { sn.emplace_back(w->M); sn.emplace_back(w->f->U); sn.emplace_back(w->fl->U); sn.emplace_back(w->fl->L); sn.emplace_back(w->R); sn.emplace_back(w->RB); }
	sched_draw(c, nt); int inner = c.coin() ? 1 : c.range(2, 3); c.label("inner:%d", inner); U64 sw = sched_switches(); std::vector<std::function<void()>> fs; for (int t = 0; t < nt; t++) fs.push_back([&ops, t] { for (auto &op : ops[t]) op.run(); });
	sched_callers(fs, inner); U64 switches = sched_switches() - sw;
	for (int t = 0; t < nt; t++) for (auto &op : ops[t]) CHECK(c, "result", op.verify(), "%s in thread %d reports a failure", op.name, t);
	size_t k = 0; for (auto &w : ws) { spasm_csr *objs[] = {w->M, w->f->U, w->fl->U, w->fl->L, w->R, w->RB}; for (auto o : objs) { CHECK(c, "modified", sn[k] == Snapshot(o), "an object that the calls only read was modified"); k++; } destroy(*w); }
	c.nontrivial(busy >= 2 && switches >= 10); }
// the same call, made twice in one process with other calls in between: same result, bit for bit (one thread, generator of the C library seeded alike)
extern "C" void hk_srand(unsigned);
static void dig(std::string &s, const void *p, size_t n) { s.append((const char *)p, n); s += '|'; }
static std::string dig(const spasm_csr *A) { std::string s; if (!A) return "null"; i64 k = A->p[A->n]; dig(s, &A->n, 4); dig(s, &A->m, 4); dig(s, A->p, 8 * (A->n + 1)); dig(s, A->j, 4 * k); if (A->x) dig(s, A->x, 4 * k); return s; }
static std::string dig(const spasm_lu *f, int m) { std::string s = dig(f->U); dig(s, f->qinv, 4 * m); if (f->L) { s += dig(f->L); dig(s, f->p, 4 * f->U->n); s += f->complete ? 'c' : 'p'; } return s; }
static std::string dig(const spasm_dm *d, int n, int m) { std::string s; dig(s, &d->nb, 4); dig(s, d->p, 4 * n); dig(s, d->q, 4 * m); if (d->nb > 0) { dig(s, d->r, 4 * (d->nb + 1)); dig(s, d->c, 4 * (d->nb + 1)); } dig(s, d->rr, 20); dig(s, d->cc, 20); return s; }
enum { NPRIM = 10 };
static std::string primitive(World &w, int kind, U64 seed) {          // a deterministic call with arguments drawn from seed
	Rng g(seed); U64 p = w.p; int n = w.A.n, m = w.A.m; std::string s; auto val = [&] { return bal(g.below64(p), p); }; auto vec = [&](int k) { std::vector<spasm_ZZp> v(k + 1); for (auto &x : v) x = val(); return v; };
	switch (kind) {
	case 0: { u8 sd[32]; for (auto &x : sd) x = g.below(256); spasm_prng_ctx q; if (g.chance(1, 2)) spasm_prng_seed(sd, p, g.below(1000), &q); else spasm_prng_seed_simple(p, g.next(), g.below(1000), &q); for (int i = 0; i < 30; i++) { U32 x = g.chance(1, 2) ? spasm_prng_u32(&q) : (U32)spasm_prng_ZZp(&q); dig(s, &x, 4); } break; }
	case 1: { std::vector<u8> d(g.below(200) + 1); for (auto &x : d) x = g.below(256); u8 md[32]; spasm_sha256_ctx h; spasm_SHA256_init(&h); size_t i = 0; while (i < d.size()) { size_t k = 1 + g.below(70); if (k > d.size() - i) k = d.size() - i; spasm_SHA256_update(&h, d.data() + i, k); i += k; } spasm_SHA256_final(md, &h); dig(s, md, 32); break; }
	case 2: { spasm_field F; spasm_field_init(p, F); for (int i = 0; i < 40; i++) { spasm_ZZp a = val(), b = val(), c = val(), r; switch (g.below(6)) { case 0: r = spasm_ZZp_add(F, a, b); break; case 1: r = spasm_ZZp_sub(F, a, b); break; case 2: r = spasm_ZZp_mul(F, a, b); break; case 3: r = spasm_ZZp_axpy(F, a, b, c); break; case 4: r = a ? spasm_ZZp_inverse(F, a) : 0; break; default: r = spasm_ZZp_init(F, (i64)g.next()); } dig(s, &r, 4); } break; }
	case 3: { auto b = vec(n), x = b, y = b; spasm_pvec(w.pr.data(), b.data(), x.data(), n); spasm_ipvec(w.pr.data(), b.data(), y.data(), n); dig(s, x.data(), 4 * n); dig(s, y.data(), 4 * n); int *q = spasm_pinv(w.pr.data(), n); dig(s, q, 4 * n); vt::hk_free(q); std::vector<int> z(b.begin(), b.end()), pp = w.pr; spasm_range_pvec(z.data(), 0, n, pp.data()); dig(s, z.data(), 4 * n); break; }
	case 4: { auto x = vec(n), y = vec(m); spasm_xApy(x.data(), w.M, y.data()); dig(s, y.data(), 4 * m); spasm_Axpy(w.M, y.data(), x.data()); dig(s, x.data(), 4 * n); if (n) spasm_scatter(w.M, g.below(n), val(), y.data()); dig(s, y.data(), 4 * m); break; }
	case 5: { if (!w.Rh.n) break; std::vector<int> xj(3 * m + 1, 0); std::vector<spasm_ZZp> x(m + 1, 0); int top = spasm_sparse_triangular_solve(w.R, w.RB, g.below(w.Rh.n), xj.data(), x.data(), w.rq.data()); dig(s, &top, 4); for (int k = top; k < m; k++) { dig(s, &xj[k], 4); dig(s, &x[xj[k]], 4); } break; }
	case 6: { if (!w.Rh.n) break; std::vector<int> xj(3 * m + 1, 0); int top = spasm_reach(w.f->U, w.RB, g.below(w.Rh.n), m, xj.data(), w.f->qinv); dig(s, &top, 4); dig(s, xj.data() + top, 4 * (m - top)); break; }
	case 7: { int r = w.fl->U->n; auto b = vec(r), x = vec(n); spasm_dense_back_solve(w.fl->L, b.data(), x.data(), w.fl->p); dig(s, x.data(), 4 * n); auto y = vec(r), c = vec(m); for (int j = 0; j < m; j++) c[j] = 0; if (g.chance(3, 4)) spasm_xApy(y.data(), w.fl->U, c.data()); else for (int j = 0; j < m; j++) c[j] = val(); std::vector<int> q(r + 1, 0); for (int j = 0; j < m; j++) if (w.fl->qinv[j] >= 0) q[w.fl->qinv[j]] = j; bool ok = spasm_dense_forward_solve(w.fl->U, c.data(), x.data(), q.data()); s += ok ? 'y' : 'n'; if (ok) dig(s, x.data(), 4 * std::min(r, n)); break; }
	case 8: { char b[64] = {0}; spasm_human_format((int64_t)(g.next() >> g.below(64)) & INT64_MAX, b); s += b; std::string t = saved([&](FILE *f) { spasm_triplet_save(w.T, f); }); s += t; if (n) { int k = spasm_row_weight(w.M, g.below(n)); dig(s, &k, 4); } break; }
	default: { int a = 1 + g.below(6), b = 1 + g.below(6); spasm_datatype dt = spasm_datatype_choose(p); std::vector<char> A(a * b * 8 + 8); for (int i = 0; i < a * b; i++) spasm_datatype_write(A.data(), i, dt, val()); std::vector<size_t> q(b + 1), pp(a + 1); int r = g.chance(1, 2) ? spasm_ffpack_rref(p, a, b, A.data(), b, dt, q.data()) : spasm_ffpack_LU(p, a, b, A.data(), b, dt, pp.data(), q.data()); dig(s, &r, 4); for (int i = 0; i < a * b; i++) { spasm_ZZp v = spasm_datatype_read(A.data(), i, dt); dig(s, &v, 4); } } }
	return s; }
PROPERTY(F05, primitives, 1, "2 to 4 threads of the program, each making 1 to 12 of the elementary calls (pseudo-random generator, digest, field arithmetic, permutations, matrix-vector products, triangular solves, reachability, number formatting, dense factorization; arguments drawn from a seed) on a shared world, preempted as above; each result identical to the one of the same call made alone; non-trivial with at least 2 threads, 4 calls and 10 switches") {
	World w = build(c, 12); int nt = c.range(2, 4), same = c.coin() ? (int)c.below(NPRIM) : -1, total = 0; struct Call { int kind; U64 seed; std::string want, got; }; std::vector<std::vector<Call>> calls(nt);
	for (auto &v : calls) { int k = c.range(1, 12); for (int i = 0; i < k; i++) { int kind = same >= 0 && c.chance(3, 4) ? same : (int)c.below(NPRIM); U64 sd = c.bits(); c.feed64(kind + 16 * sd); v.push_back({kind, sd, primitive(w, kind, sd), ""}); total++; } }
	sched_draw(c, nt); int inner = c.coin() ? 1 : c.range(2, 3); c.label("inner:%d", inner); U64 sw = sched_switches(); std::vector<std::function<void()>> fs; for (auto &v : calls) fs.push_back([&v, &w] { for (auto &k : v) k.got = primitive(w, k.kind, k.seed); }); sched_callers(fs, inner); U64 switches = sched_switches() - sw;
	for (int t = 0; t < nt; t++) for (auto &k : calls[t]) CHECK(c, "alone", k.got == k.want, "elementary call %d in thread %d gives another result than alone", k.kind, t);
	destroy(w); c.nontrivial(total >= 4 && switches >= 10); }
enum { NCALLS = 15 };
static std::string call(World &w, int k, unsigned seed) {
	int n = w.A.n, m = w.A.m; std::string s; hk_srand(seed); echelonize_opts o = w.o, ol = w.ol; spasm_csr *C = NULL; spasm_lu fc; memset(&fc, 0, sizeof fc); fc.U = w.R; fc.qinv = w.rq.data(); std::vector<int> rows(w.Rh.n + 1), out(w.Rh.n + 1, -3), jm(n + 1, -7), im(m + 1, -7); std::iota(rows.begin(), rows.end(), 0); int nr = w.Rh.n;
	switch (k) {
	case 0: { spasm_lu *f = spasm_echelonize(w.M, &o); s = dig(f, m); spasm_lu_free(f); return s; }
	case 1: { spasm_lu *f = spasm_echelonize(w.M, &ol); s = dig(f, m); spasm_lu_free(f); return s; }
	case 2: { spasm_lu *f = spasm_echelonize(w.M, NULL); s = dig(f, m); spasm_lu_free(f); return s; }
	case 3: { std::vector<int> q(m + 1, -3); C = spasm_rref(w.f, q.data()); dig(s, q.data(), 4 * m); break; }
	case 4: C = spasm_kernel(w.f); break; case 5: C = spasm_kernel_from_rref(w.R, w.rq.data()); break;
	case 6: { std::vector<char> ok(nr + 1, 0); C = spasm_gesv(w.fl, w.RB, (bool *)ok.data()); dig(s, ok.data(), nr); break; }
	case 7: { spasm_rank_certificate *q = spasm_certificate_rank_create(w.M, w.hash, w.fl); s = saved([&](FILE *f) { spasm_rank_certificate_save(q, f); }); release(*q); vt::hk_free(q); return s; }
	case 8: { bool a = spasm_certificate_rank_verify(w.M, w.hash, w.pf), b = spasm_factorization_verify(w.M, w.fl, seed); return std::string(a ? "y" : "n") + (b ? "y" : "n"); }
	case 9: { spasm_dm *d = spasm_dulmage_mendelsohn(w.M); s = dig(d, n, m); spasm_dm_free(d); return s; }
	case 10: { int z = spasm_maximum_matching(w.M, jm.data(), im.data()); dig(s, &z, 4); dig(s, jm.data(), 4 * n); dig(s, im.data(), 4 * m); return s; }
	case 11: C = spasm_compress(w.T); break; case 12: C = spasm_transpose(w.M, true); break;
	case 13: if (!nr) return s; C = spasm_schur(w.RB, rows.data(), nr, &fc, -1, NULL, NULL, out.data()); dig(s, out.data(), 4 * nr); break;
	default: { if (!nr) return s; double d = spasm_schur_estimate_density(w.RB, rows.data(), nr, w.R, w.rq.data(), 5); dig(s, &d, 8); return s; } }
	s += dig(C); spasm_csr_free(C); return s; }
PROPERTY(F03, repeat, 1, "single-threaded: each of 15 calls on 1 or 2 worlds made first in a fresh state, then again after 3 to 10 other calls (seed of the C generator restored, contents of fresh memory redrawn): results identical bit for bit; default options given explicitly, and as a null pointer, give the same result; non-trivial with a non-zero matrix") {
	std::vector<std::unique_ptr<World>> ws; int nw = 1 + c.below(2); for (int i = 0; i < nw; i++) { ws.emplace_back(new World(build(c, 12))); } sched_draw(c, 1); unsigned seed = c.below(1 << 20);
	{ echelonize_opts a, b; memset(&a, 0x55, sizeof a); memset(&b, 0xaa, sizeof b); spasm_echelonize_init_opts(&a); spasm_echelonize_init_opts(&b);
	  auto same = [](const echelonize_opts &x, const echelonize_opts &y) { return x.enable_greedy_pivot_search == y.enable_greedy_pivot_search && x.enable_tall_and_skinny == y.enable_tall_and_skinny && x.enable_dense == y.enable_dense && x.enable_GPLU == y.enable_GPLU && x.L == y.L && x.complete == y.complete && x.min_pivot_proportion == y.min_pivot_proportion && x.max_round == y.max_round && x.sparsity_threshold == y.sparsity_threshold && x.dense_block_size == y.dense_block_size && x.low_rank_ratio == y.low_rank_ratio && x.tall_and_skinny_ratio == y.tall_and_skinny_ratio && x.low_rank_start_weight == y.low_rank_start_weight; };
	  CHECK(c, "defaults", same(a, b), "spasm_echelonize_init_opts leaves an option uninitialised"); World &w = *ws[0]; hk_srand(seed); spasm_lu *f = spasm_echelonize(w.M, &a), *g; std::string s = dig(f, w.A.m); hk_srand(seed); g = spasm_echelonize(w.M, NULL); CHECK(c, "defaults", s == dig(g, w.A.m), "the result with default options differs from the result without options"); spasm_lu_free(f); spasm_lu_free(g); }
	// a larger sparse matrix, on which the default options go through several rounds
	int N = 30 + c.below(90), Mm = 30 + c.below(90); spasm_triplet *BT = spasm_triplet_alloc(N, Mm, 0, (i64)ws[0]->p, true); { int per = 1 + c.below(3); for (int i = 0; i < N; i++) for (int k = 0; k < per; k++) if (k == 0 || c.chance(1, 2)) spasm_add_entry(BT, i, c.below(Mm), 1 + c.below(2)); } spasm_csr *big = spasm_compress(BT); spasm_triplet_free(BT);
	auto defaults = [&](bool null) { echelonize_opts o; spasm_echelonize_init_opts(&o); hk_srand(seed); spasm_lu *f = spasm_echelonize(big, null ? NULL : &o); std::string s = dig(f, Mm); spasm_lu_free(f); return s; }; std::string big0 = defaults(c.coin());
	std::map<int, std::string> first; bool nz = false; for (auto &w : ws) nz |= w->A.nnz() > 1; int steps = c.range(4, 12);
	for (int t = 0; t < steps; t++) { int wi = c.below(nw), k = c.below(NCALLS), id = wi * 32 + k; c.feed64(id); if (c.coin()) sched_draw(c, 1); std::string s = call(*ws[wi], k, seed); if (first.count(id)) CHECK(c, "repeat", first[id] == s, "call %d on world %d gives another result the second time", k, wi); else first[id] = s; c.note("[%d on %d] ", k, wi); }
	for (auto &e : first) { std::string s = call(*ws[e.first / 32], e.first % 32, seed); CHECK(c, "repeat", e.second == s, "call %d on world %d gives another result when it is repeated later", e.first % 32, e.first / 32); }
	for (int k = 0; k < 3; k++) CHECK(c, "defaults", big0 == defaults(k != 1), "default options give another result later (%dx%d)", N, Mm); spasm_csr_free(big);
	for (auto &w : ws) destroy(*w); c.nontrivial(nz); }
