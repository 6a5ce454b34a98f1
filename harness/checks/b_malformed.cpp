#include "../io.hpp"
using namespace vt; using namespace gen;
static const char *hostile[] = {"0", "-1", "1", "2", "2147483647", "-2147483648", "2147483648", "4294967295", "4294967297", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999", "1000000000000000", "4611686018427387904", "2305843009213693952", "1e5", "0x10", "nan", "M", "R", "x", "+3", "--2", "1.5", ".", "%", "\xff\xfe", "%s%n%d", "3 3", "\t", "\r", ""};
static std::string token(Ctx &c) { if (c.chance(2, 3)) return hostile[c.below(sizeof hostile / sizeof *hostile)]; char b[32]; snprintf(b, 32, "%d", (int)c.range(-2, 12)); return b; }
// text as lines of tokens, then hostile edits
static std::string hostile_text(Ctx &c, bool &edited) {
	edited = false; int kind = c.weighted({4, 4, 2, 1}); std::vector<std::vector<std::string>> L; char b[64];
	if (kind == 3) { std::string s; int n = c.below(60); for (int i = 0; i < n; i++) s += (char)(c.chance(1, 3) ? c.below(256) : "0123456789 \n%M-"[c.below(15)]); edited = true; return s; }
	int n = c.below(5), m = c.below(5), k = n && m ? c.below(6) : 0; int declared = k;
	if (kind == 1) { L.push_back({"%%MatrixMarket", "matrix", "coordinate", "integer", "general"}); int nc = c.below(3); while (nc--) L.push_back({"%", "comment"}); L.push_back({std::to_string(n), std::to_string(m), std::to_string(declared)}); }
	else L.push_back({std::to_string(n), std::to_string(m), "M"});
	for (int i = 0; i < k; i++) { snprintf(b, 64, "%d", (int)c.range(-50, 50)); L.push_back({std::to_string(1 + c.below(n)), std::to_string(1 + c.below(m)), b}); }
	if (kind != 1) L.push_back({"0", "0", "0"});
	int edits = c.below(4); 
	for (int e = 0; e < edits && !L.empty(); e++) { edited = true; int l = c.below(L.size()); auto &ln = L[l];
		switch (c.below(9)) {
		case 7: ln = {"0", "0", "0"}; break;
		case 0: case 1: case 2: if (!ln.empty()) ln[c.below(ln.size())] = token(c); break;
		case 3: if (!ln.empty()) ln.erase(ln.begin() + c.below(ln.size())); break;
		case 4: ln.insert(ln.begin() + c.below(ln.size() + 1), token(c)); break;
		case 5: L.erase(L.begin() + l); break;
		case 6: { auto cp = ln; L.insert(L.begin() + c.below(L.size() + 1), cp); break; }
		default: if (!ln.empty()) { int want = 1000 + c.below(60); std::string &t = ln[c.below(ln.size())]; char f = "0 x%"[c.below(4)]; if ((int)t.size() < want) t += std::string(want - t.size(), f); } break; } }
	std::string s; for (auto &ln : L) { for (size_t i = 0; i < ln.size(); i++) { if (i) s += " "; s += ln[i]; } s += "\n"; }
	int raw = c.below(5); if (raw == 1 && !s.empty()) { s.resize(c.below(s.size() + 1)); edited = true; } else if (raw == 2 && !s.empty()) { int k2 = 1 + c.below(3); while (k2--) s[c.below(s.size())] = (char)c.below(256); edited = true; } else if (raw == 3 && !s.empty()) { s.insert(c.below(s.size() + 1), 1, "\0\n\r 9-"[c.below(6)]); edited = true; }
	return s;
}
static std::string printable(const std::string &s) { std::string o; for (unsigned char ch : s) { if (o.size() > 400) break; if (ch >= 32 && ch < 127) o += ch; else { char b[8]; snprintf(b, 8, "\\x%02x", ch); o += b; } } return o; }
// What a file says, for files whose lines are all unmistakable: 1 = this matrix, 0 = has to be rejected (truncated, out-of-range index, foreign type ...), -1 = no opinion
struct Said { int n, m; bool beyond = false; std::map<std::pair<int, int>, U64> q; long entries = 0; };
static bool ints(const std::string &l, int want, long long *v) { size_t i = 0; int k = 0; for (;;) { while (i < l.size() && isspace((unsigned char)l[i])) i++; if (i == l.size()) break; size_t a = i; if (l[i] == '+' || l[i] == '-') i++; size_t d0 = i; while (i < l.size() && l[i] == '0') i++; size_t z = i; while (i < l.size() && isdigit((unsigned char)l[i])) i++; if (i == d0 || i - z > (k < 2 ? 9 : 18) || (i < l.size() && !isspace((unsigned char)l[i]))) return false; if (k < want) v[k] = strtoll(l.c_str() + a, NULL, 10); k++; } return k == want; }
// a line on which a needed integer is missing or is not a number at all: nothing sensible can be read from it (blank lines and comments: no opinion)
static bool hopeless(const std::string &l, int want) { size_t i = 0; for (int k = 0;; k++) { while (i < l.size() && isspace((unsigned char)l[i])) i++; if (i == l.size()) return k > 0 && k < want; if (k == want) return false; if (k == 0 && l[i] == '%') return false; if (l[i] == '+' || l[i] == '-') i++; size_t a = i; while (i < l.size() && isdigit((unsigned char)l[i])) i++; if (i == a) return true; if (i < l.size() && !isspace((unsigned char)l[i])) return false; } }
static int parse(const std::string &s, U64 p, Said &S) {
	if (s.empty()) return 0; if (s.find('\0') != std::string::npos) return -1; std::vector<std::string> L; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); L.push_back(s.substr(i, e - i)); i = e + 1; }
	long long v[3]; size_t at = 1; bool mm = L[0].compare(0, 14, "%%MatrixMarket") == 0; long long left = -1;
	if (mm) { std::vector<std::string> t; std::string w; for (char ch : L[0].substr(14) + " ") if (isspace((unsigned char)ch)) { if (!w.empty()) t.push_back(w); w.clear(); } else w += tolower((unsigned char)ch); if (L[0].size() > 14 && !isspace((unsigned char)L[0][14])) return -1; static const char *want[] = {"matrix", "coordinate", "integer", "general"}; if (t.size() < 4) return 0; for (int k = 0; k < 4; k++) if (t[k] != want[k]) return 0; if (t.size() > 4) return -1;
		while (at < L.size() && !L[at].empty() && L[at][0] == '%') at++; if (at == L.size()) return 0; if (!ints(L[at], 3, v)) return hopeless(L[at], 3) ? 0 : -1; at++; if (v[0] < 0 || v[1] < 0 || v[2] < 0) return 0; if (v[0] > 999999999 || v[2] > 999999999) return -1; S.n = v[0]; S.m = v[1]; left = v[2]; }
	else { std::string h = L[0]; size_t e = h.size(); while (e && isspace((unsigned char)h[e - 1])) e--; if (!e || h[e - 1] != 'M') return -1; if (!ints(h.substr(0, e - 1), 2, v)) return hopeless(h.substr(0, e - 1), 2) ? 0 : -1; if (v[0] < 0 || v[1] < 0) return 0; S.n = v[0]; S.m = v[1]; }
	for (; left != 0; at++) { if (at >= L.size()) return 0; if (!ints(L[at], 3, v)) return hopeless(L[at], 3) ? 0 : -1; if (!mm && v[0] == 0 && v[1] == 0 && v[2] == 0) break; if (v[0] < 1 || v[1] < 1) return 0; S.beyond |= v[0] > S.n || v[1] > S.m; U64 &x = S.q[{(int)v[0] - 1, (int)v[1] - 1}]; x = (x + tomod(v[2], p)) % p; S.entries++; if (left > 0) left--; }
	return 1; }
PROPERTY(B05, matrix, 4, "a nearly valid SMS or MatrixMarket text with up to 3 hostile edits (extreme or malformed numbers, missing, duplicated or over-long lines, deleted tokens), truncation, flipped or inserted bytes, or raw bytes; non-trivial when the text was edited") {
	U64 p = prime(c); bool edited; std::string s = hostile_text(c, edited); bool values = !c.chance(1, 5), hash = c.coin(); c.note("p=%llu values=%d hash=%d bytes: %s ", (unsigned long long)p, values, hash, printable(s).c_str()); c.feed(s.data(), s.size()); c.feed64(values * 2 + hash);
	spasm_triplet *T = NULL; u8 h[32]; FILE *f = reader(s); Outcome o = guarded([&] { T = spasm_triplet_load(f, values ? (i64)p : -1, hash ? h : NULL); });
	c.label("load:%s", o.kind == RETURNED ? "accepted" : o.kind == EXITED ? "rejected" : "aborted"); c.nontrivial(edited);
	CHECK(c, "abort", o.kind != ABORTED, "loading aborted instead of reporting an error: %s", o.msg.c_str());
	if (o.kind == EXITED) { CHECK(c, "status", o.status != 0, "rejected with exit status 0"); CHECK(c, "message", hk_err_bytes > 0, "rejected without any error message"); fclose(f); return; }
	fclose(f); CHECK(c, "wellformed", T != NULL && T->n >= 0 && T->m >= 0 && T->nz >= 0 && T->nz <= T->nzmax, "returned a malformed matrix (%d x %d, %lld entries, capacity %lld)", T ? T->n : -1, T ? T->m : -1, T ? (long long)T->nz : -1, T ? (long long)T->nzmax : -1);
	for (i64 k = 0; k < T->nz; k++) { CHECK(c, "wellformed", T->i[k] >= 0 && T->i[k] < T->n && T->j[k] >= 0 && T->j[k] < T->m, "entry %lld at (%d,%d) outside of the %dx%d matrix", (long long)k, T->i[k], T->j[k], T->n, T->m); if (values) CHECK(c, "wellformed", canonical(T->x[k], p) && T->x[k], "entry %lld = %d is not a non-zero canonical residue", (long long)k, T->x[k]); }
	Said W; int said = parse(s, p, W); CHECK(c, "accepted-bad", said != 0, "a truncated or invalid file is accepted as a %dx%d matrix with %lld entries", T->n, T->m, (long long)T->nz);
	if (said == 1) { c.label("contents:compared"); CHECK(c, "contents", T->n >= W.n && T->m >= W.m && (W.beyond || (T->n == W.n && T->m == W.m)), "loaded as %dx%d, the file describes a %dx%d matrix", T->n, T->m, W.n, W.m); std::map<std::pair<int, int>, U64> q; std::set<std::pair<int, int>> pos; for (i64 k = 0; k < T->nz; k++) { pos.insert({T->i[k], T->j[k]}); if (values) { U64 &x = q[{T->i[k], T->j[k]}]; x = (x + tomod(T->x[k], p)) % p; } }
		if (values) { for (auto it = q.begin(); it != q.end();) it = it->second ? std::next(it) : q.erase(it); std::map<std::pair<int, int>, U64> w; for (auto &e : W.q) if (e.second) w.insert(e); CHECK(c, "contents", q == w, "the coefficients loaded are not those of the file"); } else for (auto &e : W.q) CHECK(c, "contents", pos.count(e.first), "entry (%d,%d) of the file is missing", e.first.first, e.first.second); }
	if (T->n < 100000 && T->m < 100000) { spasm_csr *A = spasm_compress(T); check_csr(c, "wellformed", "compressed", A, T->n, T->m, values ? (I64)p : 0); spasm_csr_free(A); }
	spasm_triplet_free(T);
}
PROPERTY(B05, certificate, 2, "a saved rank certificate (rank 0 to 6) with up to 3 hostile edits or truncation; non-trivial when edited; truncated or non-numeric input must be reported as failure") {
	 int r = c.below(7); U64 p = prime(c); std::vector<int> v[4]; spasm_rank_certificate C; C.r = r; C.prime = p; Rng rg = c.bulk(); for (auto &x : C.hash) x = rg.below(256); for (auto &w : v) { w.resize(r + 1); for (auto &x : w) x = bal(rg.below64(p), p); } C.i = v[0].data(); C.j = v[1].data(); C.x = v[2].data(); C.y = v[3].data();
	std::string s = saved([&](FILE *o) { spasm_rank_certificate_save(&C, o); }); bool mustfail = false, edited = false; int nt = 0; { bool in = false; for (char ch : s) { bool sp = ch == ' ' || ch == '\n'; if (!sp && !in) nt++; in = !sp; } }
	std::vector<std::pair<size_t, size_t>> tok; { size_t i = 0; while (i < s.size()) { while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) i++; size_t a = i; while (i < s.size() && s[i] != ' ' && s[i] != '\n') i++; if (i > a) tok.push_back({a, i}); } }
	switch (c.below(6)) {
	case 0: break;
	case 1: { size_t cut = c.below(s.size()); if (cut < tok.back().second) { size_t lastcut = tok.back().first; mustfail = cut <= lastcut || (tok.size() == 3 && cut < tok.back().second); } s.resize(cut); edited = true; break; }        // truncation inside the last number may leave a valid shorter number
	case 2: { size_t t = c.below(tok.size()); static const char *bad[] = {"x", "nan", "--1", ".", "?"}; s.replace(tok[t].first, tok[t].second - tok[t].first, bad[c.below(5)]); mustfail = edited = true; break; }
	case 3: { size_t t = c.below(tok.size()); std::string w = token(c); s.replace(tok[t].first, tok[t].second - tok[t].first, w); edited = true; break; }
	case 4: { s.replace(tok[0].first, tok[0].second, hostile[c.below(16)]); edited = true; break; }
	default: { int k = 1 + c.below(3); while (k--) s[c.below(s.size())] = (char)c.below(256); edited = true; break; } }
	c.note("bytes: %s ", printable(s).c_str()); c.feed(s.data(), s.size()); c.nontrivial(edited); spasm_rank_certificate Q; memset(&Q, 0x5a, sizeof Q); bool ok = false; FILE *f = reader(s);
	Outcome o = guarded([&] { ok = spasm_rank_certificate_load(f, &Q); }); fclose(f); c.label("cert:%s", o.kind != RETURNED ? "exit" : ok ? "accepted" : "refused");
	CHECK(c, "abort", o.kind != ABORTED, "aborted: %s", o.msg.c_str()); if (o.kind == EXITED) { CHECK(c, "status", o.status != 0, "exit status 0 on rejection"); return; }
	CHECK(c, "truncated", !(mustfail && ok), "truncated or non-numeric certificate accepted"); 
	if (!edited) { CHECK(c, "valid", ok, "valid certificate refused"); CHECK(c, "valid", Q.r == r && Q.prime == (i64)p && !memcmp(Q.hash, C.hash, 32) && std::equal(Q.i, Q.i + r, C.i) && std::equal(Q.j, Q.j + r, C.j) && std::equal(Q.x, Q.x + r, C.x) && std::equal(Q.y, Q.y + r, C.y), "loaded certificate differs from the saved one"); }
	if (ok) { CHECK(c, "valid", Q.r >= 0, "accepted a negative rank %d", Q.r); volatile long sum = 0; for (int k = 0; k < Q.r; k++) sum += Q.i[k] + (long)Q.j[k] + Q.x[k] + Q.y[k]; free(Q.i); free(Q.j); free(Q.x); free(Q.y); }
}
