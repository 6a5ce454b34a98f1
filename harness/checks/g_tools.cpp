// The command-line programs, run as separate (sanitized) processes on generated files in a scratch directory.
#include "spec.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
using namespace vt; using namespace gen;
typedef std::vector<std::string> Args;
struct Run { int status = 0, sig = 0; bool hang = false; std::string out, err; };
static std::string path(const char *n) { return scratch_dir() + "/" + n; }
static void put(const std::string &f, const std::string &s) { FILE *o = fopen(f.c_str(), "w"); if (!o) { perror(f.c_str()); _exit(77); } fwrite(s.data(), 1, s.size(), o); fclose(o); }
static std::string get(const std::string &f) { std::string s; FILE *i = fopen(f.c_str(), "r"); if (!i) return s; char b[8192]; size_t k; while ((k = fread(b, 1, sizeof b, i)) > 0) s.append(b, k); fclose(i); return s; }
static Run run(Ctx &c, const char *tool, const Args &args, const std::string &input, int threads) {
	std::string exe = std::string(getenv("VT_TOOLS") ? getenv("VT_TOOLS") : "/nonexistent") + "/" + tool, fi = path("in"), fo = path("out"), fe = path("err"); put(fi, input); Run r;
	std::string line; for (auto &a : args) line += " " + a; c.note("$ %s%s (threads %d) ", tool, line.c_str(), threads);
	char th[16]; snprintf(th, 16, "%d", threads); std::vector<char *> av; av.push_back((char *)tool); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(NULL);
	pid_t pid = fork();
	if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); struct rlimit rl = {90, 90}; setrlimit(RLIMIT_CPU, &rl); setenv("OMP_NUM_THREADS", th, 1); setenv("OMP_WAIT_POLICY", "passive", 1);
		int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(a, 0); dup2(b, 1); dup2(e, 2); close(a); close(b); close(e); if (chdir(scratch_dir().c_str())) _exit(126); execv(exe.c_str(), av.data()); _exit(127); }
	if (pid < 0) _exit(77);
	int st = 0; long us = 300, tot = 0; while (waitpid(pid, &st, WNOHANG) == 0) { usleep(us); tot += us; if (us < 3000) us += us / 4; if (tot > 200000000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hang = true; break; } }
	if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); if (r.sig == SIGXCPU || r.sig == SIGKILL) r.hang = true; } else r.status = WEXITSTATUS(st); r.out = get(fo); r.err = get(fe);
	size_t k = r.err.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = r.err.find("runtime error:");
	CHECK(c, "sanitizer", k == std::string::npos && r.status != 99 && r.status != 98, "%s: invalid operation: %.1500s", tool, r.err.c_str() + (k == std::string::npos ? 0 : k > 100 ? k - 100 : 0));
	CHECK(c, "hang", !r.hang, "%s did not terminate", tool); CHECK(c, "crash", r.sig == 0, "%s was killed by signal %d: %.300s", tool, r.sig, r.err.c_str()); if (r.status == 127 || r.status == 126) { fprintf(stderr, "cannot execute %s\n", exe.c_str()); _exit(77); }
	c.label("run:%s", tool); return r;
}
static void ok(Ctx &c, const char *tool, const Run &r) { CHECK(c, "status", r.status == 0, "%s failed with status %d: %.300s", tool, r.status, r.err.c_str()); }
// reads exactly one SMS file, keeping the order of entries inside rows; every value must be canonical
static SMat parse_sms(Ctx &c, const std::string &s, U64 p, int en, int em, bool nodup = true) {
	const char *q = s.c_str(); int n, m, used; CHECK(c, "format", sscanf(q, "%d %d M%n", &n, &m, &used) == 2 && q[used] == '\n', "output does not start with the header of a matrix: '%.60s'", q); q += used + 1; CHECK(c, "dimensions", n == en && m == em, "output is %dx%d, expected %dx%d", n, m, en, em);
	SMat A(n, m, p); bool end = false; long i, j, x; std::set<std::pair<long, long>> seen; while (*q) { const char *l = q; for (long *v : {&i, &j, &x}) { char *e; *v = strtol(q, &e, 10); CHECK(c, "format", e != q, "unreadable line '%.60s'", l); q = e; } CHECK(c, "format", *q == '\n', "unreadable line '%.60s'", l); q++; if (!i && !j && !x) { end = true; break; } CHECK(c, "format", i >= 1 && i <= n && j >= 1 && j <= m, "entry (%ld,%ld) outside of the %dx%d output", i, j, n, m); CHECK(c, "canonical", canonical(x, p), "output value %ld is not canonical", x); if (nodup) CHECK(c, "format", seen.insert({i, j}).second, "output has entry (%ld,%ld) twice", i, j); A.row[i - 1].push_back({(int)j - 1, (U32)tomod(x, p)}); }
	CHECK(c, "format", end && !*q, "output is %s", end ? "followed by other text" : "truncated"); return A;
}
// a text of the matrix in one of the two formats; entries in any order, values not reduced, entries that vanish modulo p
static std::string text_of(Ctx &c, const SMat &A, bool noise = true) {
	bool mm = c.chance(1, 3); int form = c.below(4); Rng g = c.bulk(); std::vector<std::pair<std::pair<int, int>, I64>> es; std::set<std::pair<int, int>> used; char b[200];
	for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) { I64 v = form & 1 ? (I64)e.second : bal(e.second, A.p); if (noise && g.chance(1, 8)) v += ((I64)g.below(7) - 3) * (I64)A.p; es.push_back({{i, e.first}, v}); used.insert({i, e.first}); }
	if (noise && (form & 2) && A.n && A.m) for (int k = g.below(4); k > 0; k--) { std::pair<int, int> q((int)g.below(A.n), (int)g.below(A.m)); if (used.insert(q).second) es.push_back({q, ((I64)g.below(5) - 2) * (I64)A.p}); }
	if (form & 1) for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[g.below(i)]);
	std::string f; if (mm) { f = "%%MatrixMarket matrix coordinate integer general\n"; if (form & 2) f += "% a comment\n"; snprintf(b, 200, "%d %d %zu\n", A.n, A.m, es.size()); } else snprintf(b, 200, "%d %d M\n", A.n, A.m); f += b;
	for (auto &e : es) { if (!mm && e.second == 0 && 0) continue; snprintf(b, 200, "%d %d %lld\n", e.first.first + 1, e.first.second + 1, (long long)e.second); f += b; } if (!mm) f += "0 0 0\n"; c.label(mm ? "fmt:MM" : "fmt:SMS"); return f;
}
static void input_args(Ctx &c, U64 p, const std::string &text, Args &a, std::string &in) { // file or standard input; the default modulus may be left out
	if (c.coin()) { put(path("m.sms"), text); a.push_back(c.coin() ? "-m" : "--matrix"); a.push_back("m.sms"); } else in = text;
	if (p != 42013 || c.coin()) { switch (c.below(3)) { case 0: a.push_back("-p"); a.push_back(std::to_string(p)); break; case 1: a.push_back("--modulus"); a.push_back(std::to_string(p)); break; default: a.push_back("--modulus=" + std::to_string(p)); } } }
static std::string num(double d) { char b[40]; snprintf(b, 40, "%g", d); return b; }
static void ech_args(Ctx &c, Args &a, bool L) {
	if (c.chance(1, 3)) return; auto opt = [&](const char *n, double v) { if (c.chance(2, 3)) a.push_back(std::string(n) + "=" + num(v)); };
	opt("--max-iterations", c.pick(std::vector<int>{3, 0, 1, 2, 5, 100})); opt("--min-pivot-proportion", c.pick(std::vector<double>{0.1, 0, 0.5, 1.0, 2.0})); opt("--dense-block-size", c.pick(std::vector<int>{1000, 1, 2, 3, 5, 10, 50, 256, 65536})); opt("--min-rank-ratio", c.pick(std::vector<double>{0.5, 0, 0.9, 1.0, 2.0}));
	double thr = c.pick(std::vector<double>{0.05, 0, 0.01, 0.3, 1.1}), asp = c.pick(std::vector<double>{5, 0, 0.5, 1, 2});
	switch (c.below(6)) { // combinations that leave a finishing method
	case 1: a.push_back("--no-dense-mode"); break; case 2: a.push_back("--no-low-rank-mode"); break; case 3: a.push_back("--no-dense-mode"); a.push_back("--no-low-rank-mode"); break;
	case 4: a.push_back("--no-GPLU"); if (c.coin()) a.push_back("--no-low-rank-mode"); a.push_back("--dense-threshold=-1"); return;
	case 5: if (!L) { a.push_back("--no-GPLU"); a.push_back("--no-dense-mode"); a.push_back("--max-aspect-ratio=-1"); a.push_back("--dense-threshold=" + num(thr)); return; } break; default: break; }
	opt("--dense-threshold", thr); opt("--max-aspect-ratio", asp);
}
static SMat tmatrix(Ctx &c, U64 p) { SMat A; if (c.xl) { c.xlimit = 300; if (c.chance(1, 3)) { int far = c.chance(1, 2) ? 6000 : 1500; bool xl = c.xl; c.xl = false; A = matrix(c, p, c.chance(2, 3) ? Shape{700, far, 1, 6} : Shape{1, 6, 700, far}, 0); c.xl = xl; return A; } return matrix(c, p, Shape{1, 30, 1, 30}); } switch (c.weighted({3, 2, 2, 1})) { case 0: A = matrix(c, p, Shape{0, 25, 0, 25}); break; case 1: A = matrix(c, p, Shape{20, 80, 1, 15}, 0); break; case 2: A = matrix(c, p, Shape{1, 15, 20, 80}, 0); break; default: A = matrix(c, p, Shape{20, 70, 20, 70}, 0); } return A; }
static void feed_args(Ctx &c, const Args &a) { for (auto &x : a) c.feed(x.data(), x.size() + 1); }
static int reported_rank(Ctx &c, const Run &r) { size_t k = r.err.rfind("rank = "); CHECK(c, "report", k != std::string::npos, "no rank reported: %.200s", r.err.c_str()); return atoi(r.err.c_str() + k + 7); }
// ---------------------------------------------------------------- G01
// the output file may exist already: absent, or full of something longer
static void stale(Ctx &c, const char *name) { unlink(path(name).c_str()); if (c.coin()) { std::string junk = "3 3 M\n1 1 1\n2 2 1\n3 3 1\n0 0 0\n"; for (int k = 0; k < 400; k++) junk += "3 3 1 2 3 4 5 6 7 8 9\n"; put(path(name), junk); } }
PROPERTY(G01, rank, 3, "matrix file (both formats, unreduced and vanishing values, any order, all shapes), modulus, options, thread count; the reported rank against exact elimination; non-trivial when 2 <= rank < max(n,m)") {
	U64 p = prime(c); SMat A = tmatrix(c, p); int rk = any_rank(A), th = 1 + c.below(4); std::string text = text_of(c, A), in; Args a; bool cert = c.chance(1, 3); input_args(c, p, text, a, in); if (c.chance(1, 3)) a.push_back(c.coin() ? "-t" : "--no-transpose"); if (cert) a.push_back(c.coin() ? "-c" : "--certificate"); ech_args(c, a, cert); feed_args(c, a);
	Run r = run(c, "rank", a, in, th); ok(c, "rank", r); int got = reported_rank(c, r); CHECK(c, "rank", got == rk, "reported rank %d, the rank is %d", got, rk); CHECK(c, "selfcheck", r.err.find("INCORRECT") == std::string::npos, "the program declares its own certificate incorrect"); if (cert) CHECK(c, "selfcheck", r.err.find("CORRECT certificate") != std::string::npos, "no verdict on the certificate"); c.label("%s", plan(A, rk)); c.nontrivial(rk >= 2 && rk < std::max(A.n, A.m));
}
static int verdict(Ctx &c, const Run &r) { bool bad = r.err.find("INCORRECT") != std::string::npos, good = !bad && r.err.find("CORRECT certificate") != std::string::npos; CHECK(c, "verdict-status", !(good && r.status), "certificate declared correct, but the exit status is %d", r.status); CHECK(c, "verdict-status", !(bad && !r.status), "certificate declared incorrect, but the exit status is 0"); CHECK(c, "verdict-none", good || r.status, "exit status 0 without a verdict: %.200s", r.err.c_str()); return good; }
PROPERTY(G01, certificate, 3, "rank writes a certificate, check_cert reads it for the same file: must be accepted; then an altered certificate, another file, another modulus, or a truncated certificate: the verdict and the exit status are compared with an independent implementation of the protocol; non-trivial when rank >= 1") {
	U64 p = prime(c); SMat A = tmatrix(c, p); int rk = any_rank(A), th = 1 + c.below(4); std::string text = text_of(c, A), in; Args a, b; input_args(c, p, text, a, in); Args base = a; if (c.chance(1, 3)) a.push_back("--no-transpose"); a.push_back("--certificate"); a.push_back(c.coin() ? "-o" : "--output"); a.push_back("cert"); ech_args(c, a, true); feed_args(c, a); stale(c, "cert");
	Run r = run(c, "rank", a, in, th); ok(c, "rank", r); int got = reported_rank(c, r); CHECK(c, "rank", got == rk, "reported rank %d, the rank is %d", got, rk); std::string cert = get(path("cert")); CHECK(c, "written", !cert.empty(), "no certificate was written");
	// read it with independent code
	std::vector<std::string> tok; { size_t i = 0; while (i < cert.size()) { while (i < cert.size() && isspace((unsigned char)cert[i])) i++; size_t s = i; while (i < cert.size() && !isspace((unsigned char)cert[i])) i++; if (i > s) tok.push_back(cert.substr(s, i - s)); } } CHECK(c, "format", tok.size() == 3 + 4 * (size_t)rk, "the certificate holds %zu values, expected %d", tok.size(), 3 + 4 * rk); CHECK(c, "format", atoi(tok[0].c_str()) == rk && strtoull(tok[1].c_str(), NULL, 10) == p, "the certificate states rank %s modulo %s", tok[0].c_str(), tok[1].c_str());
	auto check = [&](const std::vector<std::string> &t, const std::string &file, const SMat &M, U64 q, bool truncated, const char *what) {
		std::vector<int> v; for (size_t k = 3; k < t.size(); k++) v.push_back((int)strtol(t[k].c_str(), NULL, 10)); spasm_rank_certificate C; C.r = truncated ? 0 : (t.size() - 3) / 4; C.prime = strtoull(t[1].c_str(), NULL, 10); for (int k = 0; k < 32; k++) C.hash[k] = strtoul(t[2].substr(2 * k, 2).c_str(), NULL, 16); v.push_back(0); C.i = v.data(); C.j = C.i + C.r; C.x = C.j + C.r; C.y = C.x + C.r; auto h = Sha256::digest(file.data(), file.size()); bool want = !truncated && ref_verify(M, h.data(), C);
		std::string s; for (size_t k = 0; k < t.size(); k++) { s += t[k]; s += k < 3 || (C.r && (k - 2) % C.r == 0) ? "\n" : " "; } Args e; std::string in2; bool onstdin = false; put(path("cert2"), s); if (c.coin()) { put(path("m2.sms"), file); e = {"-m", "m2.sms", "-p", std::to_string(q), "--certificate=cert2"}; if (c.coin()) { e.pop_back(); in2 = s; onstdin = true; } } else { in2 = file; e = {"--modulus", std::to_string(q), "-c", "cert2"}; } (void)onstdin;
		Run k = run(c, "check_cert", e, in2, th); bool g = verdict(c, k); CHECK(c, what, g == want, "%s: the certificate is %s, the checker says %s (status %d)", what, want ? "valid" : "invalid", g ? "correct" : "incorrect", k.status); c.label("%s:%s", what, want ? "valid" : "invalid"); return want; };
	bool honest = check(tok, text, A, p, false, "honest"); CHECK(c, "honest", honest, "the certificate written by rank is not valid for the file"); c.nontrivial(rk >= 1);
	auto t = tok; std::string other = text; SMat M = A; U64 q = p; bool tr = false; const char *what = "altered";
	switch (c.below(6)) {
	case 0: if (!rk) return; { int k = 3 + c.below(4 * rk); t[k] = std::to_string(strtol(t[k].c_str(), NULL, 10) + c.range(1, 3)); } break;
	case 1: if (!rk) return; { int f = c.below(4), k = 3 + f * rk + c.below(rk), l = 3 + f * rk + c.below(rk); std::swap(t[k], t[l]); } break;
	case 2: t[2][c.below(64)] = "0123456789abcdef"[c.below(16)]; break;
	case 3: what = "other-file"; if (A.n && A.m && c.coin()) { int i = c.below(A.n); Rng g = c.bulk(); M.row[i] = srow(g, A.m, 0.5, p, 0); other = text_of(c, M); } else other += "\n"; break;
	case 4: what = "other-modulus"; q = prime(c); M.p = q; { SMat N(A.n, A.m, q); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) if (e.second % q) N.row[i].push_back({e.first, (U32)(e.second % q)}); if (q == p) return; M = N; } break;
	default: what = "truncated"; tr = true; { size_t k = c.below(t.size()); if (k < 3) { put(path("cert2"), k == 0 ? "" : k == 1 ? t[0] + "\n" : t[0] + "\n" + t[1] + "\n"); put(path("m2.sms"), text); Run z = run(c, "check_cert", {"-m", "m2.sms", "-p", std::to_string(p), "-c", "cert2"}, "", th); CHECK(c, what, !verdict(c, z), "truncated certificate declared correct"); return; } t.resize(k); if (!rk) return; } }
	check(t, other, M, q, tr, what);
}
PROPERTY(G01, usage, 1, "a missing, unreadable or malformed input, an unwritable output, an unknown option or argument given to any of the programs; must be refused with a non-zero status and a message; non-trivial always") {
	U64 p = prime(c); SMat A = matrix(c, p, Shape{1, 8, 1, 8}); std::string text = text_of(c, A); put(path("m.sms"), text); put(path("bad.sms"), std::vector<std::string>{"", "3 M\n", "3 3 X\n1 1 1\n", "2 2 M\n0 1 1\n0 0 0\n", "2 2 M\n1 1\n", "%%MatrixMarket matrix array real general\n2 2\n1\n", "-1 2 M\n0 0 0\n"}[c.below(7)]); static const char *t[] = {"rank", "kernel", "solve", "check_cert"}; const char *tool = t[c.below(4)]; Args a; std::string sp = std::to_string(p); put(path("cert"), "x"); Args good = {"-m", "m.sms", "-p", sp}; int kind = c.below(6); bool none = false;
	switch (kind) { case 0: a = {"-m", "missing.sms", "-p", sp}; break; case 1: a = {"-m", "bad.sms", "-p", sp}; break; case 2: a = good; a.push_back("extra"); break; case 3: a = good; a.push_back("--no-such-option"); break; case 4: a = good; if (!strcmp(tool, "check_cert")) a.insert(a.end(), {"-c", "missing"}); else a.insert(a.end(), {"-o", "no/such/dir"}); if (!strcmp(tool, "rank")) a.push_back("-c"); if (!strcmp(tool, "solve")) { a.insert(a.end(), {"-r", "m.sms"}); } break; default: a = {"-m", ".", "-p", sp}; none = false; }
	if (kind != 4 && !strcmp(tool, "solve") ) { a.insert(a.end(), {"-r", "m.sms"}); } if (kind != 4 && !strcmp(tool, "check_cert")) a.insert(a.end(), {"-c", "cert"}); (void)none; Run r = run(c, tool, a, "", 1); feed_args(c, a); CHECK(c, "refused", r.status != 0, "%s accepted an invalid request", tool); CHECK(c, "message", !r.err.empty(), "%s refused without a message", tool); c.nontrivial(); c.label("usage:%d", kind);
}
// ---------------------------------------------------------------- G02
PROPERTY(G02, echelonize, 2, "matrix file on standard input, modulus, options, with or without --rref; the printed matrix is compared with the definition of an echelonized (reduced) basis; non-trivial when 2 <= rank < m") {
	U64 p = prime(c); SMat A = tmatrix(c, p); int th = 1 + c.below(4), rk = any_rank(A); std::string text = text_of(c, A); Args a; bool rr = c.coin(); if (p != 42013 || c.coin()) { a.push_back("--modulus"); a.push_back(std::to_string(p)); } if (rr) a.push_back("--rref"); if (c.chance(1, 3)) a.push_back("--no-greedy-pivot-search"); if (c.chance(1, 3)) a.push_back("--no-low-rank-mode"); if (c.chance(1, 3)) a.push_back("--dense-block-size=" + std::to_string(c.pick(std::vector<int>{1, 2, 5, 50}))); if (c.chance(1, 4)) a.push_back("--low-rank-start-weight=" + std::to_string(c.range(1, 5))); if (c.chance(1, 3)) a.push_back("--sparsity-threshold=" + num(c.pick(std::vector<double>{0, 0.01, 0.3, 1.1}))); feed_args(c, a);
	Run r = run(c, "echelonize", a, text, th); ok(c, "echelonize", r); SMat U = parse_sms(c, r.out, p, rk, A.m); std::vector<int> q(A.m + 1, -1); for (int i = 0; i < rk; i++) { CHECK(c, "pivot", !U.row[i].empty(), "row %d of the output is empty", i); q[U.row[i][0].first] = i; }
	spasm_csr *C = to_csr(U); spasm_lu f; memset(&f, 0, sizeof f); f.U = C; f.r = rk; f.qinv = q.data(); Basis B = check_echelon(c, A, &f, rk); if (rr) check_rref(c, B, C, q.data()); spasm_csr_free(C); c.nontrivial(rk >= 2 && rk < A.m); c.label(rr ? "rref" : "echelon"); c.label("%s", plan(A, rk));
}
static SMat transposed(const SMat &A) { SMat T(A.m, A.n, A.p); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) T.row[e.first].push_back({i, e.second}); return T; }
PROPERTY(G02, kernel, 2, "matrix file, modulus, options, left or right kernel, output to a file or to standard output; orthogonality, dimension and independence; non-trivial when rank >= 1 and the kernel has dimension >= 2") {
	U64 p = prime(c); SMat A = tmatrix(c, p); int th = 1 + c.below(4), rk = any_rank(A); std::string text = text_of(c, A), in; Args a; input_args(c, p, text, a, in); bool left = c.coin(), file = c.coin(); if (left) a.push_back(c.coin() ? "-l" : "--left"); if (file) { a.push_back(c.coin() ? "-o" : "--output"); a.push_back("ker"); stale(c, "ker"); } ech_args(c, a, false); feed_args(c, a);
	Run r = run(c, "kernel", a, in, th); ok(c, "kernel", r); SMat M = left ? transposed(A) : A; SMat K = parse_sms(c, file ? get(path("ker")) : r.out, p, M.m - rk, M.m); if (file) CHECK(c, "stdout", r.out.empty(), "output on standard output although a file was given"); spasm_csr *C = to_csr(K); check_kernel(c, M, rk, C, left ? "left kernel" : "kernel"); spasm_csr_free(C); c.nontrivial(rk >= 1 && M.m - rk >= 2); c.label(left ? "left" : "right");
}
PROPERTY(G02, solve, 2, "matrix file and right-hand side file with solvable and unsolvable rows; X*A = B on solvable rows, a warning for exactly the others; non-trivial when both kinds occur, or a non-zero solution with rank >= 2") {
	U64 p = prime(c); SMat A = tmatrix(c, p); int th = 1 + c.below(4), rk = any_rank(A); SMat B = draw_rhs(c, A, 6); std::string text = text_of(c, A), in; Args a; input_args(c, p, text, a, in); put(path("rhs.sms"), text_of(c, B)); bool file = c.coin(); a.push_back(c.coin() ? "-r" : "--rhs"); a.push_back("rhs.sms"); if (file) { a.push_back("-o"); a.push_back("sol"); stale(c, "sol"); } ech_args(c, a, true); feed_args(c, a);
	Run r = run(c, "solve", a, in, th); ok(c, "solve", r); SMat X = parse_sms(c, file ? get(path("sol")) : r.out, p, B.n, A.n); int yes = 0, no = 0; DMat D = dense(A); for (int t = 0; t < B.n; t++) { SMat E = A; E.n++; E.row.push_back(B.row[t]); bool want = any_rank(E) == rk; (want ? yes : no)++; char w[80]; snprintf(w, 80, "no solution for row %d\n", t); bool warned = r.err.find(w) != std::string::npos; CHECK(c, "warning", warned == !want, "right-hand side %d %s a solution, the program %s", t, want ? "has" : "has not", warned ? "warns" : "does not warn");
		if (want) { std::vector<U64> s(A.m, 0); for (auto &e : X.row[t]) for (auto &u : A.row[e.first]) s[u.first] = (s[u.first] + (U64)e.second * u.second) % p; CHECK(c, "solution", s == drow(B, t), "row %d of X*A differs from B", t); } }
	c.nontrivial((yes && no) || (yes && rk >= 2 && X.nnz())); c.label("rhs:%s", yes && no ? "mixed" : yes ? "solvable" : no ? "unsolvable" : "none");
}
// ---------------------------------------------------------------- G03
PROPERTY(G03, reshape, 3, "matrix file given to transpose, vertical_swap or stack; printed matrix against the definition; non-trivial when the matrix has entries and the result differs from the input") {
	U64 p = 42013; int lng = c.chance(1, 12) ? 1 + c.below(2) : 0, far = lng && c.chance(1, 4) ? 70000 : 4000; SMat A = matrix(c, p, lng == 0 ? Shape{0, 40, 0, 40} : lng == 1 ? Shape{600, far, 1, 4} : Shape{1, 4, 600, far}, lng ? 0 : 2); if (c.chance(1, 3)) for (int i = 0; i < A.n; i++) { SRow o; if (i % 3) for (auto &e : A.row[i]) if (e.first % 4) o.push_back(e); A.row[i] = o; } std::string text = text_of(c, A, true); int k = c.below(3); c.feed64(k); SMat W = A; const char *tool = k == 0 ? "transpose" : k == 1 ? "vertical_swap" : "stack";
	if (k == 0) W = transposed(A); else if (k == 1) { for (auto &r : W.row) for (auto &e : r) e.first = A.m - 1 - e.first; } else { std::vector<int> cm(A.m, 0); int u = 0, v = 0; for (auto &r : A.row) for (auto &e : r) cm[e.first] = 1; for (auto &x : cm) x = x ? v++ : -1; W = SMat(0, v, p); for (auto &r : A.row) if (!r.empty()) { u++; W.row.push_back(r); for (auto &e : W.row.back()) e.first = cm[e.first]; } W.n = u; }
	Run r = run(c, tool, {}, text, 1 + c.below(3)); ok(c, tool, r); SMat G = parse_sms(c, r.out, p, W.n, W.m); CHECK(c, tool, equal(G, W), "%s: %s", tool, diff(dense(normal(G)), dense(normal(W))).c_str()); c.nontrivial(A.nnz() > 0 && !equal(A, W));
}
PROPERTY(G03, dm, 2, "matrix file given to dm (permuted matrix, statistics, image); the printed matrix must be a row and column permutation of the input in the coarse block form of the canonical decomposition; block sizes and structural rank against an independent decomposition; non-trivial when at least two coarse parts are not empty") {
	U64 p = 42013; int mode = c.below(4); bool ext = c.chance(1, mode == 3 ? 2 : 8), tall = c.coin(); SMat A = matrix(c, p, !ext ? Shape{0, 30, 0, 30} : tall ? Shape{1, 1500, 1, 3} : Shape{1, 3, 1, 1500}, ext ? 0 : 2); if (ext) c.label("dm:extreme"); std::string text = text_of(c, A, false); std::vector<std::vector<int>> adj(A.n); for (int i = 0; i < A.n; i++) for (auto &e : A.row[i]) adj[i].push_back(e.first); std::vector<int> R, C; int sr = max_matching(adj, A.m, &R, &C);
	std::vector<std::vector<int>> tr(A.m); for (int i = 0; i < A.n; i++) for (int j : adj[i]) tr[j].push_back(i);
	std::vector<char> hr(A.n, 0), hc(A.m, 0), vr(A.n, 0), vc(A.m, 0); std::vector<int> st; // columns reachable from unmatched columns (H), rows reachable from unmatched rows (V)
	for (int j = 0; j < A.m; j++) if (C[j] < 0) { hc[j] = 1; st.push_back(j); } while (!st.empty()) { int j = st.back(); st.pop_back(); for (int i : tr[j]) if (!hr[i]) { hr[i] = 1; if (R[i] >= 0 && !hc[R[i]]) { hc[R[i]] = 1; st.push_back(R[i]); } } }
	for (int i = 0; i < A.n; i++) if (R[i] < 0) { vr[i] = 1; st.push_back(i); } while (!st.empty()) { int i = st.back(); st.pop_back(); for (int j : adj[i]) if (!vc[j]) { vc[j] = 1; if (C[j] >= 0 && !vr[C[j]]) { vr[C[j]] = 1; st.push_back(C[j]); } } }
	int hn = std::count(hr.begin(), hr.end(), 1), hm = std::count(hc.begin(), hc.end(), 1), vn = std::count(vr.begin(), vr.end(), 1), vm = std::count(vc.begin(), vc.end(), 1), sn = A.n - hn - vn, sm = A.m - hm - vm; CHECK(c, "oracle", sn == sm, "inconsistent oracle"); c.nontrivial((hm > 0) + (sn > 0) + (vn > 0) >= 2);
	Args a; double mp = 0; if (mode == 1) a = {"--permuted"}; if (mode == 2) a = {"--verbose"}; if (mode == 3) { if (A.n < 1 || A.m < 1) return; mp = c.pick(std::vector<double>{0.0001, 0.001, 0.01, 1, 0.0003}); a = {"--image", num(mp)}; } feed_args(c, a); c.feed64(mode); Run r = run(c, "dm", a, text, 1 + c.below(3)); ok(c, "dm", r);
	if (mode <= 1) { SMat G = parse_sms(c, r.out, p, A.n, A.m); // row and column permutation: multiset of values must agree, structural rank, and the block shape with the sizes of the canonical decomposition
		std::multiset<U32> x, y; for (auto &q : A.row) for (auto &e : q) x.insert(e.second); for (auto &q : G.row) for (auto &e : q) y.insert(e.second); CHECK(c, "permuted", x == y, "the printed matrix does not hold the same values"); int g = rank(dense(G)), w = rank(dense(A)); CHECK(c, "permuted", g == w, "the printed matrix has rank %d, the input %d", g, w);
		auto degs = [](const SMat &M) { std::vector<std::multiset<U32>> rr(M.n), cc(M.m); for (int i = 0; i < M.n; i++) for (auto &e : M.row[i]) { rr[i].insert(e.second); cc[e.first].insert(e.second); } std::sort(rr.begin(), rr.end()); std::sort(cc.begin(), cc.end()); return std::make_pair(rr, cc); }; CHECK(c, "permuted", degs(A) == degs(G), "rows or columns do not hold the same values up to order");
		for (int i = 0; i < A.n; i++) for (auto &e : G.row[i]) { int j = e.first; int rb = i < hn ? 0 : i < hn + sn ? 1 : 2, cb = j < hm ? 0 : j < hm + sn ? 1 : 2; CHECK(c, "blocks", cb >= rb, "entry (%d,%d) of the printed matrix is below the block diagonal (H %dx%d, S %d)", i, j, hn, hm, sn); } }
	if (mode == 2) { int v = -1; CHECK(c, "verbose", sscanf(r.out.c_str(), "structural rank = %d", &v) == 1 && v == sr, "printed structural rank %d, the maximum matching has size %d", v, sr); auto blk = [&](const char *n, int rn, int cm) { char b[80]; snprintf(b, 80, "*) %s (%d x %d)", n, rn, cm); std::string any = std::string("*) ") + n + " ("; bool has = r.out.find(any) != std::string::npos, exact = r.out.find(b) != std::string::npos; if (rn > 0 && cm > 0) CHECK(c, "verbose", exact, "%s should be %dx%d: %.200s", n, rn, cm, r.out.c_str()); else CHECK(c, "verbose", !has, "%s should be empty: %.200s", n, r.out.c_str()); }; blk("H", hn, hm); blk("S", sn, sn); blk("V", vn, vm);
		// strongly connected components of the square part
		std::vector<int> sc; std::map<int, int> id; for (int j = 0; j < A.m; j++) if (!hc[j] && !vc[j]) { id[j] = sc.size(); sc.push_back(j); } int k = sc.size(); std::vector<std::vector<char>> reach(k, std::vector<char>(k, 0)); for (int q = 0; q < k; q++) { reach[q][q] = 1; for (int j : adj[C[sc[q]]]) if (id.count(j)) reach[q][id[j]] = 1; } for (int t = 0; t < k; t++) for (int i = 0; i < k; i++) if (reach[i][t]) for (int j = 0; j < k; j++) reach[i][j] |= reach[t][j];
		std::multiset<int> want, got; std::vector<char> done(k, 0); int triv = 0; for (int i = 0; i < k; i++) if (!done[i]) { int z = 0; for (int j = 0; j < k; j++) if (reach[i][j] && reach[j][i]) { done[j] = 1; z++; } if (z == 1) triv++; else want.insert(z); } const char *q = r.out.c_str(); while ((q = strstr(q, "SCC of size "))) { int z = atoi(q + 12); if (z > 1) got.insert(z); q += 5; } int gt = 0; if ((q = strstr(r.out.c_str(), "plus "))) gt = atoi(q + 5);
		CHECK(c, "verbose", got == want && gt == triv, "fine components: %zu of size > 1 and %d of size 1 expected: %.300s", want.size(), triv, r.out.c_str()); }
	if (mode == 3) { int w = 0, h = 0; CHECK(c, "image", sscanf(r.out.c_str(), "P3\n%d %d", &w, &h) == 2 && w >= 1 && h >= 1 && w <= A.m && h <= A.n, "image of size %dx%d for a %dx%d matrix: %.40s", w, h, A.n, A.m, r.out.c_str()); std::vector<long> tok; { const char *q = r.out.c_str() + 2; char *e; for (;;) { long v = strtol(q, &e, 10); if (e == q) break; tok.push_back(v); q = e; } while (*q == ' ' || *q == '\n') q++; CHECK(c, "image", *q == 0, "unexpected text in the image: %.30s", q); }
		CHECK(c, "image", tok.size() == 3 + 3 * (size_t)w * h && tok[2] == 255, "a %dx%d image with %zu numbers", w, h, tok.size()); std::multiset<int> dr, dc, wr, wc; std::vector<int> cr(h, 0), cc(w, 0); int on = 0;
		for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { long s = 0; for (int k = 0; k < 3; k++) { long v = tok[3 + 3 * ((size_t)y * w + x) + k]; CHECK(c, "image", v >= 0 && v <= 255, "colour out of range"); s += v; } if (!s) on++, cr[y]++, cc[x]++; }
		size_t nz = 0; for (auto &q : A.row) nz += q.size(); CHECK(c, "image", (size_t)on <= nz && (on > 0) == (nz > 0), "%d dark pixels for %zu entries", on, nz);
		if (w == A.m && h == A.n) { for (int x : cr) dr.insert(x); for (int x : cc) dc.insert(x); std::vector<int> deg(A.m, 0); for (auto &q : A.row) { wr.insert(q.size()); for (auto &e : q) deg[e.first]++; } for (int x : deg) wc.insert(x); CHECK(c, "image", dr == wr && dc == wc, "the dark pixels of the full-size image are not a row and column permutation of the pattern"); c.label("dm:full-image"); } }
	c.label("dm:%d", mode);
}
PROPERTY(G03, bitmap, 2, "pattern of a matrix (sometimes with an extreme aspect ratio) and a size request (width, height, both, megapixels, none); the image has a valid size that follows the request and keeps the aspect ratio, and its pixels show exactly the pattern; non-trivial when both kinds of pixels occur") {
	U64 p = 42013; Shape sh{1, 40, 1, 40}; if (c.chance(1, 4)) sh = Shape{1, 3, 100, 900}; else if (c.chance(1, 4)) sh = Shape{100, 900, 1, 3}; bool huge = c.chance(1, 60); SMat A; if (huge) { Rng g = c.bulk(); A = SMat(1000000 + g.below(1500000), 1000000 + g.below(2500000), p); for (int t = g.below(60); t > 0; t--) { int i = g.chance(1, 2) ? g.below(A.n) : A.n - 1 - (int)g.below(1000), j = g.chance(1, 2) ? g.below(A.m) : A.m - 1 - (int)g.below(1000); bool dup = false; for (auto &e : A.row[i]) dup |= e.first == j; if (!dup) { A.row[i].push_back({j, 1}); c.feed64(((U64)i << 32) | j); } } c.note("huge %dx%d ", A.n, A.m); c.label("huge"); } else A = matrix(c, p, sh);
	if (A.n < 1 || A.m < 1) return; std::string text = text_of(c, A, false); Args a; int w = -1, h = -1; bool gray = c.chance(1, 3); double mp = -1; if (gray) a.push_back("--gray");
	if (huge) switch (c.below(4)) { case 0: w = (int)((1ll << 31) / A.n) + (int)c.below(400) - 50; a.push_back("--width=" + std::to_string(w)); break; case 1: h = (int)((1ll << 31) / A.m) + (int)c.below(300) - 50; a.push_back("--height=" + std::to_string(h)); break; case 2: break; default: mp = c.pick(std::vector<double>{0.3, 0.7, 1, 2}); a.push_back("--mpixels=" + num(mp)); } else
	switch (c.below(5)) { case 0: break; case 1: w = 1 + c.below(A.m + 5); a.push_back("--width=" + std::to_string(w)); break; case 2: h = 1 + c.below(A.n + 5); a.push_back("--height=" + std::to_string(h)); break; case 3: w = 1 + c.below(A.m + 5); h = 1 + c.below(A.n + 5); a.push_back("--width=" + std::to_string(w)); a.push_back("--height=" + std::to_string(h)); break; default: mp = c.pick(std::vector<double>{0.00001, 0.0001, 0.001, 0.01, 1}); a.push_back("--mpixels=" + num(mp)); } feed_args(c, a);
	Run r = run(c, "bitmap", a, text, 1); ok(c, "bitmap", r); int gw = 0, gh = 0, used = 0; CHECK(c, "size", sscanf(r.out.c_str(), "P%*d\n%d %d%n", &gw, &gh, &used) == 2 && gw >= 1 && gh >= 1 && gw <= A.m && gh <= A.n, "image of size %dx%d for a %dx%d matrix: %.40s", gw, gh, A.n, A.m, r.out.c_str());
	auto near = [&](double want, int got, int cap, const char *what) { double lo = std::min<double>(cap, std::max(1.0, want - 1)), hi = std::min<double>(cap, std::max(1.0, want + 1)); CHECK(c, "ratio", got >= lo - 1e-6 && got <= hi + 1e-6, "the %s of the image is %d, expected about %.1f (matrix %dx%d)", what, got, std::min<double>(want, cap), A.n, A.m); };
	if (w > 0) near(w, gw, A.m, "width"); if (h > 0) near(h, gh, A.n, "height"); if (w > 0 && h < 0) near((double)w * A.n / A.m, gh, A.n, "height"); if (h > 0 && w < 0) near((double)h * A.m / A.n, gw, A.m, "width"); double e = mp > 0 ? mp : 1; if (w < 0 && h < 0) { double al = sqrt(e * 1e6 / ((double)A.n * A.m)); near(al * A.m, gw, A.m, "width"); near(al * A.n, gh, A.n, "height"); }
	std::vector<char> has((size_t)gw * gh, 0); for (int i = 0; i < A.n; i++) for (auto &e2 : A.row[i]) has[(size_t)((I64)i * gh / A.n) * gw + (I64)e2.first * gw / A.m] = 1; const char *q = r.out.c_str() + used; char *e3; CHECK(c, "format", r.out[1] == (gray ? '2' : '1'), "wrong image type"); if (gray) strtol(q, &e3, 10), q = e3; int on = 0; for (size_t k = 0; k < has.size(); k++) { long v = strtol(q, &e3, 10); CHECK(c, "format", e3 != q, "image is truncated"); q = e3; on += has[k]; CHECK(c, "pixel", (gray ? v < 255 : v == 1) == (has[k] != 0), "pixel %zu is %ld but its rectangle %s", k, v, has[k] ? "contains an entry" : "is empty"); }
	c.nontrivial(on > 0 && on < gw * gh);
}
