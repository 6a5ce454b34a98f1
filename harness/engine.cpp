#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <algorithm>
#include <map>
#include <set>

extern "C" char __executable_start;

namespace vt {
static const size_t TAPE_MAX = 1 << 20;
static const size_t HSET = 1 << 20;
static const int RING = 48; static const size_t RING_WORDS = 1 << 20;
struct LabelSlot { char name[56]; U64 count; };
struct Shm {
	volatile U64 cur_case; U64 evaluations, nontrivial, distinct, distinct_nontrivial, discarded, mutated, edges, corpus;
	volatile int state;             // 0 idle, 1 running a case
	volatile int outcome;           // 0 none, 1 ok, 2 failed, 3 discarded
	char key[64]; char msg[2048];
	size_t desc_len; char desc[8192];
	LabelSlot labels[256]; int nlabels;
	char samples[12][1200]; int nsamples;
	size_t tape_len; U32 tape[TAPE_MAX]; U32 bound[TAPE_MAX];
	U64 hset[HSET];
	// ring of the previous tapes (for failures that need history)
	U32 ring_pos; U32 ring_off[RING], ring_len[RING]; U64 ring_w; U32 ring_data[RING_WORDS];
	U64 switches, multi;
};
Shm *shm;
static Ctx *cur_ctx;
Ctx *current() { return cur_ctx; }
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }

static struct { bool replay; const U32 *t; size_t n, pos; Rng rng; bool extend; } src;
static std::string g_scratch;
std::string scratch_dir() { return g_scratch; }

U32 Ctx::below(U32 n) {
	U32 v;
	if (n == 1) return 0;
	if (src.replay && src.pos < src.n) { v = src.t[src.pos++]; if (n) v %= n; }
	else if (src.replay && !src.extend) { v = 0; }
	else { U64 r = src.rng.next(); v = n ? (U32)(((r >> 32) * (U64)n) >> 32) : (U32)(r >> 32); }
	size_t k = shm->tape_len;
	if (k < TAPE_MAX) { shm->tape[k] = v; shm->bound[k] = n; shm->tape_len = k + 1; }
	else { shm->outcome = 3; _exit(78); }
	return v;
}
int Ctx::weighted(std::initializer_list<int> w) {
	int tot = 0; for (int x : w) tot += x;
	int v = below(tot), k = 0;
	for (int x : w) { if (v < x) return k; v -= x; k++; }
	return 0;
}
void Ctx::feed(const void *p, size_t n) {
	const uint8_t *b = (const uint8_t *)p; fed = true;
	for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
}
void Ctx::label(const char *fmt, ...) {
	char b[56]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	for (int i = 0; i < shm->nlabels; i++) if (!strcmp(shm->labels[i].name, b)) { shm->labels[i].count++; return; }
	if (shm->nlabels < 256) { strcpy(shm->labels[shm->nlabels].name, b); shm->labels[shm->nlabels].count = 1; shm->nlabels++; }
}
void Ctx::note(const char *fmt, ...) {
	size_t room = sizeof(shm->desc) - shm->desc_len; if (room < 2) return;
	va_list ap; va_start(ap, fmt); int k = vsnprintf(shm->desc + shm->desc_len, room, fmt, ap); va_end(ap);
	if (k > 0) shm->desc_len += std::min<size_t>(k, room - 1);
}
void Ctx::fail(const char *key, const char *fmt, ...) {
	snprintf(shm->key, sizeof shm->key, "%s", key);
	va_list ap; va_start(ap, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, ap); va_end(ap);
	shm->outcome = 2;
	_exit(77);
}
struct Discard {};
void Ctx::discard() { throw Discard(); }

// --- coverage (gcc -fsanitize-coverage=trace-pc) ---
static uint8_t covmap[1 << 16], covseen[1 << 16]; static bool cov_on;
static U32 cov_touched[1 << 16]; static int cov_nt; static U32 cov_prev;
}
namespace vt { extern bool preempt_on; void sched_access(void *pc); }
extern "C" void __sanitizer_cov_trace_pc(void) {
	using namespace vt;
	if (__builtin_expect(preempt_on, 0)) sched_access(__builtin_return_address(0));
	if (!cov_on) return;
	U32 pc = (U32)((char *)__builtin_return_address(0) - &__executable_start);
	U32 h = (pc * 2654435761u) >> 16;
	U32 k = (h ^ cov_prev) & 0xffff; cov_prev = h >> 1;
	if (!covmap[k]) cov_touched[cov_nt++] = k;
	if (covmap[k] < 255) covmap[k]++;
}
namespace vt {
static int bucket(int c) { return c <= 3 ? (1 << (c - 1)) : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }

static std::vector<Prop> subs; static int subs_total;
static bool g_thorough, g_xl, g_strip; static int only_sub = -1; static std::string only_name;
static U64 mix(U64 a, U64 b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); r.next(); return r.next(); }

// executes one case in this process. src must have been prepared. returns outcome 1/3, or does not return
static int run_one() {
	Ctx c; c.thorough = g_thorough; c.xl = g_xl; c.strip = g_strip; cur_ctx = &c;
	shm->tape_len = 0; shm->desc_len = 0; shm->desc[0] = 0; shm->outcome = 0; shm->key[0] = 0; shm->msg[0] = 0;
	hooks_reset(); sched_reset();
	shm->state = 1;
	int out = 1;
	try {
		int k = 0;
		if (only_sub >= 0) k = only_sub;
		else if (subs.size() > 1) { int v = c.below(subs_total); while (v >= subs[k].weight) { v -= subs[k].weight; k++; } }
		if (subs.size() > 1) { c.note("[%s] ", subs[k].sub); c.label("sub:%s", subs[k].sub); }
		{ static const int modes[10] = {0, 0, 3, 3, 3, 1, 2, 4, 3, 3}; U32 f = c.below(160); alloc_fill(modes[f % 10], f / 10); }   // what fresh memory contains is part of the case
		cov_on = true; cov_prev = 0;
		subs[k].fn(c);
		cov_on = false;
	} catch (Discard &) { out = 3; cov_on = false; }
	shm->state = 0; shm->outcome = out;
	if (variant_is_sched) shm->switches += sched_switches();
	if (out == 1) {
		shm->evaluations++;
		if (c.nontriv) shm->nontrivial++;
		U64 hh = c.h; if (!c.fed) { c.feed(shm->tape, shm->tape_len * 4); hh = c.h; }
		if (!hh) hh = 1;
		size_t k = (hh * 0x9E3779B97F4A7C15ull) >> 44;
		int probes = 0;
		while (shm->hset[k] && shm->hset[k] != hh && probes++ < 64) k = (k + 1) & (HSET - 1);
		if (!shm->hset[k]) { shm->hset[k] = hh; shm->distinct++; if (c.nontriv) {
			U64 j = shm->distinct_nontrivial++;
			// keep samples spread over the run: 0,1,2, then powers of two
			if (shm->nsamples < 12 && (j < 3 || (j & (j - 1)) == 0)) { snprintf(shm->samples[shm->nsamples], 1200, "%s", shm->desc); shm->nsamples++; }
		} }
	} else shm->discarded++;
	return out;
}
static void ring_push() {
	size_t L = shm->tape_len; if (L > RING_WORDS / 4) L = RING_WORDS / 4;
	if ((shm->ring_w % RING_WORDS) + L > RING_WORDS) shm->ring_w += RING_WORDS - shm->ring_w % RING_WORDS;
	U32 off = shm->ring_w % RING_WORDS;
	memcpy(shm->ring_data + off, shm->tape, L * 4);
	U32 s = shm->ring_pos % RING; shm->ring_off[s] = off; shm->ring_len[s] = L; shm->ring_pos++; shm->ring_w += L;
}

static void limit_cpu(double sec) {
	struct itimerval it; memset(&it, 0, sizeof it);
	it.it_value.tv_sec = (long)sec; it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
	setitimer(ITIMER_PROF, &it, NULL);
}
static void child_setup(const char *log) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	int fd = open(log, O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
	signal(SIGPROF, SIG_DFL);
	signal(SIGPIPE, SIG_IGN);
	struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
	rl.rlim_cur = rl.rlim_max = 4ull << 30; setrlimit(RLIMIT_FSIZE, &rl);
}

struct Verdict { int kind; std::string key, msg; std::string log; };   // kind 0 pass 1 fail 2 crash 3 hang 4 infra
static std::string read_log(const char *f, size_t maxlen = 3000) {
	std::string s; FILE *fp = fopen(f, "r"); if (!fp) return s;
	char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, fp)) > 0 && s.size() < 200000) s.append(b, k);
	fclose(fp);
	size_t p = s.find("==ERROR"); if (p == std::string::npos) p = s.find("runtime error");
	if (p != std::string::npos) { p = p > 100 ? p - 100 : 0; s = s.substr(p); }
	if (s.size() > maxlen) s.resize(maxlen);
	return s;
}
static std::string crash_key(int status, const std::string &log) {
	size_t p = log.find("ERROR: AddressSanitizer: ");
	if (p != std::string::npos) { size_t e = log.find_first_of(" \n", p + 25); return "asan:" + log.substr(p + 25, e - p - 25); }
	if (log.find("runtime error") != std::string::npos) return "ubsan";
	if (WIFSIGNALED(status)) return std::string("signal:") + std::to_string(WTERMSIG(status));
	return "exit:" + std::to_string(WEXITSTATUS(status));
}
static Verdict classify(int status, const char *log) {
	Verdict v; v.kind = 0;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return v;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { v.kind = 1; v.key = shm->key; v.msg = shm->msg; return v; }
	if (WIFEXITED(status) && WEXITSTATUS(status) == 78) return v;  // discarded
	if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGTERM || WTERMSIG(status) == SIGINT || WTERMSIG(status) == SIGHUP)) { v.kind = 4; v.key = "infra"; v.msg = "worker killed by signal " + std::to_string(WTERMSIG(status)); return v; }
	if (WIFSIGNALED(status) && WTERMSIG(status) == SIGPROF) { v.kind = 3; v.key = "hang"; v.msg = "CPU time limit exceeded (does not terminate)"; return v; }
	v.kind = 2; v.log = read_log(log); v.key = crash_key(status, v.log);
	v.msg = "process crashed: " + v.key;
	return v;
}
static std::string logfile;
// run a list of tapes (all but the last as history) in a fresh process
static Verdict run_tapes(const std::vector<std::vector<U32>> &tapes, double cpu) {
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(logfile.c_str());
		for (auto &t : tapes) { limit_cpu(cpu); src.replay = true; src.extend = false; src.t = t.data(); src.n = t.size(); src.pos = 0; run_one(); }
		_exit(0);
	}
	int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	return classify(st, logfile.c_str());
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string jesc(const std::string &s) {
	std::string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
	return o;
}
static bool same(const Verdict &a, const Verdict &b) { return a.kind == b.kind && (a.kind != 1 || a.key == b.key) && a.kind != 4 && a.kind != 0; }

static void shrink(std::vector<std::vector<U32>> &best, const Verdict &want, double cpu, double budget) {
	double t0 = now(); int tries = 0;
	auto attempt = [&](const std::vector<std::vector<U32>> &cand) -> bool {
		tries++; Verdict v = run_tapes(cand, cpu);
		if (same(v, want)) {
			std::vector<std::vector<U32>> b = cand;
			if (shm->tape_len <= b.back().size()) b.back().assign(shm->tape, shm->tape + shm->tape_len);   // normalised (values reduced modulo bounds, tail cut)
			best = b; return true; }
		return false;
	};
	// drop history entries first
	while (best.size() > 1 && now() - t0 < budget) { bool any = false;
		for (size_t i = 0; i + 1 < best.size() && now() - t0 < budget; i++) { auto c = best; c.erase(c.begin() + i); if (attempt(c)) { any = true; break; } }
		if (!any) break; }
	bool improved = true;
	while (improved && now() - t0 < budget) {
		improved = false;
		for (size_t sz = std::max<size_t>(1, best.back().size() / 2); sz >= 1 && now() - t0 < budget; sz /= 2) {     // deletions
			for (long i = (long)best.back().size() - (long)sz; i >= 0 && now() - t0 < budget; i -= sz) {
				if ((size_t)i + sz > best.back().size()) continue;
				auto c = best; c.back().erase(c.back().begin() + i, c.back().begin() + i + sz);
				if (attempt(c)) improved = true;
			}
			if (sz == 1) break;
		}
		for (size_t sz = 8; sz >= 1; sz /= 2) {                                                                    // zeroing
			for (size_t i = 0; i < best.back().size() && now() - t0 < budget; i += sz) {
				auto c = best; bool nz = false;
				for (size_t k = i; k < std::min(i + sz, c.back().size()); k++) if (c.back()[k]) { nz = true; c.back()[k] = 0; }
				if (nz && attempt(c)) improved = true;
			}
			if (sz == 1) break;
		}
		for (size_t i = 0; i < best.back().size() && now() - t0 < budget; i++) {                                   // minimise values
			U32 hi = best.back()[i], lo = 0; if (hi <= 1) continue;
			int it = 0;
			while (lo < hi && it++ < 12 && now() - t0 < budget && i < best.back().size()) {
				U32 mid = lo + (hi - lo) / 2; auto c = best; c.back()[i] = mid;
				if (attempt(c)) { hi = mid; improved = true; if (i < best.back().size()) hi = std::min(hi, best.back()[i]); } else lo = mid + 1;
			}
		}
	}
}

static void write_replay(const std::string &path, const char *prop, const char *variant, const std::vector<std::vector<U32>> &tapes, const Verdict &v, U64 seed) {
	FILE *f = fopen(path.c_str(), "w"); if (!f) return;
	fprintf(f, "{\n \"property\": \"%s\",\n \"variant\": \"%s\",\n \"sub\": \"%s\",\n \"tier\": \"%s\",\n \"xl\": %d,\n \"strip\": %d,\n \"stream_seed\": %llu,\n \"key\": \"%s\",\n \"message\": \"%s\",\n \"case\": \"%s\",\n \"log\": \"%s\",\n \"tapes\": [\n",
		prop, variant, only_name.c_str(), g_thorough ? "thorough" : "quick", (int)g_xl, (int)g_strip, (unsigned long long)seed, jesc(v.key).c_str(), jesc(v.msg).c_str(), jesc(shm->desc).c_str(), jesc(v.log).c_str());
	for (size_t i = 0; i < tapes.size(); i++) { fprintf(f, "  ["); for (size_t k = 0; k < tapes[i].size(); k++) fprintf(f, k ? ",%u" : "%u", tapes[i][k]); fprintf(f, i + 1 < tapes.size() ? "],\n" : "]\n"); }
	fprintf(f, " ]\n}\n"); fclose(f);
}

int engine_main(int argc, char **argv) {
	std::string prop, out, replay, rpath, variant = "?", known; U64 seed = 1; long cases = 100; double wall = 1e9, hang = 25, shrinkbudget = 40; bool print = false;
	const char *subname = NULL;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") prop = nx(); else if (a == "--out") out = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--wall") wall = atof(nx().c_str()); else if (a == "--replay") replay = nx();
		else if (a == "--replay-out") rpath = nx(); else if (a == "--variant") variant = nx(); else if (a == "--hang") hang = atof(nx().c_str());
		else if (a == "--shrink") shrinkbudget = atof(nx().c_str()); else if (a == "--scratch") g_scratch = nx(); else if (a == "--thorough") g_thorough = true; else if (a == "--xl") g_xl = true; else if (a == "--strip") g_strip = true;
		else if (a == "--sub") { subname = argv[++i]; } else if (a == "--print") print = true; else if (a == "--known") known = nx();
		else if (a == "--list") { for (auto &p : registry()) printf("%s\t%s\t%s\n", p.id, p.sub, p.rule); return 0; }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
	}
	if (g_scratch.empty()) g_scratch = "/tmp/vt." + std::to_string(getpid());
	mkdir(g_scratch.c_str(), 0700);
	logfile = g_scratch + "/worker.log";
	for (auto &p : registry()) if (prop == p.id) { subs.push_back(p); subs_total += p.weight; if (subname && !strcmp(subname, p.sub)) only_sub = subs.size() - 1; }
	if (subs.empty()) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
	shm = (Shm *)mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (shm == MAP_FAILED) { perror("mmap"); return 2; }
	variant_is_sched = variant == "sched"; if (only_sub >= 0) only_name = subs[only_sub].sub;
	if (!replay.empty()) {
		FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
		std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f);
		{ size_t a = s.find("\"sub\": \""); if (a != std::string::npos && a < s.find("\"tapes\"")) { a += 8; std::string nm = s.substr(a, s.find('"', a) - a); for (size_t k = 0; k < subs.size(); k++) if (nm == subs[k].sub) only_sub = k; } }
		g_xl = s.find("\"xl\": 1,") < s.find("\"tapes\""); g_strip = s.find("\"strip\": 1,") < s.find("\"tapes\""); g_thorough = g_thorough || s.find("\"tier\": \"thorough\"") < s.find("\"tapes\"");
		std::vector<std::vector<U32>> tapes; size_t p = s.find("\"tapes\""); p = s.find('[', p) + 1;
		while (1) { size_t a = s.find_first_of("[]", p); if (a == std::string::npos || s[a] == ']') break; size_t e = s.find(']', a);
			std::vector<U32> t; const char *q = s.c_str() + a + 1; while (q < s.c_str() + e) { char *end; unsigned long v = strtoul(q, &end, 10); if (end == q) break; t.push_back(v); q = end; while (*q == ',' || *q == ' ') q++; }
			tapes.push_back(t); p = e + 1; }
		Verdict v = run_tapes(tapes, hang * 3);
		printf("case: %s\nverdict: %s %s\n%s\n%s\n", shm->desc, v.kind == 0 ? "pass" : v.kind == 1 ? "FAIL" : v.kind == 2 ? "CRASH" : v.kind == 3 ? "HANG" : "INFRA", v.key.c_str(), v.msg.c_str(), v.log.c_str());
		if (v.kind == 0 && print) { std::string l = read_log(logfile.c_str(), 20000); fputs(l.c_str(), stdout); }
		return v.kind == 0 ? 0 : v.kind == 4 ? 2 : 1;
	}
	double t0 = now(); Verdict fail; fail.kind = 0; std::vector<std::vector<U32>> ftapes; bool reproduced = false; long start = 0; int infra = 0, restarts = 0;
	while (start < cases && now() - t0 < wall) {
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(logfile.c_str());
			std::vector<std::vector<U32>> corpus;
			for (long k = start; k < cases; k++) {
				if (now() - t0 > wall) break;
				shm->cur_case = k; limit_cpu(hang);
				Rng r(mix(seed, k)); std::vector<U32> mt;
				src.rng = Rng(r.next()); src.pos = 0; src.replay = false;
				if (corpus.size() >= 4 && r.chance(2, 5)) {
					mt = corpus[r.below(corpus.size())]; int nm = 1 + r.below(r.chance(1, 3) ? 12 : 3);
					while (nm--) { if (mt.empty()) break; size_t pos = r.below(mt.size());
						switch (r.below(6)) {
						case 0: case 1: mt[pos] = (U32)r.next(); break;
						case 2: mt[pos] = r.below(4); break;
						case 3: { size_t L = std::min<size_t>(1 + r.below(8), mt.size() - pos); mt.erase(mt.begin() + pos, mt.begin() + pos + L); break; }
						case 4: { size_t L = std::min<size_t>(1 + r.below(8), mt.size() - pos); std::vector<U32> seg(mt.begin() + pos, mt.begin() + pos + L); mt.insert(mt.begin() + r.below(mt.size()), seg.begin(), seg.end()); break; }
						case 5: { auto &o = corpus[r.below(corpus.size())]; if (!o.empty()) { size_t a = r.below(std::min(o.size(), mt.size())); mt.resize(a); mt.insert(mt.end(), o.begin() + a, o.end()); } break; }
						} }
					src.replay = true; src.extend = true; src.t = mt.data(); src.n = mt.size(); shm->mutated++;
				}
				run_one();
				ring_push();
				bool fresh = false;
				for (int i = 0; i < cov_nt; i++) { U32 e = cov_touched[i]; int b = bucket(covmap[e]); if (!(covseen[e] & b)) { if (!covseen[e]) shm->edges++; covseen[e] |= b; fresh = true; } covmap[e] = 0; }
				cov_nt = 0;
				if (fresh && shm->tape_len <= 6000) { std::vector<U32> t(shm->tape, shm->tape + shm->tape_len); if (corpus.size() < 400) corpus.push_back(t); else corpus[r.below(400)] = t; shm->corpus = corpus.size(); }
			}
			_exit(0);
		}
		int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
		Verdict v = classify(st, logfile.c_str());
		if (v.kind == 0 && WIFEXITED(st) && WEXITSTATUS(st) == 78) { start = shm->cur_case + 1; shm->discarded++; continue; }
		if (v.kind == 0) break;
		long at = shm->cur_case;
		if (v.kind == 4) { infra++; start = at + 1; if (++restarts > 20) break; continue; }
		std::vector<U32> t(shm->tape, shm->tape + shm->tape_len);
		std::vector<std::vector<U32>> hist; U32 np = shm->ring_pos; U64 used = 0;
		for (U32 q = 0; q < RING - 2 && q < np; q++) { U32 s = (np - 1 - q) % RING; used += shm->ring_len[s]; if (used > RING_WORDS / 2) break; hist.insert(hist.begin(), std::vector<U32>(shm->ring_data + shm->ring_off[s], shm->ring_data + shm->ring_off[s] + shm->ring_len[s])); }
		std::string odesc = shm->desc;
		double cpu = v.kind == 3 ? hang * 2.5 : hang;
		std::vector<std::vector<U32>> cand = {t};
		Verdict w; bool ok = false;
		for (int k = 0; k < 2 && !ok; k++) { w = run_tapes(cand, cpu); ok = w.kind == 1 || w.kind == 2 || w.kind == 3; }
		if (!ok && v.kind != 3) for (size_t hlen : {1, 4, 16, 46}) { cand.clear(); for (size_t i = hist.size() > hlen ? hist.size() - hlen : 0; i < hist.size(); i++) cand.push_back(hist[i]); cand.push_back(t); w = run_tapes(cand, cpu); ok = w.kind == 1 || w.kind == 2 || w.kind == 3; if (ok) break; }
		if (!ok && v.kind == 3) { infra++; start = at + 1; if (++restarts > 20) break; continue; }   // slow, not hanging
		if (ok) { fail = w; ftapes = cand; reproduced = true; }
		else { fail = v; cand = hist; cand.push_back(t); ftapes = cand; snprintf(shm->desc, sizeof shm->desc, "%s (not reproduced outside the original run)", odesc.c_str()); }
		break;
	}
	double trun = now() - t0;
	long evaluations = shm->evaluations, nontriv = shm->nontrivial, distinct = shm->distinct, dn = shm->distinct_nontrivial, disc = shm->discarded; U64 sw = shm->switches, edges = shm->edges, mut = shm->mutated;
	std::vector<LabelSlot> labels(shm->labels, shm->labels + shm->nlabels); std::vector<std::string> samples; for (int i = 0; i < shm->nsamples; i++) samples.push_back(shm->samples[i]);
	if (fail.kind) {
		if (reproduced) {
			if (fail.kind != 3) shrink(ftapes, fail, std::min(hang, 15.0), shrinkbudget);
			for (int k = 0; k < 3; k++) { Verdict w = run_tapes(ftapes, hang * 2.5); if (same(w, fail)) { fail = w; break; } }
		}
		if (!rpath.empty()) write_replay(rpath, prop.c_str(), variant.c_str(), ftapes, fail, seed);
	}
	FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
	if (!f) { perror("out"); return 2; }
	fprintf(f, "{\"prop\":\"%s\",\"variant\":\"%s\",\"seed\":%llu,\"evaluations\":%ld,\"nontrivial\":%ld,\"distinct\":%ld,\"distinct_nontrivial\":%ld,\"discarded\":%ld,\"mutated\":%llu,\"edges\":%llu,\"switches\":%llu,\"infra\":%d,\"wall\":%.2f,\"requested\":%ld,\"labels\":{",
		prop.c_str(), variant.c_str(), (unsigned long long)seed, evaluations, nontriv, distinct, dn, disc, (unsigned long long)mut, (unsigned long long)edges, (unsigned long long)sw, infra, trun, cases);
	for (size_t i = 0; i < labels.size(); i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(labels[i].name).c_str(), (unsigned long long)labels[i].count);
	fprintf(f, "},\"rules\":["); for (size_t i = 0; i < subs.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(std::string(subs[i].sub) + ": " + subs[i].rule).c_str());
	fprintf(f, "],\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
	fprintf(f, "],\"failure\":");
	if (fail.kind) fprintf(f, "{\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"reproduced\":%s,\"replay\":\"%s\",\"log\":\"%s\"}", jesc(fail.key).c_str(), jesc(fail.msg).c_str(), jesc(shm->desc).c_str(), reproduced ? "true" : "false", jesc(rpath).c_str(), jesc(fail.log).c_str());
	else fprintf(f, "null");
	fprintf(f, "}\n"); if (f != stdout) fclose(f);
	return fail.kind ? 1 : 0;
}
}
int main(int argc, char **argv) { return vt::engine_main(argc, argv); }
