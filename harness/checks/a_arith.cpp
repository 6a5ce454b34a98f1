#include "../gens.hpp"
using namespace vt; using namespace gen;

static void expect(Ctx &c, const char *key, const char *op, spasm_ZZp got, U64 want, U64 p, I64 a, I64 b, I64 y) {
	if (got == bal(want, p)) return;
	c.fail(key, "%s modulo %llu on (%lld, %lld, %lld) returned %d, exact canonical result is %lld", op, (unsigned long long)p, (long long)a, (long long)b, (long long)y, got, (long long)bal(want, p));
}
// a canonical element, biased to the places where rounding of double quotients is critical
static I64 elem(Ctx &c, U64 p) {
	I64 h = p / 2; I64 x;
	switch (c.weighted({3, 3, 2, 3})) {
	case 0: x = c.range(-4, 4); break;
	case 1: x = (c.coin() ? h : -h) + (I64)c.range(-3, 3); break;
	case 2: { I64 q = (I64)(p / (2 + c.below(9))); x = (c.coin() ? q : -q) + c.range(-2, 2); break; }
	default: x = bal(c.bits64() % p, p); break;
	}
	if (x > h || x < -h) x = bal(tomod(x, p), p);
	return x;
}
static I64 any64(Ctx &c, U64 p) {
	switch (c.weighted({2, 3, 3, 2, 3})) {
	case 0: return c.range(-5, 5);
	case 1: return (I64)c.bits64();
	case 2: { I64 k = (I64)(c.bits64() >> c.range(1, 63)); __int128 v = (__int128)k * (I64)p + c.range(-3, 3); if (c.coin()) v += p / 2; return (I64)v; }
	case 3: return c.coin() ? INT64_MIN + c.below(4) : INT64_MAX - c.below(4);
	default: return (c.coin() ? -1 : 1) * (I64)(c.bits64() >> 1 >> c.below(63)); }
}
static void ops(Ctx &c, spasm_field F, U64 p, I64 a, I64 b, I64 y) {
	U64 A = tomod(a, p), B = tomod(b, p), Y = tomod(y, p);
	expect(c, "add", "spasm_ZZp_add", spasm_ZZp_add(F, a, b), addm(A, B, p), p, a, b, 0);
	expect(c, "sub", "spasm_ZZp_sub", spasm_ZZp_sub(F, a, b), subm(A, B, p), p, a, b, 0);
	expect(c, "mul", "spasm_ZZp_mul", spasm_ZZp_mul(F, a, b), mulm(A, B, p), p, a, b, 0);
	expect(c, "axpy", "spasm_ZZp_axpy", spasm_ZZp_axpy(F, a, b, y), addm(mulm(A, B, p), Y, p), p, a, b, y);
	if (A) { spasm_ZZp v = spasm_ZZp_inverse(F, a); expect(c, "inverse", "spasm_ZZp_inverse", v, invm(A, p), p, a, 0, 0); expect(c, "inverse", "mul(x,inverse(x))", spasm_ZZp_mul(F, a, v), 1, p, a, v, 0); }
}
PROPERTY(A01, ops, 12, "one prime (boundary values of the machine representations and random ones) and up to 40 triples of canonical elements biased to +-(p-1)/2, p/k and tiny values, results compared with exact 128-bit arithmetic; non-trivial when p > 3 and at least one product exceeds p") {
	U64 p = prime(c); spasm_field F; spasm_field_init(p, F);
	CHECK(c, "init", F->p == (I64)p, "modulus not recorded");
	int k = 1 + c.below(40); bool big = false;
	for (int i = 0; i < k; i++) { I64 a = elem(c, p), b = elem(c, p), y = elem(c, p); if (!i) c.note("p=%llu a=%lld b=%lld y=%lld (+%d more) ", (unsigned long long)p, (long long)a, (long long)b, (long long)y, k - 1);
		c.feed64(a); c.feed64(b); c.feed64(y); ops(c, F, p, a, b, y); if ((__int128)std::llabs(a) * std::llabs(b) > p) big = true; }
	c.nontrivial(p > 3 && big);
}
PROPERTY(A01, init, 6, "one prime and up to 40 arbitrary 64-bit integers (multiples of p plus or minus 3, extremes of the type, uniform)") {
	U64 p = prime(c); spasm_field F; spasm_field_init(p, F); int k = 1 + c.below(40);
	for (int i = 0; i < k; i++) { I64 x = any64(c, p); if (!i) c.note("p=%llu x=%lld (+%d more) ", (unsigned long long)p, (long long)x, k - 1); c.feed64(x); expect(c, "init", "spasm_ZZp_init", spasm_ZZp_init(F, x), tomod(x, p), p, x, 0, 0); if (std::llabs(x) >= (I64)p) c.nontrivial(); }
}
PROPERTY(A01, sweep, 1, "every pair of elements of a small field (p < 60), or a dense window of 64x64 pairs around a boundary of a large one") {
	U64 p; static const std::vector<U64> sm = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59};
	if (c.coin()) { p = sm[c.below(sm.size())]; c.feed64(p); spasm_field F; spasm_field_init(p, F); I64 h = p / 2; c.note("p=%llu all pairs", (unsigned long long)p);
		for (I64 a = -h; a <= h; a++) for (I64 b = -h; b <= h; b++) { ops(c, F, p, a, b, -h); ops(c, F, p, a, b, h); ops(c, F, p, a, b, (a * 7 + b) % (h + 1)); } }
	else { p = prime(c); if (p < 200) p = 257; spasm_field F; spasm_field_init(p, F); I64 a0 = elem(c, p), b0 = elem(c, p), y0 = elem(c, p), h = p / 2; c.feed64(a0); c.feed64(b0); c.feed64(y0); c.note("p=%llu window at (%lld,%lld) y=%lld ", (unsigned long long)p, (long long)a0, (long long)b0, (long long)y0);
		for (I64 a = a0 - 32; a < a0 + 32; a++) for (I64 b = b0 - 32; b < b0 + 32; b++) if (a >= -h && a <= h && b >= -h && b <= h) { U64 A = tomod(a, p), B = tomod(b, p); expect(c, "mul", "spasm_ZZp_mul", spasm_ZZp_mul(F, a, b), mulm(A, B, p), p, a, b, 0); expect(c, "axpy", "spasm_ZZp_axpy", spasm_ZZp_axpy(F, a, b, y0), addm(mulm(A, B, p), tomod(y0, p), p), p, a, b, y0); } }
	c.nontrivial();
}

static std::string hex(const uint8_t *d) { std::string s; char b[4]; for (int i = 0; i < 32; i++) { snprintf(b, 4, "%02x", d[i]); s += b; } return s; }
static std::vector<uint8_t> message(Ctx &c, size_t maxlen) {
	size_t n; switch (c.weighted({3, 3, 2})) { case 0: n = c.below(130); break; case 1: n = 64 * c.below(12) + 52 + c.below(16); break; default: n = c.below(maxlen); break; }
	std::vector<uint8_t> m(n); if (n <= 16) for (auto &x : m) x = c.below(256); else { Rng r = c.bulk(); int k = c.below(3); for (auto &x : m) x = k == 0 ? r.below(256) : k == 1 ? 0xff : 0; }
	return m;
}
static std::vector<size_t> chunks(Ctx &c, size_t n) {
	std::vector<size_t> v; size_t at = 0; int mode = c.below(4); Rng r = c.bulk();
	while (at < n || v.empty() || (v.size() < 200 && r.chance(1, 6))) { size_t k; switch (mode) { case 0: k = n; break; case 1: k = r.below(70); break; case 2: k = 1 + r.below(3); break; default: k = r.chance(1, 3) ? 64 - at % 64 : r.chance(1, 2) ? 0 : r.below(200); break; }
		if (n > 4000 && k < 16 && k > 0) k += 40; k = std::min(k, n - at); v.push_back(k); at += k; }
	return v;
}
PROPERTY(A02, digest, 3, "a message (lengths around the 64-byte block boundaries and up to 4 KiB, some of a few 100 KiB in the thorough tier) split at random points (empty, 1-3 byte, block-aligned chunks); non-trivial when longer than one block or split") {
	auto m = message(c, c.thorough ? 300000 : 4096); auto ch = chunks(c, m.size()); c.feed(m.data(), m.size()); for (auto k : ch) c.feed64(k);
	c.note("%zu bytes in %zu chunks ", m.size(), ch.size());
	spasm_sha256_ctx h; memset(&h, 0x5a, sizeof h); spasm_SHA256_init(&h); size_t at = 0;
	for (auto k : ch) { // copy: the library must not read past the chunk it is given
		uint8_t *b = (uint8_t *)malloc(k); if (k) memcpy(b, m.data() + at, k); spasm_SHA256_update(&h, b, k); free(b); at += k; }
	u8 d[32]; spasm_SHA256_final(d, &h); auto w = Sha256::digest(m.data(), m.size());
	CHECK(c, "digest", !memcmp(d, w.data(), 32), "digest of a %zu-byte message in %zu chunks is %s, expected %s", m.size(), ch.size(), hex(d).c_str(), hex(w.data()).c_str());
	c.nontrivial(m.size() > 55 || ch.size() > 1);
}
// messages whose length in bits does not fit 32 bits: a constant or periodic message of 512 MiB to 640 MiB (up to 2 GiB in the thorough tier)
PROPERTY(A02, long, 0, "a message of 512 MiB and more (periodic contents), so that its length in bits exceeds 32 bits, in chunks of random sizes from a few bytes to 640 MiB; non-trivial always") {
	size_t unit = 1 + c.below(5000), total = (512ull << 20) + (c.coin() ? c.below(200) : c.below(c.thorough ? 1536u << 20 : 96u << 20)); int mode = c.below(4); Rng r = c.bulk(); std::vector<uint8_t> pat(unit); for (auto &x : pat) x = r.below(256);
	size_t cap = mode == 0 ? total : mode == 1 ? 1 << 20 : mode == 2 ? 65536 : 300 << 20; uint8_t *buf = (uint8_t *)malloc(std::min(cap, total) + unit); for (size_t k = 0; k < std::min(cap, total) + unit; ) { size_t L = std::min(k ? k : unit, std::min(cap, total) + unit - k); if (!k) memcpy(buf, pat.data(), unit); else memcpy(buf + k, buf, L); k += L; }   // filled by doubling: k is a multiple of the period until the end
	c.feed64(total); c.feed64(unit); c.feed64(mode); c.note("%zu bytes, period %zu, chunk mode %d ", total, unit, mode); Sha256 w; size_t at = 0, tail = 0; uint8_t rest[128];
	spasm_sha256_ctx h; memset(&h, 0x33, sizeof h); spasm_SHA256_init(&h);
	while (at < total) { size_t k; switch (mode) { case 0: k = total; break; case 1: k = 1 + r.below(1 << 20); break; case 2: k = r.chance(1, 50) ? r.below(100) : 65536 - r.below(3); break; default: k = r.chance(1, 2) ? 1 + r.below(100) : 1 + r.below(300 << 20); break; }
		k = std::min(k, total - at); size_t ph = at % unit; k = std::min(k, std::min(cap, total) + unit - ph); spasm_SHA256_update(&h, buf + ph, k);
		const uint8_t *b = buf + ph; size_t L = k; while (L) { if (tail || L < 64) { size_t q = std::min(64 - tail, L); memcpy(rest + tail, b, q); tail += q; b += q; L -= q; if (tail == 64) { w.block(rest); tail = 0; } } else { w.block(b); b += 64; L -= 64; } }
		at += k; }
	free(buf); u8 d[32]; spasm_SHA256_final(d, &h); rest[tail] = 0x80; size_t e = tail + 9 <= 64 ? 64 : 128; memset(rest + tail + 1, 0, e - tail - 1); for (int k = 0; k < 8; k++) rest[e - 1 - k] = (uint8_t)(((U64)total * 8) >> (8 * k)); w.block(rest); if (e == 128) w.block(rest + 64);
	uint8_t o[32]; for (int k = 0; k < 8; k++) for (int q = 0; q < 4; q++) o[4 * k + q] = w.h[k] >> (24 - 8 * q);
	CHECK(c, "digest", !memcmp(d, o, 32), "digest of a %zu-byte message is %s, expected %s", total, hex(d).c_str(), hex(o).c_str()); c.nontrivial();
}
PROPERTY(A02, interleaved, 1, "two or three hash computations advanced in random alternation") {
	int k = 2 + c.below(2); std::vector<std::vector<uint8_t>> ms; std::vector<spasm_sha256_ctx> hs(k); std::vector<size_t> at(k, 0);
	for (int i = 0; i < k; i++) { ms.push_back(message(c, 700)); spasm_SHA256_init(&hs[i]); c.feed(ms[i].data(), ms[i].size()); }
	Rng r = c.bulk(); c.feed64(r.s); bool more = true; int sw = 0;
	while (more) { more = false; int i = r.below(k); size_t L = std::min<size_t>(r.below(90), ms[i].size() - at[i]); spasm_SHA256_update(&hs[i], ms[i].data() + at[i], L); at[i] += L; sw++; for (int q = 0; q < k; q++) more |= at[q] < ms[q].size(); }
	for (int i = 0; i < k; i++) { u8 d[32]; spasm_SHA256_final(d, &hs[i]); auto w = Sha256::digest(ms[i].data(), ms[i].size()); CHECK(c, "interleaved", !memcmp(d, w.data(), 32), "computation %d of %d disturbed: %s instead of %s", i, k, hex(d).c_str(), hex(w.data()).c_str()); }
	c.note("%d computations, %d updates ", k, sw); c.nontrivial(sw > k);
}

PROPERTY(A03, stream, 3, "a random (seed, prime, sequence) triple and a random history of 32-bit and field-element draws, compared with an independent implementation of the documented construction; non-trivial when the history crosses a 8-word block") {
	U64 p = prime(c); U32 seq = c.coin() ? c.below(5) : c.bits(); bool simple = c.coin(); uint8_t seed[32]; U64 s64 = 0; Rng r = c.bulk(); for (auto &x : seed) x = r.below(256);
	spasm_prng_ctx ctx; memset(&ctx, 0x77, sizeof ctx);
	if (simple) { s64 = c.chance(1, 2) ? r.next() : r.below(10); memset(seed, 0, 32); for (int k = 0; k < 4; k++) { seed[k] = (uint8_t)(s64 >> (24 - 8 * k)); seed[4 + k] = (uint8_t)(s64 >> (56 - 8 * k)); } spasm_prng_seed_simple(p, s64, seq, &ctx); }
	else spasm_prng_seed(seed, p, seq, &ctx);
	RefPrng ref(seed, p, seq); int n = c.chance(1, 200) ? 2200 + c.below(3000) : 1 + c.below(60); c.feed(seed, 32); c.feed64(seq); c.note("p=%llu seq=%u simple=%d draws=%d ", (unsigned long long)p, seq, simple, n);
	for (int k = 0; k < n; k++) { if (c.coin()) { U64 w = ref.zzp(); spasm_ZZp g = spasm_prng_ZZp(&ctx); CHECK(c, "zzp", g == bal(w, p), "draw %d: field element %d, expected %lld (p=%llu)", k, g, (long long)bal(w, p), (unsigned long long)p); }
		else { U32 w = ref.u32(), g = spasm_prng_u32(&ctx); CHECK(c, "u32", g == w, "draw %d: %08x, expected %08x", k, g, w); } }
	c.nontrivial(n > 8);
}
// more than 2^16 blocks of 8 words, and in the thorough tier more than 2^24 words: a counter kept in too few bits repeats
PROPERTY(A03, long, 0, "a long history of one generator (more than 65536 eight-word blocks), so that the block counter needs more than 16 bits; non-trivial always") {
	U64 p = prime(c); U32 seq = c.bits(); uint8_t seed[32]; Rng r = c.bulk(); for (auto &x : seed) x = r.below(256); U32 n = 8 * 65536 + 200 + c.below(c.thorough ? 8 << 20 : 300000);
	spasm_prng_ctx ctx; memset(&ctx, 0x77, sizeof ctx); spasm_prng_seed(seed, p, seq, &ctx); RefPrng ref(seed, p, seq); c.feed(seed, 32); c.feed64(n); c.note("p=%llu seq=%u draws=%u ", (unsigned long long)p, seq, n);
	for (U32 k = 0; k < n; k++) { if (r.chance(1, 16)) { U64 w = ref.zzp(); spasm_ZZp g = spasm_prng_ZZp(&ctx); CHECK(c, "zzp", g == bal(w, p), "draw %u: field element %d, expected %lld (p=%llu)", k, g, (long long)bal(w, p), (unsigned long long)p); }
		else { U32 w = ref.u32(), g = spasm_prng_u32(&ctx); CHECK(c, "u32", g == w, "draw %u: %08x, expected %08x", k, g, w); } }
	c.nontrivial();
}
PROPERTY(A03, independence, 2, "several generators (equal, and differing in exactly one of seed, prime, sequence) drawn from in random alternation") {
	struct G { spasm_prng_ctx g; RefPrng r; uint8_t seed[32]; U64 p; U32 seq; }; std::vector<G> gs; Rng r = c.bulk(); uint8_t seed[32]; for (auto &x : seed) x = r.below(256); U64 p = prime(c); U32 seq = c.bits(); c.feed(seed, 32); c.feed64(seq);
	int k = 2 + c.below(4);
	for (int i = 0; i < k; i++) { uint8_t s2[32]; memcpy(s2, seed, 32); U64 p2 = p; U32 q2 = seq; int what = c.below(4); if (what == 1) s2[r.below(32)] ^= 1 << r.below(8); if (what == 2) { p2 = next_prime(p + 2); if (p2 > PMAX) p2 = 3; } if (what == 3) q2 ^= 1u << r.below(32);
		G g{{}, RefPrng(s2, p2, q2), {}, p2, q2}; memcpy(g.seed, s2, 32); spasm_prng_seed(s2, p2, q2, &g.g); gs.push_back(g); }
	std::vector<std::vector<U32>> out(k);
	for (int t = 0; t < 30 * k; t++) { int i = r.below(k); U32 g = spasm_prng_u32(&gs[i].g), w = gs[i].r.u32(); CHECK(c, "interleaved", g == w, "generator %d disturbed by the others", i); out[i].push_back(g); }
	for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) { size_t L = std::min(out[i].size(), out[j].size()); if (L < 4) continue; bool eq = std::equal(out[i].begin(), out[i].begin() + L, out[j].begin()); bool sm = !memcmp(gs[i].seed, gs[j].seed, 32) && gs[i].p == gs[j].p && gs[i].seq == gs[j].seq;
		CHECK(c, "independence", eq == sm, "generators %d and %d with %s parameters produce %s streams", i, j, sm ? "equal" : "different", eq ? "equal" : "different"); }
	c.note("%d generators ", k); c.nontrivial();
}
