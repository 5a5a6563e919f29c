// C16: oblivious key-value stores. Every number of pairs up to a bound, index types, dense types, value types, row
// weights, bin sizes and team sizes; every stored key must decode to its value by every decoding entry point, in any
// grouping and order, and stores built with another team size or member order must decode alike.
#include "mc.hpp"
#include "mpc/okvs/baxos.hpp"
#include "mpc/okvs/paxos.hpp"
#include "crypto/setup.hpp"
#include "rt.hpp"
#include <omp.h>
#include <set>
using mc::cat;

static block blk(uint64_t a, uint64_t b) { return Block::MakeBlock(a, b); }
static std::vector<block> keys(size_t n, int kind, uint64_t salt)
{
    std::vector<block> v(n); mc::Rng r; r.s = mc::mix(salt * 31 + kind) ;
    for (size_t i = 0; i < n; i++) v[i] = kind == 0 ? blk(r.next(), r.next()) : kind == 1 ? blk(salt, i) : kind == 2 ? blk(i, salt) : blk(~0ull, ~0ull - i);
    return v;
}
static void fill(block& b, mc::Rng& r, int kind) { b = kind == 1 ? Block::zero_block : kind == 2 ? blk(~0ull, ~0ull) : blk(r.next(), r.next()); }
static void fill(BlockArrayValue& b, mc::Rng& r, int kind) { for (auto& x : b.var) fill(x, r, kind); }
template <class V> std::vector<V> values(size_t n, int kind, uint64_t salt) { std::vector<V> v(n); mc::Rng r; r.s = mc::mix(salt + 1000003 * kind); for (auto& x : v) fill(x, r, kind); return v; }
static bool same(const block& a, const block& b) { return memcmp(&a, &b, 16) == 0; }
static bool same(const BlockArrayValue& a, const BlockArrayValue& b) { return memcmp(&a, &b, sizeof a) == 0; }
template <class V> long differ(const std::vector<V>& a, const std::vector<V>& b) { if (a.size() != b.size()) return -2; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return (long)i; return -1; }
template <class V> V zero() { V v; memset((void*)&v, 0, sizeof v); return v; }

// a store that refuses by throwing is reported like a wrong value; the bare `throw;` of the code ends the process
template <class I, DenseType D, class V> void single(size_t n, uint8_t w, int kk, int vk, bool rnd, uint64_t salt, const std::string& nm, uint8_t ssp = 40)
{
    auto k = keys(n, kk, salt); auto v = values<V>(n, vk, salt + 5); block sd = blk(salt, 99); PRG::Seed s = PRG::SetSeed(&sd, 0), pr = PRG::SetSeed(&sd, 7);
    OKVS<I, D, V> st(n, w, ssp, &s); st.set_keys(k.data());
    auto out = st.encode(v, rnd ? &pr : nullptr);
    std::string key = cat(nm, n, "w", (int)w, "k", kk, "v", vk, "r", rnd, "s", salt, "p", (int)ssp); mc::eval(key, n > 0); mc::state(mc::fnv(key)); mc::transition(n); mc::trace();
    if (!MC_CHECK(out.size() == st.total_size, nm, " n=", n, ": size of the store")) return;
    OKVS<I, D, V> rd(n, w, ssp, &s);
    auto all = rd.decode(k, out); long d = differ(all, v); if (!MC_CHECK(d == -1, nm, " n=", n, " w=", (int)w, " key kind ", kk, rnd ? " randomised" : "", ": key ", d, " does not decode to its value")) return;
    for (size_t i = 0; i < n; i++) { V x = rd.decode_1(&k[i], out.data()); if (!MC_CHECK(same(x, v[i]), nm, " n=", n, ": key ", i, " alone does not decode to its value")) return; }
    // groups: any window gives the same values
    for (size_t len : { (size_t)1, (size_t)31, (size_t)32, (size_t)33, (size_t)64, (size_t)65 }) for (size_t o : { (size_t)0, (size_t)1, n / 2 }) if (o + len <= n) {
        std::vector<V> x(len, zero<V>()); rd.decode(k.data() + o, len, out.data(), x.data()); for (size_t i = 0; i < len; i++) if (!MC_CHECK(same(x[i], v[o + i]), nm, " n=", n, ": decoding ", len, " keys from ", o, " gives a wrong value")) return; }
    // strangers: one bit away from a stored key, decoded from a randomised store
    if (rnd && vk == 0 && salt % 8 == 1) {
        std::set<std::string> st; for (auto& x : v) st.insert(std::string((const char*)&x, sizeof x)); std::set<std::string> mem; for (auto& x : k) mem.insert(std::string((const char*)&x, 16));
        std::vector<block> q; for (size_t i : { (size_t)0, n / 2 }) for (int b = 0; b < 128; b++) { block x = k[i]; ((unsigned char*)&x)[b / 8] ^= 1 << (b % 8); if (!mem.count(std::string((const char*)&x, 16))) q.push_back(x); }
        std::vector<V> x(q.size(), zero<V>()); rd.decode(q.data(), q.size(), out.data(), x.data());
        for (size_t i = 0; i < q.size(); i++) { if (!MC_CHECK(!st.count(std::string((const char*)&x[i], sizeof x[i])), nm, " n=", n, ": a key that was not stored decodes to a stored value")) return; V y = rd.decode_1(&q[i], out.data()); if (!MC_CHECK(same(x[i], y), nm, " n=", n, ": a key that was not stored decodes differently alone and in a batch")) return; }
    }
}
template <DenseType D, class V> void singles(size_t n, uint8_t w, int kk, int vk, bool rnd, uint64_t salt, const std::string& nm)
{
    OKVS<uint64_t, D, V> q(n, w, 40); size_t sp = q.sparse_size;
    if (sp < 255) single<uint8_t, D, V>(n, w, kk, vk, rnd, salt, nm + "/8 ");
    if (sp < 65535) single<uint16_t, D, V>(n, w, kk, vk, rnd, salt, nm + "/16 ");
    single<uint32_t, D, V>(n, w, kk, vk, rnd, salt, nm + "/32 ");
    single<uint64_t, D, V>(n, w, kk, vk, rnd, salt, nm + "/64 ");
}
template <DenseType D, class V> void binned(size_t n, size_t bin, uint8_t te, int kk, int vk, bool rnd, uint64_t salt, const std::string& nm, bool others = true, size_t decl = 0, uint8_t w = 3, uint8_t ssp = 40)
{
    if (!decl) decl = n;
    auto k = keys(n, kk, salt); auto v = values<V>(n, vk, salt + 5); block sd = blk(salt, 1234); PRG::Seed s = PRG::SetSeed(&sd, 0), pr = PRG::SetSeed(&sd, 7);
    Baxos<D, V> st(decl, bin, w, ssp, &s); std::vector<V> out(st.bin_num * st.total_size, zero<V>());
    st.solve(k, v, out, rnd ? &pr : nullptr, te);
    std::string key = cat(nm, n, "b", bin, "t", (int)te, "k", kk, "v", vk, "r", rnd, "s", salt, "o", rt::order, "d", decl, "w", (int)w, "p", (int)ssp); mc::eval(key, n > 0); mc::state(mc::fnv(key)); mc::transition(n); mc::trace();
    std::string what = cat(nm, " n=", n, " of ", decl, " weight ", (int)w, " security ", (int)ssp, " bin size ", bin, " (", st.bin_num, " bins), ", (int)te, " threads", rnd ? ", randomised" : "");
    Baxos<D, V> rd(decl, bin, w, ssp, &s);
    for (uint8_t td : others ? std::vector<uint8_t>{ te, 1, 2, 3, 5, 8 } : std::vector<uint8_t>{ te }) {
        std::vector<V> x(n, zero<V>()); rd.decode(k, x, out, td); long d = differ(x, v);
        if (!MC_CHECK(d == -1, what, ": key ", d, " does not decode to its value with ", (int)td, " threads")) return;
    }
    if (!others) return;
    // more keys than were stored, in another order
    std::vector<block> q; std::vector<V> want; auto ext = keys(n + 700, 0, salt ^ 0xabcdef);
    for (size_t i = 0; i < n + 700; i++) { q.push_back(i % 3 == 0 && n ? k[(i * 7) % n] : ext[i]); }
    for (uint8_t td : { 1, 4 }) { std::vector<V> x(q.size(), zero<V>()); rd.decode(q, x, out, td); for (size_t i = 0; i < q.size(); i++) if (i % 3 == 0 && n && !MC_CHECK(same(x[i], v[(i * 7) % n]), what, ": stored key among ", q.size(), " queried keys does not decode to its value")) return; }
    size_t m = std::min<size_t>(n, 40); std::vector<block> one(k.begin(), k.begin() + m); std::vector<V> x(m, zero<V>()); rd.decode(one, x, out, 8); for (size_t i = 0; i < m; i++) if (!MC_CHECK(same(x[i], v[i]), what, ": few keys on many threads")) return;
}

static block slow(block a, block b) { unsigned __int128 x, y, r = 0; memcpy(&x, &a, 16); memcpy(&y, &b, 16); for (int i = 127; i >= 0; i--) { int c = (int)(r >> 127) & 1; r <<= 1; if (c) r ^= 0x87; if ((y >> i) & 1) r ^= x; } block o; memcpy(&o, &r, 16); return o; }

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough(); const int reps = T ? 12 : 3;
    // field arithmetic: bilinear, so the 128 x 128 basis pairs decide it
    for (int i = 0; i < 128; i++) if (mc::begin(cat("gf:", i))) { for (int j = 0; j < 128; j++) { block a = i < 64 ? blk(0, 1ull << i) : blk(1ull << (i - 64), 0), b = j < 64 ? blk(0, 1ull << j) : blk(1ull << (j - 64), 0); mc::eval(cat(j)); MC_CHECK(same(gf128_mul(a, b), slow(a, b)), "product of field elements 2^", i, " and 2^", j); }
        mc::Rng r; r.s = i + 1; for (int j = 0; j < 20; j++) { block a = blk(r.next(), r.next()), b = blk(r.next(), r.next()); mc::eval(cat("r", j)); MC_CHECK(same(gf128_mul(a, b), slow(a, b)), "product"); block one = blk(0, 1); MC_CHECK(same(gf128_mul(a, gf128_inv(a)), one), "inverse"); block p = i < 64 ? blk(0, 1ull << i) : blk(1ull << (i - 64), 0); MC_CHECK(same(gf128_mul(p, gf128_inv(p)), one), "inverse of 2^", i); } }
    // exact division by every modulus used: all small moduli, boundary dividends
    for (int g = 0; g < 16; g++) if (mc::begin(cat("mod:", g))) for (uint64_t m = 2 + g; m < (T ? 70000 : 4200); m += 16) { divider d = gen_divider(m); uint64_t x[32], y[32]; mc::Rng r; r.s = m; for (int i = 0; i < 32; i++) x[i] = y[i] = i == 0 ? 0 : i == 1 ? m - 1 : i == 2 ? m : i == 3 ? ~0ull : i == 4 ? ~0ull / m * m : i == 5 ? ~0ull / m * m - 1 : r.next() >> (i % 3 ? 0 : i); mc::eval(m); doMod32(y, &d, m); for (int i = 0; i < 32; i++) if (!MC_CHECK(y[i] == x[i] % m, "remainder of ", x[i], " by ", m)) break; }
    // all numbers of pairs
    for (size_t n = 1; n <= (T ? 700 : 220); n++) if (mc::begin(cat("all:", n))) for (int s = 0; s < reps; s++) for (int kk = 0; kk < 4; kk++) {
        if (kk && s) continue; uint64_t salt = n * 100 + s;
        singles<gf_128, block>(n, 3, kk, 0, s & 1, salt, "gf"); singles<binary, block>(n, 3, kk, 0, s & 1, salt, "bin");
        if (s == 0 && kk < 2) { singles<gf_128, block>(n, 3, kk, 1, false, salt, "gf"); singles<binary, block>(n, 3, kk, 2, true, salt, "bin"); }
        if (kk == 0) single<uint32_t, gf_128, BlockArrayValue>(n, 3, 0, 0, s & 1, salt, "array ");
    }
    for (size_t n : { 255, 256, 257, 511, 512, 1000, 1023, 1024, 4096, 5000, 20000, 40000, 70001, 140000 }) for (int kk = 0; kk < 4; kk++) if ((n < 50000 || kk == 0 || T) && mc::begin(cat("size:", n, ":", kk))) { singles<gf_128, block>(n, 3, kk, 0, kk & 1, n, "gf"); singles<binary, block>(n, 3, kk, 0, !(kk & 1), n, "bin"); if (n <= 5000) single<uint32_t, gf_128, BlockArrayValue>(n, 3, kk, 0, kk & 1, n, "array "); }
    for (int p : { 20, 30, 45, 50, 56, 60, 64 }) for (size_t n = 2; n <= (T ? 120 : 60); n++) if (mc::begin(cat("param:", p, ":", n))) for (int s = 0; s < reps + 3; s++) { single<uint32_t, binary, block>(n, 3, 0, 0, s & 1, s + n * p, "bin ", p); single<uint16_t, gf_128, block>(n, 3, 0, 0, s & 1, s + n * p, "gf ", p); }
    // small stores, where rows are often left over from the triangle
    for (size_t n = 2; n <= 64; n++) if (mc::begin(cat("gaps:", n))) for (int p : { 20, 40 }) for (int s = 0; s < (T ? 1200 : 240); s++) for (int r = 0; r < 2; r++) { single<uint32_t, binary, block>(n, 3, 0, 0, r, 7000 + s, "bin ", p); single<uint32_t, gf_128, block>(n, 3, 0, 0, r, 7000 + s, "gf ", p); if (r && p == 20) single<uint32_t, gf_128, BlockArrayValue>(n, 3, 0, 0, r, 7000 + s, "array ", p); }
    for (int w : { 2, 4, 5, 6, 7 }) for (size_t n = 8; n <= (T ? 100 : 64); n++) if (mc::begin(cat("gapsw:", w, ":", n))) for (int p : { 20, 40 }) for (int s = 0; s < (T ? 60 : 12); s++) { single<uint16_t, binary, block>(n, w, 0, 0, s & 1, 9000 + s, "bin ", p); single<uint16_t, gf_128, block>(n, w, 0, 0, s & 1, 9000 + s, "gf ", p); }
    // row weights
    for (int w : { 2, 4, 5, 6, 7, 8 }) for (size_t n : { 64, 100, 128, 200, 333, 500, 1000, 2048, 9000 }) if (mc::begin(cat("weight:", w, ":", n))) for (int s = 0; s < reps; s++) { singles<gf_128, block>(n, w, 0, 0, s & 1, s + n, "gf"); singles<binary, block>(n, w, 0, 0, s & 1, s + n, "bin"); }
    // bins and teams
    for (size_t n = 1; n <= (T ? 200 : 80); n++) if (mc::begin(cat("bins:", n))) for (size_t b : { 1000, 40, 20, 8 }) for (uint8_t t : { 1, 2, 3, 4, 8 }) { if (n / b > 12) continue; binned<gf_128, block>(n, b, t, 0, 0, t & 1, n * 10 + t, "gf"); }
    for (size_t n : { 256, 300, 500, 512, 700, 1000, 1024, 1536, 2000, 2047, 3000, 4095, 4096, 6000, 8191 }) for (size_t b : { 64, 100, 256, 700, 1024 }) if (mc::begin(cat("binned:", n, ":", b))) { for (uint8_t t = 1; t <= 8; t++) { binned<gf_128, block>(n, b, t, t % 4, 0, t & 1, n + t, "gf"); binned<binary, block>(n, b, t, 0, 0, !(t & 1), n + t, "bin"); if (t == 3 || t == 5) binned<gf_128, BlockArrayValue>(n, b, t, 0, 0, t == 5, n + t, "array"); } }
    for (size_t n : { 8192, 16384, 24000, 30000, 32768, 50000, 60000, 65536 }) for (size_t b : { 2048, 8192, 1 << 15 }) if (mc::begin(cat("large:", n, ":", b))) { for (uint8_t t = 1; t <= 8; t++) binned<gf_128, block>(n, b, t, t % 4, 0, t & 1, n + t, "gf", t == 5); binned<binary, block>(n, b, 4, 0, 0, true, n, "bin"); }
    for (size_t n : { 100000, 140000 }) for (size_t b : { 1 << 13, 1 << 15 }) if (mc::begin(cat("huge:", n, ":", b))) { binned<gf_128, block>(n, b, 8, 0, 0, true, n, "gf"); binned<gf_128, block>(n, b, 3, 0, 0, false, n, "gf", false); }
    for (size_t nb : { 200, 255, 256, 257, 300, 520 }) if (mc::begin(cat("manybins:", nb))) for (uint8_t t : { 1, 3, 8 }) binned<gf_128, block>(nb * 30, 30, t, 0, 0, false, nb + t, "gf", t == 3);
    for (int ord : { 1, 2, 3, 5 }) for (uint8_t t : { 2, 5, 8 }) if (mc::begin(cat("order:", ord, ":", (int)t))) { rt::order = ord; binned<gf_128, block>(3000, 256, t, 0, 0, false, ord, "gf"); binned<binary, block>(2000, 128, t, 0, 0, false, ord, "bin"); rt::order = 0; }
    // fewer pairs than declared
    for (size_t n : { 1, 2, 31, 32, 33, 63, 64, 100, 255, 400 }) for (size_t d : { 128, 300, 512, 3000 }) if (n < d && mc::begin(cat("fewer:", n, ":", d))) for (size_t b : { 64, 100, 5000 }) for (uint8_t t : { 1, 2, 5, 8 }) { binned<gf_128, block>(n, b, t, 0, 0, t & 1, n + d + t, "gf", t < 3, d); if (t == 2) { binned<gf_128, BlockArrayValue>(n, b, t, 0, 0, false, n + d, "array", false, d); binned<binary, block>(n, b, t, 0, 0, false, n + d, "bin", false, d); } }
    // weights and security parameters of binned stores
    for (int w : { 2, 4, 5, 7 }) for (size_t n : { 300, 1000, 2500 }) if (mc::begin(cat("binweight:", w, ":", n))) for (size_t b : { 128, 600, 5000 }) for (uint8_t t : { 1, 3, 8 }) { binned<gf_128, block>(n, b, t, 0, 0, t & 1, n + w, "gf", t == 3, 0, w); binned<binary, block>(n, b, t, 0, 0, !(t & 1), n + w, "bin", t == 3, 0, w); }
    for (int p : { 30, 50, 60 }) for (size_t n : { 300, 1000, 2500 }) if (mc::begin(cat("security:", p, ":", n))) for (size_t b : { 128, 600, 5000 }) for (uint8_t t : { 1, 3, 8 }) { binned<gf_128, block>(n, b, t, 0, 0, t & 1, n + p, "gf", t == 3, 0, 3, p); binned<binary, block>(n, b, t, 0, 0, !(t & 1), n + p, "bin", t == 3, 0, 3, p); }
    return mc::finish();
}
