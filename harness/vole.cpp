// C17: vector oblivious linear evaluation. Both parties run the real code; lengths, noise weights, values of delta and u,
// role assignment and repetitions on one connection are enumerated and the linear relation is checked with an
// independent field multiplication; the puncturable trees are checked for every depth and punctured position.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "mpc/vole/vole.hpp"
#include "party.hpp"
#include "rt.hpp"
using mc::cat;
typedef unsigned __int128 u128;
static u128 I(const block& b) { u128 x; memcpy(&x, &b, 16); return x; }
static block K(u128 x) { block b; memcpy(&b, &x, 16); return b; }
static u128 slow(u128 x, u128 y) { u128 r = 0; for (int i = 127; i >= 0; i--) { int c = (int)(r >> 127) & 1; r <<= 1; if (c) r ^= 0x87; if ((y >> i) & 1) r ^= x; } return r; }
static std::string ser(const std::vector<block>& v) { uint64_t n = v.size(); return std::string((const char*)&n, 8) + std::string((const char*)v.data(), v.size() * 16); }
static std::vector<std::vector<u128>> de(const std::string& s) { std::vector<std::vector<u128>> o; size_t p = 0; while (p + 8 <= s.size()) { uint64_t n; memcpy(&n, &s[p], 8); p += 8; if (n > s.size() / 16) break; std::vector<u128> v(n); for (auto& x : v) { if (p + 16 > s.size()) return o; memcpy(&x, &s[p], 16); p += 16; } o.push_back(v); } return o; }
static u128 elem(int kind) { // 0: zero, 1: one, 2: all ones, 3..: random, 100+i: single bit
    if (kind == 0) return 0; if (kind == 1) return 1; if (kind == 2) return ~(u128)0; if (kind >= 100) return (u128)1 << (kind - 100); mc::Rng r; r.s = mc::mix(kind); u128 x = r.next(); return (x << 64) | r.next(); }
static bool on_wire(const std::string& w, u128 x) { if (x == 0 || (x & (x - 1)) == 0 || x == ~(u128)0) return false; std::string s((const char*)&x, 16); return w.find(s) != std::string::npos; }

struct Job { uint64_t N, t; int delta; bool full; bool dirty; };
static void relation(const std::vector<Job>& js, bool swap, const std::string& nm, uint64_t salt = 0, const party::Policy& pol = party::Policy())
{
    auto R = party::run([&](int role) { NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); std::string o;
        for (auto& j : js) { bool A = (role == 0) != swap;
            if (A) { std::vector<block> c, a; if (j.dirty) { c.assign(7, K(elem(2))); a.assign(3, K(5)); } if (j.full) { a = VOLE::VOLE_A(io, j.N, c, j.t); } else VOLE::baseVOLE_tA(io, j.N, a, c); o += ser(a) + ser(c); }
            else { std::vector<block> b; if (j.dirty) b.assign(11, K(elem(2))); if (j.full) VOLE::VOLE_B(io, j.N, b, K(elem(j.delta)), j.t); else VOLE::baseVOLE_tB(io, j.N, b, K(elem(j.delta))); o += ser(b); } }
        party::settle(io, role); return o; }, pol, salt);
    uint64_t n = 0; for (auto& j : js) n += j.N;
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(n); mc::trace();
    if (!MC_CHECK(R.ok(), nm, ": the protocol does not complete: ", R.why)) return;
    auto a = de(R.out[swap ? 1 : 0]), b = de(R.out[swap ? 0 : 1]);
    if (!MC_CHECK(a.size() == 2 * js.size() && b.size() == js.size(), nm, ": outputs missing")) return;
    std::set<u128> seen;
    for (size_t k = 0; k < js.size(); k++) {
        auto &A = a[2 * k], &C = a[2 * k + 1], &B = b[k]; uint64_t N = js[k].N; u128 d = elem(js[k].delta);
        if (!MC_CHECK(A.size() == N && C.size() == N && B.size() == N, nm, ": lengths ", A.size(), " ", C.size(), " ", B.size(), " instead of ", N)) return;
        for (uint64_t i = 0; i < N; i++) if (!MC_CHECK(B[i] == (C[i] ^ slow(A[i], d)), nm, " evaluation ", k, ": element ", i, " breaks the linear relation")) return;
        for (auto x : A) if (!MC_CHECK(x != 0 && seen.insert(x).second, nm, ": vector A repeats an element or holds zero")) return;
        std::set<u128> bs(B.begin(), B.end()), cs(C.begin(), C.end()); if (!MC_CHECK(bs.size() == N && cs.size() == N, nm, ": masks repeat")) return;
        for (int w = 0; w < 2; w++) { if (!MC_CHECK(!on_wire(R.wire[w], d), nm, ": delta appears on the wire")) return;
            for (uint64_t i = 0; i < N; i += 1 + N / 16) if (!MC_CHECK(!on_wire(R.wire[w], A[i]) && !on_wire(R.wire[w], B[i]) && !on_wire(R.wire[w], C[i]), nm, ": an output element appears on the wire")) return; }
    }
}
static void single(int u, int d, bool swap, const std::string& nm)
{
    auto R = party::run([&](int role) { NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); block ub = K(elem(u < 0 ? 0 : u)), db = K(elem(d < 0 ? 0 : d));
        std::string o = (role == 0) != swap ? ser(VOLE::baseVOLE_A(io, u < 0 ? nullptr : &ub)) : ser(VOLE::baseVOLE_B(io, d < 0 ? nullptr : &db)); party::settle(io, role); return o; });
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(1); mc::trace();
    if (!MC_CHECK(R.ok(), nm, ": the protocol does not complete: ", R.why)) return;
    auto a = de(R.out[swap ? 1 : 0]), b = de(R.out[swap ? 0 : 1]); if (!MC_CHECK(a.size() == 1 && a[0].size() == 2 && b.size() == 1 && b[0].size() == 2, nm, ": outputs missing")) return;
    if (u >= 0) MC_CHECK(a[0][0] == elem(u), nm, ": another u was used"); if (d >= 0) MC_CHECK(b[0][0] == elem(d), nm, ": another delta was used");
    MC_CHECK(a[0][1] == (b[0][1] ^ slow(a[0][0], b[0][0])), nm, ": breaks the linear relation");
}
static std::vector<block> expand(block k) { return VOLE::GGM_PRG(k); }
static void tree(int depth, uint64_t pos, u128 root, u128 beta, bool dirty)
{
    std::vector<block> leaf, m0, m1; size_t pre = dirty ? 3 : 0; if (dirty) { leaf.assign(5, K(9)); m0.assign(3, K(1)); m1.assign(3, K(2)); }
    block sum = VOLE::FullEval(depth, K(root), leaf, m0, m1); mc::eval(cat(depth, ":", pos, ":", dirty)); mc::state(mc::fnv(cat(depth, pos))); mc::transition(1ull << depth);
    size_t L = 1ull << depth; if (!MC_CHECK(leaf.size() == L && m0.size() == pre + depth && m1.size() == pre + depth, "tree of depth ", depth, ": sizes ", leaf.size(), " ", m0.size())) return;
    std::vector<block> lv{ K(root) }; for (int i = 0; i < depth; i++) { std::vector<block> n; u128 s[2] = { 0, 0 }; for (auto& x : lv) { auto c = expand(x); for (int q = 0; q < 2; q++) { n.push_back(c[q]); s[q] ^= I(c[q]); } } lv = n; MC_CHECK(I(m0[pre + i]) == s[0] && I(m1[pre + i]) == s[1], "tree of depth ", depth, ": sums of level ", i); }
    u128 all = 0; std::set<u128> dist; for (size_t i = 0; i < L; i++) { all ^= I(leaf[i]); dist.insert(I(leaf[i])); if (!MC_CHECK(I(leaf[i]) == I(lv[i]), "tree of depth ", depth, ": leaf ", i)) return; } MC_CHECK(all == I(sum) && dist.size() == L, "tree of depth ", depth, ": sum of the leaves");
    // the receiver's selection bits are the complemented bits of the position, top level first
    std::vector<uint8_t> sel; VOLE::TransToBitVec(pos, sel, depth); if (!MC_CHECK(sel.size() == (size_t)depth, "selection bits")) return;
    for (int i = 0; i < depth; i++) MC_CHECK(sel[i] == 1 - ((pos >> (depth - 1 - i)) & 1), "selection bit ", i, " of position ", pos);
    std::vector<block> m; for (int i = 0; i < depth; i++) m.push_back(sel[i] ? m1[pre + i] : m0[pre + i]);
    auto p = VOLE::PuncEval(depth, K(I(sum) ^ beta), m.data(), sel.data());
    if (!MC_CHECK(p.size() == L, "punctured tree of depth ", depth, ": size")) return;
    for (size_t i = 0; i < L; i++) if (!MC_CHECK(I(p[i]) == (I(leaf[i]) ^ (i == pos ? beta : 0)), "punctured tree of depth ", depth, " at ", pos, ": leaf ", i)) return;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    for (int d = 1; d <= (T ? 11 : 8); d++) for (uint64_t g = 0; g < 8 && g < (1u << d); g++) if (mc::begin(cat("tree:", d, ":", g))) for (uint64_t p = g; p < (1ull << d); p += 8) for (int k = 0; k < 2; k++) { tree(d, p, elem(7 + k), elem(k ? 31 : 0), k); mc::trace(); }
    for (int i = 0; i < 128; i++) if (mc::begin(cat("gf:", i))) { for (int j = 0; j < 128; j++) { mc::eval(cat(j)); MC_CHECK(I(VOLE::gf128_mul(K((u128)1 << i), K((u128)1 << j))) == slow((u128)1 << i, (u128)1 << j), "product of 2^", i, " and 2^", j); }
        std::vector<block> v(128, K(0)); for (int j = 0; j < 128; j++) { v[i] = K((u128)1 << j); MC_CHECK(I(VOLE::gadget_innerProduct(v)) == slow((u128)1 << i, (u128)1 << j), "gadget product"); } }
    // the compression is linear and the two-vector form agrees with the one-vector form
    for (size_t n = 512; n <= (T ? 900 : 640); n += 2) if (mc::begin(cat("code:", n))) { PRG::Seed s; s.counter = 0; s.aes_key = AES::GenEncKey(K(elem(n))); std::vector<block> a(n), b(n), c(n), x; mc::Rng r; r.s = n; for (size_t i = 0; i < n; i++) { a[i] = K(((u128)r.next() << 64) | r.next()); b[i] = K(r.next()); c[i] = a[i] ^ b[i]; }
        auto enc = [&](std::vector<block> v) { VOLE::ExConvCode q; q.config(s); q.dualEncode(v); return v; }; auto a2 = a, b2 = b; { VOLE::ExConvCode q; q.config(s); q.dualEncode2(a2, b2); }
        auto ea = enc(a), eb = enc(b), ec = enc(c); mc::eval(n); mc::transition(n); if (!MC_CHECK(ea.size() == n / 2 && ec.size() == n / 2 && a2.size() == n / 2 && b2.size() == n / 2, "length of the compressed vector")) continue;
        for (size_t i = 0; i < n / 2; i++) if (!MC_CHECK(I(ea[i]) == I(a2[i]) && I(eb[i]) == I(b2[i]) && I(ec[i]) == (I(ea[i]) ^ I(eb[i])), "compression of ", n, " elements: element ", i)) break; }
    for (int k = 0; k < 128; k++) { if (T || k % 4 == 0 || k > 120) { if (mc::begin(cat("base:delta-bit:", k))) single(9, 100 + k, k & 1, cat("base u=random delta=2^", k)); if (mc::begin(cat("base:u-bit:", k))) single(100 + k, 9, k & 1, cat("base u=2^", k, " delta=random")); } }
    for (int u : { -1, 0, 1, 2, 5 }) for (int d : { -1, 0, 1, 2, 6 }) if (mc::begin(cat("base:", u, ":", d))) single(u, d, (u + d) & 1, cat("base u kind ", u, " delta kind ", d));
    for (int n = 1; n <= (T ? 130 : 40); n++) for (int d : { 3, 0, 2 }) if (mc::begin(cat("batch:", n, ":", d))) relation({ { (uint64_t)n, 0, d, false, d == 3 } }, n & 1, cat("batch of ", n, " delta kind ", d), n);
    for (int n : { 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 600 }) { if (T && n < 131) continue; if (mc::begin(cat("batch:", n, ":3"))) relation({ { (uint64_t)n, 0, 3, false, false } }, n & 1, cat("batch of ", n), n); }
    for (int k = 0; k < 128; k++) if ((T || k % 4 == 1) && mc::begin(cat("batch-bit:", k))) relation({ { 5, 0, 100 + k, false, false } }, false, cat("batch of 5, delta 2^", k), k);
    for (uint64_t n : { 1, 2, 3, 7, 8, 24, 100, 127, 128, 129, 250, 254, 255 }) for (int d : { 4, 1 }) if (mc::begin(cat("small:", n, ":", d))) relation({ { n, 128, d, true, d == 4 } }, n & 1, cat("N=", n, " delta kind ", d), n);
    std::vector<uint64_t> Ns = { 256, 257, 258, 260, 300, 383, 384, 500, 511, 512, 513, 640, 777, 1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 5000, 10000 }; if (T) { for (uint64_t n = 256; n < 420; n++) Ns.push_back(n); Ns.push_back(20000); Ns.push_back(65536); }
    for (uint64_t n : Ns) for (uint64_t t : { 128, 129, 150, 200, 247, 248 }) { if (!T && n > 600 && t != 128 && t != 150 && t != 248) continue; if (mc::begin(cat("full:", n, ":", t))) relation({ { n, t, 3, true, n % 2 == 0 } }, n & 1, cat("N=", n, " t=", t), n * 1000 + t); }
    for (uint64_t n : { 16384, 20001, 32768, 65535, 65536, 65537, 70001, 140000 }) for (uint64_t t : { 128, 248 }) { if (t != 128 && n > 66000 && !T) continue; if (mc::begin(cat("long:", n, ":", t))) relation({ { n, t, 3, true, false } }, n & 1, cat("N=", n, " t=", t), n * 1000 + t); }
    for (uint64_t n : { 256, 300, 512, 1000, 4096 }) for (int d : { 0, 1, 2, 5, 6, 100, 163, 164, 227 }) if (mc::begin(cat("delta:", n, ":", d))) relation({ { n, 128, d, true, false } }, d & 1, cat("N=", n, " delta kind ", d), n + d);
    for (uint64_t n : { 400, 1000, 3000 }) if (mc::begin(cat("many-noise:", n))) relation({ { n, 397, 3, true, false } }, false, cat("N=", n, " t=397"), n);
    // several evaluations on one connection: fresh each time
    for (int s = 0; s < 4; s++) if (mc::begin(cat("again:", s))) relation({ { 300, 128, 3, true, false }, { 10, 128, 3, true, true }, { 300, 128, s == 1 ? 3 : 4, true, false }, { 1, 128, 5, true, false }, { 777, 200, 3, true, true } }, s & 1, cat("five evaluations on one connection, ", s), s);
    for (size_t st : { (size_t)1000, (size_t)17 }) if (mc::begin(cat("split:", st))) { party::Policy p; p.step = st; relation({ { 300, 128, 3, true, false } }, false, cat("deliveries of ", st, " bytes"), st, p); }
    // other files around must not matter
    for (int k = 0; k < 3; k++) for (uint64_t n : { 10, 300 }) if (mc::begin(cat("files:", k, ":", n))) { for (const char* f : { "alszote.pp", "npot.pp", "iknpote.pp" }) { unlink(f); if (k) { std::ofstream o(f, std::ios::binary); if (k == 2) { mc::Rng r; for (int i = 0; i < 400; i++) o.put((char)r.next()); } } } relation({ { n, 128, 3, true, false } }, false, cat("with stray parameter files, kind ", k, " N=", n), k); for (const char* f : { "alszote.pp", "npot.pp", "iknpote.pp" }) unlink(f); }
    for (int ord : { 1, 2, 3, 7 }) if (mc::begin(cat("order:", ord))) { rt::order = ord; relation({ { 300, 128, 3, true, false }, { 9, 128, 4, true, false } }, ord & 1, cat("team order ", ord), ord); rt::order = 0; }
    return mc::finish();
}
