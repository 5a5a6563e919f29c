// C05: block, bit, matrix and GF(2^128) helpers against bit-level references.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "utility/polymul.hpp"
#include "utility/routines.hpp"
#include "utility/bit_operation.hpp"
#include "mpc/okvs/okvs_utility.hpp"
#include "mpc/vole/basevole.hpp"
#include "zutil.hpp"
#include "rt.hpp"
using mc::cat; using namespace zu;
typedef std::array<uint8_t, 128> B128;                 // bit i of the block (i = 0 is the least significant)
static B128 bits(const block& b) { B128 r; uint8_t x[16]; memcpy(x, &b, 16); for (int i = 0; i < 128; i++) r[i] = x[i / 8] >> (i % 8) & 1; return r; }
static block mkb(const B128& r) { uint8_t x[16] = {0}; for (int i = 0; i < 128; i++) x[i / 8] |= r[i] << (i % 8); block b; memcpy(&b, x, 16); return b; }
static block bit(int i) { B128 r{}; r[i] = 1; return mkb(r); }
static block rndb() { block b; mc::rng().bytes((unsigned char*)&b, 16); return b; }
static bool eq(const block& a, const block& b) { return memcmp(&a, &b, 16) == 0; }
static std::string hx(const block& b) { return mc::hex(&b, 16); }
static std::vector<block> alphabet()
{
    std::vector<block> v{Block::MakeBlock(0, 0), Block::MakeBlock(~0ULL, ~0ULL), Block::MakeBlock(0, ~0ULL), Block::MakeBlock(~0ULL, 0)};
    for (int i = 0; i < 128; i++) v.push_back(bit(i));
    for (int i = 0; i < 128; i++) { B128 r; r.fill(1); r[i] = 0; v.push_back(mkb(r)); }
    for (uint64_t x : {0x7fULL, 0x80ULL, 0xffULL, 0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL, 0x7fffffffffffffffULL}) { v.push_back(Block::MakeBlock(0, x)); v.push_back(Block::MakeBlock(x, 0)); v.push_back(Block::MakeBlock(x, x)); }
    return v;
}
// schoolbook product in GF(2)[x] / (x^128 + x^7 + x^2 + x + 1)
static block refmul(const block& a, const block& b)
{
    B128 x = bits(a), y = bits(b); uint8_t p[256] = {0};
    for (int i = 0; i < 128; i++) if (x[i]) for (int j = 0; j < 128; j++) p[i + j] ^= y[j];
    for (int i = 255; i >= 128; i--) if (p[i]) { p[i] = 0; p[i - 128] ^= 1; p[i - 127] ^= 1; p[i - 126] ^= 1; p[i - 121] ^= 1; }
    B128 r; for (int i = 0; i < 128; i++) r[i] = p[i]; return mkb(r);
}
static void transpose_case(size_t R, size_t C, int pattern)
{
    size_t n = R * C / 8; std::vector<uint8_t> in(n + 32, 0xA5), keep, out(n + 64, 0x5A);
    memset(in.data(), 0, n);
    if (pattern == 0) mc::rng().bytes(in.data(), n);
    else if (pattern == 1) memset(in.data(), 0xff, n);
    else for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) if ((pattern == 2 && i % C == j) || (pattern == 3 && (i + j) % 3 == 0)) in[(i * C + j) / 8] |= 1 << (j % 8);
    keep = in;
    BitMatrixTranspose(in.data(), R, C, out.data() + 16);
    MC_CHECK(in == keep, "transpose changed its input");
    for (int g = 0; g < 16; g++) if (out[g] != 0x5A || out[16 + n + g] != 0x5A) { mc::fail("transpose wrote outside its output"); return; }
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) {
        int a = in[(i * C + j) / 8] >> (j % 8) & 1, b = out[16 + (j * R + i) / 8] >> (i % 8) & 1;
        if (a != b) { mc::fail(cat("transpose of ", R, "x", C, ": bit (", i, ",", j, ")")); return; }
    }
    mc::eval(cat("t", R, ".", C, ".", pattern), n > 0);
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize();
    const bool T = mc::thorough();
    auto A = alphabet();
    // ---- single-bit operations: every position of every alphabet block
    for (size_t a = 0; a < A.size(); a++) if (mc::begin(cat("setbit:", a))) {
        for (size_t n = 0; n < 128; n++) {
            block m = Block::GenMaskBlock(n); MC_CHECK(eq(m, bit(127 - n)), "GenMaskBlock(", n, ") = ", hx(m));
            block b = A[a]; Block::SetBit(b, n); B128 r = bits(A[a]); r[127 - n] = 1; MC_CHECK(eq(b, mkb(r)), "SetBit(", hx(A[a]), ",", n, ") = ", hx(b));
            b = A[a]; Block::ClearBit(b, n); r = bits(A[a]); r[127 - n] = 0; MC_CHECK(eq(b, mkb(r)), "ClearBit(", hx(A[a]), ",", n, ") = ", hx(b));
            mc::eval(n);
        }
        uint64_t lo; memcpy(&lo, &A[a], 8); MC_CHECK(Block::BlockToInt64(A[a]) == (int64_t)lo, "BlockToInt64");
        uint64_t hi; memcpy(&hi, (char*)&A[a] + 8, 8); MC_CHECK(eq(Block::MakeBlock(hi, lo), A[a]), "MakeBlock");
        MC_CHECK(Block::ToString(A[a]) == std::string((char*)&A[a], 16), "ToString");
    }
    // ---- comparison, order, hash on all pairs
    for (size_t a = 0; a < A.size(); a++) if (mc::begin(cat("cmp:", a))) {
        for (size_t b = 0; b < A.size(); b++) {
            bool e = eq(A[a], A[b]); MC_CHECK(Block::Compare(A[a], A[b]) == e, "Compare ", hx(A[a]), " ", hx(A[b]));
            bool l = Block::IsLessThan(A[a], A[b]), g = Block::IsLessThan(A[b], A[a]);
            MC_CHECK((l ? 1 : 0) + (g ? 1 : 0) + (e ? 1 : 0) == 1, "order is not total: ", hx(A[a]), " ", hx(A[b]));
            if (l && b % 4 == a % 4) for (auto& c : A) if (Block::IsLessThan(A[b], c)) MC_CHECK(Block::IsLessThan(A[a], c), "order is not transitive");
            if (e) MC_CHECK(BlockHash()(A[a]) == BlockHash()(A[b]), "hash of equal blocks differs"); else MC_CHECK(BlockHash()(A[a]) != BlockHash()(A[b]), "hash collision");
            BlockArrayValue x, y; for (int k = 0; k < 9; k++) { x.var[k] = A[(a + k) % A.size()]; y.var[k] = A[(a + k) % A.size()]; } int k = b % 9; y.var[k] = A[b];
            MC_CHECK((x != y) == !eq(x.var[k], A[b]), "BlockArrayValue !="); auto z = x ^ y; for (int q = 0; q < 9; q++) MC_CHECK(eq(z.var[q], x.var[q] ^ y.var[q]), "BlockArrayValue ^"); auto w = x; w ^= y; MC_CHECK(!(w != z), "BlockArrayValue ^=");
            mc::eval(b);
        }
    }
    // ---- vector forms, every length
    std::vector<size_t> vl; for (size_t n = 0; n <= (T ? 300 : 70); n++) vl.push_back(n); for (size_t n : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 5000}) vl.push_back(n);
    for (size_t n : vl) if (mc::begin(cat("vec:", n))) {
        std::vector<block> x(n), y(n); for (size_t i = 0; i < n; i++) { x[i] = rndb(); y[i] = rndb(); }
        auto x0 = x, y0 = y; auto r = Block::AND(x, y); MC_CHECK(r.size() == n, "AND size"); for (size_t i = 0; i < n; i++) MC_CHECK(eq(r[i], _mm_and_si128(x0[i], y0[i])), "AND at ", i);
        r = Block::XOR(x, y); MC_CHECK(r.size() == n, "XOR size"); for (size_t i = 0; i < n; i++) MC_CHECK(eq(r[i], x0[i] ^ y0[i]), "XOR at ", i);
        block f = rndb(); r = Block::FixXOR(x, f); MC_CHECK(r.size() == n, "FixXOR size"); for (size_t i = 0; i < n; i++) MC_CHECK(eq(r[i], x0[i] ^ f), "FixXOR at ", i);
        MC_CHECK(Block::Compare(x, x0), "Compare equal vectors");
        for (size_t i = 0; i < n; i++) { MC_CHECK(eq(x[i], x0[i]) && eq(y[i], y0[i]), "operand changed"); if (n <= 300 || i % 61 == 0 || i + 2 >= n) for (int bpos : {0, 31, 32, 63, 64, 100, 127}) { auto z = x; z[i] = z[i] ^ bit(bpos); MC_CHECK(!Block::Compare(x, z), "Compare misses a difference at ", i, " bit ", bpos); } mc::eval(i); }
        mc::eval(n, n > 0);
        std::vector<uint8_t> sp(n * 128); for (auto& c : sp) c = mc::rng().next() & 1; std::vector<block> bl(n + 1, f); Block::FromSparseBytes(sp.data(), sp.size(), bl.data(), n);
        MC_CHECK(eq(bl[n], f), "FromSparseBytes wrote beyond the output"); for (size_t i = 0; i < n; i++) for (int j = 0; j < 128; j++) MC_CHECK(bits(bl[i])[j] == sp[i * 128 + j], "FromSparseBytes block ", i, " bit ", j);
    }
    for (int j = 0; j < 128; j++) if (mc::begin(cat("sparse:", j))) { for (int k = 0; k < 128; k++) { uint8_t sp[128] = {0}; sp[j] = 1; sp[k] = 1; block b = rndb(); Block::FromSparseBytes(sp, 128, &b, 1); MC_CHECK(eq(b, j == k ? bit(j) : bit(j) ^ bit(k)), "FromSparseBytes {", j, ",", k, "}"); mc::eval(k); } }
    // ---- set difference: all pairs of subsets of 6-element universes
    for (int u = 0; u < (T ? 12 : 4); u++) if (mc::begin(cat("setdiff:", u))) {
        std::vector<block> U; for (int i = 0; i < 6; i++) U.push_back(A[(u * 37 + i * (u + 1) * 11) % A.size()]);
        for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++) {
            std::vector<block> x, y; for (int i = 0; i < 6; i++) { if (a >> i & 1) x.push_back(U[i]); if (b >> i & 1) y.push_back(U[i]); }
            auto d = ComputeSetDifference(x, y); std::set<std::string> e, g; for (auto& t : x) { bool in = false; for (auto& s : y) in |= eq(s, t); if (!in) e.insert(hx(t)); } for (auto& t : d) g.insert(hx(t));
            MC_CHECK(e == g && d.size() == e.size(), "set difference"); mc::eval(a * 64 + b, a > 0);
        }
    }
    // ---- transpose: all shapes
    size_t M = T ? 512 : 136;
    for (size_t R = 8; R <= 512; R += 8) for (size_t C = 8; C <= 512; C += 8) {
        bool edge = (R <= 24 || R == 128 || R == 136 || R == 256 || R == 512) && (C <= 24 || C == 128 || C == 136 || C == 256 || C == 512);
        if (R > M || C > M) if (!edge) continue;
        if (mc::begin(cat("transpose:", R, "x", C))) for (int p = 0; p < 4; p++) transpose_case(R, C, p);
    }
    for (size_t R : {8, 16, 24, 32, 40}) for (size_t C : {8, 16, 24, 32, 40}) if (mc::begin(cat("transpose1:", R, "x", C))) {
        for (size_t i = 0; i < R * C; i++) for (int inv = 0; inv < 2; inv++) {
            std::vector<uint8_t> in(R * C / 8 + 16, inv ? 0xff : 0), out(R * C / 8, 0x33), ref(R * C / 8, inv ? 0xff : 0); in[i / 8] ^= 1 << (i % 8); size_t o = (i % C) * R + i / C; ref[o / 8] ^= 1 << (o % 8);
            BitMatrixTranspose(in.data(), R, C, out.data()); MC_CHECK(out == ref, "single bit ", i); mc::eval(i * 2 + inv);
        }
    }
    for (size_t R : {1024, 2048, 4096, 65536, 65664}) for (size_t C : {128, 136}) for (int s = 0; s < 2; s++) if (mc::begin(cat("transpose:", s ? C : R, "x", s ? R : C))) transpose_case(s ? C : R, s ? R : C, 0);
    // ---- GF(2^128): all products of single-bit elements, of boundary elements, and the field laws
    for (int i = 0; i < 128; i++) if (mc::begin(cat("gfmul:", i))) for (int j = 0; j < 128; j++) {
        block e = refmul(bit(i), bit(j)); MC_CHECK(eq(gf128_mul(bit(i), bit(j)), e), "x^", i, " * x^", j, " (okvs)"); MC_CHECK(eq(VOLE::gf128_mul(bit(i), bit(j)), e), "x^", i, " * x^", j, " (vole)"); mc::eval(j);
    }
    for (size_t a = 0; a < A.size(); a++) if (mc::begin(cat("gfmul2:", a))) {
        for (size_t b = 0; b < A.size(); b++) { block e = refmul(A[a], A[b]); MC_CHECK(eq(gf128_mul(A[a], A[b]), e), hx(A[a]), "*", hx(A[b]), " (okvs)"); MC_CHECK(eq(VOLE::gf128_mul(A[a], A[b]), e), hx(A[a]), "*", hx(A[b]), " (vole)"); mc::eval(b, a && b); }
        block v = gf128_inv(A[a]); MC_CHECK(eq(refmul(v, A[a]), eq(A[a], Block::zero_block) ? Block::zero_block : bit(0)), "inverse of ", hx(A[a]));
        BlockArrayValue x; for (int k = 0; k < 9; k++) x.var[k] = A[(a + 31 * k) % A.size()]; auto y = gf128_mul(x, A[a]); for (int k = 0; k < 9; k++) MC_CHECK(eq(y.var[k], refmul(x.var[k], A[a])), "BlockArrayValue product at ", k);
    }
    if (T) for (int i = 0; i < 128; i++) if (mc::begin(cat("gfinv2:", i))) for (int j = 0; j < i; j++) { block x = bit(i) ^ bit(j); MC_CHECK(eq(refmul(x, gf128_inv(x)), bit(0)), "inverse of x^", i, "+x^", j); mc::eval(j); }
    for (int j = 0; j < 128; j++) if (mc::begin(cat("gadget:", j))) {
        std::vector<block> v(128, Block::zero_block); block r = rndb(); v[j] = r; MC_CHECK(eq(VOLE::gadget_innerProduct(v), refmul(bit(j), r)), "gadget inner product at ", j);
        for (auto& t : v) t = rndb(); block e = Block::zero_block; for (int k = 0; k < 128; k++) e = e ^ refmul(bit(k), v[k]); MC_CHECK(eq(VOLE::gadget_innerProduct(v), e), "gadget inner product"); mc::eval(j);
    }
    // ---- matrix inversion: all small matrices
    {
        std::vector<block> E{Block::zero_block, bit(0), bit(1), bit(127), Block::all_one_block};
        auto run = [&](std::vector<std::vector<block>> m) {
            int n = m.size(); auto m0 = m; bool r = check_invert_gf128(m);
            auto w = m0; bool inv = true;    // rank by an independent elimination
            for (int c = 0; c < n && inv; c++) { int p = -1; for (int i = c; i < n; i++) if (!eq(w[i][c], Block::zero_block)) { p = i; break; } if (p < 0) { inv = false; break; } std::swap(w[p], w[c]); for (int i = c + 1; i < n; i++) if (!eq(w[i][c], Block::zero_block)) { block s = w[i][c]; for (int k = 0; k < n; k++) w[i][k] = gf128_mul(w[i][k], w[c][c]) ^ gf128_mul(w[c][k], s); } }
            MC_CHECK(r == inv, "invertibility verdict ", r, " for a matrix of ", n, " rows, expected ", inv);
            if (r && inv) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { block s = Block::zero_block; for (int k = 0; k < n; k++) s = s ^ gf128_mul(m0[i][k], m[k][j]); MC_CHECK(eq(s, i == j ? bit(0) : Block::zero_block), "M * M^-1 entry ", i, ",", j); }
        };
        for (int n = 1; n <= 3; n++) { int base = n == 3 ? 3 : 5; int tot = 1; for (int i = 0; i < n * n; i++) tot *= base; for (int hi = 0; hi < tot; hi += 625) if (mc::begin(cat("gfmat:", n, ":", hi))) for (int x = hi; x < std::min(tot, hi + 625); x++) { std::vector<std::vector<block>> m(n, std::vector<block>(n)); int v = x; for (int i = 0; i < n * n; i++) { m[i / n][i % n] = E[v % base]; v /= base; } run(m); mc::eval(x, x > 0); } }
        for (int n = 1; n <= 4; n++) for (int hi = 0; hi < (1 << (n * n)); hi += 4096) if (mc::begin(cat("bitmat:", n, ":", hi))) for (int x = hi; x < std::min(1 << (n * n), hi + 4096); x++) {
            std::vector<std::vector<uint8_t>> m(n, std::vector<uint8_t>(n)), m0; for (int i = 0; i < n * n; i++) m[i / n][i % n] = x >> i & 1; m0 = m; bool r = check_invert(m);
            bool inv = true; for (int c = 1; c < (1 << n); c++) { int s = 0; for (int i = 0; i < n; i++) if (c >> i & 1) for (int k = 0; k < n; k++) s ^= m0[i][k] << k; if (s == 0) inv = false; }
            MC_CHECK(r == inv, "binary invertibility of ", x, " at size ", n); if (r) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int s = 0; for (int k = 0; k < n; k++) s ^= m0[i][k] & m[k][j]; MC_CHECK(s == (i == j), "binary inverse of ", x); }
            mc::eval(x, x > 0);
        }
        for (int n = 1; n <= 8; n++) for (int k = 1; k <= n; k++) if (mc::begin(cat("comb:", n, ":", k))) { std::vector<uint8_t> c(k); for (int i = 0; i < k; i++) c[i] = i; std::set<std::vector<uint8_t>> s; do { bool ok = true; for (int i = 0; i < k; i++) ok &= c[i] < n && (!i || c[i] > c[i - 1]); MC_CHECK(ok, "not a combination"); if (!s.insert(c).second) { mc::fail("combination repeats"); break; } } while (prev_combination(c, n)); int e = 1; for (int i = 0; i < k; i++) e = e * (n - i) / (i + 1); MC_CHECK((int)s.size() == e, "combinations: ", s.size(), " of ", e); mc::eval(n * 10 + k); }
    }
    // ---- division by invariant divisors
    {
        std::set<uint64_t> D; for (uint64_t d = 1; d <= (T ? 20000u : 1500u); d++) D.insert(d); for (int k = 8; k < 64; k++) for (int e = -2; e <= 2; e++) D.insert((1ULL << k) + e); D.insert(~0ULL); D.insert(~0ULL - 1);
        size_t ix = 0; std::vector<uint64_t> dv(D.begin(), D.end());
        for (size_t lo = 0; lo < dv.size(); lo += 50) if (mc::begin(cat("div:", lo))) for (size_t q = lo; q < std::min(dv.size(), lo + 50); q++) {
            uint64_t d = dv[q]; divider dd = gen_divider(d); std::vector<uint64_t> nn{0, 1, 2, d - 1, d, d + 1, 2 * d - 1, 2 * d, ~0ULL, ~0ULL - 1, ~0ULL / d * d, ~0ULL / d * d - 1}; for (int k = 1; k < 64; k++) { nn.push_back(1ULL << k); nn.push_back((1ULL << k) - 1); nn.push_back((1ULL << k) / d * d - 1); nn.push_back(mc::rng().next() >> (k % 3)); } while (nn.size() % 32) nn.push_back(mc::rng().next());
            for (uint64_t n : nn) MC_CHECK(divide_u64_do(n, &dd) == n / d, n, " / ", d);
            for (size_t i = 0; i < nn.size(); i += 32) { uint64_t v[32]; memcpy(v, &nn[i], sizeof v); doMod32(v, &dd, d); for (int j = 0; j < 32; j++) MC_CHECK(v[j] == nn[i + j] % d, nn[i + j], " % ", d, " = ", v[j]); }
            mc::eval(d);
        } (void)ix;
    }
    // ---- small integer helpers
    if (mc::begin("ints")) {
        for (uint64_t x = 1; x < (1 << 14); x++) { uint64_t f = 0; while ((2ULL << f) <= x) f++; MC_CHECK(log2_floor(x) == f, "log2_floor ", x); if (x > 1) MC_CHECK(log2_ceil(x) == ((1ULL << f) == x ? f : f + 1), "log2_ceil ", x); uint32_t u = 1; while (u < x) u *= 2; MC_CHECK(upperpower2(x) == u, "upperpower2 ", x); MC_CHECK(IsPowerOfTwo(x) == ((x & (x - 1)) == 0), "IsPowerOfTwo"); mc::eval(x); }
        for (int k = 1; k < 64; k++) { MC_CHECK(IsPowerOfTwo(1ULL << k) && !IsPowerOfTwo((1ULL << k) + 1), "IsPowerOfTwo 2^", k); MC_CHECK(log2_floor(1ULL << k) == (uint64_t)k && log2_ceil((1ULL << k)) == (uint64_t)k, "log2 2^", k); if (k > 1) MC_CHECK(log2_floor((1ULL << k) - 1) == (uint64_t)k - 1 && log2_ceil((1ULL << k) - 1) == (uint64_t)k, "log2 2^k-1"); }
        MC_CHECK(!IsPowerOfTwo(0), "IsPowerOfTwo 0");
    }
    for (int n = 0; n <= 40; n++) if (mc::begin(cat("routines:", n))) for (int mx : {1, 2, 3, 7, 8, 100}) { auto v = GenRandomNaturalIntegerVectorLessThan(n, mx); MC_CHECK((int)v.size() == n, "size"); for (auto x : v) MC_CHECK(x >= 0 && x < mx, "natural integer out of range"); mc::eval(n * 100 + mx, n > 0); }
    // ---- polynomials over the scalar field
    {
        std::vector<Z> C{0, 1, 2, N() - 1, N() - 2, (N() + 1) / 2}; int b = C.size();
        for (int la = 1; la <= 3; la++) for (int lb = 1; lb <= 3; lb++) for (int s = 0; s < b; s++) if (mc::begin(cat("poly:", la, ":", lb, ":", s))) {
            int ta = 1, tb = 1; for (int i = 1; i < la; i++) ta *= b; for (int i = 0; i < lb; i++) tb *= b; int step = T ? 1 : (ta * tb > 800 ? 7 : 1);
            for (int x = 0; x < ta * tb; x += step) {
                int v = x; std::vector<Z> p{C[s]}, q; for (int i = 1; i < la; i++) { p.push_back(C[v % b]); v /= b; } for (int i = 0; i < lb; i++) { q.push_back(C[v % b]); v /= b; }
                std::vector<BigInt> P, Q; for (auto& z : p) P.push_back(toB(z)); for (auto& z : q) Q.push_back(toB(z));
                auto R = PolyMul(P, Q); std::vector<Z> r(la + lb - 1, Z(0)); for (int i = 0; i < la; i++) for (int j = 0; j < lb; j++) r[i + j] = md(r[i + j] + p[i] * q[j], N());
                bool ok = R.size() == r.size(); for (size_t i = 0; ok && i < r.size(); i++) ok = toZ(R[i]) == r[i]; MC_CHECK(ok, "PolyMul");
                Z at = C[(s + x) % b], e = 0; for (int i = (int)r.size() - 1; i >= 0; i--) e = md(e * at + r[i], N()); MC_CHECK(toZ(EvalPoly(R, toB(at))) == e, "EvalPoly");
                auto R3 = PolyMul(std::vector<std::vector<BigInt>>{P, Q, P}); auto RR = PolyMul(R, P); ok = R3.size() == RR.size(); for (size_t i = 0; ok && i < RR.size(); i++) ok = R3[i] == RR[i]; MC_CHECK(ok, "PolyMul of a list"); mc::eval(x);
            }
        }
    }
    return mc::finish();
}
