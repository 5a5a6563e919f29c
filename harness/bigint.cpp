// C01: big integers against an independent arbitrary-precision implementation (boost cpp_int).
#include "mc.hpp"
#include "crypto/setup.hpp"
#include <boost/multiprecision/cpp_int.hpp>
using Z = boost::multiprecision::cpp_int;
using mc::cat;

static Z toZ(const BigInt& a)
{
    char* h = BN_bn2hex(a.bn_ptr); std::string s(h); OPENSSL_free(h);
    bool neg = s[0] == '-'; if (neg) s = s.substr(1);
    Z z(s.empty() ? std::string("0") : "0x" + s); return neg ? Z(-z) : z;
}
static BigInt toB(const Z& z)
{
    std::stringstream ss; Z m = z < 0 ? Z(-z) : z; ss << std::hex << m;
    BigInt r; BIGNUM* p = r.bn_ptr; BN_hex2bn(&p, ss.str().c_str()); if (z < 0) BN_set_negative(p, 1); return r;
}
static std::string S(const Z& z) { std::stringstream ss; ss << z; return ss.str(); }
static Z nnmod(const Z& a, const Z& m) { Z r = a % m; if (r < 0) r += m; return r; }
static Z zgcd(Z a, Z b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b != 0) { Z t = a % b; a = b; b = t; } return a; }
static Z zpow(Z b, unsigned e) { Z r = 1; for (unsigned i = 0; i < e; i++) r *= b; return r; }
static Z zpowm(Z b, Z e, const Z& m) { Z r = nnmod(1, m); b = nnmod(b, m); while (e > 0) { if (e & 1) r = nnmod(r * b, m); b = nnmod(b * b, m); e >>= 1; } return r; }
static Z trunc_div(const Z& a, const Z& b) { return a / b; }

static std::vector<Z> alphabet()
{
    std::set<Z> s;
    for (int i = 0; i <= 10; i++) s.insert(i);
    for (int k : {7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 191, 192, 255, 256, 257, 511, 512}) for (int d = -1; d <= 1; d++) s.insert((Z(1) << k) + d);
    Z o = toZ(BigInt(order)), p = toZ(BigInt(curve_params_p));
    for (int d = -1; d <= 1; d++) { s.insert(o + d); s.insert(p + d); s.insert(o * 2 + d); s.insert(o * o + d); }
    s.insert(Z("0x0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"));
    s.insert(Z("0x00ff00000000000000000000000000000000000000000000000000000000ff00"));
    std::vector<Z> v; for (auto& z : s) { v.push_back(z); if (z != 0) v.push_back(-z); }
    return v;
}
static bool eq(const BigInt& r, const Z& e, const char* op, const Z& a, const Z& b, const Z& m = 0)
{
    Z z = toZ(r);
    if (z != e) { mc::fail(cat(op, "(", S(a), ", ", S(b), ", ", S(m), ") = ", S(z), ", expected ", S(e))); return false; }
    if (BN_is_zero(r.bn_ptr) && !(r.IsZero())) { mc::fail("IsZero"); return false; }
    return true;
}
static void same(const BigInt& A, const Z& a, const char* op) { if (toZ(A) != a) mc::fail(cat(op, " modified its operand ", S(a), " to ", S(toZ(A)))); }

static void binary(const Z& a, const Z& b)
{
    const BigInt A = toB(a), B = toB(b);
    eq(A.Add(B), a + b, "Add", a, b); eq(A + B, a + b, "+", a, b);
    eq(A.Sub(B), a - b, "Sub", a, b); eq(A - B, a - b, "-", a, b);
    eq(A.Mul(B), a * b, "Mul", a, b); eq(A * B, a * b, "*", a, b);
    if (b != 0) { eq(A.DivAndTruncate(B), trunc_div(a, b), "DivAndTruncate", a, b); eq(A / B, trunc_div(a, b), "/", a, b); eq(A.Div(B), trunc_div(a, b), "Div", a, b); }
    if (b > 0) { eq(A.Mod(B), nnmod(a, b), "Mod", a, b); eq(A % B, nnmod(a, b), "%", a, b); }
    eq(A.GCD(B), zgcd(a, b), "GCD", a, b);
    int c = a < b ? -1 : a > b ? 1 : 0;
    MC_CHECK(A.CompareTo(B) == c, "CompareTo(", S(a), ",", S(b), ")");
    MC_CHECK((A == B) == (c == 0) && (A != B) == (c != 0) && (A < B) == (c < 0) && (A > B) == (c > 0) && (A <= B) == (c <= 0) && (A >= B) == (c >= 0), "comparison operators on ", S(a), ", ", S(b));
    BigInt x = A; x += B; eq(x, a + b, "+=", a, b);
    x = A; x -= B; eq(x, a - b, "-=", a, b);
    x = A; x *= B; eq(x, a * b, "*=", a, b);
    if (b != 0) { x = A; x /= B; eq(x, trunc_div(a, b), "/=", a, b); }
    if (b > 0) { x = A; x %= B; eq(x, nnmod(a, b), "%=", a, b); }
    same(A, a, "a binary operation"); same(B, b, "a binary operation");
    mc::eval(S(a) + "|" + S(b));
}
static void unary(const Z& a)
{
    const BigInt A = toB(a);
    eq(A.Negate(), -a, "Negate", a, 0); eq(-A, -a, "unary -", a, 0); eq(A.Square(), a * a, "Square", a, 0);
    MC_CHECK(A.IsZero() == (a == 0) && A.IsOne() == (a == 1) && A.IsNonNegative() == (a >= 0), "IsZero/IsOne/IsNonNegative of ", S(a));
    BigInt cp(A); eq(cp, a, "copy", a, 0); BigInt asg = toB(Z(-77)); asg = A; eq(asg, a, "assignment", a, 0); BigInt fromp(A.bn_ptr); eq(fromp, a, "from BIGNUM", a, 0);
    asg = asg; eq(asg, a, "self assignment", a, 0);
    { BigInt x = A; x += x; eq(x, a + a, "x+=x", a, 0); } { BigInt x = A; x -= x; eq(x, 0, "x-=x", a, 0); } { BigInt x = A; x *= x; eq(x, a * a, "x*=x", a, 0); }
    Z m = a < 0 ? Z(-a) : a; size_t bits = 0; while ((m >> bits) != 0) bits++;
    MC_CHECK(A.GetBitLength() == bits && A.GetByteLength() == (bits + 7) / 8, "bit/byte length of ", S(a));
    for (int n = 0; n <= 80; n++) {
        int k = n < 70 ? n : n * 4 - 30;
        Z l = m << k, r = m >> k; if (a < 0) { l = -l; r = -r; }
        eq(A.Lshift(k), l, "Lshift", a, k); eq(A.Rshift(k), r, "Rshift", a, k);
        BigInt x = A; eq(x << k, l, "<<", a, k); eq(x >> k, r, ">>", a, k); x <<= k; eq(x, l, "<<=", a, k); x = A; x >>= k; eq(x, r, ">>=", a, k);
        if (a >= 0) {
            int bit = (int)((m >> k) & 1);
            MC_CHECK(A.GetTheNthBit(k) == bit && A.IsBitSet(k) == (bit == 1), "bit ", k, " of ", S(a));
            eq(A.GetLastNBits(k), m & ((Z(1) << k) - 1), "GetLastNBits", a, k);
        }
    }
    for (unsigned e = 0; e <= 9; e++) eq(A.Exp(BigInt(e)), zpow(a, e), "Exp", a, e);
    if (a >= 0) {
        if (bits <= 64) { uint64_t v = (uint64_t)a; MC_CHECK(A.ToUint64() == v, "ToUint64 of ", S(a)); eq(BigInt((size_t)v), a, "from size_t", a, 0); }
        size_t need = (bits + 7) / 8;
        std::string bs = A.ToByteString(); MC_CHECK(bs.size() == need, "ToByteString length of ", S(a));
        Z back = 0; for (unsigned char ch : bs) back = (back << 8) | ch; MC_CHECK(back == a, "ToByteString of ", S(a));
        BigInt y = toB(Z(-5)); y.FromByteString(bs); eq(y, a, "FromByteString", a, 0);
        y = toB(Z(-5)); y.FromByteString((const unsigned char*)bs.data(), bs.size()); eq(y, a, "FromByteString(buffer)", a, 0);
        for (size_t L : {need, need + 1, need + 7, (size_t)32, (size_t)80}) if (L >= need && L > 0) {
            std::vector<uint8_t> v = A.ToByteVector(L); MC_CHECK(v.size() == L, "ToByteVector size");
            Z bk = 0; for (uint8_t ch : v) bk = (bk << 8) | ch; MC_CHECK(bk == a, "ToByteVector(", L, ") of ", S(a));
            y = toB(Z(-9)); y.FromByteVector(v); eq(y, a, "FromByteVector", a, L);
            std::vector<unsigned char> buf(L + 16, 0xab); A.ToByteString(buf.data() + 8, L);
            bool clean = true; for (int i = 0; i < 8; i++) clean &= buf[i] == 0xab && buf[L + 8 + i] == 0xab;
            MC_CHECK(clean, "ToByteString(buffer) writes outside the buffer");
            y.FromByteString(buf.data() + 8, L); eq(y, a, "fixed-length ToByteString/FromByteString", a, L);
        }
        std::string hs = A.ToHexString(); Z hz = 0; for (char c : hs) hz = hz * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); MC_CHECK(hz == a, "ToHexString of ", S(a));
    }
    same(A, a, "a unary operation");
    mc::eval(S(a));
}
static void modular(const Z& a, const Z& b, const Z& m, bool expo)
{
    const BigInt A = toB(a), B = toB(b), M = toB(m);
    eq(A.ModAdd(B, M), nnmod(a + b, m), "ModAdd", a, b, m);
    eq(A.ModSub(B, M), nnmod(a - b, m), "ModSub", a, b, m);
    eq(A.ModMul(B, M), nnmod(a * b, m), "ModMul", a, b, m);
    if (expo && b >= 0) eq(A.ModExp(B, M), zpowm(a, b, m), "ModExp", a, b, m);
    same(A, a, "a modular operation"); same(B, b, "a modular operation"); same(M, m, "a modular operation");
    mc::eval(S(a) + "|" + S(b) + "|" + S(m), a != 0 || b != 0);
}
static void modular1(const Z& a, const Z& m)
{
    const BigInt A = toB(a), M = toB(m);
    eq(A.Mod(M), nnmod(a, m), "Mod", a, 0, m); eq(A.ModSquare(M), nnmod(a * a, m), "ModSquare", a, 0, m);
    eq(A.ModNegate(M), nnmod(-a, m), "ModNegate", a, 0, m);
    if (m > 1 && zgcd(a, m) == 1) { Z i = toZ(A.ModInverse(M)); MC_CHECK(i >= 0 && i < m && nnmod(i * a, m) == 1, "ModInverse(", S(a), ",", S(m), ") = ", S(i)); }
    same(A, a, "a modular operation"); same(M, m, "a modular operation");
    mc::eval(S(a) + "%" + S(m));
}
static bool isprime(unsigned n) { if (n < 2) return false; for (unsigned d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    CRYPTO_Initialize();
    auto al = alphabet();
    Z o = toZ(BigInt(order)), p = toZ(BigInt(curve_params_p));
    for (size_t i = 0; i < al.size(); i++) if (mc::begin(cat("boundary first operand ", S(al[i])))) { unary(al[i]); for (auto& b : al) binary(al[i], b); }
    int R = mc::thorough() ? 130 : 40;
    for (int a = -R; a <= R; a++) if (mc::begin(cat("small first operand ", a, " range ", R))) { unary(a); for (int b = -R; b <= R; b++) binary(a, b); }
    std::vector<Z> mods{1, 2, 3, 4, 6, 8, 15, 255, 256, (Z(1) << 64) - 1, Z(1) << 64, (Z(1) << 64) + 1, (Z(1) << 128) - 159, o, p, o - 1, Z(1) << 256, o * 2};
    for (auto& m : mods) for (size_t i = 0; i < al.size(); i++) if (mc::begin(cat("modulus ", S(m), " first operand ", S(al[i])))) {
        modular1(al[i], m);
        for (size_t j = 0; j < al.size(); j++) modular(al[i], al[j], m, mc::thorough() || (i + j) % 5 == 0);
    }
    int Q = mc::thorough() ? 50 : 24;
    for (int m = 1; m <= Q; m++) if (mc::begin(cat("small modulus ", m, " all operands to ", 2 * Q))) for (int a = -2 * Q; a <= 2 * Q; a++) { modular1(a, m); for (int b = -2 * Q; b <= 2 * Q; b++) modular(a, b, m, true); }
    for (unsigned q = 2; q <= (mc::thorough() ? 400u : 120u); q++) if (isprime(q) && mc::begin(cat("square roots modulo ", q))) {
        for (unsigned x = 0; x < q; x++) { Z r = toZ(BigInt(x * x % q).ModSquareRoot(BigInt(q))); MC_CHECK(r * r % q == x * x % q, "ModSquareRoot(", x * x % q, ",", q, ") = ", S(r)); mc::eval(x); }
    }
    if (mc::begin("square roots modulo the field prime")) for (auto& a : al) { Z s = nnmod(a * a, p); Z r = toZ(toB(s).ModSquareRoot(toB(p))); MC_CHECK(nnmod(r * r, p) == s, "ModSquareRoot modulo p of ", S(s)); mc::eval(S(a)); }
    for (unsigned base = 0; base < (mc::thorough() ? 20000u : 3000u); base += 250) if (mc::begin(cat("primality ", base, "..", base + 249))) for (unsigned n = base; n < base + 250; n++) {
        BigInt N((size_t)n); MC_CHECK(N.IsPrime(1e-12) == isprime(n), "IsPrime(", n, ")");
        if (n > 3) MC_CHECK(N.IsSafePrime(1e-12) == (isprime(n) && isprime((n - 1) / 2)), "IsSafePrime(", n, ")");
        mc::eval(n);
    }
    for (size_t i = 0; i < al.size(); i++) if (al[i] > 0 && mc::begin(cat("random below ", S(al[i])))) {
        BigInt M = toB(al[i]); std::set<Z> seen;
        for (int k = 0; k < 40; k++) {
            Z r = toZ(GenRandomBigIntLessThan(M)); MC_CHECK(r >= 0 && r < al[i], "GenRandomBigIntLessThan(", S(al[i]), ") = ", S(r)); seen.insert(r);
            Z r2 = toZ(GenRandomBigIntLessThan(M.bn_ptr)); MC_CHECK(r2 >= 0 && r2 < al[i], "GenRandomBigIntLessThan(", S(al[i]), ") = ", S(r2));
            for (auto& lo : {Z(0), Z(1), Z(-3), Z(7)}) if (lo < al[i]) { Z q = toZ(GenRandomBigIntBetween(toB(lo), M)); MC_CHECK(q >= lo && q < al[i], "GenRandomBigIntBetween(", S(lo), ",", S(al[i]), ") = ", S(q)); }
            mc::eval(S(r));
        }
        if (al[i] >= 3 && al[i] <= 10) MC_CHECK(seen.size() == (size_t)al[i] , "only ", seen.size(), " distinct values below ", S(al[i]));
        if (al[i] > 2) { Z c = toZ(GenCoPrimeLessThan(M)); MC_CHECK(c >= 0 && c < al[i] && zgcd(c, al[i]) == 1, "GenCoPrimeLessThan(", S(al[i]), ") = ", S(c)); }
        if (al[i] > (Z(1) << 100)) MC_CHECK(seen.size() == 40, "repeated random values below ", S(al[i]));
    }
    // vectors
    std::vector<int> vl; for (int l = 0; l <= 20; l++) vl.push_back(l); for (int l : {31, 33, 64, 65, 100, 128, 129, 255, 256, 257, 513, 1000, 1025}) vl.push_back(l);
    for (int len : vl) for (int off = 0; off < (mc::thorough() ? (int)al.size() : 30); off++) if ((len <= 20 || off < 2) && mc::begin(cat("vectors length ", len, " offset ", off))) {
        std::vector<BigInt> A, B; std::vector<Z> a, b;
        for (int i = 0; i < len; i++) { a.push_back(al[(off * 7 + i * 3) % al.size()]); b.push_back(al[(off + i * 5 + 11) % al.size()]); A.push_back(toB(a[i])); B.push_back(toB(b[i])); }
        for (auto& m : {o, Z(97), Z(1) << 64}) {
            BigInt M = toB(m); BigInt c = toB(al[off]);
            auto r1 = BigIntVectorModAdd(A, B, M), r2 = BigIntVectorModSub(A, B, M), r3 = BigIntVectorModProduct(A, B, M), r4 = BigIntVectorProduct(A, B), r5 = BigIntVectorModScalar(A, c, M), r6 = BigIntVectorScalar(A, c), r7 = BigIntVectorModNegate(A, M);
            MC_CHECK(r1.size() == len && r2.size() == len && r3.size() == len && r4.size() == len && r5.size() == len && r6.size() == len && r7.size() == len, "vector result length");
            Z ip = 0;
            for (int i = 0; i < len; i++) {
                eq(r1[i], nnmod(a[i] + b[i], m), "vector ModAdd", a[i], b[i], m); eq(r2[i], nnmod(a[i] - b[i], m), "vector ModSub", a[i], b[i], m); eq(r3[i], nnmod(a[i] * b[i], m), "vector ModProduct", a[i], b[i], m);
                eq(r4[i], a[i] * b[i], "vector Product", a[i], b[i]); eq(r5[i], nnmod(a[i] * al[off], m), "vector ModScalar", a[i], al[off], m); eq(r6[i], a[i] * al[off], "vector Scalar", a[i], al[off]); eq(r7[i], nnmod(-a[i], m), "vector ModNegate", a[i], 0, m);
                ip += a[i] * b[i];
            }
            eq(BigIntVectorModInnerProduct(A, B, M), nnmod(ip, m), "vector ModInnerProduct", 0, 0, m); eq(BigIntVectorInnerProduct(A, B, M), nnmod(ip, m), "vector InnerProduct", 0, 0, m);
            if (m == o) { std::vector<BigInt> C; std::vector<Z> cz; for (int i = 0; i < len; i++) if (nnmod(a[i], o) != 0) { C.push_back(A[i]); cz.push_back(a[i]); } auto inv = BigIntVectorModInverse(C, M); for (size_t i = 0; i < C.size(); i++) MC_CHECK(nnmod(toZ(inv[i]) * cz[i], o) == 1, "vector ModInverse of ", S(cz[i])); }
            for (int i = 0; i < len; i++) { same(A[i], a[i], "a vector operation"); same(B[i], b[i], "a vector operation"); }
            auto rv = GenRandomBigIntVectorLessThan(len, M); MC_CHECK(rv.size() == len, "random vector length"); for (auto& x : rv) { Z z = toZ(x); MC_CHECK(z >= 0 && z < m, "random vector element out of range"); }
            mc::eval(S(m), len > 0);
        }
    }
    return mc::finish();
}
