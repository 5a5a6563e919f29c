// C02: curve points against an independent implementation of the group law.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "crypto/ec_25519.hpp"
#include "zutil.hpp"
#include "rt.hpp"
using mc::cat; using namespace zu;

static bool eqp(const ECPoint& r, const Pt& e, const std::string& what)
{
    Pt g = rdp(r); if (!(g == e)) { mc::fail(cat(what, " = ", str(g), ", expected ", str(e))); return false; }
    if (r.IsAtInfinity() != e.inf) { mc::fail(what + ": IsAtInfinity wrong"); return false; }
    if (!r.IsOnCurve()) { mc::fail(what + ": not on the curve"); return false; }
    if (r.IsValid() != !e.inf) { mc::fail(what + ": IsValid wrong"); return false; }
    return true;
}
static std::vector<std::pair<std::string, Pt>> points()
{
    std::vector<std::pair<std::string, Pt>> v; Pt G = rdp(ECPoint(generator));
    int R = mc::thorough() ? 33 : 16;
    Pt c; for (int k = 0; k <= R; k++) { v.push_back({cat(k, "G"), c}); if (k) v.push_back({cat(-k, "G"), neg(c)}); c = add(c, G); }
    v.push_back({"(n-1)/2 G", mul(G, (N() - 1) / 2)}); v.push_back({"(n+1)/2 G", mul(G, (N() + 1) / 2)}); v.push_back({"2^128 G", mul(G, Z(1) << 128)});
    v.push_back({"rnd G", mul(G, Z("0x7f3a9c55d1e8b2460011aa55cc33ee7788990fedcba9876543210fedcba98765"))});
    return v;
}
static std::vector<Z> scalars()
{
    std::set<Z> s; for (int i = -4; i <= 20; i++) s.insert(i);
    for (int k : {31, 32, 63, 64, 127, 128, 192, 254, 255, 256, 257, 300}) for (int d = -1; d <= 1; d++) s.insert((Z(1) << k) + d);
    for (int d = -2; d <= 2; d++) { s.insert(N() + d); s.insert(N() * 2 + d); s.insert(-N() + d); s.insert(N() * N() + d); s.insert((N() + 1) / 2 + d); }
    return std::vector<Z>(s.begin(), s.end());
}
// the same group element in another projective representation
static ECPoint rerep(const ECPoint& p) { ECPoint h = ECPoint(generator) * BigInt(987654321); ECPoint q = p; EC_POINT_add(group, q.point_ptr, q.point_ptr, h.point_ptr, nullptr); EC_POINT_invert(group, h.point_ptr, nullptr); EC_POINT_add(group, q.point_ptr, q.point_ptr, h.point_ptr, nullptr); return q; }

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    CRYPTO_Initialize();
    Pt G = rdp(ECPoint(generator));
    auto pts = points(); auto sc = scalars();
    for (size_t i = 0; i < pts.size(); i++) if (mc::begin("pairs with " + pts[i].first)) {
        const ECPoint a = mk(pts[i].second); const Pt& pa = pts[i].second;
        eqp(a.Invert(), neg(pa), "Invert " + pts[i].first); eqp(-a, neg(pa), "unary - " + pts[i].first);
        ECPoint cp(a); eqp(cp, pa, "copy"); ECPoint as; as = a; eqp(as, pa, "assignment"); as = as; eqp(as, pa, "self-assignment"); ECPoint cl; cl.Clone(a); eqp(cl, pa, "Clone");
        { ECPoint x = a; x += x; eqp(x, add(pa, pa), "x+=x"); } { ECPoint x = a; x -= x; eqp(x, Pt(), "x-=x"); } { ECPoint x = a; x.SetInfinity(); eqp(x, Pt(), "SetInfinity"); }
        ECPoint ra = rerep(a);
        MC_CHECK(ra == a && !(ra != a), "equality depends on the projective representation of ", pts[i].first);
        MC_CHECK(ra.ToByteString() == a.ToByteString() && ra.ToHexString() == a.ToHexString() && ra.ToUint64() == a.ToUint64() && ra.FastToUint64() == a.FastToUint64(), "encodings depend on the projective representation of ", pts[i].first);
        MC_CHECK(ECPointHash()(ra) == ECPointHash()(a), "ECPointHash depends on the representation");
        if (!pa.inf) { ECPoint xy(toB(pa.x), toB(pa.y)); eqp(xy, pa, "from coordinates"); eqp(CreateECPoint(toB(pa.x), toB(pa.y)), pa, "CreateECPoint"); }
        for (size_t j = 0; j < pts.size(); j++) {
            const ECPoint b = mk(pts[j].second); const Pt& pb = pts[j].second; std::string w = pts[i].first + ", " + pts[j].first;
            eqp(a.Add(b), add(pa, pb), "Add " + w); eqp(a + b, add(pa, pb), "+ " + w); eqp(a.Sub(b), add(pa, neg(pb)), "Sub " + w); eqp(a - b, add(pa, neg(pb)), "- " + w);
            eqp(ra + b, add(pa, pb), "+ (other representation) " + w); eqp(b - ra, add(pb, neg(pa)), "- (other representation) " + w);
            ECPoint x = a; x += b; eqp(x, add(pa, pb), "+= " + w); x = a; x -= b; eqp(x, add(pa, neg(pb)), "-= " + w);
            MC_CHECK((a == b) == (pa == pb) && (a != b) == !(pa == pb) && a.CompareTo(b) == (pa == pb), "equality of ", w);
            if (!(pa == pb)) MC_CHECK(a.ToByteString() != b.ToByteString() && a.ToHexString() != b.ToHexString() && a.ToUint64() != b.ToUint64() && a.FastToUint64() != b.FastToUint64(), "encodings of distinct points collide: ", w);
            MC_CHECK(ECPoint_Lexical_Compare(a, b) == (a.ToByteString() < b.ToByteString()), "lexical order");
            eqp(a, pa, "operand"); eqp(b, pb, "operand");
            mc::eval(w, !(pa.inf && pb.inf));
        }
    }
    for (size_t i = 0; i < pts.size(); i++) for (int part = 0; part < 2; part++) if (mc::begin(cat("scalars on ", pts[i].first, " part ", part))) {
        if (!mc::thorough() && i > 6 && i + 4 < pts.size() && i % 3) continue;
        const ECPoint a = mk(pts[i].second);
        for (size_t k = part; k < sc.size(); k += 2) {
            BigInt s = toB(sc[k]); Pt e = mul(pts[i].second, sc[k]);
            eqp(a.Mul(s), e, cat("Mul ", pts[i].first, " by ", S(sc[k]))); eqp(a * s, e, "*"); ECPoint x = a; x *= s; eqp(x, e, "*=");
            eqp(rerep(a) * s, e, cat("Mul (other representation) ", pts[i].first, " by ", S(sc[k])));
            MC_CHECK(toZ(s) == sc[k], "Mul modifies the scalar"); mc::eval(S(sc[k]), sc[k] != 0);
        }
    }
    // vectors, all lengths, all thread orders
    std::vector<int> vl; for (int l = 0; l <= (mc::thorough() ? 40 : 20); l++) vl.push_back(l); for (int l : {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 513}) vl.push_back(l); if (mc::thorough()) for (int l : {1023, 1025, 2050}) vl.push_back(l);
    for (int len : vl) for (int var = 0; var < 3; var++) if ((len <= 40 || var == 0) && mc::begin(cat("vectors length ", len, " variant ", var))) {
        std::vector<ECPoint> A, B; std::vector<Pt> pa, pb; std::vector<BigInt> s; std::vector<Z> z;
        for (int i = 0; i < len; i++) { pa.push_back(pts[(i * 3 + var * 5) % pts.size()].second); pb.push_back(pts[(i * 7 + var + 1) % pts.size()].second); z.push_back(sc[(i * 5 + var * 11) % sc.size()]); A.push_back(mk(pa[i])); B.push_back(mk(pb[i])); s.push_back(toB(z[i])); }
        Pt sum; std::vector<Pt> prod; for (int i = 0; i < len; i++) { prod.push_back(mul(pa[i], z[i])); sum = add(sum, prod[i]); }
        for (int ord = 0; ord < 3; ord++) {
            rt::order = ord;
            eqp(ECPointVectorMul(A, s), sum, cat("multi-scalar multiplication length ", len));
            auto r = ECPointVectorAdd(A, B); MC_CHECK(r.size() == len, "length"); for (int i = 0; i < len; i++) eqp(r[i], add(pa[i], pb[i]), cat("vector Add index ", i));
            auto q = ECPointVectorProduct(A, s); MC_CHECK(q.size() == len, "length"); for (int i = 0; i < len; i++) eqp(q[i], prod[i], cat("vector Product index ", i));
            BigInt c = toB(Z(5)); auto t = ECPointVectorScalar(A, c); MC_CHECK(t.size() == len, "length"); for (int i = 0; i < len; i++) eqp(t[i], mul(pa[i], 5), cat("vector Scalar index ", i));
            for (int i = 0; i < len; i++) { eqp(A[i], pa[i], "vector operand"); eqp(B[i], pb[i], "vector operand"); MC_CHECK(toZ(s[i]) == z[i], "vector scalar modified"); }
            auto rv = GenRandomECPointVector(len); MC_CHECK(rv.size() == len, "random vector length"); std::set<std::string> d; for (auto& p : rv) { MC_CHECK(p.IsValid(), "random point invalid"); d.insert(p.ToByteString()); } MC_CHECK((int)d.size() == len, "repeated random points");
            mc::eval(ord, len > 0);
        }
        rt::order = 0;
        if (var == 0 && len <= 12) for (int b = 0; b <= len; b++) for (int e = b; e <= len; e++) { Pt su; for (int i = b; i < e; i++) su = add(su, prod[i]); eqp(ECPointVectorMul(A, s, b, e), su, cat("multi-scalar range ", b, "..", e)); mc::eval(cat(b, "-", e), e > b); }
    }
    // hashing to points
    std::vector<int> hl; for (int l = 0; l <= (mc::thorough() ? 120 : 50); l++) hl.push_back(l); for (int l : {127, 128, 129, 255, 256, 257, 1000, 4096, 65536, 70001}) hl.push_back(l);
    for (int len : hl) if (mc::begin(cat("hash strings of length ", len))) {
        std::vector<std::string> in; std::string s; for (int i = 0; i < len; i++) s += char(i * 37 + 11); in.push_back(s);
        for (int i = 0; i < len && i < 64; i++) { std::string t = s; t[len <= 64 ? i : (long)i * (len - 1) / 63] ^= 1 << (i % 8); in.push_back(t); }
        if (len) in.push_back(std::string(len, '\0')); 
        std::map<std::string, std::string> seen;
        for (auto& t : in) { ECPoint p = Hash::StringToECPoint(t), q = Hash::StringToECPoint(t); Pt z = rdp(p); MC_CHECK(!z.inf && oncurve(z) && p.IsValid(), "hash is not a curve point"); MC_CHECK(p == q, "hash is not deterministic"); auto k = p.ToByteString(); MC_CHECK(!seen.count(k) || seen[k] == t, "distinct strings hash to one point"); seen[k] = t; mc::eval(t); }
        Z x = toZ(Hash::StringToBigInt(s)); unsigned char md32[32]; SHA256((const unsigned char*)s.data(), s.size(), md32); Z e = 0; for (int i = 0; i < 32; i++) e = (e << 8) | md32[i]; MC_CHECK(x == e, "StringToBigInt");
    }
    for (int g = 0; g < 8; g++) if (mc::begin(cat("hash blocks group ", g))) {
        std::map<std::string, int> seen; int n = 0; auto tryb = [&](block b) { ECPoint p = Hash::BlockToECPoint(b), q = Hash::BlockToECPoint(b); Pt z = rdp(p); MC_CHECK(!z.inf && oncurve(z), "block hash is not a curve point"); MC_CHECK(p == q, "block hash is not deterministic"); MC_CHECK(!seen.count(p.ToByteString()), "distinct blocks hash to one point"); seen[p.ToByteString()] = 1; std::string k = p.ToByteString(); k[0] = 2; MC_CHECK(seen.insert({"x" + k.substr(1), 1}).second, "distinct blocks hash to opposite points"); mc::eval(n++); };
        if (g == 0) { tryb(Block::zero_block); for (int i = 0; i < 128; i++) tryb(i < 64 ? Block::MakeBlock(0, 1ULL << i) : Block::MakeBlock(1ULL << (i - 64), 0)); }
        else for (int i = 0; i < (mc::thorough() ? 4000 : 300); i++) tryb(Block::MakeBlock(g, (uint64_t)i * (g % 2 ? 1 : 0x10001)));
        // ECPoint hashing helpers
        for (int i = 1; i < 12; i++) { ECPoint p = ECPoint(generator) * BigInt((size_t)(i + 20 * g)), r = rerep(p); MC_CHECK(Hash::ECPointToString(p) == Hash::ECPointToString(r) && Hash::ECPointToBytes(p) == Hash::ECPointToBytes(r) && Block::Compare(Hash::ECPointToBlock(p), Hash::ECPointToBlock(r)), "point hash depends on representation"); auto by = Hash::ECPointToBytes(p); std::string st = Hash::ECPointToString(p); unsigned char m[32]; std::string enc = p.ToByteString(); SHA256((const unsigned char*)enc.data(), enc.size(), m); MC_CHECK(by.size() == 32 && !memcmp(by.data(), m, 32) && st == std::string((char*)m, 32), "point hash differs from the standard hash of the encoding"); block bl = Hash::ECPointToBlock(p); MC_CHECK(!memcmp(&bl, m, 16), "ECPointToBlock"); }
    }
    if (mc::begin("quadratic residues")) for (auto& z : sc) { Z r = md(z, P()); if (r == 0) continue; MC_CHECK(IsSquare(toB(md(r * r, P()))), "IsSquare of a square"); MC_CHECK(!IsSquare(toB(md(-r * r, P()))), "IsSquare of a non-residue"); mc::eval(S(z)); }
    // x25519 against the library's public interface
    for (int g = 0; g < (mc::thorough() ? 64 : 16); g++) if (mc::begin(cat("x25519 group ", g))) {
        auto rnd32 = [&](int i) { std::vector<uint8_t> k(32); mc::Rng r; r.s = mc::mix(g * 1000 + i); r.bytes(k.data(), 32); return k; };
        for (int i = 0; i < 12; i++) {
            std::vector<uint8_t> k1 = rnd32(i), k2 = rnd32(100 + i);
            if (i == 0) { k1.assign(32, 0); k1[0] = 8 + g; } if (i == 1) k1.assign(32, 0xff); if (i == 2) { k1.assign(32, 0); k1[31] = 0x40; }
            alignas(16) uint8_t x[32]; Hash::BlockToBytes(Block::MakeBlock(g, i), x, 32); EC25519Point p(x);
            EC25519Point a = p * k1, b = p * k2; MC_CHECK(a * k2 == b * k1, "x25519 action is not commutative");
            auto ref = [&](const std::vector<uint8_t>& k, const uint8_t* u) { std::vector<uint8_t> out(32, 0); EVP_PKEY* sk = EVP_PKEY_new_raw_private_key(EVP_PKEY_X25519, 0, k.data(), 32); EVP_PKEY* pk = EVP_PKEY_new_raw_public_key(EVP_PKEY_X25519, 0, u, 32); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(sk, 0); size_t l = 32; EVP_PKEY_derive_init(c); EVP_PKEY_derive_set_peer(c, pk); EVP_PKEY_derive(c, out.data(), &l); EVP_PKEY_CTX_free(c); EVP_PKEY_free(sk); EVP_PKEY_free(pk); return out; };
            auto e = ref(k1, x); MC_CHECK(!memcmp(e.data(), a.px, 32), "x25519 multiplication differs from the standard"); MC_CHECK(!memcmp(x, p.px, 32), "operand modified");
            EC25519Point c = p; c *= k1; MC_CHECK(c == a && !(c != a), "x25519 *="); EC25519Point d = a ^ b; for (int t = 0; t < 32; t++) MC_CHECK(d.px[t] == (a.px[t] ^ b.px[t]), "x25519 xor"); d ^= b; MC_CHECK(d == a, "x25519 xor twice");
            for (int t = 0; t < 32; t++) { EC25519Point f = a; f.px[t] ^= 1 << (t % 8); MC_CHECK(f != a && !(f == a), "x25519 equality ignores byte ", t); }
            MC_CHECK(a.ToByteString() == std::string((char*)a.px, 32), "x25519 byte string"); mc::eval(i);
        }
    }
    return mc::finish();
}
