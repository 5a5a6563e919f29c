// C07: ElGamal variants and Pedersen commitments.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "pke/elgamal.hpp"
#include "pke/exponential_elgamal.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "commitment/pedersen.hpp"
#include "zutil.hpp"
#include "rt.hpp"
using mc::cat; using namespace zu;
static std::vector<Z> keysv() { std::vector<Z> v{1, 2, 3, N() - 1, N() - 2, (N() + 1) / 2, Z(1) << 128, (Z(1) << 255) % N(), Z("0x3b1f0d6a5c9e8f7a1234567890abcdef0fedcba987654321aabbccddeeff0011")}; return v; }
static std::vector<Z> randv() { auto v = keysv(); v.insert(v.begin(), Z(0)); return v; }

template <class PP_, class CT_> struct Ops {
    PP_ (*setup)(size_t, size_t); void (*init)(PP_&); std::tuple<ECPoint, BigInt> (*keygen)(const PP_&);
    CT_ (*enc)(const PP_&, const ECPoint&, const BigInt&); CT_ (*encr)(const PP_&, const ECPoint&, const BigInt&, const BigInt&); BigInt (*dec)(const PP_&, const BigInt&, const CT_&);
    CT_ (*reenc)(const PP_&, const ECPoint&, const BigInt&, const CT_&, const BigInt&); CT_ (*rerand)(const PP_&, const ECPoint&, const CT_&);
    CT_ (*add)(CT_&, CT_&); CT_ (*sub)(CT_&, CT_&); CT_ (*mul)(CT_&, const BigInt&);
};
template <class PP_, class CT_, class F> void exp_scheme(const char* name, const Ops<PP_, CT_>& o, F multi)
{
    const bool T = mc::thorough(); auto K = keysv(), R = randv(); const size_t LEN = 12;
    auto mk_pp = [&](size_t L, size_t t) { PP_ pp = o.setup(L, t); o.init(pp); return pp; };
    // all messages
    for (size_t lo = 0; lo < (1u << LEN); lo += 256) if (mc::begin(cat(name, ":all:", lo))) { PP_ pp = mk_pp(LEN, 0); auto [pk, sk] = o.keygen(pp); for (size_t m = lo; m < lo + 256; m++) { CT_ c = o.enc(pp, pk, BigInt(m)); if (!MC_CHECK(toZ(o.dec(pp, sk, c)) == m, "Dec(Enc(", m, "))")) break; mc::eval(m, m > 0); if (m % 64 == 0) mc::beat(); } }
    // all keys x all randomness x boundary messages, two message lengths
    for (size_t L : {12, 13, 16}) for (size_t k = 0; k < K.size(); k++) if (mc::begin(cat(name, ":kr:", L, ":", k))) {
        PP_ pp = mk_pp(L, L == 16 ? 2 : 0); MC_CHECK(toZ(pp.MSG_SIZE) == (Z(1) << L), "MSG_SIZE"); BigInt sk = toB(K[k]); ECPoint pk = pp.g * sk; Z n = Z(1) << L; std::vector<Z> M{0, 1, 2, n / 2 - 1, n / 2, n - 2, n - 1};
        for (auto& r : R) for (auto& m : M) {
            CT_ c = o.encr(pp, pk, toB(m), toB(r)); MC_CHECK(toZ(o.dec(pp, sk, c)) == m, "Dec(Enc(", S(m), "; r=", S(r), "))"); CT_ c2 = o.encr(pp, pk, toB(m), toB(r)); MC_CHECK(c == c2, "encryption with given randomness is not a function");
            CT_ d = o.reenc(pp, pk, sk, c, toB(md(r * 3 + 1, N()))); MC_CHECK(toZ(o.dec(pp, sk, d)) == m, "ReEnc of ", S(m)); CT_ e = o.encr(pp, pk, toB(m), toB(md(r * 3 + 1, N()))); MC_CHECK(d == e, "ReEnc does not use the given randomness");
            CT_ f = o.rerand(pp, pk, c); MC_CHECK(toZ(o.dec(pp, sk, f)) == m, "ReRand of ", S(m)); MC_CHECK(!(f == c), "ReRand returns the same ciphertext"); mc::eval(cat(S(r), ".", S(m))); mc::beat();
        }
    }
    // key generation
    if (mc::begin(cat(name, ":keygen"))) { PP_ pp = mk_pp(LEN, 0); for (int i = 0; i < 40; i++) { auto [pk, sk] = o.keygen(pp); MC_CHECK(pk == pp.g * sk && toZ(sk) >= 0 && toZ(sk) < N(), "key pair"); for (int m : {0, 1, 4095, 2048}) { CT_ c = o.enc(pp, pk, BigInt(m)), c2 = o.enc(pp, pk, BigInt(m)); MC_CHECK(o.dec(pp, sk, c) == BigInt(m), "fresh key, message ", m); MC_CHECK(!(c == c2), "encryption repeats"); mc::eval(i * 4 + m); } } }
    // breadth-first over homomorphic operation sequences; the model is the plain value
    {
        std::vector<int> M{0, 1, 5, 2047, 4095}; std::vector<long> SC{0, 1, 2, 7}; int depth = T ? 4 : 3;
        for (size_t s = 0; s < M.size(); s++) for (int first = 0; first < (int)(2 * M.size() + SC.size() + 2); first++) if (mc::begin(cat(name, ":homo:", s, ":", first))) {
            PP_ pp = mk_pp(LEN, 0); auto [pk, sk] = o.keygen(pp); std::vector<CT_> base; for (int m : M) base.push_back(o.enc(pp, pk, BigInt(m)));
            struct Node { CT_ c; Z v; uint64_t h; }; std::vector<Node> front{{base[s], Z(M[s]), (uint64_t)M[s]}}; std::set<Z> seen{Z(M[s])}; int nops = 2 * M.size() + SC.size() + 2;
            for (int d = 0; d < depth; d++) {
                std::vector<Node> nx;
                for (auto& x : front) for (int op = 0; op < nops; op++) {
                    if (d == 0 && op != first) continue; Node y; int q = op;
                    if (q < (int)M.size()) { CT_ a = x.c, b = base[q]; y.c = o.add(a, b); y.v = x.v + M[q]; MC_CHECK(a == x.c && b == base[q], "operand changed"); }
                    else if ((q -= M.size()) < (int)M.size()) { CT_ a = x.c, b = base[q]; y.c = o.sub(a, b); y.v = x.v - M[q]; MC_CHECK(a == x.c && b == base[q], "operand changed"); }
                    else if ((q -= M.size()) < (int)SC.size()) { CT_ a = x.c; y.c = o.mul(a, BigInt((size_t)SC[q])); y.v = x.v * SC[q]; }
                    else if (q -= SC.size(); q == 0) { y.c = o.rerand(pp, pk, x.c); y.v = x.v; }
                    else { y.c = o.reenc(pp, pk, sk, x.c, toB(Z(12345 + d))); y.v = x.v; }
                    y.h = mc::mix(x.h * 31 + op); mc::transition();
                    if (y.v >= 0 && y.v < (1 << LEN)) { if (!MC_CHECK(toZ(o.dec(pp, sk, y.c)) == y.v, "operation sequence decrypts wrongly, expected ", S(y.v))) { d = depth; break; } mc::state(y.h ^ s); mc::trace(); mc::eval(y.h); }
                    if (d + 1 < depth && (seen.insert(y.v).second || d == 0)) nx.push_back(y); mc::beat();
                }
                front.swap(nx);
            }
        }
    }
    multi();
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
#ifndef PLAIN_ONLY
    {
        namespace E = ExponentialElGamal; Ops<E::PP, E::CT> o{E::Setup, E::Initialize, E::KeyGen, E::Enc, E::Enc, E::Dec, E::ReEnc, E::ReRand, E::HomoAdd, E::HomoSub, E::ScalarMul};
        exp_scheme<E::PP, E::CT>("exp", o, [&] {
            auto R = randv(); auto K = keysv();
            for (size_t n = 1; n <= K.size(); n++) if (mc::begin(cat("exp:multi:", n))) { auto pp = E::Setup(12, 0); E::Initialize(pp); std::vector<ECPoint> pk; for (size_t i = 0; i < n; i++) pk.push_back(pp.g * toB(K[i])); for (auto& r : R) for (int m : {0, 1, 2048, 4095}) { auto c = E::Enc(pp, pk, BigInt(m), toB(r)); MC_CHECK(c.vec_Y.size() == n, "recipients"); for (size_t i = 0; i < n && i < c.vec_Y.size(); i++) { E::CT d{c.X, c.vec_Y[i]}; MC_CHECK(E::Dec(pp, toB(K[i]), d) == BigInt(m), "recipient ", i, " of ", n, " message ", m); mc::eval(cat(i, ".", S(r), ".", m)); } mc::beat(); } }
        });
    }
    {
        namespace E = TwistedExponentialElGamal; Ops<E::PP, E::CT> o{E::Setup, E::Initialize, E::KeyGen, E::Enc, E::Enc, E::Dec, E::ReEnc, E::ReRand, E::HomoAdd, E::HomoSub, E::ScalarMul};
        exp_scheme<E::PP, E::CT>("twisted", o, [&] {
            auto R = randv(); auto K = keysv();
            for (size_t n = 1; n <= K.size(); n++) if (mc::begin(cat("twisted:multi:", n))) { auto pp = E::Setup(12, 0); E::Initialize(pp); std::vector<ECPoint> pk; for (size_t i = 0; i < n; i++) pk.push_back(pp.g * toB(K[i])); for (auto& r : R) for (int m : {0, 1, 2048, 4095}) { auto c = E::Enc(pp, pk, BigInt(m), toB(r)); MC_CHECK(c.vec_X.size() == n, "recipients"); for (size_t i = 0; i < n && i < c.vec_X.size(); i++) { E::CT d{c.vec_X[i], c.Y}; MC_CHECK(E::Dec(pp, toB(K[i]), d) == BigInt(m), "recipient ", i, " of ", n, " message ", m); mc::eval(cat(i, ".", S(r), ".", m)); } mc::beat(); } }
            for (size_t k = 0; k < K.size(); k++) if (mc::begin(cat("twisted:point:", k))) { auto pp = E::Setup(12, 0); BigInt sk = toB(K[k]); ECPoint pk = pp.g * sk; for (auto& r : R) for (int a : {0, 1, 2, -1, 77}) { Pt P = mul(rdp(ECPoint(generator)), Z(a)); auto c = E::Enc(pp, pk, mk(P), toB(r)); MC_CHECK(rdp(E::DecECPoint(pp, sk, c)) == P, "group-element message ", a); mc::eval(cat(S(r), ".", a)); } }
            if (mc::begin("twisted:setup")) { auto a = E::Setup(12, 0), b = E::Setup(20, 1); MC_CHECK(a.g == b.g && a.h == b.h && a.g != a.h && a.h.IsValid(), "generators are not the fixed independent ones"); mc::eval(1); }
        });
    }
    // ---- Pedersen: opens to exactly the committed vector, additively homomorphic
    std::vector<size_t> pn; for (size_t n = 1; n <= (T ? 24u : 12u); n++) pn.push_back(n); for (size_t n : {31, 33, 64, 65, 129, 257}) pn.push_back(n);
    for (size_t n : pn) if (mc::begin(cat("pedersen:", n))) {
        auto pp = Pedersen::Setup(n); MC_CHECK(pp.vec_h.size() == n, "generators"); std::set<std::string> hs; for (auto& h : pp.vec_h) { MC_CHECK(h.IsValid() && h != pp.g, "generator"); hs.insert(h.ToByteString()); } MC_CHECK(hs.size() == n, "generators repeat"); auto R = randv();
        for (size_t len = 0; len <= n; len++) for (size_t q = 0; q < 3; q++) { if (n > 24 && len > 1 && len + 2 < n && len % 31) continue; std::vector<BigInt> m, m2, s; for (size_t i = 0; i < len; i++) { Z a = R[(i * 3 + q) % R.size()], b = R[(i + 2 * q + 1) % R.size()]; m.push_back(toB(a)); m2.push_back(toB(b)); s.push_back(toB(md(a + b, N()))); } Z r = R[(len + q) % R.size()], r2 = R[(len + 2 * q + 3) % R.size()];
            ECPoint c = Pedersen::Commit(pp, m, toB(r)); Pt e = mul(rdp(pp.g), r); for (size_t i = 0; i < len; i++) e = add(e, mul(rdp(pp.vec_h[i]), toZ(m[i]))); MC_CHECK(rdp(c) == e, "commitment to ", len, " messages"); ECPoint c2 = Pedersen::Commit(pp, m2, toB(r2)), c3 = Pedersen::Commit(pp, s, toB(md(r + r2, N()))); MC_CHECK(c + c2 == c3, "commitments do not add"); mc::eval(len * 3 + q, len > 0); }
    }
#endif
    // ---- ElGamal over group elements
#ifdef ENABLE_X25519_ACCELERATION
    {
        auto arr = [](int k) { std::vector<uint8_t> v(32); mc::Rng r; r.s = 1000 + k; r.bytes(v.data(), 32); if (k == 0) { std::fill(v.begin(), v.end(), 0); v[0] = 8; } if (k == 1) std::fill(v.begin(), v.end(), 0xff); return v; };
        for (int k = 0; k < (T ? 60 : 20); k++) if (mc::begin(cat("elgamal25519:", k))) { auto pp = ElGamal::Setup(), pp2 = ElGamal::Setup(); MC_CHECK(pp.g == pp2.g, "Setup is not fixed"); auto sk = arr(k); EC25519Point pk = pp.g * sk; auto kp = ElGamal::KeyGen(pp); MC_CHECK(std::get<0>(kp) == pp.g * std::get<1>(kp), "key pair");
            for (int m = 0; m < 10; m++) for (int ord = 0; ord < 3; ord++) { rt::order = ord; EC25519Point M(arr(m + (m > 1 ? 50 : 0)).data()); if (m == 0) memset(M.px, 0, 32); auto c = ElGamal::Enc(pp, pk, M); MC_CHECK(ElGamal::Dec(pp, sk, c) == M, "x25519 ElGamal message ", m); auto c1 = ElGamal::Enc(pp, std::get<0>(kp), M); MC_CHECK(ElGamal::Dec(pp, std::get<1>(kp), c1) == M, "x25519 ElGamal with a generated key"); for (int r = 0; r < 6; r++) { auto c2 = ElGamal::Enc(pp, pk, M, arr(r + (r > 1 ? 90 : 0))); MC_CHECK(ElGamal::Dec(pp, sk, c2) == M, "x25519 ElGamal with given randomness"); mc::eval(cat(m, ".", r, ".", ord)); } rt::order = 0; } }
    }
#else
    {
        auto K = keysv(), R = randv(); Pt G = rdp(ECPoint(generator));
        for (size_t k = 0; k < K.size(); k++) if (mc::begin(cat("elgamal:", k))) { auto pp = ElGamal::Setup(); BigInt sk = toB(K[k]); ECPoint pk = pp.g * sk; auto [gpk, gsk] = ElGamal::KeyGen(pp); MC_CHECK(gpk == pp.g * gsk, "key pair");
            for (int a : {0, 1, 2, -1, 1234567}) { ECPoint M = mk(mul(G, Z(a))); auto c = ElGamal::Enc(pp, pk, M); MC_CHECK(ElGamal::Dec(pp, sk, c) == M, "message ", a, "G"); auto c0 = ElGamal::Enc(pp, gpk, M); MC_CHECK(ElGamal::Dec(pp, gsk, c0) == M, "generated key, message ", a, "G");
                for (auto& r : R) { auto c1 = ElGamal::Enc(pp, pk, M, toB(r)); MC_CHECK(ElGamal::Dec(pp, sk, c1) == M, "message ", a, "G randomness ", S(r)); auto c2 = ElGamal::ReRand(pp, pk, c1); MC_CHECK(ElGamal::Dec(pp, sk, c2) == M && !(c2 == c1), "re-randomised message ", a, "G"); auto by = ElGamal::CTtoByteArray(c2); auto c3 = ElGamal::ByteArraytoCT(by); MC_CHECK(c3 == c2, "byte array round trip"); mc::eval(cat(a, ".", S(r))); } } }
    }
#endif
    return mc::finish();
}
