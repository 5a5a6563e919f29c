// C10: Schnorr signatures and accountable ring signatures.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "signature/schnorr.hpp"
#include "signature/accountable_ring_sig.hpp"
#include "zutil.hpp"
#include "subst.hpp"
using mc::cat; using namespace zu; using subst::comps;
namespace A = AccountableRingSig; namespace TE = TwistedExponentialElGamal; namespace ER = EncRelation;
static ECPoint G(long k) { return mk(mul(rdp(ECPoint(generator)), md(Z(k), N()))); }
static Z rz() { Z z = 0; for (int i = 0; i < 4; i++) z = (z << 64) + mc::rng().next(); return md(z, N()); }
static BigInt q(const Z& z) { return toB(md(z, N())); }
static std::string msg(size_t n, int k = 0) { std::string s; for (size_t i = 0; i < n; i++) s += char(mc::mix(i * 7 + n * 1000 + k * 77777) & 255); return s; }

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    std::vector<Z> K{1, 2, 3, N() - 1, N() - 2, Z(1) << 128, Z(1) << 255, Z("0x3b1f0d6a5c9e8f7a1234567890abcdef0fedcba987654321aabbccddeeff0011")};
    { // ------------------------------------------------------------ Schnorr
        auto ver = [](Schnorr::PP pp, ECPoint pk, std::string m, Schnorr::SIG s) { mc::transition(); return Schnorr::Verify(pp, pk, m, s); };
        for (size_t L = 0; L <= (T ? 260u : 80u); L++) if (mc::begin(cat("schnorr:len:", L))) {
            auto pp = Schnorr::Setup(); auto kp = Schnorr::KeyGen(pp); ECPoint pk = std::get<0>(kp); BigInt sk = std::get<1>(kp); MC_CHECK(pk == pp.g * sk, "key pair"); std::string m = msg(L); auto s = Schnorr::Sign(pp, sk, m);
            MC_CHECK(ver(pp, pk, m, s) && ver(pp, pk, m, s), "own signature rejected, message length ", L); mc::eval("ok");
            for (size_t i = 0; i < L; i++) for (int b = 0; b < (T ? 8 : 3); b++) { std::string x = m; x[i] ^= 1 << (T ? b : b == 0 ? 0 : b == 1 ? 7 : 4); MC_CHECK(!ver(pp, pk, x, s), "accepted for a message differing at byte ", i, " of ", L); mc::eval(cat("b", i, ".", b)); }
            for (int k = 0; k < 6; k++) { std::string x = m; if (k == 0) x += '\0'; if (k == 1) x += 'a'; if (k == 2) { if (!L) continue; x.pop_back(); } if (k == 3) { if (!L) continue; x = x.substr(1); } if (k == 4) x = std::string(1, 0) + x; if (k == 5) { x += x; if (!L) continue; } MC_CHECK(!ver(pp, pk, x, s), "accepted for an extended or shortened message (", k, ") of length ", L); mc::eval(cat("e", k)); }
            for (size_t i = 0; i + 1 < L; i++) { std::string x = m; std::swap(x[i], x[i + 1]); if (x == m) continue; MC_CHECK(!ver(pp, pk, x, s), "accepted for a message with bytes ", i, " swapped"); }
            auto s2 = Schnorr::Sign(pp, sk, m); MC_CHECK(s2.A != s.A, "signature randomness repeats"); MC_CHECK(ver(pp, pk, m, s2), "second signature rejected"); { auto x = s; x.z = s2.z; MC_CHECK(!ver(pp, pk, m, x), "mixed signatures accepted"); } mc::beat();
        }
        for (size_t L : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096, 65535, 65536, 70001}) if (mc::begin(cat("schnorr:long:", L))) {
            auto pp = Schnorr::Setup(); auto kp = Schnorr::KeyGen(pp); ECPoint pk = std::get<0>(kp); BigInt sk = std::get<1>(kp); std::string m = msg(L); auto s = Schnorr::Sign(pp, sk, m); MC_CHECK(ver(pp, pk, m, s), "own signature rejected, message length ", L); mc::eval("ok");
            for (size_t k = 0; k < 130; k++) { size_t i = k < 33 ? k : k < 66 ? L - 1 - (k - 33) : (k - 65) * (L - 1) / 65; std::string x = m; x[i] ^= 1 << (k & 7); MC_CHECK(!ver(pp, pk, x, s), "accepted for a message differing at byte ", i, " of ", L); mc::eval(cat("b", k)); }
            for (std::string x : {m + '\0', m + "a", m.substr(1), m.substr(0, L - 1), m.substr(0, L / 2), m + m}) { MC_CHECK(!ver(pp, pk, x, s), "accepted for an extended or shortened message of length ", L); mc::eval(cat("e", x.size())); }
        }
        for (size_t k = 0; k < K.size(); k++) for (size_t L : {0, 1, 32, 55, 64, 65, 200}) if (mc::begin(cat("schnorr:key:", k, ":", L))) {
            auto pp = Schnorr::Setup(); BigInt sk = q(K[k]); ECPoint pk = pp.g * sk; std::string m = msg(L, 1); auto s = Schnorr::Sign(pp, sk, m); MC_CHECK(ver(pp, pk, m, s), "own signature rejected for key ", S(K[k])); mc::eval("ok");
            struct I { ECPoint pk; }; I in{pk}; subst::each([](comps& c, Schnorr::PP& a, I& i, Schnorr::SIG& s) { c.pt("g", a.g); c.pt("pk", i.pk); c.pt("A", s.A); c.sc("z", s.z); }, pp, in, s, [&](Schnorr::PP& a, I& i, Schnorr::SIG& x, const std::string& what) { mc::eval(what); return MC_CHECK(!ver(a, i.pk, m, x), "signature accepted after change: ", what); });
            for (size_t j = 0; j < K.size(); j++) if (j != k) { MC_CHECK(!ver(pp, pp.g * q(K[j]), m, s), "accepted under another key"); auto w = Schnorr::Sign(pp, q(K[j]), m); MC_CHECK(!ver(pp, pk, m, w), "signature by another key accepted"); mc::eval(cat("k", j)); }
            // forgery without the key: the commitment solved after the challenge; nonce reuse across messages does not help the verifier
            Schnorr::SIG f; f.A = G(17); f.z = q(99); BigInt e = Hash::StringToBigInt(f.A.ToByteString() + m); f.A = pp.g * f.z - pk * e; MC_CHECK(!ver(pp, pk, m, f), "signature simulated without the key accepted"); BigInt e0 = Hash::StringToBigInt(m); f.A = pp.g * f.z - pk * e0; MC_CHECK(!ver(pp, pk, m, f), "challenge independent of the commitment"); mc::eval("sim");
            // with a fixed commitment and the challenge of another message
            Schnorr::SIG h; Z r = rz(); h.A = pp.g * q(r); h.z = q(r); MC_CHECK(!ver(pp, pk, m, h), "challenge zero accepted"); mc::eval("r");
            for (Z zz : {Z(0), Z(1)}) { ECPoint o; o.SetInfinity(); Schnorr::SIG w; w.A = o; w.z = q(zz); MC_CHECK(!ver(pp, pk, m, w), "trivial signature accepted"); } mc::beat();
        }
    }
    // ------------------------------------------------------------ accountable ring signatures
    auto ver = [](A::PP pp, std::vector<ECPoint> R, std::string m, A::Signature s) { mc::transition(); return A::Verify(pp, R, m, s); };
    struct Env { A::PP pp; A::SP sp; std::vector<ECPoint> R; std::vector<BigInt> sk; };
    auto mkenv = [&](size_t n, bool extremes) { Env e; std::tie(e.pp, e.sp) = A::Setup(std::max<size_t>(n, 4) * 2); for (size_t i = 0; i < n; i++) { BigInt sk; ECPoint vk; if (extremes && i < K.size()) { sk = q(K[i]); vk = e.pp.enc_part.g * sk; } else std::tie(vk, sk) = A::KeyGen(e.pp); e.R.push_back(vk); e.sk.push_back(sk); } return e; };
    for (size_t n : T ? std::vector<size_t>{2, 4, 8, 16, 32} : std::vector<size_t>{2, 4, 8, 16}) for (size_t l = 0; l < n; l++) for (int x = 0; x < 2; x++) if (mc::begin(cat("ring:", n, ":", l, ":", x))) {
        Env e = mkenv(n, x); for (size_t L : {0, 1, 40, 64, 200}) { if (n >= 8 && L != 1 && L != 64) continue; std::string m = msg(L, 2); auto s = A::Sign(e.pp, e.sk[l], e.R, m); MC_CHECK(ver(e.pp, e.R, m, s) && ver(e.pp, e.R, m, s), "ring signature of member ", l, " of ", n, " rejected"); mc::eval(cat("ok", L));
            auto [vk, pr] = A::Open(e.pp, e.sp, e.R, s); MC_CHECK(vk == e.R[l], "opening names another member than the signer ", l); MC_CHECK(A::Justify(e.pp, e.R, s, vk, pr), "correct opening not justified"); mc::eval(cat("open", L));
            for (size_t j = 0; j < n; j++) if (j != l) { auto p2 = pr; MC_CHECK(!A::Justify(e.pp, e.R, s, e.R[j], p2), "opening accuses member ", j, " instead of ", l); mc::eval(cat("acc", j, ".", L)); }
            for (size_t i = 0; i < L; i += (n <= 4 ? 1 : 9)) { std::string y = m; y[i] ^= 1 << (i & 7); MC_CHECK(!ver(e.pp, e.R, y, s), "accepted for a message differing at byte ", i); mc::eval(cat("m", i, ".", L)); } MC_CHECK(!ver(e.pp, e.R, m + "\0", s) || m + "\0" == m, "extended"); MC_CHECK(!ver(e.pp, e.R, m + "a", s), "accepted for an extended message"); if (L) MC_CHECK(!ver(e.pp, e.R, m.substr(0, L - 1), s), "accepted for a shortened message");
            for (size_t j = 0; j < n; j++) { auto R2 = e.R; R2[j] = R2[j] + G(1); MC_CHECK(!ver(e.pp, R2, m, s), "accepted for another ring (member ", j, ")"); if (j + 1 < n) { R2 = e.R; std::swap(R2[j], R2[j + 1]); MC_CHECK(!ver(e.pp, R2, m, s), "accepted for a permuted ring"); } mc::eval(cat("ring", j, ".", L)); mc::beat(); } }
    }
    for (size_t n : T ? std::vector<size_t>{64, 128} : std::vector<size_t>{32, 64}) for (size_t l : {size_t(0), n / 2 + 1, n - 1}) if (mc::begin(cat("ring:big:", n, ":", l))) {
        Env e = mkenv(n, false); for (size_t L : {300, 70001}) { std::string m = msg(L, 3); auto s = A::Sign(e.pp, e.sk[l], e.R, m); MC_CHECK(ver(e.pp, e.R, m, s), "ring signature of member ", l, " of ", n, " rejected"); mc::beat(); auto [vk, pr] = A::Open(e.pp, e.sp, e.R, s); MC_CHECK(vk == e.R[l], "opening names another member than the signer ", l); MC_CHECK(A::Justify(e.pp, e.R, s, vk, pr), "correct opening not justified"); auto p2 = pr; MC_CHECK(!A::Justify(e.pp, e.R, s, e.R[(l + 1) % n], p2), "opening accuses another member");
            for (size_t i : {size_t(0), size_t(255), L - 1}) { std::string y = m; y[i] ^= 1; MC_CHECK(!ver(e.pp, e.R, y, s), "accepted for a message differing at byte ", i); mc::beat(); } auto R2 = e.R; R2[n - 1] = R2[n - 1] + G(1); MC_CHECK(!ver(e.pp, R2, m, s), "accepted for another ring"); mc::eval(cat("big", L)); mc::beat(); } }
    for (size_t n : {2, 4}) for (size_t l = 0; l < n; l += (n == 2 ? 1 : 3)) if (mc::begin(cat("ring:subst:", n, ":", l))) {
        Env e = mkenv(n, false); std::string m = "message"; auto s = A::Sign(e.pp, e.sk[l], e.R, m); struct I { std::vector<ECPoint> R; }; I in{e.R};
        auto cs = [](comps& c, A::PP& a, I& i, A::Signature& s) { c.pt("ek", a.ek); c.pt("enc.g", a.enc_part.g); c.pt("enc.h", a.enc_part.h); c.pt("com.g", a.com_part.g); for (size_t k = 0; k < i.R.size(); k++) c.pt(cat("vk", k), i.R[k]); c.pt("ct_vk.X", s.ct_vk.X); c.pt("ct_vk.Y", s.ct_vk.Y); c.pt("ct_s.X", s.ct_s.X); c.pt("ct_s.Y", s.ct_s.Y); c.sc("z_s", s.z_s); c.sc("z_t", s.z_t); auto& p = s.correct_encryption_proof; c.pt("A", p.A); c.pt("B", p.B); c.pt("C", p.C); c.pt("D", p.D); for (size_t k = 0; k < p.vec_G.size(); k++) { c.pt(cat("G", k, ".X"), p.vec_G[k].X); c.pt(cat("G", k, ".Y"), p.vec_G[k].Y); } c.sc("z", p.z); c.sc("zA", p.zA); c.sc("zC", p.zC); for (size_t k = 0; k < p.vec_f.size(); k++) c.sc(cat("f", k), p.vec_f[k]); };
        // enc.h is not used when the message is a group element
        subst::each(cs, e.pp, in, s, [&](A::PP& a, I& i, A::Signature& x, const std::string& what) { if (what.find("enc.h") != std::string::npos) return true; bool acc = ver(a, i.R, m, x); mc::eval(what); mc::beat(); return MC_CHECK(!acc, "ring signature accepted after change: ", what); });
        auto [vk, pr] = A::Open(e.pp, e.sp, e.R, s); struct J { ECPoint vk; A::Signature s; }; J jn{vk, s};
        subst::each([](comps& c, A::PP& a, J& j, DLOGEquality::Proof& p) { c.pt("ek", a.ek); c.pt("vk", j.vk); c.pt("ct_vk.X", j.s.ct_vk.X); c.pt("ct_vk.Y", j.s.ct_vk.Y); c.pt("A1", p.A1); c.pt("A2", p.A2); c.sc("z", p.z); }, e.pp, jn, pr, [&](A::PP& a, J& j, DLOGEquality::Proof& p, const std::string& what) { mc::eval("J" + what); return MC_CHECK(!A::Justify(a, e.R, j.s, j.vk, p), "opening justified after change: ", what); });
    }
    // a non-member, and adversaries without any key
    for (size_t n : {2, 4, 8}) if (mc::begin(cat("ring:forge:", n))) {
        Env e = mkenv(n, false), other = mkenv(1, false); std::string m = "target"; auto bad = A::Sign(e.pp, other.sk[0], e.R, m); MC_CHECK(!ver(e.pp, e.R, m, bad), "signature by a key outside the ring accepted"); mc::eval("outsider");
        auto xof = [&](A::Signature s, bool* ok = nullptr) { std::vector<TE::CT> v(n); for (size_t i = 0; i < n; i++) { v[i] = TE::Enc(e.pp.enc_part, e.pp.ek, e.R[i], bn_0); v[i] = TE::HomoSub(s.ct_vk, v[i]); } auto np = ER::Setup(e.pp.com_part, e.pp.enc_part, 2); ER::Instance in; in.ek = e.pp.ek; in.vec_CT = v; std::string t = m + s.ct_vk.X.ToByteString() + s.ct_vk.Y.ToByteString() + s.ct_s.X.ToByteString() + s.ct_s.Y.ToByteString(); auto pr = s.correct_encryption_proof; bool o = ER::Verify(np, in, t, pr); if (ok) *ok = o; return Hash::StringToBigInt(t); };
        { auto hon = A::Sign(e.pp, e.sk[0], e.R, m); bool ok; xof(hon, &ok); mc::note(ok ? "adversary's transcript aligned" : "adversary's transcript not aligned"); }
        for (size_t l = 0; l < n; l++) for (int how = 0; how < 4; how++) {   // accuse member l without its key
            A::Signature s; BigInt r = q(rz()), t = q(rz()); s.ct_vk = TE::Enc(e.pp.enc_part, e.pp.ek, e.R[l], r); s.ct_s = TE::Enc(e.pp.enc_part, e.pp.ek, G(5), t); s.z_s = q(rz()); s.z_t = q(rz());
            std::vector<TE::CT> v(n); for (size_t i = 0; i < n; i++) { v[i] = TE::Enc(e.pp.enc_part, e.pp.ek, e.R[i], bn_0); v[i] = TE::HomoSub(s.ct_vk, v[i]); } auto np = ER::Setup(e.pp.com_part, e.pp.enc_part, 2); ER::Instance in; in.ek = e.pp.ek; in.vec_CT = v; ER::Witness w; w.l = l; w.r = r;
            for (int pass = 0; pass < 2; pass++) { std::string tr = m; if (how != 1) tr += s.ct_vk.X.ToByteString() + s.ct_vk.Y.ToByteString(); if (how != 2 && how != 1) tr += s.ct_s.X.ToByteString() + s.ct_s.Y.ToByteString(); s.correct_encryption_proof = ER::Prove(np, in, w, tr); BigInt x = Hash::StringToBigInt(tr);
                A::Signature f = s; TE::CT want = TE::Enc(e.pp.enc_part, e.pp.ek, e.pp.enc_part.g * s.z_s, s.z_t), sc = TE::ScalarMul(s.ct_vk, x); f.ct_s = TE::HomoSub(want, sc); MC_CHECK(!ver(e.pp, e.R, m, f), "member ", l, " framed without its key (ct_s chosen after the challenge, ", how, ")"); mc::eval(cat("frame", l, how, pass));
                A::Signature g = s; TE::CT d = TE::HomoSub(want, s.ct_s); BigInt xi = x.ModInverse(BigInt(order)); g.ct_vk = TE::ScalarMul(d, xi); MC_CHECK(!ver(e.pp, e.R, m, g), "ct_vk chosen after the challenge accepted"); mc::eval(cat("fvk", l, how, pass)); } mc::beat();
        }
        // signer l hides behind an encryption of another key
        for (size_t l = 0; l < n; l++) { std::vector<ECPoint> R2 = e.R; A::Signature s = A::Sign(e.pp, e.sk[l], e.R, m); BigInt r2 = q(rz()); for (size_t j = 0; j < n; j++) if (j != l) { A::Signature f = s; f.ct_vk = TE::Enc(e.pp.enc_part, e.pp.ek, e.R[j], r2); MC_CHECK(!ver(e.pp, e.R, m, f), "signature of ", l, " that opens to ", j, " accepted"); A::Signature o = A::Sign(e.pp, e.sk[j], e.R, m); A::Signature h = s; h.ct_vk = o.ct_vk; h.correct_encryption_proof = o.correct_encryption_proof; MC_CHECK(!ver(e.pp, e.R, m, h), "mixed signature accepted"); h = s; h.ct_s = o.ct_s; h.z_s = o.z_s; h.z_t = o.z_t; MC_CHECK(!ver(e.pp, e.R, m, h), "mixed signature accepted"); mc::eval(cat("hide", l, ".", j)); } mc::beat(); }
    }
    return mc::finish();
}
