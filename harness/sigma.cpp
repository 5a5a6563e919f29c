// C08: sigma-protocol NIZKs.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "zkp/nizk/nizk_dlog_knowledge.hpp"
#include "zkp/nizk/nizk_dlog_equality.hpp"
#include "zkp/nizk/nizk_plaintext_knowledge.hpp"
#include "zkp/nizk/nizk_plaintext_equality.hpp"
#include "zkp/nizk/nizk_enc_relation.hpp"
#include "zutil.hpp"
#include "subst.hpp"
using mc::cat; using namespace zu;
namespace TE = TwistedExponentialElGamal;
static std::vector<Z> wit() { return {0, 1, 2, 3, N() - 1, N() - 2, (N() + 1) / 2, Z(1) << 128, (Z(1) << 255) % N(), Z("0x3b1f0d6a5c9e8f7a1234567890abcdef0fedcba987654321aabbccddeeff0011")}; }
static std::vector<std::string> ctxs() { return {"", "x", std::string(1, 0), "a longer context string that spans more than one block of the hash function.", std::string(200, ' ')}; }
static ECPoint G(long k) { return mk(mul(rdp(ECPoint(generator)), md(Z(k), N()))); }
static BigInt inv(const BigInt& e) { BigInt x = e; return x.ModInverse(BigInt(order)); }

// One protocol, one (pp, instance, witness).  PV must be default-copyable.
template <class PPX, class I, class W, class P, class PF, class VF, class C>
bool battery(PPX pp, I inst, W w, PF prove, VF verify, C comps, const std::vector<std::string>& ctx, bool full, bool degenerate = false)
{
    for (auto& c : ctx) {
        std::string t1 = c; PPX p0 = pp; I i0 = inst; W w0 = w; P pr = prove(p0, i0, w0, t1);
        std::string t2 = c; P q = pr; bool ok = verify(p0, i0, t2, q);
        if (!MC_CHECK(ok, "honest proof of a true statement rejected (context length ", c.size(), ")")) return false;
        MC_CHECK(t1 == t2, "prover and verifier leave different transcripts");
        std::string t3 = c; MC_CHECK(verify(p0, i0, t3, q), "verifying the same proof a second time rejects"); mc::eval(cat("ok", c.size()));
        // an all-zero witness makes the response independent of the challenge: any context is then fine
        if (!degenerate) for (auto& d : ctx) if (d != c) { std::string t = d; P x = pr; MC_CHECK(!verify(p0, i0, t, x), "accepted under another transcript context"); mc::eval(cat("ctx", d.size())); }
        if (!degenerate) { std::string t = c + "x"; P x = pr; MC_CHECK(!verify(p0, i0, t, x), "accepted under an extended context"); }
        if (!full) continue;
        // every single-component substitution and every swap
        subst::each(comps, pp, inst, pr, [&](PPX& a, I& b, P& d, const std::string& what) { std::string t = c; bool acc = verify(a, b, t, d); mc::eval(what); mc::transition(); return MC_CHECK(!acc, "accepted after change: ", what); });
        mc::beat(); full = false;
    }
    return true;
}
template <class PPX, class I, class W, class PF, class VF> void wrong(PPX pp, I inst, W w, PF prove, VF verify, const std::string& what)
{ std::string t = "c"; auto p = prove(pp, inst, w, t); std::string u = "c"; MC_CHECK(!verify(pp, inst, u, p), "proof made with a wrong witness accepted: ", what); mc::eval("w" + what); }
// challenge the verifier derives for a draft proof
template <class PPX, class I, class P, class VF> BigInt chal(PPX pp, I i, P p, VF verify, const std::string& c) { std::string t = c; verify(pp, i, t, p); return Hash::StringToBigInt(t); }

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough(); auto Wv = wit(); auto CX = ctxs(); using subst::comps;
    { // ------------------------------------------------------------ knowledge of a discrete logarithm
        namespace D = DLOGKnowledge; auto pp = D::Setup();
        auto cs = [](comps& c, D::PP&, D::Instance& i, D::Proof& p) { c.pt("g", i.g); c.pt("h", i.h); c.pt("A", p.A); c.sc("z", p.z); };
        for (size_t w = 0; w < Wv.size(); w++) for (long b : {1, 2, -3}) if (mc::begin(cat("dlogk:", w, ":", b))) {
            D::Instance in; in.g = G(b); in.h = in.g * toB(Wv[w]); D::Witness wi{toB(Wv[w])}; battery<D::PP, D::Instance, D::Witness, D::Proof>(pp, in, wi, D::Prove, D::Verify, cs, CX, true, Wv[w] == 0);
            for (size_t v = 0; v < Wv.size(); v++) if (v != w) wrong(pp, in, D::Witness{toB(Wv[v])}, D::Prove, D::Verify, cat(v)); for (int d : {-1, 1}) wrong(pp, in, D::Witness{toB(md(Wv[w] + d, N()))}, D::Prove, D::Verify, cat("d", d));
            for (int k = Wv[w] == 0; k < 2; k++) { D::Proof f; f.A = G(17); f.z = toB(Z(99)); BigInt e = chal(pp, in, f, D::Verify, "c"); D::Instance j = in; if (k == 0) f.A = in.g * f.z - in.h * e; else j.h = (in.g * f.z - f.A) * inv(e); std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "proof simulated without a witness accepted (solved for ", k ? "h" : "A", ")"); mc::eval(cat("f", k)); }
        }
        // A kept, the base solved after the challenge
        for (size_t w = 1; w < Wv.size(); w++) if (mc::begin(cat("dlogk:base:", w))) { D::Instance in; in.g = G(3); in.h = in.g * toB(Wv[w]); D::Proof f; f.A = G(17); f.z = toB(Z(99)); BigInt e = chal(pp, in, f, D::Verify, "c"); D::Instance j = in; j.g = (f.A + in.h * e) * inv(f.z); std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "base chosen after the challenge accepted"); mc::eval(1); }
        if (mc::begin("dlogk:bytes")) { D::Proof a; a.A = G(3); a.z = toB(N() - 5); auto s = D::ProofToByteString(a); for (int k = 0; k < 2; k++) { D::Proof b = a; if (k) b.z = toB(N() - 6); else b.A = G(4); MC_CHECK(D::ProofToByteString(b) != s, "byte string ignores component ", k); mc::eval(k); } }
    }
    { // ------------------------------------------------------------ equality of discrete logarithms
        namespace D = DLOGEquality; auto pp = D::Setup();
        auto cs = [](comps& c, D::PP&, D::Instance& i, D::Proof& p) { c.pt("g1", i.g1); c.pt("h1", i.h1); c.pt("g2", i.g2); c.pt("h2", i.h2); c.pt("A1", p.A1); c.pt("A2", p.A2); c.sc("z", p.z); };
        for (size_t w = 0; w < Wv.size(); w++) for (long b : {2, -3}) if (mc::begin(cat("dlogeq:", w, ":", b))) {
            D::Instance in; in.g1 = G(1); in.g2 = G(b); in.h1 = in.g1 * toB(Wv[w]); in.h2 = in.g2 * toB(Wv[w]); D::Witness wi{toB(Wv[w])}; battery<D::PP, D::Instance, D::Witness, D::Proof>(pp, in, wi, D::Prove, D::Verify, cs, CX, true, Wv[w] == 0);
            for (size_t v = 0; v < Wv.size(); v++) if (v != w) { wrong(pp, in, D::Witness{toB(Wv[v])}, D::Prove, D::Verify, cat(v)); for (int side = 0; side < 2; side++) { D::Instance j = in; (side ? j.h2 : j.h1) = (side ? in.g2 : in.g1) * toB(Wv[v]); for (auto& x : {Wv[w], Wv[v]}) wrong(pp, j, D::Witness{toB(x)}, D::Prove, D::Verify, cat("unequal", v, ".", side)); } }
            for (int k = 0; k < 4; k++) { D::Instance j = in; j.h2 = in.h2 + G(1); D::Proof f; f.A1 = G(17); f.A2 = G(23); f.z = toB(Z(99)); BigInt e = chal(pp, j, f, D::Verify, "c"); if (k & 1) j.h1 = (j.g1 * f.z - f.A1) * inv(e); else f.A1 = j.g1 * f.z - j.h1 * e; if (k & 2) j.h2 = (j.g2 * f.z - f.A2) * inv(e); else f.A2 = j.g2 * f.z - j.h2 * e; std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "simulated proof of a false statement accepted (", k, ")"); mc::eval(cat("f", k)); }
        }
        // each equation either run honestly with a known exponent or solved for one of its components after the challenge
        for (size_t w = 1; w < Wv.size(); w++) for (int c1 = 0; c1 < 4; c1++) for (int c2 = 0; c2 < 4; c2++) if ((c1 || c2) && mc::begin(cat("dlogeq:mixed:", w, ":", c1, c2))) {
            BigInt W = toB(Wv[w]), a = toB(Z(4242)); D::Instance j; j.g1 = G(1); j.g2 = G(5); j.h1 = j.g1 * W; j.h2 = j.g2 * W; if (c1) j.h1 = j.h1 + G(1); if (c2) j.h2 = j.h2 + G(2); D::Proof f; f.A1 = c1 ? G(17) : j.g1 * a; f.A2 = c2 ? G(23) : j.g2 * a; f.z = bn_1;
            BigInt e = chal(pp, j, f, D::Verify, "c"); f.z = (a + e * W) % order; BigInt zi = inv(f.z), ei = inv(e);
            if (c1 == 1) f.A1 = j.g1 * f.z - j.h1 * e; if (c1 == 2) j.h1 = (j.g1 * f.z - f.A1) * ei; if (c1 == 3) j.g1 = (f.A1 + j.h1 * e) * zi; if (c2 == 1) f.A2 = j.g2 * f.z - j.h2 * e; if (c2 == 2) j.h2 = (j.g2 * f.z - f.A2) * ei; if (c2 == 3) j.g2 = (f.A2 + j.h2 * e) * zi;
            std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "false statement accepted: components chosen after the challenge (", c1, ",", c2, ")"); mc::eval(1); mc::transition(); }
        if (mc::begin("dlogeq:bytes")) { D::Proof a; a.A1 = G(3); a.A2 = G(5); a.z = toB(N() - 5); auto s = D::ProofToByteString(a); for (int k = 0; k < 3; k++) { D::Proof b = a; if (k == 0) b.A1 = G(4); if (k == 1) b.A2 = G(4); if (k == 2) b.z = toB(N() - 6); MC_CHECK(D::ProofToByteString(b) != s, "byte string ignores component ", k); mc::eval(k); } }
    }
    TE::PP enc = TE::Setup(32, 7);
    { // ------------------------------------------------------------ knowledge of the plaintext
        namespace D = PlaintextKnowledge; auto pp = D::Setup(enc);
        auto cs = [](comps& c, D::PP& q, D::Instance& i, D::Proof& p) { c.pt("pp.g", q.g); c.pt("pp.h", q.h); c.pt("pk", i.pk); c.pt("X", i.ct.X); c.pt("Y", i.ct.Y); c.pt("A", p.A); c.pt("B", p.B); c.sc("z1", p.z1); c.sc("z2", p.z2); };
        for (size_t r = 0; r < Wv.size(); r++) for (size_t v = 0; v < Wv.size(); v += (T ? 1 : 2)) if (mc::begin(cat("ptk:", r, ":", v))) {
            D::Instance in; in.pk = G(7); in.ct = TE::Enc(enc, in.pk, toB(Wv[v]), toB(Wv[r])); D::Witness wi; wi.v = toB(Wv[v]); wi.r = toB(Wv[r]); battery<D::PP, D::Instance, D::Witness, D::Proof>(pp, in, wi, D::Prove, D::Verify, cs, CX, true, Wv[r] == 0 && Wv[v] == 0);
            for (int k = 1; k < 4; k++) for (int d : {-1, 1}) { D::Witness x = wi; if (k & 1) x.v = toB(md(Wv[v] + d, N())); if (k & 2) x.r = toB(md(Wv[r] + d, N())); wrong(pp, in, x, D::Prove, D::Verify, cat(k, ".", d)); }
            for (int k = 0; k < 4; k++) { D::Instance j = in; j.ct.X = in.ct.X + G(1); D::Proof f; f.A = G(17); f.B = G(23); f.z1 = toB(Z(99)); f.z2 = toB(Z(101)); BigInt e = chal(pp, j, f, D::Verify, "c"); ECPoint L = pp.g * f.z1 + pp.h * f.z2; if (k & 1) j.ct.X = (j.pk * f.z1 - f.A) * inv(e); else f.A = j.pk * f.z1 - j.ct.X * e; if (k & 2) j.ct.Y = (L - f.B) * inv(e); else f.B = L - j.ct.Y * e; std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "simulated proof accepted (", k, ")"); mc::eval(cat("f", k)); }
        }
        for (size_t w = 1; w < Wv.size(); w++) for (int c1 = 0; c1 < 4; c1++) for (int c2 = 0; c2 < 3; c2++) if ((c1 || c2) && mc::begin(cat("ptk:mixed:", w, ":", c1, c2))) {
            BigInt R = toB(Wv[w]), V = toB(Z(55)), a = toB(Z(4242)), b = toB(Z(777)); D::Instance j; j.pk = G(7); j.ct.X = j.pk * R; j.ct.Y = pp.g * R + pp.h * V; if (c1) j.ct.X = j.ct.X + G(1); if (c2) j.ct.Y = j.ct.Y + G(9); D::Proof f; f.A = c1 ? G(17) : j.pk * a; f.B = c2 ? G(23) : pp.g * a + pp.h * b; f.z1 = bn_1; f.z2 = bn_1;
            BigInt e = chal(pp, j, f, D::Verify, "c"); f.z1 = (a + e * R) % order; f.z2 = (b + e * V) % order; BigInt zi = inv(f.z1), ei = inv(e); ECPoint L = pp.g * f.z1 + pp.h * f.z2;
            if (c1 == 1) f.A = j.pk * f.z1 - j.ct.X * e; if (c1 == 2) j.ct.X = (j.pk * f.z1 - f.A) * ei; if (c1 == 3) j.pk = (f.A + j.ct.X * e) * zi; if (c2 == 1) f.B = L - j.ct.Y * e; if (c2 == 2) j.ct.Y = (L - f.B) * ei;
            std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "components chosen after the challenge accepted (", c1, ",", c2, ")"); mc::eval(1); mc::transition(); }
        if (mc::begin("ptk:bytes")) { D::Proof a; a.A = G(3); a.B = G(5); a.z1 = toB(N() - 5); a.z2 = toB(N() - 9); auto s = D::ProofToByteString(a); for (int k = 0; k < 4; k++) { D::Proof b = a; if (k == 0) b.A = G(4); if (k == 1) b.B = G(4); if (k == 2) b.z1 = toB(N() - 6); if (k == 3) b.z2 = toB(N() - 6); MC_CHECK(D::ProofToByteString(b) != s, "byte string ignores component ", k); mc::eval(k); } }
    }
    { // ------------------------------------------------------------ equality of plaintexts
        namespace D = PlaintextEquality; auto pp = D::Setup(enc);
        auto cs = [](comps& c, D::PP& q, D::Instance& i, D::Proof& p) { c.pt("pp.g", q.g); c.pt("pp.h", q.h); for (size_t k = 0; k < i.vec_pk.size(); k++) { c.pt(cat("pk", k), i.vec_pk[k]); c.pt(cat("X", k), i.ct.vec_X[k]); c.pt(cat("A", k), p.vec_A[k]); } c.pt("Y", i.ct.Y); c.pt("B", p.B); c.sc("z", p.z); c.sc("t", p.t); };
        for (size_t n = 1; n <= (T ? 9 : 5); n++) for (size_t r = 0; r < Wv.size(); r += (T || n == 3 ? 1 : 3)) for (size_t v = 0; v < Wv.size(); v += (T ? 2 : 4)) if (mc::begin(cat("pte:", n, ":", r, ":", v))) {
            D::Instance in; for (size_t k = 0; k < n; k++) in.vec_pk.push_back(G(7 + 5 * k)); in.ct = TE::Enc(enc, in.vec_pk, toB(Wv[v]), toB(Wv[r])); D::Witness wi; wi.v = toB(Wv[v]); wi.r = toB(Wv[r]); battery<D::PP, D::Instance, D::Witness, D::Proof>(pp, in, wi, D::Prove, D::Verify, cs, n <= 3 ? CX : std::vector<std::string>{"q"}, true, Wv[r] == 0 && Wv[v] == 0);
            for (int k = 1; k < 4; k++) for (int d : {-1, 1}) { D::Witness x = wi; if (k & 1) x.v = toB(md(Wv[v] + d, N())); if (k & 2) x.r = toB(md(Wv[r] + d, N())); wrong(pp, in, x, D::Prove, D::Verify, cat(k, ".", d)); }
            // false statements: one recipient's share under another key, another randomness, or a shifted value
            for (size_t k = 0; k < n; k++) for (int d = 0; d < 2; d++) { D::Instance j = in; if (d == 0) j.ct.vec_X[k] = j.ct.vec_X[k] + G(1); else j.ct.vec_X[k] = j.vec_pk[k] * toB(md(Wv[r] + 1, N())); wrong(pp, j, wi, D::Prove, D::Verify, cat("X", k, ".", d)); }
            { D::Instance j = in; j.ct.Y = j.ct.Y + pp.h; wrong(pp, j, wi, D::Prove, D::Verify, "Y"); }
            for (int k = 0; k < 4; k++) { D::Instance j = in; j.ct.vec_X[n - 1] = in.ct.vec_X[n - 1] + G(1); D::Proof f; f.vec_A.resize(n, G(17)); f.B = G(23); f.z = toB(Z(99)); f.t = toB(Z(101)); BigInt e = chal(pp, j, f, D::Verify, "c"); ECPoint L = pp.g * f.z + pp.h * f.t; for (size_t a = 0; a < n; a++) if (k & 1) j.ct.vec_X[a] = (j.vec_pk[a] * f.z - f.vec_A[a]) * inv(e); else f.vec_A[a] = j.vec_pk[a] * f.z - j.ct.vec_X[a] * e; if (k & 2) j.ct.Y = (L - f.B) * inv(e); else f.B = L - j.ct.Y * e; std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "simulated proof accepted (", k, ")"); mc::eval(cat("f", k)); }
        }
        for (size_t n = 1; n <= 4; n++) for (size_t i = 0; i <= n; i++) for (int c = 1; c < 4; c++) if ((i < n || c < 3) && mc::begin(cat("pte:mixed:", n, ":", i, ":", c))) for (size_t w = 1; w < Wv.size(); w++) {
            BigInt R = toB(Wv[w]), V = toB(Z(55)), a = toB(Z(4242)), b = toB(Z(777)); D::Instance j; D::Proof f; f.vec_A.resize(n); for (size_t k = 0; k < n; k++) { j.vec_pk.push_back(G(7 + 5 * k)); j.ct.vec_X.push_back(j.vec_pk[k] * R); f.vec_A[k] = j.vec_pk[k] * a; } j.ct.Y = pp.g * R + pp.h * V; f.B = pp.g * a + pp.h * b; if (i < n) { j.ct.vec_X[i] = j.ct.vec_X[i] + G(1); f.vec_A[i] = G(17); } else { j.ct.Y = j.ct.Y + G(9); f.B = G(23); } f.z = bn_1; f.t = bn_1;
            BigInt e = chal(pp, j, f, D::Verify, "c"); f.z = (a + e * R) % order; f.t = (b + e * V) % order; BigInt zi = inv(f.z), ei = inv(e); ECPoint L = pp.g * f.z + pp.h * f.t;
            if (i < n) { if (c == 1) f.vec_A[i] = j.vec_pk[i] * f.z - j.ct.vec_X[i] * e; if (c == 2) j.ct.vec_X[i] = (j.vec_pk[i] * f.z - f.vec_A[i]) * ei; if (c == 3) j.vec_pk[i] = (f.vec_A[i] + j.ct.vec_X[i] * e) * zi; } else { if (c == 1) f.B = L - j.ct.Y * e; if (c == 2) j.ct.Y = (L - f.B) * ei; }
            std::string t = "c"; MC_CHECK(!D::Verify(pp, j, t, f), "false statement accepted: component of equation ", i, " chosen after the challenge"); mc::eval(w); mc::transition(); }
        if (mc::begin("pte:bytes")) for (size_t n = 1; n < 4; n++) { D::Proof a; a.vec_A.resize(n, G(3)); a.B = G(5); a.z = toB(N() - 5); a.t = toB(N() - 9); auto s = D::ProofToByteString(a); for (size_t k = 0; k < 3 + n; k++) { D::Proof b = a; if (k == 0) b.B = G(4); if (k == 1) b.z = toB(N() - 6); if (k == 2) b.t = toB(N() - 6); if (k > 2) b.vec_A[k - 3] = G(4); MC_CHECK(D::ProofToByteString(b) != s, "byte string ignores component ", k); mc::eval(cat(n, ".", k)); } }
    }
    { // ------------------------------------------------------------ one out of many ciphertexts encrypts zero
        namespace D = EncRelation;
        auto cs = [](comps& c, D::PP& q, D::Instance& i, D::Proof& p) {
            c.pt("ek", i.ek); c.pt("com.g", q.com_part.g); c.pt("enc.g", q.enc_part.g); for (size_t k = 0; k < q.m * q.n && k < 4; k++) c.pt(cat("com.h", k), q.com_part.vec_h[k]);
            for (size_t k = 0; k < i.vec_CT.size(); k++) { c.pt(cat("CT", k, ".X"), i.vec_CT[k].X); c.pt(cat("CT", k, ".Y"), i.vec_CT[k].Y); }
            c.pt("A", p.A); c.pt("B", p.B); c.pt("C", p.C); c.pt("D", p.D); for (size_t k = 0; k < p.vec_G.size(); k++) { c.pt(cat("G", k, ".X"), p.vec_G[k].X); c.pt(cat("G", k, ".Y"), p.vec_G[k].Y); }
            c.sc("z", p.z); c.sc("zA", p.zA); c.sc("zC", p.zC); for (size_t k = 0; k < p.vec_f.size(); k++) c.sc(cat("f", k), p.vec_f[k]); };
        struct Cf { size_t n, m; }; std::vector<Cf> cf{{2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}, {4, 1}, {5, 1}}; if (T) { cf.push_back({2, 4}); cf.push_back({3, 3}); cf.push_back({4, 2}); cf.push_back({2, 5}); cf.push_back({6, 1}); }
        auto make = [&](size_t n, size_t m, size_t l, const Z& r, bool truth, D::PP& pp, D::Instance& in, D::Witness& w) {
            size_t NN = 1; for (size_t i = 0; i < m; i++) NN *= n; Pedersen::PP com = Pedersen::Setup(std::max<size_t>(n * m, NN)); pp = D::Setup(com, enc, n); in.ek = G(11); in.vec_CT.resize(NN); ECPoint O; O.SetInfinity();
            for (size_t i = 0; i < NN; i++) in.vec_CT[i] = TE::Enc(enc, in.ek, i == l && truth ? O : G(100 + i), i == l ? toB(r) : toB(Z(1000 + i))); w.l = l; w.r = toB(r); return NN; };
        for (auto& c : cf) { size_t NN = 1; for (size_t i = 0; i < c.m; i++) NN *= c.n;
            for (size_t l = 0; l < NN; l++) if (mc::begin(cat("enc:", c.n, ":", c.m, ":", l))) {
                for (size_t r = 0; r < Wv.size(); r += (T ? 1 : 3)) {
                    D::PP pp; D::Instance in; D::Witness w; make(c.n, c.m, l, Wv[r], true, pp, in, w); if (Wv[r] == 0) continue;
                    battery<D::PP, D::Instance, D::Witness, D::Proof>(pp, in, w, D::Prove, D::Verify, cs, r == 1 ? CX : std::vector<std::string>{"q", ""}, r == 3 && NN <= 9);
                    for (int d : {-1, 1}) { D::Witness x = w; x.r = toB(md(Wv[r] + d, N())); wrong(pp, in, x, D::Prove, D::Verify, cat("r", d)); } for (size_t o = 0; o < NN; o++) if (o != l) { D::Witness x = w; x.l = o; wrong(pp, in, x, D::Prove, D::Verify, cat("l", o)); }
                    D::Instance bad; D::Witness wb; D::PP pb; make(c.n, c.m, l, Wv[r], false, pb, bad, wb); wrong(pb, bad, wb, D::Prove, D::Verify, "no ciphertext of zero"); D::Instance b2 = in; b2.vec_CT[l].Y = b2.vec_CT[l].Y + G(1); wrong(pp, b2, w, D::Prove, D::Verify, "off by one message"); D::Instance b3 = in; b3.ek = G(12); wrong(pp, b3, w, D::Prove, D::Verify, "other key"); mc::beat();
                    // solve one first-round message (or a ciphertext) of an otherwise honest run on a false statement after the challenge
                    std::string t0 = "c"; D::Proof base = D::Prove(pb, bad, wb, t0); TE::CT res; BigInt x = chal(pb, bad, base, D::Verify, "c");
                    { ECPoint O; O.SetInfinity(); res = TE::CT{O, O}; for (size_t i = 0; i < NN; i++) { BigInt pr = bn_1; auto ix = D::Decompose(i, c.n, c.m); for (size_t j = 0; j < c.m; j++) pr = (pr * base.vec_f[j * c.n + ix[j]]) % order; TE::CT q = TE::ScalarMul(bad.vec_CT[i], pr); res = TE::HomoAdd(res, q); } BigInt xp = bn_1; for (size_t k = 0; k < c.m; k++) { TE::CT q = TE::ScalarMul(base.vec_G[k], xp); res = TE::HomoSub(res, q); xp = (xp * x) % order; } TE::CT q = TE::Enc(enc, bad.ek, O, base.z); res = TE::HomoSub(res, q); }
                    for (size_t k = 0; k < c.m; k++) { D::Proof f = base; D::PP pq = pb; BigInt xp = bn_1; for (size_t a = 0; a < k; a++) xp = (xp * x) % order; TE::CT q = TE::ScalarMul(res, inv(xp)); f.vec_G[k] = TE::HomoAdd(f.vec_G[k], q); std::string t = "c"; MC_CHECK(!D::Verify(pq, bad, t, f), "false statement proved by choosing G", k, " after the challenge"); mc::eval(cat("fG", k)); }
                    for (size_t i = 0; i < NN; i++) { D::Instance j = bad; BigInt pr = bn_1; auto ix = D::Decompose(i, c.n, c.m); for (size_t a = 0; a < c.m; a++) pr = (pr * base.vec_f[a * c.n + ix[a]]) % order; TE::CT q = TE::ScalarMul(res, inv(pr)); j.vec_CT[i] = TE::HomoSub(j.vec_CT[i], q); D::Proof f = base; D::PP pq = pb; std::string t = "c"; MC_CHECK(!D::Verify(pq, j, t, f), "statement chosen after the challenge accepted (ciphertext ", i, ")"); mc::eval(cat("fCT", i)); }
                    // arbitrary responses f with A and D (or B, C) solved after the challenge
                    for (int k = 0; k < 4; k++) { D::Proof f = base; for (size_t j = 0; j < c.m; j++) { BigInt s = x; for (size_t i = 1; i < c.n; i++) { f.vec_f[j * c.n + i] = toB(Z(5 + i + j)); s = s - f.vec_f[j * c.n + i]; } f.vec_f[j * c.n] = s; } std::vector<BigInt> g; for (auto& a : f.vec_f) { BigInt h = x - a; g.push_back((a * h) % order); } ECPoint L1 = Pedersen::Commit(pb.com_part, f.vec_f, f.zA), L2 = Pedersen::Commit(pb.com_part, g, f.zC); if (k & 1) f.B = (L1 - f.A) * inv(x); else f.A = L1 - f.B * x; if (k & 2) f.C = (L2 - f.D) * inv(x); else f.D = L2 - f.C * x; 
                        // also repair the last equation through G0
                        D::PP pq = pb; ECPoint O; O.SetInfinity(); TE::CT rs{O, O}; for (size_t i = 0; i < NN; i++) { BigInt pr = bn_1; auto ix = D::Decompose(i, c.n, c.m); for (size_t a = 0; a < c.m; a++) pr = (pr * f.vec_f[a * c.n + ix[a]]) % order; TE::CT q = TE::ScalarMul(bad.vec_CT[i], pr); rs = TE::HomoAdd(rs, q); } BigInt xp = x; for (size_t a = 1; a < c.m; a++) { TE::CT q = TE::ScalarMul(f.vec_G[a], xp); rs = TE::HomoSub(rs, q); xp = (xp * x) % order; } TE::CT q = TE::Enc(enc, bad.ek, O, f.z); f.vec_G[0] = TE::HomoSub(rs, q);
                        std::string t = "c"; MC_CHECK(!D::Verify(pq, bad, t, f), "simulated proof of a false statement accepted (", k, ")"); mc::eval(cat("sim", k)); }
                    mc::beat();
                }
            }
        }
        // a prover that selects with non-bit weights (one digit, base n), with every commitment solved after the challenge in turn
        for (size_t n = 2; n <= 4; n++) for (int how = 0; how < 8; how++) if (mc::begin(cat("enc:weights:", n, ":", how))) {
            auto go = [&](bool truth, std::vector<Z> bw, int fix) {
                D::PP pp; D::Instance in; Pedersen::PP com = Pedersen::Setup(n + 2); pp = D::Setup(com, enc, n); in.ek = G(11); in.vec_CT.resize(n); ECPoint O; O.SetInfinity(); std::vector<Z> rr; for (size_t i = 0; i < n; i++) { rr.push_back(Z(1000 + 7 * i)); in.vec_CT[i] = TE::Enc(enc, in.ek, truth && i == 0 ? O : G(100 + i), toB(rr[i])); }
                std::vector<Z> av(n), cv(n), dv(n), ev(n); Z sum = 0; for (size_t i = 1; i < n; i++) { av[i] = md(Z(mc::rng().next()) << 100, N()); sum += av[i]; } av[0] = md(-sum, N()); for (size_t i = 0; i < n; i++) { cv[i] = av[i] * (1 - 2 * bw[i]); dv[i] = -av[i] * av[i]; ev[i] = bw[i] * (1 - bw[i]); }
                auto cm = [&](const std::vector<Z>& v, const Z& r) { std::vector<BigInt> x; for (auto& a : v) x.push_back(toB(md(a, N()))); return Pedersen::Commit(pp.com_part, x, toB(md(r, N()))); }; Z rA = 11, rB = 22, rC = 33, rD = 44, rho = 55;
                D::Proof f; f.A = cm(av, rA); f.B = cm(bw, rB); f.C = cm(cv, rC); f.D = cm(dv, rD); f.vec_G.resize(1); f.vec_G[0] = TE::Enc(enc, in.ek, O, toB(rho)); for (size_t i = 0; i < n; i++) { BigInt s = toB(av[i]); TE::CT qq = TE::ScalarMul(in.vec_CT[i], s); f.vec_G[0] = TE::HomoAdd(f.vec_G[0], qq); } f.vec_f.assign(n, bn_1); f.z = f.zA = f.zC = bn_1;
                Z x = toZ(chal(pp, in, f, D::Verify, "c")), zr = 0, rest = 0; for (size_t i = 1; i < n; i++) { Z v = md(bw[i] * x + av[i], N()); f.vec_f[i] = toB(v); rest += v; } f.vec_f[0] = toB(x - rest); for (size_t i = 0; i < n; i++) zr += bw[i] * rr[i]; if (how == 7) f.vec_f[0] = toB(md(bw[0] * x + av[0], N()));
                f.zA = toB(md(rB * x + rA, N())); f.zC = toB(md(rC * x + rD, N())); f.z = toB(md(zr * x - rho, N())); if (fix == 1) f.C = f.C + cm(ev, 0) * toB(x); if (fix == 2) f.D = f.D + cm(ev, 0) * toB(md(x * x, N())); std::string t = "c"; mc::transition(); return D::Verify(pp, in, t, f); };
            std::vector<Z> hb(n, 0); hb[0] = 1; if (how != 7 && !go(true, hb, 0)) { mc::note("weighted prover not aligned with the code; case skipped"); continue; } mc::note("weighted prover aligned");
            size_t p = how == 7 ? 0 : how % 2, o = n - 1; if (p == o) p = 0; std::vector<Z> bw(n, 0); if (how == 7) { MC_CHECK(!go(false, bw, 0), "no ciphertext selected, yet accepted"); mc::eval("none"); continue; }
            Z m0 = 100 + p, m1 = 100 + o; bw[p] = md(-m1 * zu::inv(md(m0 - m1, N()), N()), N()); bw[o] = md(1 - bw[p], N()); MC_CHECK(!go(false, bw, how / 2), "false statement accepted with non-bit weights (way ", how / 2, ")"); mc::eval("w");
        }
        // the number of digits must be exact for every power
        for (auto c : std::vector<Cf>{{3, 5}, {2, 6}, {5, 3}, {6, 3}, {7, 2}, {10, 2}, {13, 2}}) { size_t NN = 1; for (size_t i = 0; i < c.m; i++) NN *= c.n; for (size_t l : {size_t(0), NN - 1, NN / 2 + 1}) if (mc::begin(cat("enc:big:", c.n, ":", c.m, ":", l))) { D::PP pp; D::Instance in; D::Witness w; make(c.n, c.m, l, Z(5), true, pp, in, w); std::string t = ""; auto p = D::Prove(pp, in, w, t); t = ""; MC_CHECK(D::Verify(pp, in, t, p), "honest proof rejected for ", NN, " ciphertexts, base ", c.n); mc::eval(1); mc::beat(); } }
    }
    return mc::finish();
}
