// C09: inner-product arguments, aggregated Bulletproofs and the encrypted-range gadgets.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "gadget/range_proof.hpp"
#include "zutil.hpp"
#include "subst.hpp"
using mc::cat; using namespace zu; using subst::comps;
namespace TE = TwistedExponentialElGamal;
namespace B = Bullet; namespace IP = InnerProduct;
static ECPoint G(long k) { return mk(mul(rdp(ECPoint(generator)), md(Z(k), N()))); }
static Z rz() { Z z = 0; for (int i = 0; i < 4; i++) z = (z << 64) + mc::rng().next(); return md(z, N()); }
static BigInt q(const Z& z) { return toB(md(z, N())); }
static std::vector<std::string> CX{"", "x", std::string(1, 0), "a longer context string that spans more than one block of the hash function."};

// records the scalars of the largest multi-exponentiation, which a prover could compute as well if they were predictable
static std::vector<Z> tapped; static bool tapping = false;
extern "C" int __real_EC_POINTs_mul(const EC_GROUP*, EC_POINT*, const BIGNUM*, size_t, const EC_POINT**, const BIGNUM**, BN_CTX*);
extern "C" int __wrap_EC_POINTs_mul(const EC_GROUP* g, EC_POINT* r, const BIGNUM* n, size_t k, const EC_POINT** p, const BIGNUM** m, BN_CTX* c)
{ if (tapping && k >= tapped.size()) { tapped.clear(); for (size_t i = 0; i < k; i++) tapped.push_back(md(bn2z(m[i]), N())); } return __real_EC_POINTs_mul(g, r, n, k, p, m, c); }
static int both(B::PP& pp, B::Instance in, const std::string& ctx, const B::Proof& p, std::string* tr = nullptr)
{
    B::Proof p1 = p, p2 = p; B::Instance i1 = in, i2 = in; B::PP a = pp, b = pp; std::string t1 = ctx, t2 = ctx; bool v = B::Verify(a, i1, t1, p1), f = B::FastVerify(b, i2, t2, p2);
    MC_CHECK(v == f, "plain and fast verifier disagree: plain ", v, " fast ", f); MC_CHECK(t1 == t2, "plain and fast verifier leave different transcripts"); if (tr) *tr = t1; mc::transition(2); return (v ? 1 : 0) + (f ? 2 : 0);
}
struct St { B::Instance in; B::Witness w; };
static St stmt(B::PP& pp, const std::vector<Z>& v, const Z& r0 = -1) { St s; for (size_t i = 0; i < v.size(); i++) { Z r = r0 >= 0 ? md(r0 + i, N()) : rz(); s.w.r.push_back(q(r)); s.w.v.push_back(q(v[i])); s.in.C.push_back(pp.g * q(r) + pp.h * q(v[i])); } return s; }
static void listB(comps& c, B::PP&, B::Instance& i, B::Proof& p)
{
    for (size_t k = 0; k < i.C.size(); k++) c.pt(cat("C", k), i.C[k]); c.pt("A", p.A); c.pt("S", p.S); c.pt("T1", p.T1); c.pt("T2", p.T2);
    for (size_t k = 0; k < p.ip_proof.vec_L.size(); k++) { c.pt(cat("L", k), p.ip_proof.vec_L[k]); c.pt(cat("R", k), p.ip_proof.vec_R[k]); } c.sc("taux", p.taux); c.sc("mu", p.mu); c.sc("tx", p.tx); c.sc("a", p.ip_proof.a); c.sc("b", p.ip_proof.b);
}
// A prover that may use any aL, aR (not only bits).  It knows the published protocol, not the code under test;
// mask says which messages it believes to be absorbed into the challenges (it tries all subsets and keeps one
// that works for an honest statement, so that a verifier that forgets one is met by an adversary that knows).
struct Rogue { B::Proof p; Z x, y, z, e, delta, gap; };
static Rogue rogue(B::PP& pp, B::Instance in, const St& s, const std::vector<Z>& aL, const std::vector<Z>& aR, const std::string& ctx, int mask = 31)
{
    Rogue R; size_t n = in.C.size(), L = pp.RANGE_LEN * n; Z al = rz(), rho = rz(); std::vector<Z> sL(L), sR(L); for (auto& a : sL) a = rz(); for (auto& a : sR) a = rz();
    auto com = [&](const std::vector<Z>& a, const std::vector<Z>& b, const Z& k) { ECPoint o = pp.h * q(k); for (size_t i = 0; i < L; i++) o = o + pp.vec_g[i] * q(a[i]) + pp.vec_h[i] * q(b[i]); return o; };
    R.p.A = com(aL, aR, al); R.p.S = com(sL, sR, rho); std::string t = ctx; if (mask & 1) for (auto& c : in.C) t += c.ToByteString(); if (mask & 2) t += R.p.A.ToByteString(); Z y = toZ(Hash::StringToBigInt(t)); if (mask & 4) t += R.p.S.ToByteString(); Z z = toZ(Hash::StringToBigInt(t));
    std::vector<Z> yp(L, 1); for (size_t i = 1; i < L; i++) yp[i] = md(yp[i - 1] * y, N()); std::vector<Z> l0(L), r0(L), r1(L); Z zj = md(z * z, N());
    for (size_t j = 0; j < n; j++) { for (size_t i = 0; i < pp.RANGE_LEN; i++) { size_t k = j * pp.RANGE_LEN + i; l0[k] = md(aL[k] - z, N()); r0[k] = md(yp[k] * (aR[k] + z) + zj * (Z(1) << i), N()); r1[k] = md(yp[k] * sR[k], N()); } zj = md(zj * z, N()); }
    auto ip = [&](const std::vector<Z>& a, const std::vector<Z>& b) { Z o = 0; for (size_t i = 0; i < L; i++) o += a[i] * b[i]; return md(o, N()); };
    Z t0 = ip(l0, r0), t1 = md(ip(sL, r0) + ip(l0, r1), N()), t2 = ip(sL, r1), ta = rz(), tb = rz(); R.p.T1 = pp.g * q(ta) + pp.h * q(t1); R.p.T2 = pp.g * q(tb) + pp.h * q(t2);
    if (mask & 8) t += R.p.T1.ToByteString(); if (mask & 16) t += R.p.T2.ToByteString(); Z x = toZ(Hash::StringToBigInt(t)); std::vector<Z> l(L), r(L); for (size_t i = 0; i < L; i++) { l[i] = md(l0[i] + sL[i] * x, N()); r[i] = md(r0[i] + r1[i] * x, N()); }
    R.p.tx = q(ip(l, r)); Z tx = ta * x + tb * x * x; zj = md(z * z, N()); Z sy = 0; for (auto& a : yp) sy += a; R.delta = (z - z * z) * sy; Z want = 0; for (size_t j = 0; j < n; j++) { tx += zj * toZ(s.w.r[j]); want += zj * toZ(s.w.v[j]); zj = md(zj * z, N()); R.delta -= zj * ((Z(1) << pp.RANGE_LEN) - 1); }
    R.delta = md(R.delta, N()); R.gap = md(want + R.delta - t0, N()); R.p.taux = q(tx); R.p.mu = q(al + rho * x); R.x = x; R.y = y; R.z = z; t += BigInt(q(x)).ToByteString(); Z e = toZ(Hash::StringToBigInt(t)); R.e = e;
    IP::PP ipp = IP::Setup(L, false); ipp.vec_g.assign(pp.vec_g.begin(), pp.vec_g.begin() + L); ipp.vec_h.assign(pp.vec_h.begin(), pp.vec_h.begin() + L); Z yi = inv(y, N()), yy = 1; for (size_t i = 0; i < L; i++) { ipp.vec_h[i] = ipp.vec_h[i] * q(yy); yy = md(yy * yi, N()); } ipp.u = pp.u * q(e);
    IP::Witness w; for (size_t i = 0; i < L; i++) { w.vec_a.push_back(q(l[i])); w.vec_b.push_back(q(r[i])); } IP::Instance ii; ii.P = ipp.u * R.p.tx; for (size_t i = 0; i < L; i++) ii.P = ii.P + ipp.vec_g[i] * w.vec_a[i] + ipp.vec_h[i] * w.vec_b[i]; IP::Prove(ipp, ii, w, t, R.p.ip_proof); return R;
}

// the known error of one verification equation moved into another response
static void compensate(B::PP& pp, B::Instance& in, const std::string& ctx, const B::Proof& p, const Z& gap)
{
    for (int k = 0; k < 5; k++) for (int sg : {1, -1}) { B::Proof f = p; BigInt& v = k == 0 ? f.taux : k == 1 ? f.mu : k == 2 ? f.tx : k == 3 ? f.ip_proof.a : f.ip_proof.b; v = q(toZ(v) + sg * gap); MC_CHECK(both(pp, in, ctx, f) == 0, "out-of-range value accepted with the error moved into response ", k); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    // ------------------------------------------------------------ inner-product argument
    for (size_t L = 1; L <= (T ? 64u : 32u); L *= 2) for (int kind = 0; kind < 6; kind++) if (mc::begin(cat("ip:", L, ":", kind))) {
        IP::PP pp = IP::Setup(L, true); IP::Witness w; Z c = 0; ECPoint P; P.SetInfinity();
        for (size_t i = 0; i < L; i++) { Z a = kind == 0 ? Z(0) : kind == 1 ? Z(1) : kind == 2 ? N() - 1 : kind == 3 ? Z(i == 0) : kind == 4 ? Z(i) : rz(), b = kind == 0 ? Z(0) : kind == 1 ? Z(1) : kind == 2 ? Z(2) : kind == 3 ? Z(i == L - 1) : kind == 4 ? Z(L - i) : rz(); c += a * b; w.vec_a.push_back(q(a)); w.vec_b.push_back(q(b)); P = P + pp.vec_g[i] * q(a) + pp.vec_h[i] * q(b); }
        IP::Instance in; in.P = P + pp.u * q(c);
        auto ver = [&](IP::PP a, IP::Instance i, const IP::Proof& p, const std::string& cx) { IP::Proof p1 = p, p2 = p; IP::PP b = a; IP::Instance j = i; std::string t1 = cx, t2 = cx; bool v = IP::Verify(a, i, t1, p1), f = IP::FastVerify(b, j, t2, p2); MC_CHECK(v == f, "inner product: plain ", v, " fast ", f); mc::transition(2); return v; };
        IP::Proof p; for (auto& cx : CX) { std::string t = cx; IP::Prove(pp, in, w, t, p); MC_CHECK(ver(pp, in, p, cx), "honest inner-product proof rejected, length ", L); mc::eval("ok" + cx); if (L > 1 && kind == 5) for (auto& d : CX) if (d != cx) { MC_CHECK(!ver(pp, in, p, d), "inner-product proof accepted under another context"); mc::eval("ctx" + cx + "/" + d); } }
        { IP::Instance j = in; j.P = j.P + pp.u; std::string t = CX.back(); IP::Proof z; IP::Prove(pp, j, w, t, z); MC_CHECK(!ver(pp, j, z, CX.back()), "wrong inner product accepted"); mc::eval("wrong"); }
        for (size_t i = 0; i < L; i++) for (int s = 0; s < 2; s++) { IP::Witness x = w; BigInt& v = s ? x.vec_b[i] : x.vec_a[i]; v = q(toZ(v) + 1); IP::Proof z; std::string t = CX.back(); IP::Prove(pp, in, x, t, z); MC_CHECK(!ver(pp, in, z, CX.back()), "wrong witness component ", i, " accepted"); mc::eval(cat("w", i, s)); }
        if (kind == 5) subst::each([](comps& c, IP::PP& a, IP::Instance& i, IP::Proof& p) { c.pt("P", i.P); c.pt("u", a.u); for (size_t k = 0; k < p.vec_L.size(); k++) { c.pt(cat("L", k), p.vec_L[k]); c.pt(cat("R", k), p.vec_R[k]); } c.sc("a", p.a); c.sc("b", p.b); for (size_t k = 0; k < a.vec_g.size() && k < 4; k++) { size_t i = k < 2 ? k : a.vec_g.size() - 1 - (k - 2); c.pt(cat("g", i), a.vec_g[i]); c.pt(cat("h", i), a.vec_h[i]); } },
            pp, in, p, [&](IP::PP& a, IP::Instance& i, IP::Proof& d, const std::string& what) { bool acc = ver(a, i, d, CX.back()); mc::eval(what); mc::beat(); return MC_CHECK(!acc, "inner product accepted after change: ", what); });
        mc::beat();
    }
    // a round message chosen after the round challenges (for every belief about what is absorbed)
    for (size_t L : {2, 4, 8}) for (int mask = 0; mask < 4; mask++) if (mc::begin(cat("ip:solve:", L, ":", mask))) {
        IP::PP pp = IP::Setup(L, true); size_t lg = 0; while ((size_t(1) << lg) < L) lg++; IP::Instance in; in.P = G(4711); IP::Proof p; p.a = q(rz()); p.b = q(rz()); for (size_t i = 0; i < lg; i++) { p.vec_L.push_back(G(100 + i)); p.vec_R.push_back(G(200 + i)); }
        std::string t = "c"; std::vector<Z> x; for (size_t i = 0; i < lg; i++) { if (mask & 1) t += p.vec_L[i].ToByteString(); if (mask & 2) t += p.vec_R[i].ToByteString(); x.push_back(toZ(Hash::StringToBigInt(t))); }
        ECPoint D = pp.u * q(toZ(p.a) * toZ(p.b)); for (size_t i = 0; i < L; i++) { Z s = 1; for (size_t j = 0; j < lg; j++) s = md(s * ((i >> (lg - 1 - j)) & 1 ? x[j] : inv(x[j], N())), N()); D = D + pp.vec_g[i] * q(toZ(p.a) * s) + pp.vec_h[i] * q(toZ(p.b) * inv(s, N())); } D = D - in.P; for (size_t j = 0; j < lg; j++) { Z s = md(x[j] * x[j], N()); D = D - p.vec_L[j] * q(s) - p.vec_R[j] * q(inv(s, N())); }
        for (size_t j = 0; j < lg; j++) for (int side = 0; side < 2; side++) { IP::Proof f = p; Z s = md(x[j] * x[j], N()); if (side) f.vec_R[j] = f.vec_R[j] + D * q(s); else f.vec_L[j] = f.vec_L[j] + D * q(inv(s, N())); for (int fast = 0; fast < 2; fast++) { std::string u = "c"; IP::PP a = pp; IP::Proof g = f; bool acc = fast ? IP::FastVerify(a, in, u, g) : IP::Verify(a, in, u, g); MC_CHECK(!acc, "inner-product proof without a witness accepted (", side ? "R" : "L", j, " chosen after the challenges)"); mc::eval(cat(j, side, fast)); mc::transition(); } }
        mc::beat();
    }
    // ------------------------------------------------------------ range proofs: every value
    auto run = [&](B::PP& pp, const std::vector<Z>& v, const Z& r0, const std::string& ctx, bool subs) {
        St s = stmt(pp, v, r0); bool truth = true; for (auto& x : v) truth = truth && x >= 0 && x < (Z(1) << pp.RANGE_LEN); static B::Proof reused; B::Proof p; std::string t = ctx; B::Prove(pp, s.in, s.w, t, p); std::string tv; int got = both(pp, s.in, ctx, p, &tv); std::string nm; for (auto& x : v) nm += S(x) + ",";
        mc::eval(nm); if (!MC_CHECK(got == (truth ? 3 : 0), truth ? "honest range proof rejected" : "value out of range accepted", " for values ", nm, " range 2^", pp.RANGE_LEN)) return;
        MC_CHECK(!truth || t == tv, "prover and verifier leave different transcripts"); 
        if (truth) { MC_CHECK(both(pp, s.in, ctx, p) == 3, "second verification rejects"); t = ctx; B::Prove(pp, s.in, s.w, t, reused); MC_CHECK(both(pp, s.in, ctx, reused) == 3, "proof written over an earlier one is rejected"); for (auto& d : CX) if (d != ctx) { MC_CHECK(both(pp, s.in, d, p) == 0, "accepted under another context"); mc::eval("ctx" + d); } }
        else { // repair the commitment equation instead: shift tx by what the opened values lack
            std::string u = ctx; for (auto& c : s.in.C) u += c.ToByteString(); u += p.A.ToByteString() + p.S.ToByteString(); Z z = toZ(Hash::StringToBigInt(u)), zj = md(z * z, N()), add = 0; for (auto& x : v) { Z low = md(x, N()) % (Z(1) << pp.RANGE_LEN); add += zj * (x - low); zj = md(zj * z, N()); } B::Proof f = p; f.tx = q(toZ(p.tx) + add); MC_CHECK(both(pp, s.in, ctx, f) == 0, "value out of range accepted with adjusted evaluation"); mc::eval("tx" + nm); compensate(pp, s.in, ctx, p, add);
        }
        if (subs && truth) subst::each(listB, pp, s.in, p, [&](B::PP& a, B::Instance& i, B::Proof& d, const std::string& what) { int acc = both(a, i, ctx, d); mc::eval(what); mc::beat(); return MC_CHECK(acc == 0, "accepted after change: ", what); });
        if (truth) { St o = stmt(pp, v); MC_CHECK(both(pp, o.in, ctx, p) == 0 , "proof accepted for other commitments"); } mc::beat();
    };
    struct Cf { size_t R, n; }; std::vector<Cf> all; for (size_t R : {1, 2, 4, 8, 16, 32, 64}) for (size_t n : {1, 2, 4}) if (R * n <= (T ? 256u : 64u)) all.push_back({R, n});
    for (auto c : all) for (size_t mx : {size_t(1) * c.n, c.n * 2}) {
        auto setup = [&]() { size_t a = c.R, b = mx; return B::Setup(a, b); }; std::string nm = cat(c.R, "x", c.n, "/", mx); Z top = Z(1) << c.R;
        if (mc::begin("bp:setup:" + nm)) { auto pp = setup(); std::set<std::string> u{pp.g.ToByteString(), pp.h.ToByteString(), pp.u.ToByteString()}; MC_CHECK(u.size() == 3, "bases coincide"); for (auto* v : {&pp.vec_g, &pp.vec_h}) { MC_CHECK(v->size() >= c.R * mx, "too few bases"); for (auto& x : *v) { MC_CHECK(x.IsOnCurve() && !x.IsAtInfinity(), "base"); MC_CHECK(u.insert(x.ToByteString()).second, "bases coincide"); } } mc::eval(1); }
        std::vector<Z> vals; if (c.R <= 8) for (Z x = -2; x <= top + 2; ++x) vals.push_back(x); else for (Z x : {Z(-1), Z(0), Z(1), Z(2), top / 2 - 1, top / 2, top / 2 + 1, top - 2, top - 1, top, top + 1, 2 * top, N() - 1 - top, N() - 2, Z((N() + 1) / 2), Z(1) << 128}) vals.push_back(x);
        std::vector<Z> edge; for (Z x : {Z(-1), Z(0), Z(top - 1), top}) edge.push_back(x);
        if (mx == c.n) {
            if (c.n == 1) { for (auto& x : vals) if (mc::begin(cat("bp:", nm, ":", S(x)))) { auto pp = setup(); run(pp, {x}, -1, CX[1], false); if (x == 0 || x == top - 1) for (Z r : {Z(0), Z(1), N() - 1, N() - 2}) run(pp, {x}, r, CX[0], false); } }
            else if (c.n == 2 && c.R <= (T ? 4u : 2u)) { for (auto& x : vals) if (mc::begin(cat("bp:", nm, ":", S(x)))) { auto pp = setup(); for (auto& y : vals) run(pp, {x, y}, -1, CX[1], false); } }
            else { // every value at every position among edge neighbours; all combinations of edge values
                for (size_t pos = 0; pos < c.n; pos++) for (size_t k = 0; k < vals.size(); k++) { if (c.R == 8 && !T && vals[k] > 3 && vals[k] < top - 3 && k % 16) continue; if (mc::begin(cat("bp:", nm, ":", pos, ":", S(vals[k])))) { auto pp = setup(); std::vector<Z> v(c.n, top - 1); for (size_t i = 0; i < c.n; i += 2) v[i] = 0; v[pos] = vals[k]; run(pp, v, -1, CX[1], false); } }
                size_t nc = 1; for (size_t i = 0; i < c.n; i++) nc *= 4; if (c.R * c.n <= 16) for (size_t k = 0; k < nc; k++) if (mc::begin(cat("bp:", nm, ":edges:", k))) { auto pp = setup(); std::vector<Z> v; for (size_t i = 0, m = k; i < c.n; i++, m /= 4) v.push_back(edge[m % 4]); run(pp, v, -1, CX[2], false); }
            }
        }
        if (c.R * c.n <= (T ? 64u : 16u)) for (int k = 0; k < 2; k++) if (mc::begin(cat("bp:subst:", nm, ":", k))) { auto pp = setup(); std::vector<Z> v; for (size_t i = 0; i < c.n; i++) v.push_back(k ? Z(top - 1) : Z(i % 2)); run(pp, v, -1, CX[k ? 3 : 0], true); }
        // a prover that does not restrict itself to bits
        if (c.R * c.n <= (T ? 16u : 8u) && mx == c.n) for (int how = 0; how < 5; how++) for (size_t pos = 0; pos < c.n; pos++) if (mc::begin(cat("bp:rogue:", nm, ":", how, ":", pos))) {
            auto pp = setup(); int mask; std::string ctx = "r"; size_t L = c.R * c.n; std::vector<Z> v(c.n, 0); 
            { St s = stmt(pp, v); std::vector<Z> aL(L, 0), aR(L, -1); for (mask = 31; mask >= 0; mask--) { auto R = rogue(pp, s.in, s, aL, aR, ctx, mask); if (both(pp, s.in, ctx, R.p) == 3) break; } if (mask < 0) { mc::note("rogue prover not aligned with the code; case skipped"); continue; } mc::note("rogue prover aligned"); }
            for (Z bad : {Z(-1), top, Z(top + 1), Z(2 * top), Z(N() - 5)}) for (size_t bit = 0; bit < c.R; bit++) {
                v.assign(c.n, 0); v[pos] = bad; std::vector<Z> aL(L, 0), aR(L, -1); size_t k0 = pos * c.R;
                Z d = md(bad * inv(Z(1) << bit, N()), N());     // one non-bit digit carries the whole value
                if (how == 0) { aL[k0 + bit] = d; aR[k0 + bit] = d - 1; } else if (how == 1) { aL[k0 + bit] = d; aR[k0 + bit] = 0; } else if (how == 2) { aL[k0 + bit] = d; } else if (how == 3) { for (size_t i = 0; i < c.R; i++) { aL[k0 + i] = 1; aR[k0 + i] = 0; } } else { aL[k0 + bit] = d; aR[k0 + bit] = inv(d, N()); }
                St s = stmt(pp, v); auto R = rogue(pp, s.in, s, aL, aR, ctx, mask); MC_CHECK(both(pp, s.in, ctx, R.p) == 0, "out-of-range value proved with non-bit digits, way ", how); mc::eval(cat("r", S(bad), ".", bit));
                B::Proof f = R.p; f.tx = q(toZ(f.tx) + R.gap); MC_CHECK(both(pp, s.in, ctx, f) == 0, "out-of-range value proved with adjusted evaluation, way ", how); mc::eval(cat("rt", S(bad), ".", bit)); compensate(pp, s.in, ctx, R.p, R.gap);
                for (auto dl : {1, 2}) { B::Proof h = R.p; ECPoint& X = dl == 1 ? h.T1 : h.T2; X = X + pp.h * q(R.gap * inv(dl == 1 ? R.x : md(R.x * R.x, N()), N())) * toB(N() - 1); MC_CHECK(both(pp, s.in, ctx, h) == 0, "T", dl, " chosen after the challenge accepted"); B::Proof h2 = R.p; ECPoint& Y = dl == 1 ? h2.T1 : h2.T2; Y = Y - pp.h * q(R.gap * inv(dl == 1 ? R.x : md(R.x * R.x, N()), N())); MC_CHECK(both(pp, s.in, ctx, h2) == 0, "T", dl, " chosen after the challenge accepted"); mc::eval(cat("T", dl, S(bad), ".", bit)); }
                // commitment chosen after the challenges
                { Z zj = R.z; for (size_t j = 0; j <= pos; j++) zj = md(zj * R.z, N()); B::Instance j = s.in; j.C[pos] = j.C[pos] - pp.h * q(R.gap * inv(zj, N())); MC_CHECK(both(pp, j, ctx, R.p) == 0, "commitment chosen after the challenges accepted (its value is not in range)"); mc::eval(cat("C", S(bad), ".", bit)); }
                // A or S solved after the challenges so that the inner-product equation absorbs the adjusted evaluation
                { B::Proof h = f; h.A = h.A - pp.u * q(R.e * R.gap); MC_CHECK(both(pp, s.in, ctx, h) == 0, "A chosen after the challenges accepted"); B::Proof g = f; g.S = g.S - pp.u * q(R.e * R.gap * inv(R.x, N())); MC_CHECK(both(pp, s.in, ctx, g) == 0, "S chosen after the challenges accepted"); mc::eval(cat("AS", S(bad), ".", bit)); }
                mc::beat();
            }
        }
        if (c.R <= 4 && mx == c.n) if (mc::begin("bp:bytes:" + nm)) { auto pp = setup(); St s = stmt(pp, std::vector<Z>(c.n, 1)); std::string t; B::Proof p; B::Prove(pp, s.in, s.w, t, p); std::string b0 = B::ProofToByteString(p); auto cs = [](comps& k, B::PP&, int&, B::Proof& p) { B::Instance e; B::PP d; listB(k, d, e, p); }; int z = 0; subst::each(cs, pp, z, p, [&](B::PP&, int&, B::Proof& d, const std::string& what) { mc::eval(what); return MC_CHECK(B::ProofToByteString(d) != b0, "byte string of the proof ignores ", what); }); }
    }
    // the fast verifier's combination weight must not be predictable: take it from one run and use it against the next
    for (size_t R : {1, 2, 8}) for (Z v : {Z(Z(1) << R), Z(-1), Z(1000)}) if (mc::begin(cat("bp:weight:", R, ":", S(v)))) {
        size_t a = R, b = 1; auto pp = B::Setup(a, b); St s = stmt(pp, {v}); std::string ctx = "w", t = ctx; B::Proof p; B::Prove(pp, s.in, s.w, t, p); Z low = md(v, N()) % (Z(1) << R);
        std::vector<Z> zs; for (int mask = 0; mask < 8; mask++) { std::string u = ctx; if (mask & 1) u += s.in.C[0].ToByteString(); if (mask & 2) u += p.A.ToByteString(); if (mask & 4) u += p.S.ToByteString(); zs.push_back(toZ(Hash::StringToBigInt(u))); }
        auto fast = [&](const B::Proof& f) { B::Proof g = f; std::string u = ctx; B::Instance j = s.in; mc::transition(); return B::FastVerify(pp, j, u, g); };
        tapped.clear(); tapping = true; fast(p); tapping = false; auto sc = tapped; mc::note("scalars observed", sc.size());
        for (auto& z : zs) { Z z2 = md(z * z, N()), gap = md(z2 * (v - low), N()); for (auto& k : sc) for (int sg : {1, -1}) { Z c = md(k * inv(z2, N()), N()); B::Proof f = p; f.mu = q(toZ(p.mu) + sg * c * gap); bool acc = fast(f); mc::eval(cat(S(k), S(z), sg)); if (!MC_CHECK(!acc, "out-of-range value accepted: the weight of the fast verifier is predictable")) return mc::finish(); } mc::beat(); }
    }
    // ------------------------------------------------------------ gadgets: LEFT <= m < RIGHT
    auto mkpp = [&](size_t R, TE::PP enc) { size_t a = R, b = 2; B::PP bp = B::Setup(a, b); return Gadget::Setup(enc, bp); };
    auto verG = [&](Gadget::PP pp, Gadget::Instance in, Z l, Z r, const std::string& cx, auto p) { BigInt L = toB(l), R = toB(r); std::string t = cx; mc::transition(); return Gadget::Verify(pp, in, L, R, t, p); };
    auto listG = [](comps& c, Gadget::PP&, Gadget::Instance& i, auto& p) { c.pt("pk", i.pk); c.pt("X", i.ct.X); c.pt("Y", i.ct.Y); c.pt("ptke.A", p.ptke_proof.A); c.pt("ptke.B", p.ptke_proof.B); c.sc("ptke.z1", p.ptke_proof.z1); c.sc("ptke.z2", p.ptke_proof.z2); B::Instance e; B::PP d; listB(c, d, e, p.bullet_proof); };
    auto listG2 = [&](comps& c, Gadget::PP& a, Gadget::Instance& i, Gadget::Proof_type2& p) { listG(c, a, i, p); c.pt("refresh.X", p.refresh_ct.X); c.pt("refresh.Y", p.refresh_ct.Y); c.pt("dleq.A1", p.dlogeq_proof.A1); c.pt("dleq.A2", p.dlogeq_proof.A2); c.sc("dleq.z", p.dlogeq_proof.z); };
    for (size_t R : {1, 2, 4, 8}) { Z top = Z(1) << R; std::vector<Z> bd; if (R <= 4) for (Z x = 0; x <= top; ++x) bd.push_back(x); else bd = {0, 1, 2, 127, 128, 129, 254, 255, 256};
        for (auto& l : bd) for (auto& r : bd) if (l <= r) if (mc::begin(cat("g1:", R, ":", S(l), ":", S(r)))) {
            auto pp = mkpp(R, TE::Setup(32, 7)); Z sk = rz(); std::set<Z> ms; if (R <= 2) for (Z m = -2; m <= top + 2; ++m) ms.insert(m); else ms = {-1, 0, l - 1, l, l + 1, (l + r) / 2, r - 1, r, r + 1, top - 1, top, 2 * top};
            for (auto& m : ms) { Gadget::Instance in; in.pk = pp.enc_part.g * q(sk); Z rr = rz(); in.ct = TE::Enc(pp.enc_part, in.pk, q(m), q(rr)); Gadget::Witness_type1 w; w.r = q(rr); w.m = m < 0 ? q(m) : toB(m); BigInt Lb = toB(l), Rb = toB(r); std::string t = "g"; auto p = Gadget::Prove(pp, in, Lb, Rb, w, t); bool truth = m >= l && m < r; bool acc = verG(pp, in, l, r, "g", p); mc::eval(S(m)); MC_CHECK(acc == truth, truth ? "value in the interval rejected: " : "value outside the interval accepted: ", S(m), " for [", S(l), ",", S(r), ")");
                if (acc) { for (auto& a : bd) for (auto& b : bd) if (a <= b && (a != l || b != r) && (a == l || b == r)) { MC_CHECK(!verG(pp, in, a, b, "g", p), "proof for [", S(l), ",", S(r), ") accepted for [", S(a), ",", S(b), ")"); mc::eval(cat("b", S(a), ",", S(b), S(m))); } MC_CHECK(!verG(pp, in, l, r, "h", p) && !verG(pp, in, l, r, "", p), "accepted under another context"); }
                mc::beat(); }
        }
        if (R <= 4) if (mc::begin(cat("g1:subst:", R))) { auto pp = mkpp(R, TE::Setup(32, 7)); Z sk = rz(), rr = rz(), m = top - 1, l = top / 2; Gadget::Instance in; in.pk = pp.enc_part.g * q(sk); in.ct = TE::Enc(pp.enc_part, in.pk, q(m), q(rr)); Gadget::Witness_type1 w; w.r = q(rr); w.m = toB(m); BigInt Lb = toB(l), Rb = toB(top); std::string t = "g"; auto p = Gadget::Prove(pp, in, Lb, Rb, w, t); MC_CHECK(verG(pp, in, l, top, "g", p), "honest gadget proof rejected");
            subst::each(listG, pp, in, p, [&](Gadget::PP& a, Gadget::Instance& i, Gadget::Proof_type1& d, const std::string& what) { bool acc = verG(a, i, l, top, "g", d); mc::eval(what); mc::beat(); return MC_CHECK(!acc, "gadget-1 accepted after change: ", what); });
            // each half transplanted from a proof about another ciphertext
            Gadget::Instance in2 = in; in2.ct = TE::Enc(pp.enc_part, in.pk, q(l - 1), q(rr + 1)); Gadget::Witness_type1 w2; w2.r = q(rr + 1); w2.m = toB(l - 1); t = "g"; auto p2 = Gadget::Prove(pp, in2, Lb, Rb, w2, t); for (int k = 0; k < 3; k++) { auto f = p2; if (k & 1) f.bullet_proof = p.bullet_proof; if (k & 2) f.ptke_proof = p.ptke_proof; MC_CHECK(!verG(pp, in2, l, top, "g", f), "out-of-interval ciphertext accepted with transplanted parts ", k); mc::eval(cat("tp", k)); } }
    }
    for (size_t R : {4, 16}) { Z top = Z(1) << R, lim = R == 4 ? Z(16) : Z(4096); std::vector<Z> bd = R == 4 ? std::vector<Z>{0, 1, 2, 3, 7, 8, 9, 14, 15, 16} : std::vector<Z>{0, 1, 255, 256, 2048, 4094, 4095, 4096, 65535, 65536};
        for (auto& l : bd) for (auto& r : bd) if (l <= r && l < lim) if (mc::begin(cat("g2:", R, ":", S(l), ":", S(r)))) {
            auto enc = TE::Setup(12, 0); TE::Initialize(enc); auto pp = mkpp(R, enc); std::set<Z> ms; for (Z m : {Z(0), Z(l - 1), l, Z(l + 1), Z((l + r) / 2), Z(r - 1), r, Z(r + 1), Z(lim - 1), Z(4095)}) if (m >= 0 && m < 4096) ms.insert(m); for (int skk = 0; skk < 2; skk++) { Z sk = skk ? N() - 1 : rz();
            for (auto& m : ms) { Gadget::Instance in; in.pk = pp.enc_part.g * q(sk); Z rr = rz(); in.ct = TE::Enc(pp.enc_part, in.pk, q(m), q(rr)); Gadget::Witness_type2 w; w.sk = q(sk); BigInt Lb = toB(l), Rb = toB(r); std::string t = "g"; Gadget::Proof_type2 p; Gadget::Prove(pp, in, Lb, Rb, w, t, p); bool truth = m >= l && m < r, acc = verG(pp, in, l, r, "g", p); mc::eval(cat(S(m), ".", skk)); MC_CHECK(acc == truth, truth ? "value in the interval rejected (with key): " : "value outside the interval accepted (with key): ", S(m), " for [", S(l), ",", S(r), ")");
                if (acc && !skk) { for (auto& a : bd) for (auto& b : bd) if (a <= b && (a != l || b != r) && (a == l || b == r)) { MC_CHECK(!verG(pp, in, a, b, "g", p), "proof for other bounds accepted"); mc::eval(cat("b", S(a), ",", S(b), S(m))); } MC_CHECK(!verG(pp, in, l, r, "h", p) && !verG(pp, in, l, r, "", p), "accepted under another context"); }
                mc::beat(); } }
        }
        if (R == 4) if (mc::begin(cat("g2:subst:", R))) { auto enc = TE::Setup(12, 0); TE::Initialize(enc); auto pp = mkpp(R, enc); Z sk = rz(), rr = rz(), m = top - 1, l = top / 2; Gadget::Instance in; in.pk = pp.enc_part.g * q(sk); in.ct = TE::Enc(pp.enc_part, in.pk, q(m), q(rr)); Gadget::Witness_type2 w; w.sk = q(sk); BigInt Lb = toB(l), Rb = toB(top); std::string t = "g"; Gadget::Proof_type2 p; Gadget::Prove(pp, in, Lb, Rb, w, t, p); MC_CHECK(verG(pp, in, l, top, "g", p), "honest gadget proof rejected");
            subst::each(listG2, pp, in, p, [&](Gadget::PP& a, Gadget::Instance& i, Gadget::Proof_type2& d, const std::string& what) { bool acc = verG(a, i, l, top, "g", d); mc::eval(what); mc::beat(); return MC_CHECK(!acc, "gadget-2 accepted after change: ", what); });
            Gadget::Instance in2 = in; in2.ct = TE::Enc(pp.enc_part, in.pk, q(l - 1), q(rr + 1)); t = "g"; Gadget::Proof_type2 p2; Gadget::Prove(pp, in2, Lb, Rb, w, t, p2); for (int k = 0; k < 16; k++) { auto f = p2; if (k & 1) f.bullet_proof = p.bullet_proof; if (k & 2) f.ptke_proof = p.ptke_proof; if (k & 4) f.dlogeq_proof = p.dlogeq_proof; if (k & 8) f.refresh_ct = p.refresh_ct; MC_CHECK(!verG(pp, in2, l, top, "g", f), "out-of-interval ciphertext accepted with transplanted parts ", k); mc::eval(cat("tp", k)); }
            // a refreshed ciphertext that encrypts another value, with honest remaining parts
            for (Z d : {Z(1), Z(-1), Z(8)}) { Gadget::Proof_type2 f; Z rs = rz(); f.refresh_ct = TE::Enc(pp.enc_part, in2.pk, q(l - 1 + d), q(rs)); t = "g"; DLOGEquality::PP dp = DLOGEquality::Setup(); DLOGEquality::Instance di; di.g1 = pp.enc_part.g; di.h1 = in2.pk; di.g2 = f.refresh_ct.Y - in2.ct.Y; di.h2 = f.refresh_ct.X - in2.ct.X; DLOGEquality::Witness dw; dw.w = q(sk); f.dlogeq_proof = DLOGEquality::Prove(dp, di, dw, t); auto kp = PlaintextKnowledge::Setup(pp.enc_part); PlaintextKnowledge::Instance ki; ki.pk = in2.pk; ki.ct = f.refresh_ct; PlaintextKnowledge::Witness kw; kw.v = q(l - 1 + d); kw.r = q(rs); f.ptke_proof = PlaintextKnowledge::Prove(kp, ki, kw, t); Z vv = l - 1 + d; B::Instance bi; bi.C = {f.refresh_ct.Y - pp.bullet_part.h * toB(l), f.refresh_ct.Y}; B::Witness bw; bw.r = {q(rs), q(rs)}; bw.v = {q(vv - l), q(vv)}; B::Prove(pp.bullet_part, bi, bw, t, f.bullet_proof); MC_CHECK(!verG(pp, in2, l, top, "g", f), "refreshed ciphertext of another value accepted"); mc::eval(cat("rf", S(d))); } }
    }
    return mc::finish();
}
