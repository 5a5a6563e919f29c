// C24: freshness of secrets. Every scheme and protocol role is executed in processes of its own whose system
// randomness (OpenSSL, random_device, start-up seeds) the harness owns while clocks stand still; runs that
// differ in the randomness of one party must differ in everything that party produces, and nothing that looks
// random may occur twice, within a run, across runs of one process, or across processes.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "pke/elgamal.hpp"
#include "pke/exponential_elgamal.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "signature/schnorr.hpp"
#include "signature/accountable_ring_sig.hpp"
#include "zkp/nizk/nizk_dlog_knowledge.hpp"
#include "zkp/nizk/nizk_dlog_equality.hpp"
#include "zkp/nizk/nizk_plaintext_knowledge.hpp"
#include "zkp/nizk/nizk_plaintext_equality.hpp"
#include "gadget/range_proof.hpp"
#include "adcp/adcp.hpp"
#include "mpc/ot/naor_pinkas_ot.hpp"
#include "mpc/ot/alsz_ote.hpp"
#include "mpc/ot/iknp_ote.hpp"
#include "mpc/oprf/ote_oprf.hpp"
#include "mpc/oprf/ddh_oprf.hpp"
#include "mpc/vole/vole.hpp"
#include "mpc/rpmt/cwprf_mqrpmt.hpp"
#ifdef PLAIN
#include "mpc/rpmt/rrpke_mqrpmt.hpp"
#endif
#include "mpc/peqt/peqt_from_ddh.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/pso/mqrpmt_psi.hpp"
#include "mpc/pso/mqrpmt_psu.hpp"
#include "mpc/pso/mqrpmt_psi_card.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "mpc/pso/mqrpmt_private_id.hpp"
#include "party.hpp"
#include "sets.hpp"
#include "zutil.hpp"
using mc::cat; using namespace sets; using namespace zu;
namespace TE = TwistedExponentialElGamal; namespace EE = ExponentialElGamal; namespace EG = ElGamal;

// clocks stand still while code under test runs: they are not a source of secrets
static bool frozen = false;
extern "C" time_t time(time_t* t) noexcept { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); time_t v = frozen ? 1700000000 : ts.tv_sec; if (t) *t = v; return v; }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (frozen) { ts.tv_sec = 1700000000; ts.tv_nsec = 0; } return time_point(std::chrono::nanoseconds(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); if (frozen) { ts.tv_sec = 5; ts.tv_nsec = 0; } return time_point(std::chrono::nanoseconds(ts.tv_sec * 1000000000ll + ts.tv_nsec)); }

typedef std::vector<std::pair<std::string, std::string>> Items;      // label, value
static std::string pb(const ECPoint& p) { return p.ToByteString(); }
static std::string nb(const BigInt& b) { std::string s = S(toZ(b)); return s; }
static std::string pb(const EC25519Point& p) { return std::string((const char*)p.px, 32); }
static std::string nb(const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); }
static ECPoint Gp(long k) { return mk(mul(rdp(ECPoint(generator)), md(Z(k), N()))); }

// ---------------------------------------------------------------- schemes used by one party
// labels: "n:" a nonce or key that must be unpredictable by itself, "v:" a value that must never repeat
static const char* LOCAL[] = {"random", "prg", "elgamal", "expelgamal", "twisted", "schnorr", "ringsig", "dlogk", "dleq", "ptk", "pteq", "encrel", "bullet", "innerproduct", "gadget", "adcp"};
static Items local(const std::string& n)
{
    Items o; auto V = [&](const std::string& l, const std::string& v) { o.push_back({"v:" + l, v}); }; auto Nn = [&](const std::string& l, const BigInt& b) { o.push_back({"n:" + l, nb(b)}); }; std::string t;
    auto te = TE::Setup(32, 7);
    if (n == "random") { Nn("integer", GenRandomBigIntLessThan(BigInt(order))); for (auto& b : GenRandomBigIntVectorLessThan(4, BigInt(order))) Nn("integers", b); V("point", pb(GenRandomECPoint())); for (auto& p : GenRandomECPointVector(4)) V("points", pb(p)); }
    if (n == "prg") { for (int i = 0; i < 3; i++) { PRG::Seed s = PRG::SetSeed(); for (auto& b : PRG::GenRandomBlocks(s, 5)) V("blocks", bs(b)); auto x = PRG::GenRandomBytes(s, 32); V("bytes", std::string(x.begin(), x.end())); x = PRG::GenRandomBits(s, 256); V("bits", std::string(x.begin(), x.end())); } }
    if (n == "elgamal") { auto pp = EG::Setup(); auto kp = EG::KeyGen(pp); auto pk = std::get<0>(kp); V("pk", pb(pk)); V("sk", nb(std::get<1>(kp)));
#ifdef PLAIN
        ECPoint m = Gp(5), fixed = Gp(77); for (int i = 0; i < 3; i++) { auto c = EG::Enc(pp, fixed, m); V("X", pb(c.X)); V("Y", pb(c.Y)); auto d = EG::ReRand(pp, fixed, c); V("X", pb(d.X)); V("Y", pb(d.Y)); }
#else
        for (int i = 0; i < 3; i++) { auto c = EG::Enc(pp, pp.g, pp.g); V("X", pb(c.X)); V("Y", pb(c.Y)); }
#endif
    }
    if (n == "expelgamal") { auto pp = EE::Setup(32, 7); auto kp = EE::KeyGen(pp); V("pk", pb(std::get<0>(kp))); Nn("sk", std::get<1>(kp)); BigInt m(5); ECPoint fixed = Gp(77); for (int i = 0; i < 3; i++) { auto c = EE::Enc(pp, fixed, m); V("X", pb(c.X)); V("Y", pb(c.Y)); auto d = EE::ReRand(pp, fixed, c); V("X", pb(d.X)); V("Y", pb(d.Y)); } }
    if (n == "twisted") { auto kp = TE::KeyGen(te); V("pk", pb(std::get<0>(kp))); Nn("sk", std::get<1>(kp)); BigInt m(5); ECPoint fixed = Gp(77); for (int i = 0; i < 3; i++) { auto c = TE::Enc(te, fixed, m); V("X", pb(c.X)); V("Y", pb(c.Y)); auto d = TE::ReRand(te, fixed, c); V("X", pb(d.X)); V("Y", pb(d.Y)); } }
    if (n == "schnorr") { auto pp = Schnorr::Setup(); auto kp = Schnorr::KeyGen(pp); V("pk", pb(std::get<0>(kp))); Nn("sk", std::get<1>(kp)); std::string m = "message"; BigInt z(bn_0), one(bn_1); for (int i = 0; i < 3; i++) { auto s = Schnorr::Sign(pp, one, m); V("A", pb(s.A)); V("z", nb(s.z)); s = Schnorr::Sign(pp, z, m); V("A", pb(s.A)); Nn("nonce", s.z); } }
    if (n == "ringsig") { auto x = AccountableRingSig::Setup(4); auto pp = std::get<0>(x); auto sp = std::get<1>(x); V("ek", pb(pp.ek)); Nn("dk", sp.dk); auto kp = AccountableRingSig::KeyGen(pp); V("vk", pb(std::get<0>(kp))); Nn("sk", std::get<1>(kp));
        std::vector<ECPoint> R; BigInt sk = toB(Z(1001)); for (int i = 0; i < 4; i++) R.push_back(pp.enc_part.g * toB(Z(1000 + i))); std::string m = "message"; for (int i = 0; i < 2; i++) { auto s = AccountableRingSig::Sign(pp, sk, R, m); V("ct.X", pb(s.ct_vk.X)); V("ct.Y", pb(s.ct_vk.Y)); V("B", pb(s.correct_encryption_proof.B)); V("A", pb(s.correct_encryption_proof.A)); V("C", pb(s.correct_encryption_proof.C)); V("D", pb(s.correct_encryption_proof.D)); V("z", nb(s.correct_encryption_proof.z)); V("zA", nb(s.correct_encryption_proof.zA)); V("zC", nb(s.correct_encryption_proof.zC)); for (auto& g : s.correct_encryption_proof.vec_G) { V("G.X", pb(g.X)); V("G.Y", pb(g.Y)); } } }
    // an all-zero witness turns every response into the nonce itself
    BigInt zero(bn_0), w = toB(Z("0x3b1f0d6a5c9e8f7a1234567890abcdef0fedcba987654321aabbccddeeff0011"));
    if (n == "dlogk") for (int i = 0; i < 4; i++) { auto pp = DLOGKnowledge::Setup(); DLOGKnowledge::Instance in; DLOGKnowledge::Witness x; x.w = i < 2 ? w : zero; in.g = Gp(3); in.h = in.g * x.w; t = "c"; auto p = DLOGKnowledge::Prove(pp, in, x, t); V("A", pb(p.A)); if (i < 2) V("z", nb(p.z)); else Nn("nonce", p.z); }
    if (n == "dleq") for (int i = 0; i < 4; i++) { auto pp = DLOGEquality::Setup(); DLOGEquality::Instance in; DLOGEquality::Witness x; x.w = i < 2 ? w : zero; in.g1 = Gp(3); in.g2 = Gp(5); in.h1 = in.g1 * x.w; in.h2 = in.g2 * x.w; t = "c"; auto p = DLOGEquality::Prove(pp, in, x, t); V("A1", pb(p.A1)); V("A2", pb(p.A2)); if (i < 2) V("z", nb(p.z)); else Nn("nonce", p.z); }
    if (n == "ptk") for (int i = 0; i < 4; i++) { auto pp = PlaintextKnowledge::Setup(te); PlaintextKnowledge::Instance in; PlaintextKnowledge::Witness x; x.r = i < 2 ? w : zero; x.v = i < 2 ? w : zero; in.pk = Gp(7); in.ct = TE::Enc(te, in.pk, x.v, x.r); t = "c"; auto p = PlaintextKnowledge::Prove(pp, in, x, t); V("A", pb(p.A)); V("B", pb(p.B)); if (i < 2) { V("z1", nb(p.z1)); V("z2", nb(p.z2)); } else { Nn("nonce a", p.z1); Nn("nonce b", p.z2); } }
    if (n == "pteq") for (int i = 0; i < 4; i++) { auto pp = PlaintextEquality::Setup(te); PlaintextEquality::Instance in; PlaintextEquality::Witness x; x.r = i < 2 ? w : zero; x.v = i < 2 ? w : zero; in.vec_pk = {Gp(7), Gp(9), Gp(11)}; in.ct = TE::Enc(te, in.vec_pk, x.v, x.r); t = "c"; auto p = PlaintextEquality::Prove(pp, in, x, t); for (auto& a : p.vec_A) V("A", pb(a)); V("B", pb(p.B)); if (i < 2) { V("z", nb(p.z)); V("t", nb(p.t)); } else { Nn("nonce a", p.z); Nn("nonce b", p.t); } }
    if (n == "encrel") { auto com = Pedersen::Setup(4); auto pp = EncRelation::Setup(com, te, 2); for (int i = 0; i < 2; i++) { EncRelation::Instance in; EncRelation::Witness x; x.l = 2; x.r = w; in.ek = Gp(77); for (int j = 0; j < 4; j++) { BigInt m = toB(Z(j == 2 ? 0 : j + 5)); in.vec_CT.push_back(TE::Enc(te, in.ek, m, x.r)); } t = "c"; auto p = EncRelation::Prove(pp, in, x, t); V("A", pb(p.A)); V("B", pb(p.B)); V("C", pb(p.C)); V("D", pb(p.D)); V("z", nb(p.z)); V("zA", nb(p.zA)); V("zC", nb(p.zC)); for (auto& f : p.vec_f) V("f", nb(f)); for (auto& g : p.vec_G) { V("G.X", pb(g.X)); V("G.Y", pb(g.Y)); } } }
    if (n == "bullet") { size_t L = 8, M = 2; auto pp = Bullet::Setup(L, M); for (int i = 0; i < 3; i++) { Bullet::Instance in; Bullet::Witness x; x.r = {w, w}; x.v = {toB(Z(3)), toB(Z(3))}; for (int j = 0; j < 2; j++) in.C.push_back(pp.g * x.r[j] + pp.h * x.v[j]); t = "c"; Bullet::Proof p; Bullet::Prove(pp, in, x, t, p); V("A", pb(p.A)); V("S", pb(p.S)); V("T1", pb(p.T1)); V("T2", pb(p.T2)); V("mu", nb(p.mu)); V("taux", nb(p.taux)); V("tx", nb(p.tx)); V("a", nb(p.ip_proof.a)); for (auto& q : p.ip_proof.vec_L) V("L", pb(q)); } }
    if (n == "gadget") { size_t L = 8, M = 2; auto bp = Bullet::Setup(L, M); auto pp = Gadget::Setup(te, bp); BigInt l(bn_0), r = toB(Z(256)), m = toB(Z(9)); for (int i = 0; i < 3; i++) { Gadget::Instance in; in.pk = Gp(7); in.ct = TE::Enc(te, in.pk, m, w); Gadget::Witness_type1 x; x.r = w; x.m = m; t = "c"; auto p = Gadget::Prove(pp, in, l, r, x, t); V("A", pb(p.ptke_proof.A)); V("B", pb(p.ptke_proof.B)); V("bpA", pb(p.bullet_proof.A)); V("bpS", pb(p.bullet_proof.S)); } }
    if (n == "adcp") { auto x = ADCP::Setup(16, 3, 4); auto pp = std::get<0>(x); auto sp = std::get<1>(x); V("pka", pb(pp.pka)); Nn("ska", sp.ska); BigInt b = toB(Z(10)), sn(bn_1), v = toB(Z(3)); auto A = ADCP::CreateAccount(pp, "A", b, sn), B = ADCP::CreateAccount(pp, "B", b, sn), C = ADCP::CreateAccount(pp, "C", b, sn), D = ADCP::CreateAccount(pp, "D", b, sn); for (auto* a : {&A, &B, &C, &D}) { V("pk", pb(a->pk)); Nn("sk", a->sk); }
        for (int i = 0; i < 2; i++) { auto c = ADCP::CreateCTx(pp, A, v, B.pk); for (auto& q : c.transfer_ct.vec_X) V("X", pb(q)); V("Y", pb(c.transfer_ct.Y)); V("refresh.X", pb(c.refresh_sender_updated_balance_ct.X)); V("refresh.Y", pb(c.refresh_sender_updated_balance_ct.Y)); V("A1", pb(c.correct_refresh_proof.A1)); V("A2", pb(c.correct_refresh_proof.A2)); V("kA", pb(c.plaintext_knowledge_proof.A)); V("eqB", pb(c.plaintext_equality_proof.B)); V("bpA", pb(c.bullet_right_solvent_proof.A));
            std::vector<BigInt> vv{v, v, v}; std::vector<ECPoint> pk{B.pk, C.pk, D.pk}; auto m = ADCP::CreateCTx(pp, A, vv, pk); V("sX", pb(m.sender_transfer_ct.X)); V("sY", pb(m.sender_transfer_ct.Y)); for (auto& c : m.vec_receiver_transfer_ct) { for (auto& q : c.vec_X) V("rX", pb(q)); V("rY", pb(c.Y)); } V("bal", pb(m.balance_proof.A)); V("mrX", pb(m.refresh_sender_updated_balance_ct.X)); ADCP::OpenPolicy op; op.v = v; auto j = ADCP::JustifyPolicy(pp, A, c, op); V("open.A1", pb(j.A1)); V("open.A2", pb(j.A2)); } }
    return o;
}

// ---------------------------------------------------------------- two-party protocols
// fresh: bit i = role i draws secrets of its own that show in what it sends; weak: parts of what role i sends may be
// determined by the other party's randomness alone (pads of an OT extension), so only some of it has to change with its own
struct Proto { const char* name; int fresh, weak; bool out0, out1; };
static std::string ser(const std::vector<block>& v) { return std::string((const char*)v.data(), 16 * v.size()); }
static const Proto PROTO[] = {
    {"npot", 3, 0, 0, 0}, {"alsz", 3, 1, 0, 0}, {"iknp", 3, 1, 0, 0}, {"alsz-onesided", 3, 1, 0, 0}, {"iknp-onesided", 3, 1, 0, 0}, {"alsz-bytes", 3, 1, 0, 0}, {"alsz-random", 3, 0, 1, 1}, {"iknp-random", 3, 0, 1, 1},
    {"oteoprf", 3, 0, 0, 1}, {"ddhoprf", 3, 0, 0, 1}, {"voleoprf", 3, 0, 0, 1}, {"vole", 3, 0, 1, 1}, {"cwmqrpmt", 3, 0, 0, 0}, {"cwpsi", 3, 0, 0, 0}, {"peqt", 3, 0, 0, 0},
    {"psi", 3, 2, 0, 0}, {"psu", 3, 2, 0, 0}, {"card", 3, 0, 0, 0}, {"cardsum", 3, 2, 0, 0}, {"privateid", 3, 2, 1, 1},
#ifdef PLAIN
    {"rrmqrpmt", 3, 0, 0, 0},
#endif
};
struct Run { std::string wire[2], out[2], why; bool ok = false; };
static Run protocol(const std::string& n, const uint64_t salt[2], int reps)
{
    size_t lg = 7, m = 1 << lg; Pair pr = make(m, m, pattern(m, m, 6, 3), 0, 2, 5); std::vector<block> same_(m, blk(0x1111, 0x2222)); std::vector<uint8_t> sel(m); for (size_t i = 0; i < m; i++) sel[i] = mc::mix(i) & 1;
    Run r; auto R = party::run([&](int role) {
        mc::sysrng().s = mc::mix(salt[role] * 2 + role); srand(1); frozen = true; NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); std::string o; bool s = role == 0;
        for (int q = 0; q < reps; q++) { auto X = pr.X, Y = pr.Y; auto a = same_, b = same_; auto c = sel;
            if (n == "npot") { auto p = NPOT::Setup(); if (s) NPOT::Send(io, p, a, b, m); else NPOT::Receive(io, p, c, m); }
            if (n.substr(0, 4) == "alsz") { auto p = ALSZOTE::Setup(128); if (n == "alsz") { if (s) ALSZOTE::Send(io, p, a, b, m); else ALSZOTE::Receive(io, p, c, m); } if (n == "alsz-onesided") { if (s) ALSZOTE::OnesidedSend(io, p, a, m); else ALSZOTE::OnesidedReceive(io, p, c, m); } if (n == "alsz-bytes") { BV x(m, B(33, 7)), y = x; if (s) ALSZOTE::SendByteVector(io, p, x, y, m); else ALSZOTE::ReceiveByteVector(io, p, c, m); } if (n == "alsz-random") { std::vector<block> k0(m), k1(m); if (s) { ALSZOTE::RandomSend(io, p, k0, k1, m); o += ser(k0) + ser(k1); } else { ALSZOTE::RandomReceive(io, p, k0, c, m); o += ser(k0); } } }
            if (n.substr(0, 4) == "iknp") { auto p = IKNPOTE::Setup(128); if (n == "iknp") { if (s) IKNPOTE::Send(io, p, a, b, m); else IKNPOTE::Receive(io, p, c, m); } if (n == "iknp-onesided") { if (s) IKNPOTE::OnesidedSend(io, p, a, m); else IKNPOTE::OnesidedReceive(io, p, c, m); } if (n == "iknp-random") { std::vector<block> k0(m), k1(m); if (s) { IKNPOTE::RandomSend(io, p, k0, k1, m); o += ser(k0) + ser(k1); } else { IKNPOTE::RandomReceive(io, p, k0, c, m); o += ser(k0); } } }
            auto flat = [&](const BV& v) { for (auto& x : v) o.append(x.begin(), x.end()); };
            if (n == "oteoprf") { auto p = OTEOPRF::Setup(lg, 40); if (s) OTEOPRF::Server(io, p); else flat(OTEOPRF::Client(io, p, X, m)); }
            if (n == "ddhoprf") { auto p = DDHOPRF::Setup(); std::vector<uint64_t> perm(m); for (size_t i = 0; i < m; i++) perm[i] = i; if (s) DDHOPRF::Server(io, p, perm, m); else flat(DDHOPRF::Client(io, p, X, m)); }
            if (n == "voleoprf") { auto p = VOLEOPRF::Setup(lg); if (s) VOLEOPRF::Server(io, p); else flat(VOLEOPRF::Client(io, p, X, m)); }
            if (n == "vole") { std::vector<block> u, v; if (s) { u = VOLE::VOLE_A(io, 512, v, 128); o += ser(u) + ser(v); } else { VOLE::VOLE_B(io, 512, v, blk(77, 88), 128); o += ser(v); } }
            if (n == "cwmqrpmt") { auto p = cwPRFmqRPMT::Setup(40, lg, lg); if (s) cwPRFmqRPMT::Server(io, p, Y); else cwPRFmqRPMT::Client(io, p, X); }
#ifdef PLAIN
            if (n == "rrmqrpmt") { auto p = rrPKEmqRPMT::Setup(40, lg, lg); if (s) rrPKEmqRPMT::Server(io, p, Y); else rrPKEmqRPMT::Client(io, p, X); }
#endif
            if (n == "cwpsi") { auto p = cwPRFPSI::Setup(128, 40, lg, lg); if (!s) cwPRFPSI::Send(io, p, X); else cwPRFPSI::Receive(io, p, Y); }
            if (n == "peqt") { if (s) { auto perm = DDHPEQT::Send(io, Y, 8, 16); } else DDHPEQT::Receive(io, X, 8, 16); }
            if (n == "psi") { auto p = mqRPMTPSI::Setup(128, 40, lg, lg); if (!s) mqRPMTPSI::Send(io, p, X); else mqRPMTPSI::Receive(io, p, Y); }
            if (n == "psu") { auto p = mqRPMTPSU::Setup(128, 40, lg, lg); if (!s) mqRPMTPSU::Send(io, p, X); else mqRPMTPSU::Receive(io, p, Y); }
            if (n == "card") { auto p = mqRPMTPSIcard::Setup(128, 40, lg, lg); if (!s) mqRPMTPSIcard::Send(io, p, X); else mqRPMTPSIcard::Receive(io, p, Y); }
            if (n == "cardsum") { auto p = mqRPMTPSIcardsum::Setup(128, 40, lg, lg, 32, 20); std::vector<BigInt> v(m, BigInt(toB(Z(5)))); if (!s) mqRPMTPSIcardsum::Send(io, p, X, v); else mqRPMTPSIcardsum::Receive(io, p, Y); }
            if (n == "privateid") { auto p = mqRPMTPrivateID::Setup(lg, 128, 40, lg, lg); size_t L = p.oprf_part.RANGE_SIZE; auto [u, own] = !s ? mqRPMTPrivateID::Send(io, p, X, L) : mqRPMTPrivateID::Receive(io, p, Y, L); for (auto& b : own) o.append(b.begin(), b.end()); }
        }
        return o; });
    r.ok = R.ok(); r.why = R.why; for (int i = 0; i < 2; i++) { r.wire[i] = R.wire[i]; r.out[i] = R.out[i]; } return r;
}

// ---------------------------------------------------------------- processes of their own
static void put1(FILE* f, const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static bool get1(FILE* f, std::string& s) { uint64_t n; if (fread(&n, 8, 1, f) != 1 || n > (1ull << 30)) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; }
static int probe(char** a)
{   // --probe kind name salt0 salt1 reps file
    std::string kind = a[2], name = a[3]; uint64_t salt[2] = {strtoull(a[4], 0, 10), strtoull(a[5], 0, 10)}; int reps = atoi(a[6]); std::vector<std::string> out;
    mc::install_rng(); if (!freopen("/dev/null", "w", stdout)) {} std::cout.setstate(std::ios::badbit); std::cerr.setstate(std::ios::badbit);
    CRYPTO_Initialize();
    if (kind == "local") { mc::sysrng().s = mc::mix(salt[0]); srand(1); frozen = true; for (int q = 0; q < reps; q++) for (auto& i : local(name)) { out.push_back(i.first); out.push_back(i.second); } }
    else { Run r = protocol(name, salt, reps); if (!r.ok) return 4; out = {r.wire[0], r.wire[1], r.out[0], r.out[1]}; }
    FILE* f = fopen(a[7], "wb"); if (!f) return 5; for (auto& s : out) put1(f, s); fclose(f); fflush(nullptr); _exit(0);
}
static std::string fileno_; 
static bool launch(const std::string& kind, const std::string& name, uint64_t init, uint64_t s0, uint64_t s1, int reps, std::vector<std::string>& out)
{
    static int cnt = 0; std::string f = cat("probe", getpid(), "-", cnt++, ".bin"), dir = cat("d", getpid(), "-", cnt); mkdir(dir.c_str(), 0700); f = dir + "/" + f; out.clear(); mc::beat(); mc::transition(reps);
    std::vector<std::string> av{"/proc/self/exe", "--probe", kind, name, std::to_string(s0), std::to_string(s1), std::to_string(reps), "out.bin"}; pid_t p = fork();
    if (p == 0) { setenv("MC_SALT", std::to_string(init).c_str(), 1); char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); if (k <= 0 || chdir(dir.c_str())) _exit(6); exe[k] = 0; std::vector<char*> v; for (auto& s : av) v.push_back(&s[0]); v.push_back(nullptr); execv(exe, v.data()); _exit(7); }
    int st = 0; waitpid(p, &st, 0); bool ok = st == 0; FILE* h = fopen((dir + "/out.bin").c_str(), "rb"); if (h) { std::string s; while (get1(h, s)) out.push_back(s); fclose(h); } else ok = false;
    std::string cmd = "exec /bin/rm -r " + dir; if (system(cmd.c_str())) {} return ok;
}
static bool rich(const char* p) { bool seen[256] = {}; int d = 0; for (int i = 0; i < 16; i++) if (!seen[(uint8_t)p[i]]) { seen[(uint8_t)p[i]] = true; d++; } return d >= 10; }
typedef std::unordered_map<uint64_t, size_t> Win;
static long repeats(const std::string& s) { Win w; for (size_t i = 0; i + 16 <= s.size(); i++) if (rich(&s[i])) { auto r = w.emplace(mc::fnv(&s[i], 16), i); if (!r.second && r.first->second + 16 <= i) return (long)i; } return -1; }
static long common(const std::string& a, const std::string& b) { Win w; for (size_t i = 0; i + 16 <= a.size(); i++) if (rich(&a[i])) w.emplace(mc::fnv(&a[i], 16), i); for (size_t i = 0; i + 16 <= b.size(); i++) if (rich(&b[i]) && w.count(mc::fnv(&b[i], 16))) return (long)i; return -1; }

int main(int argc, char** argv)
{
    if (argc == 8 && std::string(argv[1]) == "--probe") return probe(argv);
    mc::init(argc, argv); CRYPTO_Initialize(); int pairs = mc::thorough() ? 4 : 2;
    for (auto* n : LOCAL) for (int k = 0; k < pairs; k++) if (mc::begin(cat("local:", n, ":", k))) {
        std::vector<std::string> a, b; if (!MC_CHECK(launch("local", n, 1, 100 + 2 * k, 0, 2, a) && launch("local", n, 1, 101 + 2 * k, 0, 2, b), n, ": does not complete")) continue;
        std::map<std::string, std::string> seen; size_t longest = 0; bool nonces = false; int run = 0;
        for (auto* v : {&a, &b}) { for (size_t i = 0; i + 1 < v->size(); i += 2) { mc::eval(cat(run, i)); auto r = seen.emplace((*v)[i + 1], (*v)[i]); MC_CHECK(r.second, n, ": ", (*v)[i].substr(2), " repeats a value drawn before (", r.first->second.substr(2), run ? ", possibly in another process)" : ")"); if ((*v)[i][0] == 'n') { nonces = true; longest = std::max(longest, (*v)[i + 1].size()); } } run++; }
        if (nonces) MC_CHECK(longest >= 70, n, ": keys and nonces are drawn from a small range (", longest, " decimal digits at most)"); mc::trace(2); mc::state(mc::fnv(cat(n, k))); }
    for (auto& p : PROTO) for (int k = 0; k < pairs; k++) if (mc::begin(cat("proto:", p.name, ":", k))) {
        std::string n = p.name; std::vector<std::string> base, srv, cli, proc; uint64_t s = 1000 + 10 * k;
        if (!MC_CHECK(launch("proto", n, 1, s, s, 2, base) && launch("proto", n, 1, s + 1, s, 1, srv) && launch("proto", n, 1, s, s + 1, 1, cli) && launch("proto", n, 2, s + 2, s + 2, 1, proc), n, ": does not complete")) continue;
        const char* RN[] = {"server", "client"}; mc::trace(4);
        for (int i = 0; i < 2; i++) { bool fresh = p.fresh >> i & 1; long at; mc::eval(i); mc::state(mc::fnv(cat(n, k, i)));
            if (fresh) { at = repeats(base[i]); MC_CHECK(at < 0, n, ": the ", RN[i], " sends the same blinded bytes twice in two runs of one process (offset ", at, ")"); auto& own = i == 0 ? srv : cli; bool weak = p.weak >> i & 1; at = weak ? (base[i].compare(0, own[i].size(), own[i]) == 0 ? 0 : -1) : common(base[i], own[i]); MC_CHECK(at < 0, n, ": the ", RN[i], " sends the same blinded bytes although its randomness is new (offset ", at, ")"); at = common(base[i], proc[i]); MC_CHECK(at < 0, n, ": two processes of the ", RN[i], " send the same blinded bytes (offset ", at, ")"); }
            if (i == 0 ? p.out0 : p.out1) { at = repeats(base[2 + i]); MC_CHECK(at < 0, n, ": random outputs of the ", RN[i], " repeat (offset ", at, ")"); at = common(base[2 + i], proc[2 + i]); MC_CHECK(at < 0, n, ": random outputs of the ", RN[i], " are the same in two processes"); MC_CHECK(base[2 + i].size() > 64, n, ": no outputs"); } } }
    return mc::finish();
}
