// C03: write / read back through file streams and parameter files.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "pke/elgamal.hpp"
#include "pke/exponential_elgamal.hpp"
#include "signature/schnorr.hpp"
#include "adcp/adcp.hpp"
#include "mpc/ot/naor_pinkas_ot.hpp"
#include "mpc/ot/alsz_ote.hpp"
#ifdef WITH_IKNP
#include "mpc/ot/iknp_ote.hpp"
#endif
#include "mpc/oprf/ddh_oprf.hpp"
#include "mpc/oprf/ote_oprf.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/rpmt/cwprf_mqrpmt.hpp"
#include "mpc/rpmt/rrpke_mqrpmt.hpp"
#include "mpc/pso/mqrpmt_psi.hpp"
#include "mpc/pso/mqrpmt_psu.hpp"
#include "mpc/pso/mqrpmt_psi_card.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "mpc/pso/mqrpmt_private_id.hpp"
#include "zutil.hpp"
using mc::cat; using namespace zu;

// ------------------------------------------------------------------ type-erased values
struct Item {
    std::string name; size_t count;                                             // number of alphabet values
    std::function<void(std::ofstream&, size_t)> put;
    std::function<std::string(std::ifstream&, size_t v, size_t dirty)> get;     // "" or what is wrong; the target first holds value `dirty`
    std::function<size_t(size_t)> len;                                          // fixed encoding length, 0 if unconstrained
};
static std::vector<Item> IT;
template <class X> struct Cmp { static bool eq(const X& a, const X& b) { return a == b; } };
static bool beq(const block& a, const block& b) { return memcmp(&a, &b, 16) == 0; }
template <> struct Cmp<block> { static bool eq(const block& a, const block& b) { return beq(a, b); } };
template <> struct Cmp<BigInt> { static bool eq(const BigInt& a, const BigInt& b) { return toZ(a) == toZ(b); } };
template <> struct Cmp<ECPoint> { static bool eq(const ECPoint& a, const ECPoint& b) { return rdp(a) == rdp(b) && a == b; } };
#ifdef ENABLE_X25519_ACCELERATION
template <> struct Cmp<EC25519Point> { static bool eq(const EC25519Point& a, const EC25519Point& b) { return memcmp(a.px, b.px, 32) == 0; } };
#endif
template <class X> struct Cmp<std::vector<X>> { static bool eq(const std::vector<X>& a, const std::vector<X>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!Cmp<X>::eq(a[i], b[i])) return false; return true; } };
#define E(f) Cmp<std::decay_t<decltype(a.f)>>::eq(a.f, b.f)
#define CMP(T, ...) template <> struct Cmp<T> { static bool eq(const T& a, const T& b) { return __VA_ARGS__; } };
CMP(AES::Key, memcmp(a.roundkey, b.roundkey, 176) == 0 && E(ROUND_NUM))
CMP(PRG::Seed, E(counter) && E(aes_key))
CMP(ElGamal::PP, E(g)) CMP(ElGamal::CT, E(X) && E(Y))
CMP(ExponentialElGamal::PP, E(g) && E(MSG_LEN) && E(TRADEOFF_NUM) && E(MSG_SIZE)) CMP(ExponentialElGamal::CT, E(X) && E(Y)) CMP(ExponentialElGamal::MRCT, E(X) && E(vec_Y))
CMP(TwistedExponentialElGamal::PP, E(g) && E(h) && E(MSG_LEN) && E(TRADEOFF_NUM) && E(MSG_SIZE)) CMP(TwistedExponentialElGamal::CT, E(X) && E(Y)) CMP(TwistedExponentialElGamal::MRCT, E(vec_X) && E(Y))
CMP(DLOGKnowledge::Proof, E(A) && E(z)) CMP(DLOGEquality::Proof, E(A1) && E(A2) && E(z)) CMP(PlaintextKnowledge::Proof, E(A) && E(B) && E(z1) && E(z2)) CMP(PlaintextEquality::Proof, E(vec_A) && E(B) && E(z) && E(t))
CMP(InnerProduct::Proof, E(vec_L) && E(vec_R) && E(a) && E(b)) CMP(Bullet::Proof, E(A) && E(S) && E(T1) && E(T2) && E(taux) && E(mu) && E(tx) && E(ip_proof))
CMP(Bullet::PP, E(RANGE_LEN) && E(LOG_RANGE_LEN) && E(MAX_AGG_NUM) && E(g) && E(h) && E(u) && E(vec_g) && E(vec_h))
CMP(Schnorr::PP, E(g)) CMP(Schnorr::SIG, E(A) && E(z))
CMP(NPOT::PP, E(g)) CMP(ALSZOTE::PP, E(malicious) && E(baseOT) && E(BASE_LEN))
#ifdef WITH_IKNP
CMP(IKNPOTE::PP, E(malicious) && E(baseOT) && E(BASE_LEN))
#endif
CMP(DDHOPRF::PP, E(KEY_SIZE) && E(RANGE_SIZE))
CMP(OTEOPRF::PP, E(KEY_SIZE) && E(RANGE_SIZE) && E(STATISTICAL_SECURITY_PARAMETER) && E(INPUT_NUM) && E(MATRIX_HEIGHT) && E(LOG_MATRIX_HEIGHT) && E(MATRIX_WIDTH) && E(BATCH_SIZE) && E(common_seed) && E(npot_part))
CMP(cwPRFPSI::PP, E(statistical_security_parameter) && E(computational_security_parameter) && E(LOG_SENDER_ITEM_NUM) && E(SENDER_ITEM_NUM) && E(LOG_RECEIVER_ITEM_NUM) && E(RECEIVER_ITEM_NUM) && E(TRUNCATE_LEN))
CMP(cwPRFmqRPMT::PP, E(statistical_security_parameter) && E(LOG_SERVER_LEN) && E(SERVER_LEN) && E(LOG_CLIENT_LEN) && E(CLIENT_LEN))
CMP(rrPKEmqRPMT::PP, E(statistical_security_parameter) && E(LOG_SERVER_LEN) && E(SERVER_LEN) && E(LOG_CLIENT_LEN) && E(CLIENT_LEN))
#define PSO E(ote_part) && E(mqrpmt_part) && E(LOG_SENDER_ITEM_NUM) && E(LOG_RECEIVER_ITEM_NUM) && E(SENDER_ITEM_NUM) && E(RECEIVER_ITEM_NUM)
CMP(mqRPMTPSI::PP, PSO) CMP(mqRPMTPSU::PP, PSO) CMP(mqRPMTPSIcard::PP, PSO) CMP(mqRPMTPSIcardsum::PP, PSO && E(LOG_SUM_BOUND) && E(LOG_VALUE_BOUND))
CMP(ADCP::PP, E(SN_LEN) && E(MAX_RECEIVER_NUM) && E(MAXIMUM_COINS) && E(bullet_part) && E(enc_part) && E(pka))
CMP(ADCP::SP, E(ska)) CMP(ADCP::Account, E(identity) && E(pk) && E(sk) && E(balance_ct) && E(m) && E(sn))
// the sender's balance is "not necessarily included" in the file of a transaction; it is not judged
CMP(ADCP::ToOneCTx, E(sn) && E(pks) && E(pkr) && E(transfer_ct) && E(plaintext_equality_proof) && E(bullet_right_solvent_proof) && E(refresh_sender_updated_balance_ct) && E(plaintext_knowledge_proof) && E(correct_refresh_proof))

// containers are sized by the reader in this library: give the target the shape of the source
template <class X> void shape(X&, const X&) {}
template <class X> void shape(std::vector<X>& t, const std::vector<X>& s) { t.resize(s.size()); }
static void shape(ExponentialElGamal::MRCT& t, const ExponentialElGamal::MRCT& s) { t.vec_Y.resize(s.vec_Y.size()); }
static void shape(TwistedExponentialElGamal::MRCT& t, const TwistedExponentialElGamal::MRCT& s) { t.vec_X.resize(s.vec_X.size()); }
static void shape(PlaintextEquality::Proof& t, const PlaintextEquality::Proof& s) { t.vec_A.resize(s.vec_A.size()); }
static void shape(InnerProduct::Proof& t, const InnerProduct::Proof& s) { t.vec_L.resize(s.vec_L.size()); t.vec_R.resize(s.vec_R.size()); }
static void shape(Bullet::Proof& t, const Bullet::Proof& s) { shape(t.ip_proof, s.ip_proof); }

template <class X> void reg(const std::string& name, std::vector<X> vals, size_t fixed = 0, size_t per = 0)
{
    auto V = std::make_shared<std::vector<X>>(std::move(vals));
    Item it; it.name = name; it.count = V->size();
    it.put = [V](std::ofstream& o, size_t i) { const X& v = (*V)[i]; if constexpr (std::is_same_v<X, void*>) (void)v; else { X w = v; o << w; } };
    it.get = [V, name](std::ifstream& f, size_t i, size_t d) { X t = (*V)[d]; shape(t, (*V)[i]); f >> t; return Cmp<X>::eq(t, (*V)[i]) ? std::string() : name + " value #" + std::to_string(i) + " read over value #" + std::to_string(d) + " came back different"; };
    it.len = [V, fixed, per](size_t) { return fixed; };
    (void)per;
    IT.push_back(it);
}

static std::vector<Z> ZV; static std::vector<Pt> PV;
static BigInt B(size_t i) { return toB(ZV[i % ZV.size()]); }
static ECPoint Q(size_t i) { return mk(PV[i % PV.size()]); }
static std::vector<ECPoint> QV(size_t n, size_t s) { std::vector<ECPoint> v; for (size_t i = 0; i < n; i++) v.push_back(Q(s + i)); return v; }
static std::vector<BigInt> BV(size_t n, size_t s) { std::vector<BigInt> v; for (size_t i = 0; i < n; i++) v.push_back(B(s + i)); return v; }

static const std::vector<size_t> SZ{0, 1, 9, 10, 11, 12, 13, 32, 40, 48, 49, 57, 64, 128, 255, 256, 300, 0x2020, 0x3030, 0x0a0d, 0xffff, 0x100000000ull, 0x2020202020202020ull, 0x3131313131313131ull, ~0ull};
static size_t Zs(size_t i) { return SZ[i % SZ.size()]; }

static ECPoint anyp(ECPoint*, size_t i) { return Q(i); }
#ifdef ENABLE_X25519_ACCELERATION
static EC25519Point anyp(EC25519Point*, size_t i) { EC25519Point p; for (int j = 0; j < 32; j++) p.px[j] = (uint8_t[]){0, 32, 48, 10, 255, 13, 9, 57, 1, 2, 127, 128}[(i + j / 16) % 12]; return p; }
#endif
template <class PPX> PPX pso(size_t i) { PPX p; p.ote_part.malicious = (uint8_t)Zs(i); p.ote_part.baseOT.g = Q(i + 1); p.ote_part.BASE_LEN = Zs(i + 1); p.mqrpmt_part = {Zs(i), Zs(i + 3), Zs(i + 5), Zs(i + 7), Zs(i + 2)}; p.LOG_SENDER_ITEM_NUM = Zs(i + 4); p.LOG_RECEIVER_ITEM_NUM = Zs(i + 6); p.SENDER_ITEM_NUM = Zs(i + 8); p.RECEIVER_ITEM_NUM = Zs(i + 9); return p; }
template <class F> auto gen(size_t n, F f) { std::vector<decltype(f(size_t(0)))> v; for (size_t i = 0; i < n; i++) v.push_back(f(i)); return v; }

static void registry()
{
    ZV = {0, 1, 2, 9, 10, 13, 32, 48, 57, 255, 256, 0x2020, 0x3030, 65535, N() - 1, N(), N() + 1, (Z(1) << 64) - 1, Z(1) << 64, (Z(1) << 128) - 1, Z(1) << 248, Z(1) << 255, (Z(1) << 256) - 1};
    { Z a = 0, b = 0, c = 0; for (int i = 0; i < 32; i++) { a = a * 256 + 0x20; b = b * 256 + 0x30 + i % 10; c = c * 256 + 0x0a; } ZV.push_back(a); ZV.push_back(b); ZV.push_back(c); }
    PV.push_back(Pt{}); PV[0] = mul(rdp(ECPoint(generator)), Z(0));
    for (int k = 1; k <= 20; k++) { PV.push_back(mul(rdp(ECPoint(generator)), Z(k))); if (k < 4) PV.push_back(mul(rdp(ECPoint(generator)), N() - k)); }
    reg<BigInt>("BigInt", gen(ZV.size(), B), BN_BYTE_LEN); reg<ECPoint>("ECPoint", gen(PV.size(), Q));
    reg<size_t>("size_t", SZ, 8);
    { std::vector<uint8_t> v; for (int i = 0; i < 256; i++) v.push_back(i); reg<uint8_t>("uint8_t", v, 1); }
    reg<int>("int", {0, 1, -1, 32, 48, 10, 0x20202020, 0x30303030, INT_MAX, INT_MIN}, 4); reg<uint32_t>("uint32_t", {0, 1, 32, 48, 10, 0x20202020, 0xffffffffu}, 4);
    reg<std::string>("string", {"", "a", " ", "0", std::string(1, 0), std::string("\n\0\t 0", 5), std::string(300, ' '), std::string(7, '1')});
    reg<std::vector<uint8_t>>("bytes", gen(20, [](size_t i) { std::vector<uint8_t> v; for (size_t j = 0; j < i; j++) v.push_back((uint8_t[]){0, 32, 48, 10, 255, 13}[(i + j) % 6]); return v; }));
    reg<std::vector<BigInt>>("BigInts", gen(6, [](size_t i) { return BV(i, i * 5); })); reg<std::vector<ECPoint>>("ECPoints", gen(6, [](size_t i) { return QV(i, i * 3); }));
    reg<block>("block", gen(20, [](size_t i) { return Block::MakeBlock(Zs(i), Zs(i + 2)); }), 16); reg<std::vector<block>>("blocks", gen(6, [](size_t i) { std::vector<block> v; for (size_t j = 0; j < i; j++) v.push_back(Block::MakeBlock(Zs(i + j), j)); return v; }));
#ifdef ENABLE_X25519_ACCELERATION
    reg<EC25519Point>("EC25519Point", gen(12, [](size_t i) { EC25519Point p; for (int j = 0; j < 32; j++) p.px[j] = (uint8_t[]){0, 32, 48, 10, 255, 13, 9, 57, 1, 2, 127, 128}[i]; return p; }), 32);
#endif
    reg<AES::Key>("AESKey", gen(6, [](size_t i) { return AES::GenEncKey(Block::MakeBlock(Zs(i), Zs(i + 5))); }), 184);
    reg<PRG::Seed>("Seed", gen(SZ.size(), [](size_t i) { block b = Block::MakeBlock(7, i); PRG::Seed s = PRG::SetSeed(&b, 0); s.counter = Zs(i); return s; }), 192);
    using EP = std::decay_t<decltype(ElGamal::PP().g)>; auto eq_ = [](size_t i) { return anyp((EP*)nullptr, i); };
    reg<ElGamal::PP>("ElGamal.PP", gen(4, [&](size_t i) { return ElGamal::PP{eq_(i)}; })); reg<ElGamal::CT>("ElGamal.CT", gen(8, [&](size_t i) { return ElGamal::CT{eq_(i), eq_(i * 3)}; }));
    reg<ExponentialElGamal::PP>("Exp.PP", gen(SZ.size(), [](size_t i) { ExponentialElGamal::PP p; p.g = Q(i + 1); p.MSG_LEN = Zs(i); p.TRADEOFF_NUM = Zs(i + 1); p.MSG_SIZE = B(i); return p; }));
    reg<ExponentialElGamal::CT>("Exp.CT", gen(8, [](size_t i) { return ExponentialElGamal::CT{Q(i), Q(i * 3)}; })); reg<ExponentialElGamal::MRCT>("Exp.MRCT", gen(5, [](size_t i) { ExponentialElGamal::MRCT c; c.X = Q(i); c.vec_Y = QV(i, i + 2); return c; }));
    reg<TwistedExponentialElGamal::PP>("Twisted.PP", gen(SZ.size(), [](size_t i) { TwistedExponentialElGamal::PP p; p.g = Q(i + 1); p.h = Q(i + 4); p.MSG_LEN = Zs(i); p.TRADEOFF_NUM = Zs(i + 1); p.MSG_SIZE = B(i); return p; }));
    reg<TwistedExponentialElGamal::CT>("Twisted.CT", gen(8, [](size_t i) { return TwistedExponentialElGamal::CT{Q(i), Q(i * 3)}; })); reg<TwistedExponentialElGamal::MRCT>("Twisted.MRCT", gen(5, [](size_t i) { TwistedExponentialElGamal::MRCT c; c.Y = Q(i); c.vec_X = QV(i, i + 2); return c; }));
    reg<DLOGKnowledge::Proof>("DLOGKnowledge", gen(8, [](size_t i) { DLOGKnowledge::Proof p; p.A = Q(i); p.z = B(i); return p; }));
    reg<DLOGEquality::Proof>("DLOGEquality", gen(8, [](size_t i) { DLOGEquality::Proof p; p.A1 = Q(i); p.A2 = Q(i + 1); p.z = B(i); return p; }));
    reg<PlaintextKnowledge::Proof>("PTK", gen(8, [](size_t i) { PlaintextKnowledge::Proof p; p.A = Q(i); p.B = Q(i + 1); p.z1 = B(i); p.z2 = B(i + 3); return p; }));
    reg<PlaintextEquality::Proof>("PTE", gen(6, [](size_t i) { PlaintextEquality::Proof p; p.vec_A = QV(i, i); p.B = Q(i + 1); p.z = B(i); p.t = B(i + 3); return p; }));
    auto ip = [](size_t i) { InnerProduct::Proof p; p.vec_L = QV(i, i); p.vec_R = QV(i, i + 2); p.a = B(i); p.b = B(i + 2); return p; };
    reg<InnerProduct::Proof>("InnerProduct", gen(5, ip));
    reg<Bullet::Proof>("Bullet", gen(5, [&](size_t i) { Bullet::Proof p; p.A = Q(i); p.S = Q(i + 1); p.T1 = Q(i + 2); p.T2 = Q(i + 3); p.taux = B(i); p.mu = B(i + 1); p.tx = B(i + 2); p.ip_proof = ip(i); return p; }));
    reg<Bullet::PP>("Bullet.PP", gen(5, [](size_t i) { Bullet::PP p; p.RANGE_LEN = (size_t[]){1, 2, 4, 8, 32}[i]; p.LOG_RANGE_LEN = i; p.MAX_AGG_NUM = 1 + i % 2; p.g = Q(1); p.h = Q(2); p.u = Q(i); p.vec_g = QV(p.RANGE_LEN * p.MAX_AGG_NUM, i); p.vec_h = QV(p.RANGE_LEN * p.MAX_AGG_NUM, i + 7); return p; }));
    reg<Schnorr::PP>("Schnorr.PP", gen(4, [](size_t i) { return Schnorr::PP{Q(i)}; })); reg<Schnorr::SIG>("Schnorr.SIG", gen(8, [](size_t i) { return Schnorr::SIG{Q(i), B(i)}; }));
    reg<NPOT::PP>("NPOT.PP", gen(4, [](size_t i) { NPOT::PP p; p.g = Q(i + 1); return p; }));
    reg<ALSZOTE::PP>("ALSZ.PP", gen(60, [](size_t i) { ALSZOTE::PP p; p.malicious = (uint8_t)Zs(i); p.baseOT.g = Q(1 + i); p.BASE_LEN = Zs(i / 2); return p; }));
#ifdef WITH_IKNP
    reg<IKNPOTE::PP>("IKNP.PP", gen(60, [](size_t i) { IKNPOTE::PP p; p.malicious = (uint8_t)Zs(i); p.baseOT.g = Q(1 + i); p.BASE_LEN = Zs(i / 2); return p; }));
#endif
    reg<DDHOPRF::PP>("DDHOPRF.PP", gen(SZ.size() * SZ.size(), [](size_t i) { return DDHOPRF::PP{Zs(i), Zs(i / SZ.size())}; }), 16);
    reg<OTEOPRF::PP>("OTEOPRF.PP", gen(20, [](size_t i) { OTEOPRF::PP p; p.KEY_SIZE = Zs(i); p.RANGE_SIZE = Zs(i + 1); p.STATISTICAL_SECURITY_PARAMETER = Zs(i + 2); p.INPUT_NUM = Zs(i + 3); p.MATRIX_HEIGHT = Zs(i + 4); p.LOG_MATRIX_HEIGHT = Zs(i + 5); p.MATRIX_WIDTH = Zs(i + 6); p.BATCH_SIZE = Zs(i + 7); block b = Block::MakeBlock(1, i); p.common_seed = PRG::SetSeed(&b, 0); p.common_seed.counter = Zs(i + 8); p.npot_part.g = Q(i + 1); return p; }));
    reg<cwPRFPSI::PP>("cwPRFPSI.PP", gen(SZ.size(), [](size_t i) { return cwPRFPSI::PP{Zs(i), Zs(i + 1), Zs(i + 2), Zs(i + 3), Zs(i + 5), Zs(i + 7), Zs(i + 11)}; }), 56);
    reg<cwPRFmqRPMT::PP>("cwPRFmqRPMT.PP", gen(SZ.size(), [](size_t i) { return cwPRFmqRPMT::PP{Zs(i), Zs(i + 1), Zs(i + 2), Zs(i + 3), Zs(i + 5)}; }), 40);
    reg<rrPKEmqRPMT::PP>("rrPKEmqRPMT.PP", gen(SZ.size(), [](size_t i) { return rrPKEmqRPMT::PP{Zs(i), Zs(i + 1), Zs(i + 2), Zs(i + 3), Zs(i + 5)}; }), 40);
    reg<mqRPMTPSI::PP>("PSI.PP", gen(20, pso<mqRPMTPSI::PP>)); reg<mqRPMTPSU::PP>("PSU.PP", gen(20, pso<mqRPMTPSU::PP>)); reg<mqRPMTPSIcard::PP>("card.PP", gen(20, pso<mqRPMTPSIcard::PP>));
    reg<mqRPMTPSIcardsum::PP>("cardsum.PP", gen(20, [](size_t i) { auto p = pso<mqRPMTPSIcardsum::PP>(i); p.LOG_SUM_BOUND = Zs(i + 12); p.LOG_VALUE_BOUND = Zs(i + 13); return p; }));
}

static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }

// write the sequence, then a tail; read it back over `dirty` targets; exact consumption
static void run(const std::vector<std::pair<size_t, size_t>>& seq, size_t dirty, const std::string& tail)
{
    std::string fn = "ser.tmp"; std::vector<long> pos;
    { std::ofstream o(fn, std::ios::binary); for (auto& s : seq) { IT[s.first].put(o, s.second); pos.push_back((long)o.tellp()); } o.write(tail.data(), tail.size()); }
    std::string raw = slurp(fn);
    std::ifstream f(fn, std::ios::binary); long last = 0;
    for (size_t k = 0; k < seq.size(); k++) {
        const Item& it = IT[seq[k].first]; std::string e = it.get(f, seq[k].second, dirty % it.count);
        if (!MC_CHECK(e.empty(), e, " (object ", k, " of the sequence)")) return;
        if (!MC_CHECK((long)f.tellg() == pos[k], it.name, ": reader consumed ", (long)f.tellg() - last, " bytes of ", pos[k] - last)) return;
        size_t L = it.len(seq[k].second); if (L) MC_CHECK(pos[k] - last == (long)L, it.name, ": encoding has ", pos[k] - last, " bytes instead of ", L);
        last = pos[k]; mc::transition();
    }
    std::string rest(raw.size(), 0); f.read(&rest[0], tail.size() + 1); rest.resize(f.gcount());
    MC_CHECK(rest == tail, "bytes after the sequence are not intact");
}

// parameter files
template <class PPX, class SF, class FF> void file_pp(const std::string& name, const std::vector<PPX>& V, SF save, FF fetch)
{
    for (size_t lo = 0; lo < V.size(); lo += 40) if (mc::begin(cat("file:", name, ":", lo)))
        for (size_t i = lo; i < V.size() && i < lo + 40; i++) for (size_t d = 0; d < V.size(); d += V.size() / 4 + 1) {
            PPX w = V[i]; save(w, "pp.tmp"); std::string a = slurp("pp.tmp"); MC_CHECK(Cmp<PPX>::eq(w, V[i]), "saving changed the object"); PPX t = V[d]; fetch(t, "pp.tmp");
            if (!MC_CHECK(Cmp<PPX>::eq(t, V[i]), name, " #", i, " fetched over #", d, " differs")) return;
            save(t, "pp2.tmp"); MC_CHECK(slurp("pp2.tmp") == a, name, ": file of the fetched object differs"); { PPX big = V[(i + 1) % V.size()]; save(big, "pp.tmp"); PPX u = V[d]; fetch(u, "pp.tmp"); MC_CHECK(Cmp<PPX>::eq(u, big), name, " #", i, ": overwriting an existing file"); }
            mc::eval(cat(i, ".", d)); mc::beat();
        }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); registry();
    const std::string tails[] = {std::string(), std::string(9, '0'), std::string(9, ' '), std::string("\n1 2\0\xff", 6)};
    for (size_t t = 0; t < IT.size(); t++) for (size_t lo = 0; lo < IT[t].count; lo += 32) if (mc::begin(cat("one:", IT[t].name, ":", lo)))
        for (size_t v = lo; v < IT[t].count && v < lo + 32; v++) { for (size_t d = 0; d < IT[t].count; d += IT[t].count > 40 ? IT[t].count / 13 : 1) for (auto& tl : tails) { run({{t, v}}, d, tl); mc::eval(cat(v, ".", d, tl)); } mc::beat(); }
    // all ordered pairs of types with several values, all ordered triples of types
    for (size_t a = 0; a < IT.size(); a++) for (size_t b = 0; b < IT.size(); b++) if (mc::begin(cat("seq:", IT[a].name, ",", IT[b].name))) {
        for (size_t x = 0; x < std::min<size_t>(IT[a].count, 10); x++) for (size_t y = 0; y < std::min<size_t>(IT[b].count, 10); y++) { run({{a, x * 7 % IT[a].count}, {b, y * 7 % IT[b].count}}, x + y, tails[(x + y) % 4]); mc::eval(cat(x, ".", y)); }
        mc::beat();
        for (size_t c = 0; c < IT.size(); c++) for (size_t v = 0; v < (mc::thorough() ? 6 : 1); v++) { run({{a, (v + 3) % IT[a].count}, {b, (v + 2) % IT[b].count}, {c, (v + 1) % IT[c].count}}, v, tails[v % 4]); mc::eval(cat("t", c, ".", v)); mc::trace(); }
        mc::beat();
    }
    // byte-string encodings: fixed length, injective, invertible
    if (mc::begin("bytes:BigInt")) { std::set<std::string> seen; for (size_t i = 0; i < ZV.size(); i++) { std::vector<unsigned char> b(BN_BYTE_LEN, 0xee); BigInt x = B(i); std::string s = x.ToByteString(); (void)b; MC_CHECK(toZ(x) == ZV[i], "ToByteString changed the value"); seen.insert(s); std::string f = S(ZV[i]); mc::eval(f); } MC_CHECK(seen.size() == ZV.size(), "two integers share one byte string"); }
    if (mc::begin("bytes:ECPoint")) { std::set<std::string> seen; size_t L = 0; for (size_t i = 1; i < PV.size(); i++) { ECPoint p = Q(i); std::string s = p.ToByteString(); if (!L) L = s.size(); MC_CHECK(s.size() == L, "encoding length ", s.size()); seen.insert(s); mc::eval(i); } MC_CHECK(seen.size() == PV.size() - 1, "two points share one byte string"); }
    if (mc::begin("bytes:ciphertexts")) { std::set<std::string> one, many; size_t n = 0, L = 0;
        for (size_t i = 1; i < PV.size(); i++) for (size_t j : { (size_t)1, i, PV.size() - i }) { ExponentialElGamal::CT c{Q(i), Q(j)}; std::string s = ExponentialElGamal::CTToByteString(c); if (!L) L = s.size(); MC_CHECK(s.size() == L, "ciphertext encoding length ", s.size()); one.insert(s);
            ExponentialElGamal::MRCT m; m.X = Q(i); m.vec_Y = { Q(j), Q(2), Q(i) }; std::string t = ExponentialElGamal::MRCTToByteString(m); MC_CHECK(t.size() == 2 * L, "multi-recipient encoding length ", t.size()); many.insert(t); std::swap(m.vec_Y[0], m.vec_Y[1]); if (j % PV.size() != 2) MC_CHECK(ExponentialElGamal::MRCTToByteString(m) != t, "two multi-recipient ciphertexts share one byte string"); mc::eval(cat(i, ",", j)); }
        std::set<std::pair<size_t, size_t>> pr; for (size_t i = 1; i < PV.size(); i++) for (size_t j : { (size_t)1, i, PV.size() - i }) pr.insert({ i, j }); n = pr.size();
        MC_CHECK(one.size() == n && many.size() == n, "two ciphertexts share one byte string"); }
    if (mc::begin("block-operators")) for (size_t n = 0; n <= 20; n++) for (size_t off = 0; off < 3; off++) { std::vector<block> v; for (size_t i = 0; i < n; i++) v.push_back(Block::MakeBlock(Zs(i + n), Zs(i))); block one = Block::MakeBlock(Zs(n), 7);
        { std::ofstream o("blk.tmp", std::ios::binary); o.write("xyz", off); Block::operator<<(o, one); Block::operator<<(o, v); o.write("end", 3); }
        std::ifstream f("blk.tmp", std::ios::binary); char b[4] = {0}; f.read(b, off); block r = Block::MakeBlock(1, 1); std::vector<block> w(n, r); Block::operator>>(f, r); Block::operator>>(f, w); f.read(b, 3);
        bool ok = !memcmp(&r, &one, 16) && !memcmp(b, "end", 3); for (size_t i = 0; i < n; i++) ok = ok && !memcmp(&v[i], &w[i], 16); MC_CHECK(ok, "block and vector of ", n, " blocks read back differently"); mc::eval(cat("b", n, ",", off)); }
    // parameter files
    auto ppd = gen(301, [](size_t i) { return DDHOPRF::PP{i, (i * 7) % 301}; }); file_pp<DDHOPRF::PP>("DDHOPRF", ppd, DDHOPRF::SavePP, DDHOPRF::FetchPP);
    file_pp<NPOT::PP>("NPOT", gen(8, [](size_t i) { NPOT::PP p; p.g = Q(i + 1); return p; }), NPOT::SavePP, NPOT::FetchPP);
    file_pp<ALSZOTE::PP>("ALSZOTE", gen(301, [](size_t i) { ALSZOTE::PP p; p.malicious = (uint8_t)(i % 60); p.baseOT.g = Q(1 + i % 9); p.BASE_LEN = i; return p; }), ALSZOTE::SavePP, ALSZOTE::FetchPP);
#ifdef WITH_IKNP
    file_pp<IKNPOTE::PP>("IKNPOTE", gen(301, [](size_t i) { IKNPOTE::PP p; p.malicious = (uint8_t)(i % 60); p.baseOT.g = Q(1 + i % 9); p.BASE_LEN = i; return p; }), IKNPOTE::SavePP, IKNPOTE::FetchPP);
#endif
    file_pp<OTEOPRF::PP>("OTEOPRF", gen(18, [](size_t i) { auto p = OTEOPRF::Setup(3 + i, 40 + i); p.KEY_SIZE = i * 16; return p; }), OTEOPRF::SavePP, OTEOPRF::FetchPP);
    file_pp<cwPRFPSI::PP>("cwPRFPSI", gen(64, [](size_t i) { return cwPRFPSI::Setup(128, 40 + i % 3, i % 8 + 4, i / 8 + 4); }), cwPRFPSI::SavePP, cwPRFPSI::FetchPP);
    file_pp<cwPRFmqRPMT::PP>("cwPRFmqRPMT", gen(64, [](size_t i) { return cwPRFmqRPMT::Setup(40 + i % 3, i % 8 + 4, i / 8 + 4); }), cwPRFmqRPMT::SavePP, cwPRFmqRPMT::FetchPP);
    file_pp<rrPKEmqRPMT::PP>("rrPKEmqRPMT", gen(64, [](size_t i) { return rrPKEmqRPMT::Setup(40 + i % 3, i % 8 + 4, i / 8 + 4); }), rrPKEmqRPMT::SavePP, rrPKEmqRPMT::FetchPP);
    file_pp<mqRPMTPSI::PP>("mqRPMTPSI", gen(64, [](size_t i) { return mqRPMTPSI::Setup(128, 40, i % 8 + 4, i / 8 + 4); }), mqRPMTPSI::SavePP, mqRPMTPSI::FetchPP);
    file_pp<mqRPMTPSU::PP>("mqRPMTPSU", gen(64, [](size_t i) { return mqRPMTPSU::Setup(128, 40, i % 8 + 4, i / 8 + 4); }), mqRPMTPSU::SavePP, mqRPMTPSU::FetchPP);
    file_pp<mqRPMTPSIcard::PP>("mqRPMTPSIcard", gen(64, [](size_t i) { return mqRPMTPSIcard::Setup(128, 40, i % 8 + 4, i / 8 + 4); }), mqRPMTPSIcard::SavePP, mqRPMTPSIcard::FetchPP);
    file_pp<mqRPMTPSIcardsum::PP>("mqRPMTPSIcardsum", gen(64, [](size_t i) { return mqRPMTPSIcardsum::Setup(128, 40, i % 8 + 4, i / 8 + 4, 8 * (1 + i % 4), 5 + i % 4); }), mqRPMTPSIcardsum::SavePP, mqRPMTPSIcardsum::FetchPP);
    // private-ID parameters: compared field by field on what the protocol reads
    for (size_t lo = 7; lo <= 10; lo++) for (size_t hi = 7; hi <= 10; hi++) if (mc::begin(cat("file:mqRPMTPrivateID:", lo, ".", hi))) {
        auto w = mqRPMTPrivateID::Setup(std::max(lo, hi), 128, 40, lo, hi); mqRPMTPrivateID::SavePP(w, "pp.tmp"); auto t = mqRPMTPrivateID::Setup(12, 128, 41, 9, 8); mqRPMTPrivateID::FetchPP(t, "pp.tmp");
        auto &a = w.oprf_part, &b = t.oprf_part;
        MC_CHECK(E(KEY_SIZE) && E(RANGE_SIZE) && E(STATISTICAL_SECURITY_PARAMETER) && E(INPUT_NUM) && E(okvs_bin_size) && E(okvs_output_size) && E(common_seed) && E(thread_num) && E(okvs.item_num) && E(okvs.bin_num) && E(okvs.total_size) && E(okvs.sparse_size) && E(okvs.seed), "OPRF part of the private-ID parameters differs");
        MC_CHECK(Cmp<mqRPMTPSU::PP>::eq(w.psu_part, t.psu_part) && w.LOG_SENDER_ITEM_NUM == t.LOG_SENDER_ITEM_NUM && w.LOG_RECEIVER_ITEM_NUM == t.LOG_RECEIVER_ITEM_NUM && w.SENDER_ITEM_NUM == t.SENDER_ITEM_NUM && w.RECEIVER_ITEM_NUM == t.RECEIVER_ITEM_NUM, "private-ID parameters differ"); mc::eval(1);
    }
    // ADCP files
    file_pp<ADCP::SP>("ADCP.SP", gen(ZV.size(), [](size_t i) { return ADCP::SP{B(i)}; }), ADCP::SaveSP, ADCP::FetchSP);
    file_pp<ADCP::PP>("ADCP.PP", gen(6, [](size_t i) { auto [p, s] = ADCP::Setup((size_t[]){12, 14, 16, 32, 16, 32}[i], (size_t[]){1, 3, 1, 1, 7, 3}[i], 4 + i % 2); p.pka = Q(i); p.MAXIMUM_COINS = B(i); return p; }), ADCP::SavePP, ADCP::FetchPP);
    file_pp<ADCP::ToOneCTx>("ADCP.CTx", gen(9, [](size_t i) { ADCP::ToOneCTx c; c.sn = B(i); c.sender_balance_ct = {Q(i + 3), Q(i + 4)}; c.pks = Q(i); c.pkr = Q(i + 1); c.transfer_ct.vec_X = {Q(i + 2), Q(i * 3), Q(i * 5)}; c.transfer_ct.Y = Q(i + 6);
        c.plaintext_equality_proof.vec_A = {Q(i * 7), Q(i + 5), Q(i * 2)}; c.plaintext_equality_proof.B = Q(i + 7); c.plaintext_equality_proof.z = B(i + 1); c.plaintext_equality_proof.t = B(i + 2);
        auto& b = c.bullet_right_solvent_proof; b.A = Q(i + 8); b.S = Q(i + 9); b.T1 = Q(i * 11); b.T2 = Q(i * 13); b.taux = B(i + 3); b.mu = B(i + 4); b.tx = B(i + 5); b.ip_proof.vec_L = {Q(i), Q(i + 2), Q(i + 4), Q(i + 6), Q(i * 9)}; b.ip_proof.vec_R = {Q(i + 1), Q(i + 3), Q(i + 5), Q(i + 7), Q(i * 4)}; b.ip_proof.a = B(i + 6); b.ip_proof.b = B(i + 7);
        c.refresh_sender_updated_balance_ct = {Q(i * 6), Q(i * 8)}; c.plaintext_knowledge_proof.A = Q(i + 10); c.plaintext_knowledge_proof.B = Q(i + 11); c.plaintext_knowledge_proof.z1 = B(i + 8); c.plaintext_knowledge_proof.z2 = B(i + 9);
        c.correct_refresh_proof.A1 = Q(i + 12); c.correct_refresh_proof.A2 = Q(i * 12); c.correct_refresh_proof.z = B(i + 10); return c; }), [](ADCP::ToOneCTx& c, std::string f) { ADCP::SaveCTx(c, f); }, ADCP::FetchCTx);
    file_pp<ADCP::Account>("ADCP.Account", gen(20, [](size_t i) { ADCP::Account a; a.identity = i == 3 ? "" : i == 4 ? std::string(200, ' ') : "Alice" + std::to_string(i); a.pk = Q(i); a.sk = B(i + 1); a.balance_ct = {Q(i + 2), Q(i * 5)}; a.m = B(i * 3); a.sn = B(i + 4); return a; }), ADCP::SaveAccount, ADCP::FetchAccount);
    return mc::finish();
}
