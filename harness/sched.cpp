// C23: results of parallel regions under every schedule.  This program is compiled with access instrumentation
// (tsan.cpp); every scenario is re-executed from one frozen process image under enumerated schedules, and what it
// returns must be what the sequential schedule returns.
#include "mc.hpp"
#include "rt.hpp"
#include "tsan.hpp"
#include "crypto/setup.hpp"
#include "crypto/otp.hpp"
#include "filter/bloom_filter.hpp"
#include "pke/calculate_dlog.hpp"
#include "pke/elgamal.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "mpc/okvs/baxos.hpp"
#include "mpc/ot/naor_pinkas_ot.hpp"
#include "mpc/ot/alsz_ote.hpp"
#include "mpc/ot/iknp_ote.hpp"
#include "mpc/oprf/ote_oprf.hpp"
#include "mpc/oprf/ddh_oprf.hpp"
#include "mpc/rpmt/cwprf_mqrpmt.hpp"
#ifdef PLAIN
#include "mpc/rpmt/rrpke_mqrpmt.hpp"
#endif
#include "mpc/peqt/peqt_from_ddh.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/pso/mqrpmt_psi.hpp"
#include "mpc/pso/mqrpmt_psu.hpp"
#include "mpc/pso/mqrpmt_psi_card.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "mpc/pso/mqrpmt_private_id.hpp"
#include "party.hpp"
#include "sets.hpp"
#include "zutil.hpp"
using mc::cat; using namespace sets; using namespace zu;

struct Shm { ts::Plan plan; ts::Report rep; uint64_t len; char out[1 << 20]; };
static Shm* sh; static ts::Report* spare;
static ECPoint Gp(long k) { return ECPoint(generator) * BigInt(toB(Z(k))); }
static std::string h16(const std::string& s) { return mc::hex(s.data(), std::min<size_t>(s.size(), 24)) + cat("#", s.size(), ":", mc::fnv(s)); }
static std::string raw(const std::vector<block>& v) { return std::string((const char*)v.data(), 16 * v.size()); }
static std::string setof(std::vector<block> v) { std::vector<std::string> s; for (auto& b : v) s.push_back(bs(b)); std::sort(s.begin(), s.end()); std::string o; for (auto& x : s) o += x; return o; }
static std::string flat(const BV& v) { std::string o; for (auto& x : v) { o += cat(x.size(), ","); o.append(x.begin(), x.end()); } return o; }
template <class F> static std::string go(F f) { ts::enable(&sh->plan, &sh->rep); std::string r = f(); ts::disable(); return r; }

struct Scen { std::string name; bool two; bool teams; std::function<std::string(int)> run; };
static std::vector<Scen> scenarios()
{
    std::vector<Scen> v; auto L = [&](std::string n, std::function<std::string()> f, bool teams = true) { v.push_back({ n, false, teams, [f](int) { return f(); } }); };
    std::vector<size_t> lens{ 1, 2, 7, 8, 9, 17 }; if (mc::thorough()) lens = { 0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 33, 64 };
    for (size_t n : lens) {
        auto pts = [n](long o) { std::vector<ECPoint> p; for (size_t i = 0; i < n; i++) p.push_back(Gp(o + 3 * i)); return p; };
        auto nums = [n](long o) { std::vector<BigInt> p; for (size_t i = 0; i < n; i++) p.push_back(toB((Z(1) << 200) + Z(o + i))); return p; };
        auto show = [](const std::vector<ECPoint>& p) { std::string o; for (auto& q : p) o += q.ToByteString(); return o; };
        L(cat("points-add:", n), [=] { auto a = pts(1), b = pts(1000); std::vector<ECPoint> r; go([&] { r = ECPointVectorAdd(a, b); return ""; }); return show(r); });
        L(cat("points-scalar:", n), [=] { auto a = pts(1); BigInt s = toB(Z(123456789)); std::vector<ECPoint> r; go([&] { r = ECPointVectorScalar(a, s); return ""; }); return show(r); });
        L(cat("points-product:", n), [=] { auto a = pts(1); auto s = nums(5); std::vector<ECPoint> r; go([&] { r = ECPointVectorProduct(a, s); return ""; }); return show(r); });
        L(cat("random-points:", n), [=] { std::vector<ECPoint> r; go([&] { r = GenRandomECPointVector(n); return ""; }); std::set<std::string> s; bool on = true; for (auto& p : r) { s.insert(p.ToByteString()); on = on && p.IsOnCurve() && !p.IsAtInfinity(); } return cat(r.size(), " ", s.size(), " ", on); });
        L(cat("random-integers:", n), [=] { std::vector<BigInt> r; go([&] { r = GenRandomBigIntVectorLessThan(n, BigInt(order)); return ""; }); std::set<std::string> s; bool in = true; for (auto& p : r) { Z z = toZ(p); s.insert(S(z)); in = in && z >= 0 && z < N(); } return cat(r.size(), " ", s.size(), " ", in); });
        L(cat("xor:", n), [=] { std::string a(n, 'a'), b(n, 'b'), c; for (size_t i = 0; i < n; i++) { a[i] = i * 7; b[i] = 255 - i; } go([&] { c = XOR(a, b); return ""; }); return c; });
        L(cat("aes:", n), [=] { block k = blk(1, 2); AES::Key ek = AES::GenEncKey(k), dk = AES::DeriveDecKeyFromEncKey(ek); std::vector<block> a(n), b; for (size_t i = 0; i < n; i++) a[i] = blk(i, i * i); b = a; std::string o; go([&] { AES::ECBEnc(ek, a.data(), n); b = a; AES::ECBDec(dk, b.data(), n); return ""; }); return raw(a) + raw(b); });
    }
    L("x25519-xor", [] { EC25519Point a, b, c; for (int i = 0; i < 32; i++) { a.px[i] = i * 5; b.px[i] = 200 - i; } go([&] { c = a.XOR(b); return ""; }); return std::string((char*)c.px, 32); });
    // filters: several members hit the same byte of the table
    for (int sp : { 2, 4, 40 }) for (size_t n : { 1, 3, 9 }) { if (sp == 40 && n == 9 && !mc::thorough()) continue;
        L(cat("bloom-insert:", sp, ":", n), [=] { BloomFilter f(n, sp); std::vector<block> k; for (size_t i = 0; i < n; i++) k.push_back(blk(i, 77)); go([&] { if (n == 1) f.Insert(k[0]); else f.Insert(k); return ""; }); std::string o((const char*)f.bit_table.data(), f.bit_table.size()); return o + cat(" ", f.inserted_element_num); });
        L(cat("bloom-query:", sp, ":", n), [=] { BloomFilter f(n, sp); std::vector<block> k, q; for (size_t i = 0; i < n; i++) { k.push_back(blk(i, 77)); q.push_back(blk(i, 77 + i % 2)); } f.Insert(k); std::string o; go([&] { for (auto& b : q) o += f.Contain(b) ? '1' : '0'; for (auto c : f.Contain(q)) o += c ? '1' : '0'; return ""; }); return o; });
        L(cat("bloom-points:", sp, ":", n), [=] { BloomFilter f(n, sp); std::vector<ECPoint> k, q; for (size_t i = 0; i < n; i++) { k.push_back(Gp(i + 2)); q.push_back(Gp(i + 2 + (i % 2) * 50)); } std::string o; go([&] { f.Insert(k); for (auto c : f.Contain(q)) o += c ? '1' : '0'; return ""; }); return o + std::string((const char*)f.bit_table.data(), f.bit_table.size()) + cat(" ", f.inserted_element_num); });
        L(cat("bloom-x25519:", sp, ":", n), [=] { BloomFilter f(n, sp); std::vector<EC25519Point> k(n), q; for (size_t i = 0; i < n; i++) memset(k[i].px, 3 + i, 32); q = k; for (size_t i = 0; i < n; i += 2) q[i].px[3] ^= 9; std::string o; go([&] { f.Insert(k); for (auto c : f.Contain(q)) o += c ? '1' : '0'; return ""; }); return o + std::string((const char*)f.bit_table.data(), f.bit_table.size()) + cat(" ", f.inserted_element_num); });
        L(cat("bloom-strings:", sp, ":", n), [=] { BloomFilter f(n, sp); std::vector<std::string> k; for (size_t i = 0; i < n; i++) k.push_back(cat("key number ", i)); std::string o; go([&] { f.Insert(k); for (auto c : f.Contain(k)) o += c ? '1' : '0'; return ""; }); return o; });
    }
    // discrete logarithms: table construction, loading, and search with and without a solution
    L("dlog-build", [] { ECPoint g = Gp(1); std::string f = cat("t", getpid()); go([&] { BuildSaveTable(g, 12, 0, f); return ""; }); std::ifstream i(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {}); unlink(f.c_str()); return s; });
    for (long x : { 0L, 70L, 4095L, 5000L }) L(cat("dlog:", x), [x] { ECPoint g = Gp(1); std::string f = cat("t", getpid()); { std::string a; BuildSaveTable(g, 12, 0, f); } BigInt r; bool ok = false; ECPoint h = Gp(1) * BigInt(toB(Z(x))); go([&] { LoadTable(f, 12, 0); ok = ShanksDLOG(g, h, 12, 0, r); return ""; }); unlink(f.c_str()); return ok ? S(toZ(r)) : std::string("none"); });
    for (size_t n : { 9, 100, 300 }) for (int th : { 2, 3, 8 }) L(cat("baxos:", n, ":", th), [=] { std::vector<block> k(n), val(n), x(n); for (size_t i = 0; i < n; i++) { k[i] = blk(mc::mix(i), 5); val[i] = blk(i, mc::mix(i + 99)); } block sd = blk(3, 4); PRG::Seed s = PRG::SetSeed(&sd, 0); Baxos<gf_128> b(n, n / 3 + 1, 3, 40, &s); std::vector<block> out(b.bin_num * b.total_size, blk(0, 0)); go([&] { b.solve(k, val, out, nullptr, th); b.decode(k, x, out, th); return ""; }); bool same_ = same(x, val); return cat(same_, raw(x)); });
    for (size_t n : { 9, 60 }) for (int th : { 2, 3, 8 }) L(cat("baxos-random:", n, ":", th), [=] { std::vector<block> k(n), val(n), x(n); for (size_t i = 0; i < n; i++) { k[i] = blk(mc::mix(i), 5); val[i] = blk(i, mc::mix(i + 99)); } block sd = blk(3, 4); PRG::Seed s = PRG::SetSeed(&sd, 0), pr = PRG::SetSeed(&sd, 9); Baxos<gf_128> b(n, n / 3 + 1, 3, 40, &s); std::vector<block> out(b.bin_num * b.total_size, blk(0, 0)); go([&] { b.solve(k, val, out, &pr, th); b.decode(k, x, out, th); return ""; }); std::set<std::string> d; for (auto& o : out) d.insert(bs(o)); return cat(same(x, val), " ", d.size() == out.size()); });
    L("twisted-vector", [] { auto pp = TwistedExponentialElGamal::Setup(32, 7); std::vector<ECPoint> pk; for (int i = 0; i < 9; i++) pk.push_back(Gp(i + 2)); BigInt m = toB(Z(5)), r = toB(Z(777)); TwistedExponentialElGamal::MRCT c; go([&] { c = TwistedExponentialElGamal::Enc(pp, pk, m, r); return ""; }); std::string o = c.Y.ToByteString(); for (auto& x : c.vec_X) o += x.ToByteString(); return o; });

    // two-party protocols: one party follows the planned schedule, the other one the sequential schedule
    auto P2 = [&](std::string n, std::function<std::string(NetIO&, bool, const Pair&)> f, size_t lx, size_t ly) {
        for (int who = 0; who < 2; who++) v.push_back({ cat(n, who ? ":client" : ":server"), true, true, [=](int) {
            size_t nx = 1 << lx, ny = 1 << ly; Pair pr = make(nx, ny, pattern(nx, ny, 6, 3), 0, 2, 5);
            auto R = party::run([&](int role) { if (role == who) ts::enable(&sh->plan, &sh->rep); NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); std::string o = f(io, role == 0, pr); ts::disable(); return o; });
            if (!R.ok()) return cat("FAILED", R.why); return cat(R.out[0].size(), "|", R.out[0], "|", R.out[1]); } }); };
    P2("npot", [](NetIO& io, bool s, const Pair& p) { size_t m = p.X.size(); auto pp = NPOT::Setup(); auto a = p.X, b = p.Y; b.resize(m); std::vector<uint8_t> c(m); for (size_t i = 0; i < m; i++) c[i] = mc::mix(i) & 1; if (s) { NPOT::Send(io, pp, a, b, m); return std::string(); } auto r = NPOT::Receive(io, pp, c, m); bool ok = true; for (size_t i = 0; i < m; i++) ok = ok && !memcmp(&r[i], c[i] ? &b[i] : &a[i], 16); return cat(ok); }, 4, 4);
    auto ot = [&](std::string n, auto setup, auto send, auto recv) { P2(n, [=](NetIO& io, bool s, const Pair& p) { size_t m = p.X.size(); auto pp = setup(); auto a = p.X, b = p.Y; std::vector<uint8_t> c(m); for (size_t i = 0; i < m; i++) c[i] = mc::mix(i) & 1; if (s) { send(io, pp, a, b, m); return std::string(); } auto r = recv(io, pp, c, m); bool ok = true; for (size_t i = 0; i < m; i++) ok = ok && !memcmp(&r[i], c[i] ? &b[i] : &a[i], 16); return cat(ok); }, 7, 7); };
    ot("alsz", [] { return ALSZOTE::Setup(128); }, [](NetIO& io, ALSZOTE::PP& p, auto& a, auto& b, size_t m) { ALSZOTE::Send(io, p, a, b, m); }, [](NetIO& io, ALSZOTE::PP& p, auto& c, size_t m) { return ALSZOTE::Receive(io, p, c, m); });
    ot("iknp", [] { return IKNPOTE::Setup(128); }, [](NetIO& io, IKNPOTE::PP& p, auto& a, auto& b, size_t m) { IKNPOTE::Send(io, p, a, b, m); }, [](NetIO& io, IKNPOTE::PP& p, auto& c, size_t m) { return IKNPOTE::Receive(io, p, c, m); });
    auto one = [&](std::string n, auto setup, auto send, auto recv) { P2(n, [=](NetIO& io, bool s, const Pair& p) { size_t m = p.X.size(); auto pp = setup(); auto a = p.X; std::vector<uint8_t> c(m); for (size_t i = 0; i < m; i++) c[i] = mc::mix(i) & 1; if (s) { send(io, pp, a, m); return std::string(); } return setof(recv(io, pp, c, m)); }, 7, 7); };
    one("alsz-onesided", [] { return ALSZOTE::Setup(128); }, [](NetIO& io, ALSZOTE::PP& p, auto& a, size_t m) { ALSZOTE::OnesidedSend(io, p, a, m); }, [](NetIO& io, ALSZOTE::PP& p, auto& c, size_t m) { return ALSZOTE::OnesidedReceive(io, p, c, m); });
    one("iknp-onesided", [] { return IKNPOTE::Setup(128); }, [](NetIO& io, IKNPOTE::PP& p, auto& a, size_t m) { IKNPOTE::OnesidedSend(io, p, a, m); }, [](NetIO& io, IKNPOTE::PP& p, auto& c, size_t m) { return IKNPOTE::OnesidedReceive(io, p, c, m); });
    P2("alsz-bytes", [](NetIO& io, bool s, const Pair& p) { size_t m = p.X.size(); auto pp = ALSZOTE::Setup(128); BV x, y; for (size_t i = 0; i < m; i++) { x.push_back(B(33, i)); y.push_back(B(33, 255 - i)); } std::vector<uint8_t> c(m); for (size_t i = 0; i < m; i++) c[i] = mc::mix(i) & 1; if (s) { ALSZOTE::SendByteVector(io, pp, x, y, m); return std::string(); } auto r = ALSZOTE::ReceiveByteVector(io, pp, c, m); bool ok = r.size() == m; for (size_t i = 0; ok && i < m; i++) ok = r[i] == (c[i] ? y[i] : x[i]); return cat(ok); }, 7, 7);
    P2("alsz-bytes-onesided", [](NetIO& io, bool s, const Pair& p) { size_t m = p.X.size(); auto pp = ALSZOTE::Setup(128); BV x; for (size_t i = 0; i < m; i++) x.push_back(B(33, i)); std::vector<uint8_t> c(m); for (size_t i = 0; i < m; i++) c[i] = mc::mix(i) & 1; if (s) { ALSZOTE::OnesidedSendByteVector(io, pp, x, m); return std::string(); } auto r = ALSZOTE::OnesidedReceiveByteVector(io, pp, c, m); std::set<B> q(r.begin(), r.end()); bool ok = q.size() == r.size(); for (size_t i = 0; i < m; i++) ok = ok && (q.count(x[i]) == c[i]); return cat(ok, r.size()); }, 7, 7);
    P2("oteoprf", [](NetIO& io, bool s, const Pair& p) { auto X = p.X; auto pp = OTEOPRF::Setup(7, 40); if (s) { auto k = OTEOPRF::Server(io, pp); return flat(OTEOPRF::Evaluate(pp, k, X, X.size())); } return flat(OTEOPRF::Client(io, pp, X, X.size())); }, 7, 7);
    P2("ddhoprf", [](NetIO& io, bool s, const Pair& p) { auto X = p.X; auto pp = DDHOPRF::Setup(); size_t m = X.size(); std::vector<uint64_t> perm(m); for (size_t i = 0; i < m; i++) perm[i] = i; if (s) { auto k = DDHOPRF::Server(io, pp, perm, m); return flat(DDHOPRF::Evaluate(pp, k, X, m)); } return flat(DDHOPRF::Client(io, pp, X, m)); }, 4, 4);
    auto bits = [](const std::vector<uint8_t>& b) { std::string o; for (auto x : b) o += x ? '1' : '0'; return o; };
    P2("cwmqrpmt", [=](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = cwPRFmqRPMT::Setup(40, 4, 5); if (s) { std::string o = bits(cwPRFmqRPMT::Server(io, pp, Y));
#ifdef ONLY
        std::sort(o.begin(), o.end());      // shuffled answers
#endif
        return o; } cwPRFmqRPMT::Client(io, pp, X); return std::string(); }, 5, 4);
#ifdef PLAIN
    P2("rrmqrpmt", [=](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = rrPKEmqRPMT::Setup(40, 7, 5); if (s) { std::string o = bits(rrPKEmqRPMT::Server(io, pp, Y)); std::sort(o.begin(), o.end()); return o; } rrPKEmqRPMT::Client(io, pp, X); return std::string(); }, 5, 7);
#endif
    P2("cwpsi", [](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = cwPRFPSI::Setup(128, 40, 5, 4); if (!s) { cwPRFPSI::Send(io, pp, X); return std::string(); } return setof(cwPRFPSI::Receive(io, pp, Y)); }, 5, 4);
    P2("peqt", [=](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; if (s) { DDHPEQT::Send(io, Y, 4, 8); return std::string(); } std::string o = bits(DDHPEQT::Receive(io, X, 4, 8)); std::sort(o.begin(), o.end()); return o; }, 5, 5);
    P2("psi", [](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = mqRPMTPSI::Setup(128, 40, 7, 7); if (!s) { mqRPMTPSI::Send(io, pp, X); return std::string(); } return setof(mqRPMTPSI::Receive(io, pp, Y)); }, 7, 7);
    P2("psu", [](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = mqRPMTPSU::Setup(128, 40, 7, 7); if (!s) { mqRPMTPSU::Send(io, pp, X); return std::string(); } return setof(mqRPMTPSU::Receive(io, pp, Y)); }, 7, 7);
    P2("psu-bytes", [](NetIO& io, bool s, const Pair& p) { auto cv = [](const std::vector<block>& v) { BV o; for (auto& b : v) { B x((const uint8_t*)&b, (const uint8_t*)&b + 16); x.resize(24, 7); o.push_back(x); } return o; }; auto X = cv(p.X), Y = cv(p.Y); auto pp = mqRPMTPSU::Setup(128, 40, 7, 7); if (!s) { mqRPMTPSU::Send(io, pp, X, 24); return std::string(); } auto r = mqRPMTPSU::Receive(io, pp, Y, 24); std::sort(r.begin(), r.end()); return flat(r); }, 7, 7);
    P2("card", [](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = mqRPMTPSIcard::Setup(128, 40, 5, 5); if (!s) { mqRPMTPSIcard::Send(io, pp, X); return std::string(); } return cat(mqRPMTPSIcard::Receive(io, pp, Y)); }, 5, 5);
    P2("cardsum", [](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = mqRPMTPSIcardsum::Setup(128, 40, 7, 7, 32, 20); std::vector<BigInt> w; for (size_t i = 0; i < X.size(); i++) w.push_back(toB(Z((long)i * 1000 + 1))); if (!s) { auto [c, t] = mqRPMTPSIcardsum::Send(io, pp, X, w); return cat(c, " ", S(toZ(t))); } return cat(mqRPMTPSIcardsum::Receive(io, pp, Y)); }, 7, 7);
    P2("privateid", [](NetIO& io, bool s, const Pair& p) { auto X = p.X, Y = p.Y; auto pp = mqRPMTPrivateID::Setup(7, 128, 40, 7, 7); size_t len = pp.oprf_part.RANGE_SIZE; auto [u, own] = !s ? mqRPMTPrivateID::Send(io, pp, X, len) : mqRPMTPrivateID::Receive(io, pp, Y, len); std::set<B> a(own.begin(), own.end()), b(u.begin(), u.end()); size_t in = 0; for (auto& x : a) in += b.count(x); return cat(a.size(), " ", b.size(), " ", in); }, 7, 7);
    return v;
}

// ---------------------------------------------------------------- execution from a frozen image
static int go_[2], done_[2]; static pid_t zyg;
static void zygote(const Scen& s)
{
    if (pipe(go_) || pipe(done_)) _exit(3);
    zyg = fork();
    if (zyg) { close(go_[0]); close(done_[1]); return; }
    close(go_[1]); close(done_[0]); char c;
    while (read(go_[0], &c, 1) == 1) {
        pid_t p = fork();
        if (p == 0) { alarm(100); std::string o = s.run(0); sh->len = std::min(o.size(), sizeof sh->out); memcpy(sh->out, o.data(), sh->len); _exit(0); }
        int st = 0; waitpid(p, &st, 0); if (write(done_[1], &st, sizeof st) != sizeof st) _exit(0);
    }
    _exit(0);
}
static void unzygote() { close(go_[1]); close(done_[0]); int st; waitpid(zyg, &st, 0); }
struct Exec { int st; std::string out, bad; std::vector<ts::Point> pts; std::vector<uint64_t> gran; bool trunc; uint64_t regions, accesses; };
static std::vector<uint64_t> hot; static bool commute;
static Exec exec(int order, int team, const std::vector<ts::Point>& pre)
{
    memset(&sh->plan, 0, offsetof(ts::Plan, gran)); sh->plan.order = order; sh->plan.team = team; sh->plan.npoints = pre.size(); sh->plan.commute = commute; for (size_t i = 0; i < pre.size(); i++) sh->plan.p[i] = pre[i];
    sh->plan.ngran = std::min<size_t>(hot.size(), 4096); for (size_t i = 0; i < sh->plan.ngran; i++) sh->plan.gran[i] = hot[i]; sh->len = 0; memset(&sh->rep, 0, offsetof(ts::Report, gran)); sh->rep.bad[0] = 0;
    Exec e; if (write(go_[1], "g", 1) != 1 || read(done_[0], &e.st, sizeof e.st) != sizeof e.st) { e.st = -1; }
    e.out.assign(sh->out, sh->len); e.bad = sh->rep.bad; e.pts.assign(sh->rep.p, sh->rep.p + std::min<uint64_t>(sh->rep.npoints, 20000)); e.gran.assign(sh->rep.gran, sh->rep.gran + std::min<uint64_t>(sh->rep.newgran, 4096)); e.trunc = sh->rep.truncated; e.regions = sh->rep.regions; e.accesses = sh->rep.accesses;
    mc::beat(); mc::transition(); mc::note("schedules"); return e;
}
static std::string name(int order, int team, const std::vector<ts::Point>& p) { std::string s = cat("order ", order, ", team ", team ? cat(team) : std::string("default")); for (auto& x : p) s += cat(", region ", x.region, " thread ", x.fiber, " preempted before access ", x.ord, x.target < 0 ? std::string(" for all others") : cat(" for thread ", x.target)); return s; }
static Exec ref;
static bool judge(const Scen& s, const Exec& e, int order, int team, const std::vector<ts::Point>& p)
{
    mc::eval(name(order, team, p), e.regions > 0); mc::state(mc::fnv(cat(s.name, name(order, team, p))));
    if (!MC_CHECK(e.st == 0, s.name, ": ", WIFSIGNALED(e.st) ? cat("killed by signal ", WTERMSIG(e.st)) : cat("exit status ", WEXITSTATUS(e.st)), " under schedule ", name(order, team, p))) return false;
    if (!MC_CHECK(e.bad.empty(), s.name, ": ", e.bad, " (schedule ", name(order, team, p), ")")) return false;
    return MC_CHECK(e.out == ref.out, s.name, ": another result than the sequential execution under schedule ", name(order, team, p));
}
static uint64_t budget;
static bool explore(const Scen& s, int order, std::vector<ts::Point> pre, const std::vector<ts::Point>& pts, int bound)
{
    std::map<uint32_t, std::set<uint32_t>> who; for (auto& p : pts) who[p.region].insert(p.fiber);
    for (auto p : pts) { std::vector<int> tg{ -1 }; auto& w = who[p.region]; if (w.size() > 2) for (auto u : w) if (u != p.fiber) tg.push_back(u);
        for (int t : tg) { if (budget == 0 || mc::stop_now()) { mc::note("preemption_points_cut"); mc::S().truncated = true; return true; } budget--; p.target = t; auto q = pre; q.push_back(p); Exec e = exec(order, 0, q); if (!judge(s, e, order, 0, q)) return false; if (bound > 1 && !explore(s, order, q, e.pts, bound - 1)) return false; } }
    return true;
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize();
    sh = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (auto& s : scenarios()) for (int part = 0; part < 3; part++) {
#ifdef ONLY
        if (s.name.rfind(ONLY, 0) != 0) continue;
#endif
        if (!mc::begin(cat(s.name, part == 0 ? ":orders" : part == 1 ? ":preempt-forward" : ":preempt-backward"))) continue;
        mc::trace(); hot.clear(); commute = s.two; zygote(s); std::vector<ts::Point> none; bool ok = true;
        ref = exec(0, 0, none); ok = judge(s, ref, 0, 0, none); if (!ref.regions) mc::note("sequential_scenarios"); mc::note("accesses", ref.accesses); mc::note("regions", ref.regions);
        if (ok) { Exec e = ref; for (int it = 0; it < 6 && !e.gran.empty(); it++) { hot.insert(hot.end(), e.gran.begin(), e.gran.end()); e = exec(0, 0, none); if (!(ok = judge(s, e, 0, 0, none))) break; } mc::note("conflicting_words", hot.size()); if (e.trunc || hot.size() > 4096) mc::S().truncated = true; }
        if (ok && part == 0) { for (int o : { 1, 2, 3, 5 }) if (ok) ok = judge(s, exec(o, 0, none), o, 0, none); if (s.teams) for (int t : { 1, 2, 3, 5, 7 }) for (int o : { 0, 1 }) if (ok) ok = judge(s, exec(o, t, none), o, t, none); }
        if (ok && part) { int o = part - 1; Exec e = exec(o, 0, none); ok = judge(s, e, o, 0, none); budget = mc::thorough() ? 20000 : s.two ? 300 : 1500; mc::note("preemption_points", e.pts.size()); int bound = e.pts.size() <= (mc::thorough() ? 60 : 8) ? 2 : 1; if (ok) explore(s, o, {}, e.pts, bound); }
        unzygote();
    }
    return mc::finish();
}
