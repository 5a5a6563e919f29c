// C21 (ADCP_LEDGER): the confidential-payment ledger against a plain ledger, over transaction histories,
//      single- and multi-component tampering, and malicious senders that break one rule at a time.
// C22 (ADCP_AUDIT): supervision and audit policies against the hidden amounts.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "gadget/range_proof.hpp"
#include "zkp/nizk/nizk_plaintext_equality.hpp"
#include "zkp/nizk/nizk_plaintext_knowledge.hpp"
#include "zkp/nizk/nizk_dlog_equality.hpp"
#include "zkp/nizk/nizk_dlog_knowledge.hpp"
#include "zutil.hpp"
#include "subst.hpp"
using mc::cat; using namespace zu; using subst::comps;
namespace TE = TwistedExponentialElGamal;
static BigInt q(const Z& z) { return toB(md(z, N())); }

// A malicious sender runs the library's own transaction builder, but the ciphertexts it produces pass through
// these hooks first.  fired counts the interventions: an attack that never intervened is not judged.
struct Evil {
    int mode = 0; Z k = 0; long which = 0; Z sk = 0, rsk = 0; Z refresh_m = 0; bool off = true; long nct = 0, nmr = 0, fired = 0; ECPoint* fixY = nullptr; Z fixv = 0;
};
static Evil* evil = nullptr;
enum { NONE, MR_X, MR_Y, CT_X, CT_V, RE_SHIFT, RE_MALFORM, RE_FIXED };
namespace TwistedExponentialElGamal {
static void hookMR(const PP& pp, MRCT& c)
{
    if (!evil) return; long i = evil->nmr++; if (evil->mode == MR_X && i == evil->which / 10) { size_t x = evil->which % 10; if (x < c.vec_X.size()) { c.vec_X[x] = c.vec_X[x] + pp.h * q(evil->k * evil->rsk); evil->fired++; } }
    if (evil->mode == MR_Y && i == evil->which) { c.Y = c.Y + pp.h * q(evil->k); evil->fired++; }
}
static void hookCT(const PP& pp, CT& c)
{
    if (!evil) return; long i = evil->nct++; if (i) return; if (evil->mode == CT_X) { c.X = c.X + pp.h * q(evil->k * evil->sk); evil->fired++; }
    if (evil->mode == CT_V) { c.Y = c.Y + pp.h * q(evil->k); *evil->fixY = c.Y; evil->fired++; }
}
template <class... T> CT spyEnc(const PP& pp, const ECPoint& pk, T&&... a) { CT c = Enc(pp, pk, std::forward<T>(a)...); hookCT(pp, c); return c; }
template <class... T> MRCT spyEnc(const PP& pp, const std::vector<ECPoint>& pk, T&&... a) { MRCT c = Enc(pp, pk, std::forward<T>(a)...); hookMR(pp, c); return c; }
static CT spyReEnc(const PP& pp, const ECPoint& pk, const BigInt& sk, const CT& ct, const BigInt& r)
{
    CT c = ReEnc(pp, pk, sk, ct, r); if (!evil) return c;
    if (evil->mode == RE_SHIFT) { c.Y = c.Y + pp.h * q(evil->k); evil->fired++; }
    if (evil->mode == RE_MALFORM) { c.X = c.X + pp.h * q(evil->k * evil->sk); c.Y = c.Y + pp.h * q(evil->k); evil->fired++; }
    if (evil->mode == RE_FIXED) { c.X = pk * r; c.Y = pp.g * r + pp.h * q(evil->refresh_m); evil->fired++; }
    return c;
}
}
namespace PlaintextKnowledge { static Proof spyProve(PP& pp, Instance& i, Witness w, std::string& t) { if (evil && evil->mode == CT_V && evil->fixY && i.ct.Y == *evil->fixY) w.v = q(evil->fixv); return Prove(pp, i, w, t); } }
#define FORWARD(NS) namespace NS { template <class... T> auto spyProve(T&&... a) { return Prove(std::forward<T>(a)...); } }
FORWARD(PlaintextEquality) FORWARD(DLOGEquality) FORWARD(DLOGKnowledge) FORWARD(Bullet) FORWARD(Gadget)
#define Enc spyEnc
#define ReEnc spyReEnc
#define Prove spyProve
#include "adcp/adcp.hpp"
#undef Enc
#undef ReEnc
#undef Prove
using namespace ADCP;

static const int NACC = 4; static const char* NAME[NACC] = {"A", "B", "C", "D"};
static const int RLEN = 16;
struct Sys { PP pp; SP sp; };
static Sys mksys() { Sys s; std::tie(s.pp, s.sp) = Setup(RLEN, 3, 4); s.pp.enc_part.TRADEOFF_NUM = 1; Initialize(s.pp); return s; }
struct World { std::vector<Account> a; };
static World mkworld(Sys& s, const std::vector<long>& bal) { World w; for (int i = 0; i < NACC; i++) { BigInt b = toB(Z(bal[i])), sn = toB(Z(i + 1)); w.a.push_back(CreateAccount(s.pp, NAME[i], b, sn)); } return w; }
static bool same(const Account& x, const Account& y) { return x.identity == y.identity && x.pk == y.pk && toZ(x.sk) == toZ(y.sk) && x.balance_ct.X == y.balance_ct.X && x.balance_ct.Y == y.balance_ct.Y && toZ(x.m) == toZ(y.m) && toZ(x.sn) == toZ(y.sn); }
static bool same(const World& x, const World& y) { for (int i = 0; i < NACC; i++) if (!same(x.a[i], y.a[i])) return false; return true; }
static bool holds(Sys& s, const Account& a, const Z& v) { return a.balance_ct.Y - a.balance_ct.X * toB(inv(toZ(a.sk), N())) == s.pp.enc_part.h * q(v); }
static ToOneCTx one(Sys& s, Account acct, const Z& v, ECPoint pkr) { BigInt b = toB(v); mc::transition(); return CreateCTx(s.pp, acct, b, pkr); }
static ToManyCTx many(Sys& s, Account acct, const std::vector<Z>& v, std::vector<ECPoint> pkr) { std::vector<BigInt> b; for (auto& x : v) b.push_back(toB(x)); mc::transition(); return CreateCTx(s.pp, acct, b, pkr); }
static bool mine(Sys& s, World& w, ToOneCTx c, int from, int to) { mc::transition(); return Miner(s.pp, c, w.a[from], w.a[to]); }
static bool mine(Sys& s, World& w, ToManyCTx c, int from, const std::vector<int>& to)
{ std::vector<Account> r; for (int t : to) r.push_back(w.a[t]); mc::transition(); bool ok = Miner(s.pp, c, w.a[from], r); for (size_t i = 0; i < to.size() && i < r.size(); i++) w.a[to[i]] = r[i]; return ok; }
template <class C> static bool ver(Sys& s, C c) { mc::transition(); return VerifyCTx(s.pp, c); }
static void list1(comps& c, PP&, ToOneCTx& t, int&)
{
    c.sc("sn", t.sn); c.pt("sender_balance.X", t.sender_balance_ct.X); c.pt("sender_balance.Y", t.sender_balance_ct.Y); c.pt("pks", t.pks); c.pt("pkr", t.pkr);
    for (size_t i = 0; i < t.transfer_ct.vec_X.size(); i++) c.pt(cat("transfer.X", i), t.transfer_ct.vec_X[i]); c.pt("transfer.Y", t.transfer_ct.Y);
    auto& e = t.plaintext_equality_proof; for (size_t i = 0; i < e.vec_A.size(); i++) c.pt(cat("eq.A", i), e.vec_A[i]); c.pt("eq.B", e.B); c.sc("eq.z", e.z); c.sc("eq.t", e.t);
    auto& b = t.bullet_right_solvent_proof; c.pt("bp.A", b.A); c.pt("bp.S", b.S); c.pt("bp.T1", b.T1); c.pt("bp.T2", b.T2); c.sc("bp.taux", b.taux); c.sc("bp.mu", b.mu); c.sc("bp.tx", b.tx); for (size_t i = 0; i < b.ip_proof.vec_L.size(); i++) { c.pt(cat("bp.L", i), b.ip_proof.vec_L[i]); c.pt(cat("bp.R", i), b.ip_proof.vec_R[i]); } c.sc("bp.a", b.ip_proof.a); c.sc("bp.b", b.ip_proof.b);
    c.pt("refresh.X", t.refresh_sender_updated_balance_ct.X); c.pt("refresh.Y", t.refresh_sender_updated_balance_ct.Y);
    auto& k = t.plaintext_knowledge_proof; c.pt("know.A", k.A); c.pt("know.B", k.B); c.sc("know.z1", k.z1); c.sc("know.z2", k.z2); auto& d = t.correct_refresh_proof; c.pt("refr.A1", d.A1); c.pt("refr.A2", d.A2); c.sc("refr.z", d.z);
}
static void listN(comps& c, PP&, ToManyCTx& t, int&)
{
    c.sc("sn", t.sn); c.pt("sender_balance.X", t.sender_balance_ct.X); c.pt("sender_balance.Y", t.sender_balance_ct.Y); c.pt("pks", t.pks); for (size_t i = 0; i < t.vec_pkr.size(); i++) c.pt(cat("pkr", i), t.vec_pkr[i]);
    c.pt("sender_transfer.X", t.sender_transfer_ct.X); c.pt("sender_transfer.Y", t.sender_transfer_ct.Y);
    for (size_t j = 0; j < t.vec_receiver_transfer_ct.size(); j++) { auto& m = t.vec_receiver_transfer_ct[j]; for (size_t i = 0; i < m.vec_X.size(); i++) c.pt(cat("transfer", j, ".X", i), m.vec_X[i]); c.pt(cat("transfer", j, ".Y"), m.Y); }
    for (size_t j = 0; j < t.vec_plaintext_equality_proof.size(); j++) { auto& e = t.vec_plaintext_equality_proof[j]; for (size_t i = 0; i < e.vec_A.size(); i++) c.pt(cat("eq", j, ".A", i), e.vec_A[i]); c.pt(cat("eq", j, ".B"), e.B); c.sc(cat("eq", j, ".z"), e.z); c.sc(cat("eq", j, ".t"), e.t); }
    auto& b = t.bullet_right_solvent_proof; c.pt("bp.A", b.A); c.pt("bp.S", b.S); c.pt("bp.T1", b.T1); c.pt("bp.T2", b.T2); c.sc("bp.taux", b.taux); c.sc("bp.mu", b.mu); c.sc("bp.tx", b.tx); c.pt("bp.L0", b.ip_proof.vec_L[0]); c.pt("bp.R0", b.ip_proof.vec_R[0]); c.sc("bp.a", b.ip_proof.a); c.sc("bp.b", b.ip_proof.b);
    c.pt("refresh.X", t.refresh_sender_updated_balance_ct.X); c.pt("refresh.Y", t.refresh_sender_updated_balance_ct.Y);
    auto& k = t.plaintext_knowledge_proof; c.pt("know.A", k.A); c.pt("know.B", k.B); c.sc("know.z1", k.z1); c.sc("know.z2", k.z2); auto& d = t.correct_refresh_proof; c.pt("refr.A1", d.A1); c.pt("refr.A2", d.A2); c.sc("refr.z", d.z);
    auto& l = t.balance_proof; c.pt("bal.A", l.A); c.sc("bal.z", l.z);
}

// systems with other numbers of receivers and other coin ranges; accounts in a vector
static std::vector<Account> crowd(Sys& s, size_t n, const Z& first) { std::vector<Account> a; for (size_t i = 0; i < n; i++) { BigInt b = toB(i ? Z(2 * i) : first), sn = toB(Z(i + 1)); a.push_back(CreateAccount(s.pp, cat("acct", i), b, sn)); } return a; }
static Sys mksys(size_t len, size_t receivers) { Sys s; std::tie(s.pp, s.sp) = Setup(len, receivers, 4); s.pp.enc_part.TRADEOFF_NUM = 1; Initialize(s.pp); return s; }

#ifdef ADCP_LEDGER
// ---------------------------------------------------------------- histories against a plain ledger
struct Model { std::vector<Z> bal; std::vector<long> version, sn; };
struct Tx { bool isone = true; int from = 0; std::vector<int> to; std::vector<Z> v; ToOneCTx o; ToManyCTx m; long version = -1, sn = 0; bool solvent = false, set = false; };
struct Node { World w; Model m; Tx last, prep; };
static Tx build(Sys& s, Node& n, int from, std::vector<int> to, std::vector<Z> v)
{
    Tx t; t.set = true; t.isone = to.size() == 1; t.from = from; t.to = to; t.v = v; t.version = n.m.version[from]; t.sn = n.m.sn[from]; Z sum = 0; t.solvent = true; for (auto& x : v) { if (x < 0 || x >= (Z(1) << RLEN)) t.solvent = false; sum += x; } if (sum > n.m.bal[from]) t.solvent = false;
    std::vector<ECPoint> pk; for (int i : to) pk.push_back(n.w.a[i].pk); if (t.isone) t.o = one(s, n.w.a[from], v[0], pk[0]); else t.m = many(s, n.w.a[from], v, pk); return t;
}
static void submit(Sys& s, Node& n, const Tx& t, const std::string& hist)
{
    World before = n.w; bool expect = t.solvent && t.version == n.m.version[t.from] && t.sn == n.m.sn[t.from];
    bool ok = t.isone ? mine(s, n.w, t.o, t.from, t.to[0]) : mine(s, n.w, t.m, t.from, t.to); mc::trace();
    MC_CHECK(ok == expect, hist, ": transaction ", expect ? "rejected although valid and fresh" : "accepted although invalid or stale", " (from ", NAME[t.from], ", amount ", S(t.v[0]), ")");
    if (!ok) { MC_CHECK(same(n.w, before), hist, ": rejected transaction changed an account"); if (!expect) return; }
    if (ok != expect) { for (int i = 0; i < NACC; i++) n.m.bal[i] = toZ(n.w.a[i].m); return; }
    for (size_t i = 0; i < t.to.size(); i++) { n.m.bal[t.from] -= t.v[i]; n.m.bal[t.to[i]] += t.v[i]; n.m.version[t.to[i]]++; } n.m.version[t.from]++; n.m.sn[t.from]++;
    for (int i = 0; i < NACC; i++) {
        Account& a = n.w.a[i]; MC_CHECK(holds(s, a, n.m.bal[i]), hist, ": encrypted balance of ", NAME[i], " is not ", S(n.m.bal[i])); MC_CHECK(toZ(a.m) == n.m.bal[i], hist, ": recorded balance of ", NAME[i], " is ", S(toZ(a.m)), ", expected ", S(n.m.bal[i]));
        MC_CHECK(toZ(RevealBalance(s.pp, a)) == n.m.bal[i], hist, ": revealed balance of ", NAME[i]); bool touched = i == t.from; for (int x : t.to) touched = touched || x == i;
        if (!touched) MC_CHECK(same(a, before.a[i]), hist, ": account ", NAME[i], " changed although it takes no part"); else { Account f; FetchAccount(f, std::string(NAME[i]) + ".account"); MC_CHECK(same(f, a), hist, ": saved account of ", NAME[i], " differs"); }
        MC_CHECK(i == t.from ? toZ(a.sn) != toZ(before.a[i].sn) : toZ(a.sn) == toZ(before.a[i].sn), hist, ": serial number of ", NAME[i]);
    }
    if (t.isone) { ToOneCTx c = t.o; MC_CHECK(toZ(SuperviseCTx(s.sp, s.pp, c)) == t.v[0], hist, ": supervisor sees another amount"); } else { ToManyCTx c = t.m; auto v = SuperviseCTx(s.sp, s.pp, c); for (size_t i = 0; i < t.v.size(); i++) MC_CHECK(toZ(v[i]) == t.v[i], hist, ": supervisor sees another amount at ", i); }
}
static const char* OPS[] = {"A>B1", "A>Ball", "A>B+1", "B>A1", "B>Call", "A>B0", "A>BCD", "A>BCDover", "replay", "prepA>C2", "prepB>Aall", "submit", "prepA>BCD", "C>D1", "A>B-1", "A>B2^16", "D>ABCzero"};
static const int NOPS = sizeof OPS / sizeof *OPS;
static bool step(Sys& s, Node& n, int op, const std::string& hist)
{
    auto go = [&](int f, std::vector<int> to, std::vector<Z> v) { Tx t = build(s, n, f, to, v); n.last = t; submit(s, n, t, hist); return true; };
    auto prep = [&](int f, std::vector<int> to, std::vector<Z> v) { n.prep = build(s, n, f, to, v); return true; };
    switch (op) {
    case 0: return go(0, {1}, {1}); case 1: return go(0, {1}, {n.m.bal[0]}); case 2: return go(0, {1}, {n.m.bal[0] + 1}); case 3: return go(1, {0}, {1}); case 4: return go(1, {2}, {n.m.bal[1]}); case 5: return go(0, {1}, {0});
    case 6: return go(0, {1, 2, 3}, {1, 0, 2}); case 7: return go(0, {1, 2, 3}, {n.m.bal[0], 1, 0}); case 8: if (!n.last.set) return false; { Tx t = n.last; submit(s, n, t, hist); } return true;
    case 9: return prep(0, {2}, {2}); case 10: return prep(1, {0}, {n.m.bal[1]}); case 11: if (!n.prep.set) return false; { Tx t = n.prep; n.last = t; submit(s, n, t, hist); } return true; case 12: return prep(0, {3, 1, 2}, {1, 1, 1});
    case 13: return go(2, {3}, {1}); case 14: return go(0, {1}, {Z(-1)}); case 15: return go(0, {1}, {Z(1) << RLEN}); case 16: return go(3, {0, 1, 2}, {0, 0, 0}); }
    return false;
}
static uint64_t modelhash(const Node& n) { std::string k; for (int i = 0; i < NACC; i++) k += cat(S(n.m.bal[i]), ",", n.m.version[i], ",", n.m.sn[i], ";"); auto tx = [&](const Tx& t) { k += cat(t.set, t.from, t.version, t.sn, t.solvent, t.isone, "|"); }; tx(n.last); tx(n.prep); return mc::fnv(k); }
static void dfs(Sys& s, const Node& n, int depth, const std::string& hist)
{
    mc::state(modelhash(n)); mc::eval(hist); mc::beat(); if (depth == 0) return;
    for (int op = 0; op < NOPS; op++) { if (mc::S().fails >= mc::S().max_fails) return; Node c = n; std::string h = hist + " " + OPS[op]; if (step(s, c, op, h)) dfs(s, c, depth - 1, h); }
}
static void rejected(Sys& s, const World& w0, const std::string& what, ToOneCTx c, int f, int t) { World w = w0; MC_CHECK(!ver(s, c), what, ": accepted by verification"); bool ok = mine(s, w, c, f, t); MC_CHECK(!ok, what, ": accepted by the miner"); MC_CHECK(same(w, w0), what, ": an account changed"); mc::eval(what); mc::trace(); mc::beat(); }
static void rejected(Sys& s, const World& w0, const std::string& what, ToManyCTx c, int f, std::vector<int> t) { World w = w0; MC_CHECK(!ver(s, c), what, ": accepted by verification"); bool ok = mine(s, w, c, f, t); MC_CHECK(!ok, what, ": accepted by the miner"); MC_CHECK(same(w, w0), what, ": an account changed"); mc::eval(what); mc::trace(); mc::beat(); }
// the miner has to reject; verification alone need not (it does not see the account)
static void unmined(Sys& s, const World& w0, const std::string& what, ToOneCTx c, int f, int t) { World w = w0; bool ok = mine(s, w, c, f, t); MC_CHECK(!ok, what, ": accepted by the miner"); MC_CHECK(same(w, w0), what, ": an account changed"); mc::eval(what); mc::trace(); mc::beat(); }
static void unmined(Sys& s, const World& w0, const std::string& what, ToManyCTx c, int f, std::vector<int> t) { World w = w0; bool ok = mine(s, w, c, f, t); MC_CHECK(!ok, what, ": accepted by the miner"); MC_CHECK(same(w, w0), what, ": an account changed"); mc::eval(what); mc::trace(); mc::beat(); }

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); 
    const std::vector<long> BAL{10, 5, 0, 0}; int depth = mc::thorough() ? 4 : 3;
    for (int a = 0; a < NOPS; a++) for (int b = 0; b < NOPS; b++) if (mc::begin(cat("hist:", OPS[a], ":", OPS[b]))) {
        Sys s = mksys(); Node n; n.w = mkworld(s, BAL); for (int i = 0; i < NACC; i++) n.m.bal.push_back(BAL[i]); n.m.version.assign(NACC, 0); n.m.sn.assign(NACC, 0);
        for (int i = 0; i < NACC; i++) { MC_CHECK(holds(s, n.w.a[i], BAL[i]), "initial balance of ", NAME[i]); MC_CHECK(toZ(n.w.a[i].sn) == i + 1, "initial serial number"); }
        if (!step(s, n, a, OPS[a])) continue; std::string h = cat(OPS[a], " ", OPS[b]); if (!step(s, n, b, h)) continue; dfs(s, n, depth - 2, h);
    }
    // full-range amounts
    for (long v : {1L, 2L, 255L, 256L, 32767L, 32768L, 65534L, 65535L}) for (int kind = 0; kind < 2; kind++) if (mc::begin(cat("amount:", v, ":", kind))) {
        Sys s = mksys(); Node n; n.w = mkworld(s, {65535, 0, 0, 0}); n.m.bal = {65535, 0, 0, 0}; n.m.version.assign(NACC, 0); n.m.sn.assign(NACC, 0); std::vector<int> to{1}; std::vector<Z> vs{Z(v)}; if (kind) { to = {1, 2, 3}; vs = {Z(v / 2), Z(v - v / 2), 0}; }
        Tx t = build(s, n, 0, to, vs); submit(s, n, t, "first"); submit(s, n, t, "replay"); t = build(s, n, kind ? 2 : 1, {0}, {kind ? Z(v - v / 2) : Z(v)}); submit(s, n, t, "back"); t = build(s, n, 0, {1}, {n.m.bal[0] + 1}); submit(s, n, t, "over"); mc::eval(v); }
    // other numbers of receivers, other coin ranges
    for (size_t len : {16, 32}) for (size_t nr : {1, 3, 7, 15}) for (int part = 0; part < 4; part++) if (((len == 16 && (nr < 15 || part == 0)) || (nr == 3 && part < 2) || mc::thorough()) && mc::begin(cat("wide:", len, ":", nr, ":", part))) {
        Z top = (Z(1) << len) - 1; for (size_t i = 1; i <= nr; i++) top -= 2 * i; Sys s = mksys(len, nr); auto acc = crowd(s, nr + 1, top); std::vector<ECPoint> pk; std::vector<Z> v; Z tot = 0; for (size_t i = 0; i < nr; i++) { pk.push_back(acc[i + 1].pk); Z x = i + 1 == nr ? Z(top - tot) : Z(i % 3 == 1 ? 0 : (3 * i + 1) % 11); v.push_back(x); tot += x; }
        ToManyCTx c = many(s, acc[0], v, pk);
        auto put = [&](ToManyCTx x, bool expect, const std::string& what) { auto b = acc; std::vector<Account> r(b.begin() + 1, b.end()); mc::transition(); mc::trace(); mc::beat(); mc::eval(what); bool ok = Miner(s.pp, x, b[0], r); MC_CHECK(ok == expect, what, " with ", nr, " receivers and coins below 2^", len, ok ? ": accepted" : ": rejected"); if (!ok) { bool sm = same(b[0], acc[0]); for (size_t i = 0; i < nr; i++) sm = sm && same(r[i], acc[i + 1]); MC_CHECK(sm, what, ": rejected transaction changed an account"); return; }
            if (!expect) return; Z left = top; for (auto& y : v) left -= y; MC_CHECK(holds(s, b[0], left) && toZ(b[0].m) == left, what, ": balance of the sender"); for (size_t i = 0; i < nr; i++) MC_CHECK(holds(s, r[i], Z(2 * (i + 1)) + v[i]) && toZ(r[i].m) == Z(2 * (i + 1)) + v[i], what, ": balance of receiver ", i); ToManyCTx d = c; auto sv = SuperviseCTx(s.sp, s.pp, d); MC_CHECK(sv.size() == nr, "supervisor's amounts"); for (size_t i = 0; i < nr && i < sv.size(); i++) MC_CHECK(toZ(sv[i]) == v[i], "supervisor sees another amount at ", i); };
        if (part == 0) { put(c, true, "honest transaction of the whole balance"); auto u = v; u[nr - 1] -= 1; auto d = many(s, acc[0], u, pk); std::swap(u, v); c = d; put(d, true, "honest transaction leaving one coin"); }
        for (size_t i = 0; i < nr; i++) {
            if (part == 1) { auto u = v; u[i] += 1; Account a = acc[0]; a.m = q(toZ(a.m) + N()); put(many(s, a, u, pk), false, cat("overspending by one at receiver ", i)); u = v; u[i] = -Z(1); Account b = acc[0]; put(many(s, b, u, pk), false, cat("negative amount at receiver ", i)); if (nr > 1) { u.assign(nr, Z(0)); u[i] = top + 5; u[(i + 1) % nr] = -Z(5); put(many(s, acc[0], u, pk), false, cat("negative amount balances an overflow at receiver ", i)); } }
            if (part == 2) { auto& g = s.pp.enc_part.g; ToManyCTx x = c; x.vec_receiver_transfer_ct[i].vec_X[0] = x.vec_receiver_transfer_ct[i].vec_X[0] + g; put(x, false, cat("receiver ciphertext X of ", i, " altered")); x = c; x.vec_receiver_transfer_ct[i].vec_X[1] = x.vec_receiver_transfer_ct[i].vec_X[1] + g; put(x, false, cat("supervisor ciphertext X of ", i, " altered")); x = c; x.vec_receiver_transfer_ct[i].Y = x.vec_receiver_transfer_ct[i].Y + s.pp.enc_part.h; put(x, false, cat("ciphertext Y of ", i, " altered")); if (nr > 1) { size_t j = (i + 1) % nr; x = c; x.vec_receiver_transfer_ct[i].Y = x.vec_receiver_transfer_ct[i].Y + s.pp.enc_part.h; x.vec_receiver_transfer_ct[j].Y = x.vec_receiver_transfer_ct[j].Y - s.pp.enc_part.h; put(x, false, cat("a coin moved from receiver ", j, " to ", i)); } }
            if (part == 3) { ToManyCTx x = c; x.vec_pkr[i] = x.vec_pkr[i] + s.pp.enc_part.g; put(x, false, cat("key of receiver ", i, " altered")); x = c; x.vec_plaintext_equality_proof[i].z = q(toZ(x.vec_plaintext_equality_proof[i].z) + 1); put(x, false, cat("equality proof of ", i, " altered")); if (nr > 1) { size_t j = (i + 1) % nr; x = c; std::swap(x.vec_receiver_transfer_ct[i], x.vec_receiver_transfer_ct[j]); std::swap(x.vec_plaintext_equality_proof[i], x.vec_plaintext_equality_proof[j]); put(x, false, cat("ciphertexts and proofs of ", i, " and ", j, " exchanged")); } }
        } }
    // the miner is given accounts that are not those of the transaction
    for (int f = 0; f < NACC; f++) for (int t = 0; t < NACC; t++) if (f != t && !(f == 0 && t == 1)) if (mc::begin(cat("accounts:", f, ":", t))) {
        Sys s = mksys(); World w = mkworld(s, {10, 10, 10, 10}); ToOneCTx c = one(s, w.a[0], 3, w.a[1].pk); World w1 = w; MC_CHECK(mine(s, w1, c, 0, 1), "honest transaction rejected"); unmined(s, w, cat("miner given accounts ", NAME[f], ",", NAME[t]), c, f, t);
        ToManyCTx m = many(s, w.a[0], {1, 2, 3}, {w.a[1].pk, w.a[2].pk, w.a[3].pk}); std::vector<int> rest; for (int i = 0; i < NACC; i++) if (i != f) rest.push_back(i);
        if (f) unmined(s, w, cat("to-many with sender account ", NAME[f]), m, f, rest); if (f == 0) { std::vector<int> perm{1, 2, 3}; while (std::next_permutation(perm.begin(), perm.end())) unmined(s, w, "to-many with receivers in another order", m, 0, perm); }
        for (auto& sub : std::vector<std::vector<int>>{{}, {1}, {1, 2}, {2, 3}}) unmined(s, w, cat("to-many with ", sub.size(), " receiver accounts"), m, 0, sub); }
    // single components replaced
    const int CH = 16;
    for (int ch = 0; ch < CH; ch++) if (mc::begin(cat("tamper1:", ch))) {
        Sys s = mksys(); World w = mkworld(s, BAL); ToOneCTx c = one(s, w.a[0], 3, w.a[1].pk); World w1 = w; MC_CHECK(mine(s, w1, c, 0, 1), "honest transaction rejected"); int dummy = 0, cnt = 0;
        subst::each(list1, s.pp, c, dummy, [&](PP&, ToOneCTx& x, int&, const std::string& what) { bool key = what.find("+g") != std::string::npos || what.find("+1") != std::string::npos; int i = cnt++; if (i % CH != ch) return true; if (!mc::thorough() && !key && (i / CH) % 2) return true; rejected(s, w, "to-one " + what, x, 0, 1); return mc::S().fails < mc::S().max_fails; }); }
    for (int ch = 0; ch < CH * 2; ch++) if (mc::begin(cat("tamperN:", ch))) {
        Sys s = mksys(); World w = mkworld(s, BAL); ToManyCTx c = many(s, w.a[0], {1, 2, 3}, {w.a[1].pk, w.a[2].pk, w.a[3].pk}); World w1 = w; MC_CHECK(mine(s, w1, c, 0, std::vector<int>{1, 2, 3}), "honest transaction rejected"); int dummy = 0, cnt = 0;
        subst::each(listN, s.pp, c, dummy, [&](PP&, ToManyCTx& x, int&, const std::string& what) { bool key = what.find("+g") != std::string::npos || what.find("+1") != std::string::npos; int i = cnt++; if (i % (2 * CH) != ch) return true; if (!mc::thorough() && !key && (i / (2 * CH)) % 4) return true; rejected(s, w, "to-many " + what, x, 0, {1, 2, 3}); return mc::S().fails < mc::S().max_fails; });
        if (ch == 0) {   // parts missing, repeated or in another order
            auto drop = [&](const std::string& what, auto f) { ToManyCTx x = c; f(x); rejected(s, w, "to-many " + what, x, 0, {1, 2, 3}); };
            drop("last receiver ciphertext missing", [](ToManyCTx& x) { x.vec_receiver_transfer_ct.pop_back(); }); drop("last equality proof missing", [](ToManyCTx& x) { x.vec_plaintext_equality_proof.pop_back(); }); drop("all equality proofs missing", [](ToManyCTx& x) { x.vec_plaintext_equality_proof.clear(); });
            drop("receiver ciphertexts swapped", [](ToManyCTx& x) { std::swap(x.vec_receiver_transfer_ct[0], x.vec_receiver_transfer_ct[2]); }); drop("receiver ciphertexts and their proofs swapped", [](ToManyCTx& x) { std::swap(x.vec_receiver_transfer_ct[0], x.vec_receiver_transfer_ct[2]); std::swap(x.vec_plaintext_equality_proof[0], x.vec_plaintext_equality_proof[2]); });
            drop("equality proofs swapped", [](ToManyCTx& x) { std::swap(x.vec_plaintext_equality_proof[1], x.vec_plaintext_equality_proof[2]); }); drop("one receiver ciphertext more", [](ToManyCTx& x) { x.vec_receiver_transfer_ct.push_back(x.vec_receiver_transfer_ct[0]); });
            ToManyCTx x = c; std::swap(x.vec_pkr[0], x.vec_pkr[1]); rejected(s, w, "to-many receivers swapped", x, 0, {2, 1, 3}); std::swap(x.vec_receiver_transfer_ct[0], x.vec_receiver_transfer_ct[1]); rejected(s, w, "to-many receivers and ciphertexts swapped", x, 0, {2, 1, 3}); std::swap(x.vec_plaintext_equality_proof[0], x.vec_plaintext_equality_proof[1]); rejected(s, w, "to-many receivers, ciphertexts and proofs swapped", x, 0, {2, 1, 3}); } }
    // all mixtures of the parts of two valid transactions of the same sender (other amount / other receiver / other sender)
    for (int kind = 0; kind < 3; kind++) for (int ch = 0; ch < 4; ch++) if (mc::begin(cat("mix1:", kind, ":", ch))) {
        Sys s = mksys(); World w = mkworld(s, {10, 5, 10, 0}); ToOneCTx c = one(s, w.a[0], 3, w.a[1].pk), d = kind == 0 ? one(s, w.a[0], 2, w.a[1].pk) : kind == 1 ? one(s, w.a[0], 3, w.a[3].pk) : one(s, w.a[2], 3, w.a[1].pk);
        for (int mask = ch; mask < 512; mask += 4) { ToOneCTx x = c; int eff = 0;
            auto put = [&](int bit, auto ToOneCTx::*f, bool differs) { if (mask >> bit & 1) { x.*f = d.*f; } if (differs) eff |= 1 << bit; };
            put(0, &ToOneCTx::transfer_ct, true); put(1, &ToOneCTx::plaintext_equality_proof, true); put(2, &ToOneCTx::bullet_right_solvent_proof, true); put(3, &ToOneCTx::refresh_sender_updated_balance_ct, true); put(4, &ToOneCTx::plaintext_knowledge_proof, true); put(5, &ToOneCTx::correct_refresh_proof, true); put(6, &ToOneCTx::pkr, kind == 1); put(7, &ToOneCTx::pks, kind == 2); put(8, &ToOneCTx::sender_balance_ct, kind == 2); if (kind == 2 && (mask & 0x80)) x.sn = d.sn;
            if ((mask & ~eff) || mask == 0 || (mask & eff) == eff) continue; rejected(s, w, cat("mixture ", kind, " of parts ", mask), x, kind == 2 && (mask & 0x80) ? 2 : 0, kind == 1 && (mask & 0x40) ? 3 : 1); if (mc::S().fails >= mc::S().max_fails) break; } }
    for (int ch = 0; ch < 16; ch++) if (mc::begin(cat("mixN:", ch))) {
        Sys s = mksys(); World w = mkworld(s, {10, 5, 10, 0}); std::vector<ECPoint> pk{w.a[1].pk, w.a[2].pk, w.a[3].pk}; ToManyCTx c = many(s, w.a[0], {1, 2, 3}, pk), d = many(s, w.a[0], {2, 2, 2}, pk);
        for (int mask = 1; mask < 511; mask++) { if (mask % 16 != ch) continue; if (!mc::thorough() && __builtin_popcount(mask) > 3 && __builtin_popcount(mask) < 7) continue; ToManyCTx x = c; auto put = [&](int bit, auto ToManyCTx::*f) { if (mask >> bit & 1) x.*f = d.*f; };
            put(0, &ToManyCTx::sender_transfer_ct); put(1, &ToManyCTx::vec_receiver_transfer_ct); put(2, &ToManyCTx::vec_plaintext_equality_proof); put(3, &ToManyCTx::bullet_right_solvent_proof); put(4, &ToManyCTx::refresh_sender_updated_balance_ct); put(5, &ToManyCTx::plaintext_knowledge_proof); put(6, &ToManyCTx::correct_refresh_proof); put(7, &ToManyCTx::balance_proof); put(8, &ToManyCTx::sender_transfer_proof);
            rejected(s, w, cat("to-many mixture of parts ", mask), x, 0, {1, 2, 3}); if (mc::S().fails >= mc::S().max_fails) break; } }
    // a sender that breaks exactly one rule and is honest otherwise
    struct Atk { const char* name; int mode; long which; };
    auto attack = [&](Sys& s, const World& w, const std::string& what, Evil e, Account acct, const std::vector<Z>& v, bool onlymine = false) {
        std::string tail = cat(what, " (", v.size() == 1 ? "to-one" : "to-many", ", amount ", S(v[0]), ", shift ", S(e.k), ")"); ECPoint fix; e.fixY = &fix; evil = e.mode == NONE ? nullptr : &e;
        if (v.size() == 1) { ToOneCTx c = one(s, acct, v[0], w.a[1].pk); evil = nullptr; if (e.mode != NONE && !e.fired) { mc::note("attack not mounted"); return; } if (onlymine) unmined(s, w, tail, c, 0, 1); else rejected(s, w, tail, c, 0, 1); }
        else { ToManyCTx c = many(s, acct, v, {w.a[1].pk, w.a[2].pk, w.a[3].pk}); evil = nullptr; if (e.mode != NONE && !e.fired) { mc::note("attack not mounted"); return; } if (onlymine) unmined(s, w, tail, c, 0, {1, 2, 3}); else rejected(s, w, tail, c, 0, {1, 2, 3}); }
    };
    for (int many_ = 0; many_ < 2; many_++) for (long k : {1L, 2L, 7L, 1000L, -1L, -3L}) for (int at = 0; at < 12; at++) if (mc::begin(cat("attack:", many_, ":", k, ":", at))) {
        Sys s = mksys(); World w = mkworld(s, {10, 5, 0, 0}); std::vector<Z> v{3}; if (many_) v = {1, 2, 3}; Z tot = 0; for (auto& x : v) tot += x; Account a = w.a[0]; Evil e; e.k = k; e.sk = toZ(a.sk); std::vector<Z> big{12}; if (many_) big = {10, 2, 3};
        { World w1 = w; bool ok = many_ ? mine(s, w1, many(s, a, v, {w.a[1].pk, w.a[2].pk, w.a[3].pk}), 0, std::vector<int>{1, 2, 3}) : mine(s, w1, one(s, a, v[0], w.a[1].pk), 0, 1); MC_CHECK(ok, "honest transaction rejected"); }
        switch (at) {
        case 0: e.mode = MR_X; if (!many_) { e.which = 0; e.rsk = toZ(a.sk); a.m = toB(toZ(a.m) + k); attack(s, w, "the sender pays another amount than the receiver gets", e, a, v); a.m = w.a[0].m; }
                for (int i = 0; i < (many_ ? 3 : 1); i++) { Evil f = e; f.which = many_ ? 10 * i : 1; f.rsk = -toZ(w.a[1 + i].sk); attack(s, w, cat("receiver ", i, " gets another amount"), f, a, v); f.which = many_ ? 10 * i + 1 : 2; f.rsk = -toZ(s.sp.ska); attack(s, w, cat("the supervisor sees another amount for receiver ", i), f, a, v); } break;
        case 1: e.mode = MR_Y; for (int i = 0; i < (many_ ? 3 : 1); i++) { e.which = i; attack(s, w, cat("ciphertext of receiver ", i, " encrypts another amount"), e, a, v); } break;
        case 2: if (many_) { e.mode = CT_X; a.m = toB(toZ(a.m) + k); attack(s, w, "the sender's own ciphertext is malformed and decrypts to a smaller amount", e, a, v); } break;
        case 3: if (many_) { e.mode = CT_V; e.k = -k; e.fixv = tot - k; a.m = toB(toZ(a.m) + k); attack(s, w, "the sender's own ciphertext encrypts another amount than the receivers get", e, a, v); } break;
        case 4: e.mode = RE_SHIFT; a.m = toB(toZ(a.m) + k); attack(s, w, "the refreshed balance encrypts another amount", e, a, v); if (k > 0) { Account b = w.a[0]; Evil f = e; f.k = 1000 * k; b.m = toB(toZ(b.m) + 1000 * k); attack(s, w, "overspending hidden by the refreshed balance", f, b, big); } break;
        case 5: e.mode = RE_MALFORM; a.m = toB(toZ(a.m) + k); attack(s, w, "the refreshed balance is malformed", e, a, v); if (k > 0) { Account b = w.a[0]; Evil f = e; f.k = 1000 * k; b.m = toB(toZ(b.m) + 1000 * k); attack(s, w, "overspending hidden by a malformed refreshed balance", f, b, big); } break;
        case 6: { e.mode = NONE; Account b = a; b.m = toB(N() + toZ(a.m)); std::vector<Z> u = v; u[0] = k > 0 ? Z(N() - k) : Z((Z(1) << RLEN) - k - 1); attack(s, w, "amount out of range", e, b, u); if (many_) for (int i = 0; i < 3; i++) { u = {5, 5, 5}; u[i] = N() - 10; attack(s, w, cat("negative amount for receiver ", i), e, b, u); } } break;
        case 7: { e.mode = NONE; Account b = a; b.m = toB(N() + toZ(a.m)); std::vector<Z> u = v; u[many_ ? 2 : 0] = 10 + (k > 0 ? Z(k) : Z(100 - k)); attack(s, w, "overspending", e, b, u); } break;
        case 8: e.mode = NONE; a.sn = toB(toZ(a.sn) + k); attack(s, w, "another serial number", e, a, v, true); break;
        case 9: { e.mode = NONE; Z m = k > 0 ? Z(10 + k) : Z(1000 - k); BigInt bm = toB(m), r = toB(Z(12345)); a.balance_ct = TE::Enc(s.pp.enc_part, a.pk, bm, r); a.m = bm; attack(s, w, "built on a balance the sender does not have", e, a, v, true); a.balance_ct = w.a[1].balance_ct; attack(s, w, "built on somebody else's balance", e, a, v, true); } break;
        case 10: e.mode = RE_FIXED; e.refresh_m = 10 - tot; a.sk = toB(toZ(a.sk) + k); attack(s, w, "the sender does not know the secret key", e, a, v); a.sk = w.a[1].sk; attack(s, w, "the sender has another account's secret key", e, a, v); break;
        case 11: e.mode = NONE; a.m = toB(toZ(a.m) + k); attack(s, w, "wrong claim about the current balance", e, a, v); { Account b = w.a[0]; b.pk = w.a[2].pk; attack(s, w, "another public key", e, b, v, true); b = w.a[2]; b.m = toB(Z(10)); attack(s, w, "another account", e, b, v, true); } break;
        }
        mc::eval("attack"); }
    return mc::finish();
}
#endif

#ifdef ADCP_AUDIT
int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize();
    const std::vector<long> BAL{1000, 1000, 1000, 1000}; long M = mc::thorough() ? 12 : 7;
    auto just = [&](Sys& s, Account a, ToOneCTx c, const Z& v) { OpenPolicy p; p.v = q(v); mc::transition(); return JustifyPolicy(s.pp, a, c, p); };
    auto audit = [&](Sys& s, Account a, ToOneCTx c, const Z& v, DLOGEquality::Proof pr) { OpenPolicy p; p.v = q(v); mc::transition(); mc::trace(); mc::beat(); return AuditPolicy(s.pp, a, c, p, pr); };
    // ---- supervision
    for (long v : {0L, 1L, 2L, 3L, 127L, 128L, 255L, 256L, 4095L, 4096L, 32768L, 65534L, 65535L}) if (mc::begin(cat("sup1:", v))) { Sys s = mksys(); World w = mkworld(s, {65535, 0, 0, 0}); for (int to = 1; to < 4; to++) { ToOneCTx c = one(s, w.a[0], v, w.a[to].pk); MC_CHECK(ver(s, c), "honest transaction rejected"); for (int rep = 0; rep < 2; rep++) MC_CHECK(toZ(SuperviseCTx(s.sp, s.pp, c)) == v, "supervisor sees another amount than ", v); mc::eval(to); mc::trace(); } }
    for (long a : {0L, 1L, 3L, 300L}) for (long b : {0L, 1L, 3L, 300L}) if (mc::begin(cat("supN:", a, ":", b))) { Sys s = mksys(); World w = mkworld(s, BAL); for (long d : {0L, 2L, 399L}) { std::vector<long> v{a, b, d}; ToManyCTx c = many(s, w.a[0], {a, b, d}, {w.a[1].pk, w.a[2].pk, w.a[3].pk}); auto r = SuperviseCTx(s.sp, s.pp, c); MC_CHECK(r.size() == 3, "supervisor sees ", r.size(), " amounts"); for (int i = 0; i < 3; i++) MC_CHECK(toZ(r[i]) == v[i], "supervisor sees ", S(toZ(r[i])), " instead of ", v[i], " at ", i); mc::eval(d); mc::trace(); } }
    for (long a : {0L, 1L, 300L}) if (mc::begin(cat("supN1:", a))) { Sys s = mksys(); World w = mkworld(s, BAL); ToManyCTx c = many(s, w.a[0], {a}, {w.a[1].pk}); MC_CHECK(ver(s, c), "honest transaction with one receiver rejected"); auto r = SuperviseCTx(s.sp, s.pp, c); MC_CHECK(r.size() == 1 && toZ(r[0]) == a, "supervisor sees another amount"); mc::eval(a); }
    for (size_t len : {16, 32}) for (size_t nr : {1, 3, 7, 15}) if ((len == 16 || nr == 3 || mc::thorough()) && mc::begin(cat("supW:", len, ":", nr))) { Sys s = mksys(len, nr); const Z top = (Z(1) << len) - 1; auto a = crowd(s, nr + 1, top); for (int k = 0; k < 3; k++) { std::vector<Z> v; std::vector<ECPoint> pk; Z tot = 0; for (size_t i = 0; i < nr; i++) { pk.push_back(a[i + 1].pk); Z x = k == 0 ? Z(i) : k == 1 ? (i == nr / 2 ? top : Z(0)) : i + 1 == nr ? Z(top - tot) : Z((7 * i + 3) % 13); v.push_back(x); tot += x; } ToManyCTx c = many(s, a[0], v, pk); MC_CHECK(ver(s, c), "honest transaction rejected"); for (int rep = 0; rep < 2; rep++) { auto r = SuperviseCTx(s.sp, s.pp, c); MC_CHECK(r.size() == nr, "supervisor sees ", r.size(), " amounts of ", nr); for (size_t i = 0; i < nr && i < r.size(); i++) MC_CHECK(toZ(r[i]) == v[i], "supervisor sees ", S(toZ(r[i])), " instead of ", S(v[i]), " at ", i); } mc::eval(k); mc::trace(); mc::beat(); } }
    // open and rate policies on large amounts
    for (long v : {255L, 256L, 257L, 4096L, 32767L, 32768L, 65534L, 65535L}) if (mc::begin(cat("large:", v))) { Sys s = mksys(); World w = mkworld(s, {65535, 65535, 0, 0}); ToOneCTx c = one(s, w.a[0], v, w.a[1].pk); for (int who = 0; who < 2; who++) for (Z cl : {Z(v), Z(v - 1), Z(v + 1), Z(v % 256), Z(v + 65536), Z(v ^ 256), Z(0), Z(N() - v)}) { bool truth = cl == v; if (cl == v && cl != Z(v)) continue; auto p = just(s, w.a[who], c, cl); MC_CHECK(audit(s, w.a[who], c, cl, p) == truth, "claim ", S(cl), " about a transfer of ", v, truth ? " rejected" : " accepted"); mc::eval(cat(S(cl), who)); }
        for (long v2 : {1L, 2L, 255L, v, v / 2}) { ToOneCTx d = one(s, w.a[1], v2, w.a[2].pk); for (auto& t : std::vector<std::pair<Z, Z>>{{v2, v}, {v2, v + 1}, {v2 + 1, v}, {v2 * 3, v * 3}, {Z(1) << 20, Z(1) << 20}, {Z(v2) << 100, Z(v) << 100}, {v, v2}, {1, 0}, {N() - v2, N() - v}}) { if (md(t.first, N()) == 0 && md(t.second, N()) == 0) continue; RatePolicy r; r.t1 = q(t.first); r.t2 = q(t.second); mc::transition(); auto p = JustifyPolicy(s.pp, w.a[1], c, d, r); bool truth = md(t.first * v, N()) == md(t.second * v2, N()); mc::trace(); mc::beat(); bool acc = AuditPolicy(s.pp, w.a[1].pk, c, d, r, p); MC_CHECK(acc == truth, "rate ", S(t.first), "/", S(t.second), " of ", v, " and ", v2, acc ? " accepted" : " rejected"); mc::eval(cat(v2, S(t.first), S(t.second))); } } }
    // ---- open policy: every amount against every claim, both parties
    auto claims = [&](long v) { std::vector<Z> c; for (long x = 0; x <= M; x++) c.push_back(x); c.push_back(N() - 1); c.push_back(N() - v); c.push_back(v + 256); c.push_back((Z(1) << 64) + v); c.push_back((Z(1) << 32) + v); c.push_back((Z(1) << 128) + v); return c; };
    for (long v = 0; v <= M; v++) for (int who = 0; who < 2; who++) if (mc::begin(cat("open:", v, ":", who))) {
        Sys s = mksys(); World w = mkworld(s, BAL); ToOneCTx c = one(s, w.a[0], v, w.a[1].pk), d = one(s, w.a[0], v, w.a[1].pk), e = one(s, w.a[1], v, w.a[0].pk);
        for (auto& cl : claims(v)) { if (cl >= N()) continue; auto p = just(s, w.a[who], c, cl); bool truth = cl == v; for (int rep = 0; rep < 2; rep++) MC_CHECK(audit(s, w.a[who], c, cl, p) == truth, "claim ", S(cl), " about a transfer of ", v, truth ? " rejected" : " accepted"); mc::eval(S(cl));
            for (auto& c2 : claims(v)) if (c2 != cl && c2 < N()) MC_CHECK(!audit(s, w.a[who], c, c2, p), "proof for claim ", S(cl), " accepted for claim ", S(c2));
            MC_CHECK(!audit(s, w.a[1 - who], c, cl, p), "proof accepted for the other party"); MC_CHECK(!audit(s, w.a[2], c, cl, p), "proof accepted for a stranger"); MC_CHECK(!audit(s, w.a[who], d, cl, p), "proof accepted for another transaction of the same amount"); MC_CHECK(!audit(s, w.a[who], e, cl, p), "proof accepted for the reverse transaction"); }
        { Account t = w.a[who]; for (Z k : {Z(1), Z(-1)}) { t.sk = q(toZ(w.a[who].sk) + k); MC_CHECK(!audit(s, w.a[who], c, v, just(s, t, c, v)), "proof made with another secret key accepted"); } t.sk = w.a[1 - who].sk; MC_CHECK(!audit(s, w.a[who], c, v, just(s, t, c, v)), "proof made with the other party's key accepted"); }
        auto p = just(s, w.a[who], c, v); auto lst = [&](comps& k, PP&, ToOneCTx& t, DLOGEquality::Proof& x) { k.pt("X", t.transfer_ct.vec_X[who]); k.pt("Y", t.transfer_ct.Y); k.pt("party", who ? t.pkr : t.pks); k.pt("A1", x.A1); k.pt("A2", x.A2); k.sc("z", x.z); };
        subst::each(lst, s.pp, c, p, [&](PP&, ToOneCTx& t, DLOGEquality::Proof& x, const std::string& what) { MC_CHECK(!audit(s, w.a[who], t, v, x), "open policy accepted with ", what); mc::eval(what); return mc::S().fails < mc::S().max_fails; });
    }
    // ---- rate policy
    long R = mc::thorough() ? 6 : 4;
    for (long v1 = 0; v1 <= R; v1++) for (long v2 = 0; v2 <= R; v2++) if (mc::begin(cat("rate:", v1, ":", v2))) {
        Sys s = mksys(); World w = mkworld(s, BAL); ToOneCTx c = one(s, w.a[0], v1, w.a[1].pk), d = one(s, w.a[1], v2, w.a[2].pk), c2 = one(s, w.a[0], v1, w.a[1].pk), d2 = one(s, w.a[1], v2, w.a[2].pk);
        auto aud = [&](const ECPoint& pk, ToOneCTx x, ToOneCTx y, const Z& t1, const Z& t2, DLOGEquality::Proof p) { RatePolicy r; r.t1 = q(t1); r.t2 = q(t2); mc::transition(); mc::trace(); mc::beat(); return AuditPolicy(s.pp, pk, x, y, r, p); };
        auto jst = [&](Account a, ToOneCTx x, ToOneCTx y, const Z& t1, const Z& t2) { RatePolicy r; r.t1 = q(t1); r.t2 = q(t2); mc::transition(); return JustifyPolicy(s.pp, a, x, y, r); };
        for (long t1 = 0; t1 <= R; t1++) for (long t2 = 0; t2 <= R; t2++) { if (!t1 && !t2) continue; auto p = jst(w.a[1], c, d, t1, t2); bool truth = v1 * t1 == v2 * t2; bool acc = aud(w.a[1].pk, c, d, t1, t2, p); MC_CHECK(acc == truth, "rate ", t1, "/", t2, " of ", v1, " and ", v2, acc ? " accepted" : " rejected"); mc::eval(t1 * 100 + t2);
            MC_CHECK(!aud(w.a[0].pk, c, d, t1, t2, p), "accepted for another account"); if (t1) MC_CHECK(!aud(w.a[1].pk, c2, d, t1, t2, p), "accepted for another incoming transaction"); if (t2) MC_CHECK(!aud(w.a[1].pk, c, d2, t1, t2, p), "accepted for another outgoing transaction"); if (t1 != t2 || v1 != v2) MC_CHECK(!aud(w.a[1].pk, c, d, t2 + 1, t1 + 2, p), "accepted for another rate"); MC_CHECK(!aud(w.a[1].pk, c, d, t1 + 1, t2, p), "accepted for another rate");
            if (t1 == 1 && t2 == 1) { Account t = w.a[1]; t.sk = q(toZ(t.sk) + 1); MC_CHECK(!aud(w.a[1].pk, c, d, t1, t2, jst(t, c, d, t1, t2)), "proof made with another secret key accepted"); } }
        if (v1 == v2) { auto p = jst(w.a[1], c, d, 1, 1); auto lst = [&](comps& k, PP&, ToOneCTx& t, DLOGEquality::Proof& x) { k.pt("X", t.transfer_ct.vec_X[1]); k.pt("Y", t.transfer_ct.Y); k.pt("receiver", t.pkr); k.pt("A1", x.A1); k.pt("A2", x.A2); k.sc("z", x.z); };
            subst::each(lst, s.pp, c, p, [&](PP&, ToOneCTx& t, DLOGEquality::Proof& x, const std::string& what) { MC_CHECK(!aud(w.a[1].pk, t, d, 1, 1, x), "rate policy accepted with ", what); mc::eval(what); return mc::S().fails < mc::S().max_fails; });
            auto lst2 = [&](comps& k, PP&, ToOneCTx& t, DLOGEquality::Proof& x) { k.pt("X", t.transfer_ct.vec_X[0]); k.pt("Y", t.transfer_ct.Y); k.pt("sender", t.pks); };
            subst::each(lst2, s.pp, d, p, [&](PP&, ToOneCTx& t, DLOGEquality::Proof& x, const std::string& what) { MC_CHECK(!aud(w.a[1].pk, c, t, 1, 1, x), "rate policy accepted with the outgoing transaction's ", what); mc::eval("out " + what); return mc::S().fails < mc::S().max_fails; }); }
        // identities that do not match: B is not the receiver of the first or not the sender of the second
        { auto p = jst(w.a[1], c, d, 1, 1); MC_CHECK(!aud(w.a[1].pk, d, c, 1, 1, p), "accepted with the transactions exchanged"); MC_CHECK(!aud(w.a[1].pk, c, c, 1, 1, p), "accepted with the incoming transaction twice"); MC_CHECK(!aud(w.a[1].pk, d, d, 1, 1, p), "accepted with the outgoing transaction twice"); } }
    // ---- policies over transactions recorded one after the other: serial numbers, balances and files have moved on
    for (int variant = 0; variant < 4; variant++) if (mc::begin(cat("recorded:", variant))) {
        Sys s = mksys(); World w = mkworld(s, BAL); struct E { int f, t; long v; }; std::vector<E> ev{{0, 1, 5}, {1, 0, 2}, {0, 2, 7}, {0, 1, 0}, {1, 2, 10}, {0, 3, 300}}; if (variant & 1) std::rotate(ev.begin(), ev.begin() + 2, ev.end()); if (variant & 2) std::reverse(ev.begin(), ev.end());
        std::vector<ToOneCTx> cs, fa; Z sum = 0; for (auto& e : ev) { ToOneCTx c = one(s, w.a[e.f], e.v, w.a[e.t].pk); MC_CHECK(mine(s, w, c, e.f, e.t), "honest transaction rejected"); cs.push_back(c); if (e.f == 0) { fa.push_back(c); sum += e.v; } mc::beat(); }
        for (size_t i = 0; i < ev.size(); i++) { MC_CHECK(toZ(SuperviseCTx(s.sp, s.pp, cs[i])) == ev[i].v, "supervisor sees another amount in transaction ", i); for (int who : {ev[i].f, ev[i].t}) for (long cl : {ev[i].v, ev[i].v + 1}) { auto p = just(s, w.a[who], cs[i], cl); MC_CHECK(audit(s, w.a[who], cs[i], cl, p) == (cl == ev[i].v), "open policy of recorded transaction ", i, " claim ", cl); for (size_t j = 0; j < ev.size(); j++) if (j != i) MC_CHECK(!audit(s, w.a[who], cs[j], ev[j].v, p), "proof for transaction ", i, " accepted for ", j); mc::eval(cat("o", i, who, cl)); }
            for (size_t j = 0; j < ev.size(); j++) if (i != j && ev[i].t == ev[j].f) for (int off = 0; off < 2; off++) { RatePolicy r; r.t1 = q(Z(ev[j].v + off) * 3 + (ev[i].v || ev[j].v ? 0 : 1)); r.t2 = q(Z(ev[i].v) * 3 + (ev[i].v || ev[j].v ? 0 : 1)); if (toZ(r.t1) == 0 && toZ(r.t2) == 0) continue; auto p = JustifyPolicy(s.pp, w.a[ev[i].t], cs[i], cs[j], r); bool truth = md(toZ(r.t1) * ev[i].v, N()) == md(toZ(r.t2) * ev[j].v, N()); mc::transition(); mc::trace(); MC_CHECK(AuditPolicy(s.pp, w.a[ev[i].t].pk, cs[i], cs[j], r, p) == truth, "rate policy over recorded transactions ", i, " and ", j, " offset ", off); mc::eval(cat("r", i, j, off)); } }
        for (auto& b : std::vector<std::pair<Z, Z>>{{0, sum}, {0, sum + 1}, {sum, sum + 1}, {sum + 1, sum + 9}, {sum - 1, sum}}) { LimitPolicy lp; lp.LEFT_BOUND = toB(b.first); lp.RIGHT_BOUND = toB(b.second); Gadget::Proof_type2 p; mc::transition(); mc::trace(); bool j = JustifyPolicy(s.pp, w.a[0], fa, lp, p); MC_CHECK(j, "justification refused"); MC_CHECK(AuditPolicy(s.pp, w.a[0].pk, fa, lp, p) == (b.first <= sum && sum < b.second), "total of the recorded transactions ", S(sum), " against [", S(b.first), ",", S(b.second), ")"); mc::eval(cat("l", S(b.first), S(b.second))); for (size_t k = 0; k < fa.size(); k++) { auto less = fa; less.erase(less.begin() + k); MC_CHECK(!AuditPolicy(s.pp, w.a[0].pk, less, lp, p), "accepted without transaction ", k); mc::beat(); } } }
    // ---- limit policy: sums of one to three transactions
    std::vector<std::vector<long>> sets; for (long a : {0L, 1L, 3L, 100L}) { sets.push_back({a}); for (long b : {0L, 2L, 155L}) { sets.push_back({a, b}); for (long c : {0L, 1L, 1000L}) if (mc::thorough() || a + b + c > 2) sets.push_back({a, b, c}); } }
    for (size_t n : {4, 5, 7, 8, 9, 16, 17}) { std::vector<long> v; for (size_t i = 0; i < n; i++) v.push_back(i % 2 ? 0 : 3 + (long)i); sets.push_back(v); }
    for (size_t si = 0; si < sets.size(); si++) if (mc::begin(cat("limit:", si))) {
        Sys s = mksys(); World w = mkworld(s, {2000, 2000, 0, 0}); std::vector<ToOneCTx> cs; Z sum = 0; for (long v : sets[si]) { cs.push_back(one(s, w.a[0], v, w.a[1 + cs.size() % 3].pk)); sum += v; }
        auto jst = [&](Account a, std::vector<ToOneCTx> c, const Z& l, const Z& r, Gadget::Proof_type2& p) { LimitPolicy lp; lp.LEFT_BOUND = toB(l); lp.RIGHT_BOUND = toB(r); mc::transition(); return JustifyPolicy(s.pp, a, c, lp, p); };
        auto aud = [&](const ECPoint& pk, std::vector<ToOneCTx> c, const Z& l, const Z& r, Gadget::Proof_type2 p) { LimitPolicy lp; lp.LEFT_BOUND = toB(l); lp.RIGHT_BOUND = toB(r); mc::transition(); mc::trace(); mc::beat(); return AuditPolicy(s.pp, pk, c, lp, p); };
        std::set<std::pair<Z, Z>> bds; for (Z l : {Z(0), Z(sum - 1), sum, Z(sum + 1)}) for (Z r : {Z(sum - 1), sum, Z(sum + 1), Z(1) << RLEN}) if (l >= 0 && r >= l && r <= (Z(1) << RLEN)) bds.insert({l, r});
        bool first = true;
        for (auto& b : bds) { Gadget::Proof_type2 p; bool j = jst(w.a[0], cs, b.first, b.second, p); MC_CHECK(j, "justification refused"); if (!j) continue; bool truth = b.first <= sum && sum < b.second; for (int rep = 0; rep < 2; rep++) { bool acc = aud(w.a[0].pk, cs, b.first, b.second, p); MC_CHECK(acc == truth, "total ", S(sum), " against [", S(b.first), ",", S(b.second), ") ", acc ? "accepted" : "rejected"); } mc::eval(cat(S(b.first), ":", S(b.second)));
            if (!truth) continue; for (auto& b2 : bds) if (b2 != b) MC_CHECK(!aud(w.a[0].pk, cs, b2.first, b2.second, p), "proof for other bounds accepted"); MC_CHECK(!aud(w.a[1].pk, cs, b.first, b.second, p), "accepted for another account");
            auto more = cs; more.push_back(cs[0]); MC_CHECK(!aud(w.a[0].pk, more, b.first, b.second, p), "accepted for one transaction more"); if (cs.size() > 1) { auto less = cs; less.pop_back(); MC_CHECK(!aud(w.a[0].pk, less, b.first, b.second, p), "accepted for one transaction less"); less = cs; less[0] = less[1]; MC_CHECK(!aud(w.a[0].pk, less, b.first, b.second, p), "accepted for other transactions"); }
            for (size_t k = 0; k < cs.size(); k++) { auto o2 = cs; o2[k].pks = w.a[1].pk; MC_CHECK(!aud(w.a[0].pk, o2, b.first, b.second, p), "accepted although transaction ", k, " names another sender"); }
            auto other = cs; other.back() = one(s, w.a[0], sets[si].back(), w.a[1].pk); MC_CHECK(!aud(w.a[0].pk, other, b.first, b.second, p), "accepted for another transaction of the same amount"); other = cs; other.back() = one(s, w.a[1], sets[si].back(), w.a[0].pk); MC_CHECK(!aud(w.a[0].pk, other, b.first, b.second, p), "accepted with somebody else's transaction"); Gadget::Proof_type2 p2; MC_CHECK(!jst(w.a[0], other, b.first, b.second, p2), "justification with somebody else's transaction not refused"); Gadget::Proof_type2 p3; other = cs; other[0] = one(s, w.a[1], 1, w.a[0].pk); MC_CHECK(!aud(w.a[0].pk, other, b.first, b.second, p), "accepted with somebody else's first transaction");
            if (first) { first = false; Account t = w.a[0]; 
                int dummy = 0; (void)dummy; auto lst = [&](comps& k, PP&, ToOneCTx& t, Gadget::Proof_type2& x) { k.pt("X", t.transfer_ct.vec_X[0]); k.pt("Y", t.transfer_ct.Y); k.pt("refresh.X", x.refresh_ct.X); k.pt("refresh.Y", x.refresh_ct.Y); k.pt("dleq.A1", x.dlogeq_proof.A1); k.pt("dleq.A2", x.dlogeq_proof.A2); k.sc("dleq.z", x.dlogeq_proof.z); k.pt("know.A", x.ptke_proof.A); k.pt("know.B", x.ptke_proof.B); k.sc("know.z1", x.ptke_proof.z1); k.sc("know.z2", x.ptke_proof.z2); k.pt("bp.A", x.bullet_proof.A); k.pt("bp.S", x.bullet_proof.S); k.sc("bp.tx", x.bullet_proof.tx); k.sc("bp.taux", x.bullet_proof.taux); k.sc("bp.mu", x.bullet_proof.mu); };
                size_t cnt = 0; if (si % 6 == 0) subst::each(lst, s.pp, cs[0], p, [&](PP&, ToOneCTx& t, Gadget::Proof_type2& x, const std::string& what) { if (!mc::thorough() && cnt++ % 3 != si / 6 % 3) return true; auto c = cs; c[0] = t; MC_CHECK(!aud(w.a[0].pk, c, b.first, b.second, x), "limit policy accepted with ", what); mc::eval(what); return mc::S().fails < mc::S().max_fails; }); } } }
    return mc::finish();
}
#endif
