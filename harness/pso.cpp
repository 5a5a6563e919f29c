// C19: private set intersection, union, intersection cardinality and cardinality-with-sum. Both parties run the real
// code; overlap patterns, families, sizes, values, bounds, repetitions, parameter files and team orders are enumerated.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "mpc/psi/cwprf_psi.hpp"
#include "mpc/pso/mqrpmt_psi.hpp"
#include "mpc/pso/mqrpmt_psu.hpp"
#include "mpc/pso/mqrpmt_psi_card.hpp"
#include "mpc/pso/mqrpmt_psi_card_sum.hpp"
#include "party.hpp"
#include "rt.hpp"
#include "sets.hpp"
#include "zutil.hpp"
#include <boost/multiprecision/cpp_int.hpp>
using mc::cat; using namespace sets; using boost::multiprecision::cpp_int;
static size_t SSP = 40;
enum K { PSI, PSU, CARD, CWPSI, PSUB }; static const char* KN[] = { "psi", "psu", "card", "cwpsi", "psu-bytes" };

// byte strings for the byte-vector union: item i of length L (different for different blocks when L is large enough)
static B bytes_of(const block& b, size_t L, const std::map<std::string, size_t>& idx)
{
    B v(L); std::string s = bs(b); for (size_t i = 0; i < L; i++) v[i] = s[(i + 16 - L % 16) % 16];
    if (L < 16) { size_t k = idx.at(s); for (size_t i = 0; i < L; i++) v[i] = k >> (8 * i); }
    return v;
}
template <class PP> static void roundtrip(PP& p, void (*save)(PP&, std::string), void (*load)(PP&, std::string), int role) { std::string f = cat("pp", role, ".bin"); save(p, f); p = PP(); load(p, f); }

// |X| = 2^ls at the sending party, |Y| = 2^lr at the receiving party; in = membership of X's items in Y
static void execute(K k, size_t ls, size_t lr, const std::vector<Pair>& rounds, bool swap, bool file, size_t L, const std::string& nm, uint64_t salt)
{
    std::map<std::string, size_t> idx; if (k == PSUB && L < 16) for (auto& p : rounds) for (auto* S : { &p.X, &p.Y }) for (auto& b : *S) idx.emplace(bs(b), idx.size());
    if (k == PSUB && L < 8 && idx.size() > (1ull << (8 * L))) return;
    auto conv = [&](const std::vector<block>& v) { BV o; for (auto& b : v) o.push_back(bytes_of(b, L, idx)); return o; };
    auto R = party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); bool snd = (role == 1) != swap; std::string o;
        mqRPMTPSI::PP p1; mqRPMTPSU::PP p2; mqRPMTPSIcard::PP p3; cwPRFPSI::PP p4;
        if (k == PSI) { p1 = mqRPMTPSI::Setup(128, SSP, ls, lr); if (file) roundtrip(p1, mqRPMTPSI::SavePP, mqRPMTPSI::FetchPP, role); }
        if (k == PSU || k == PSUB) { p2 = mqRPMTPSU::Setup(128, SSP, ls, lr); if (file) roundtrip(p2, mqRPMTPSU::SavePP, mqRPMTPSU::FetchPP, role); }
        if (k == CARD) { p3 = mqRPMTPSIcard::Setup(128, SSP, ls, lr); if (file) roundtrip(p3, mqRPMTPSIcard::SavePP, mqRPMTPSIcard::FetchPP, role); }
        if (k == CWPSI) { p4 = cwPRFPSI::Setup(128, SSP, ls, lr); if (file) roundtrip(p4, cwPRFPSI::SavePP, cwPRFPSI::FetchPP, role); }
        for (auto& p : rounds) {
            auto X = p.X, Y = p.Y; auto bx = k == PSUB ? conv(X) : BV(), by = k == PSUB ? conv(Y) : BV(); auto bx0 = bx, by0 = by;
            if (snd) { if (k == PSI) mqRPMTPSI::Send(io, p1, X); if (k == PSU) mqRPMTPSU::Send(io, p2, X); if (k == CARD) mqRPMTPSIcard::Send(io, p3, X); if (k == CWPSI) cwPRFPSI::Send(io, p4, X); if (k == PSUB) mqRPMTPSU::Send(io, p2, bx, L); }
            else { if (k == PSI) put(o, toV(mqRPMTPSI::Receive(io, p1, Y))); if (k == PSU) put(o, toV(mqRPMTPSU::Receive(io, p2, Y))); if (k == CARD) { size_t c = mqRPMTPSIcard::Receive(io, p3, Y); put(o, { B((uint8_t*)&c, (uint8_t*)&c + 8) }); } if (k == CWPSI) put(o, toV(cwPRFPSI::Receive(io, p4, Y))); if (k == PSUB) put(o, mqRPMTPSU::Receive(io, p2, by, L)); }
            if (!same(X, p.X) || !same(Y, p.Y) || bx != bx0 || by != by0) return std::string("!");
        }
        party::settle(io, role); return o; }, party::Policy(), salt + 1);
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(rounds.size() * (rounds[0].X.size() + rounds[0].Y.size())); mc::trace();
    if (!MC_CHECK(R.ok(), nm, ": the protocol does not complete: ", R.why)) return;
    if (!MC_CHECK(R.out[0] != "!" && R.out[1] != "!", nm, ": a party's inputs are modified")) return;
    const std::string& ro = R.out[swap ? 1 : 0]; size_t at = 0;
    for (size_t r = 0; r < rounds.size(); r++) {
        auto& p = rounds[r]; BV got; if (!MC_CHECK(get(ro, at, got), nm, " round ", r, ": no output")) return;
        if (k == CARD) { size_t c; memcpy(&c, got[0].data(), 8); if (!MC_CHECK(c == ones(p.in), nm, " round ", r, ": cardinality ", c, ", expected ", ones(p.in))) return; }
        else {
            std::multiset<B> want, have(got.begin(), got.end()); bool uni = k == PSU || k == PSUB;
            for (size_t i = 0; i < p.X.size(); i++) if ((p.in[i] != 0) != uni) want.insert(k == PSUB ? bytes_of(p.X[i], L, idx) : toV({ p.X[i] })[0]);
            if (uni) for (auto& y : p.Y) want.insert(k == PSUB ? bytes_of(y, L, idx) : toV({ y })[0]);
            size_t miss = 0, extra = 0; for (auto& w : want) miss += want.count(w) > have.count(w); for (auto& h : have) extra += have.count(h) > want.count(h);
            if (!MC_CHECK(want == have, nm, " round ", r, ": result has ", have.size(), " items, expected ", want.size(), "; ", miss, " missing, ", extra, " foreign (pattern ", show(p.in), ")")) return;
        }
        // nothing of the inputs travels in clear; in particular what the receiver must not learn
        if (k != PSUB) for (int w = 0; w < 2; w++) for (auto* S : { &p.X, &p.Y }) for (size_t i = 0; i < S->size(); i += 1 + S->size() / 16) { std::string s = bs((*S)[i]); if (s[0] && s[15] && s != std::string(16, -1)) if (!MC_CHECK(R.wire[w].find(s) == std::string::npos, nm, ": an item travels in clear")) return; }
    }
}
static BigInt big(const cpp_int& v) { std::ostringstream s; s << v; return zu::toB(zu::Z(s.str())); }
static void cardsum(size_t ls, size_t lr, size_t lsum, size_t lval, const std::vector<std::pair<Pair, std::vector<cpp_int>>>& rounds, bool swap, bool file, const std::string& nm, uint64_t salt)
{
    auto R = party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); bool snd = (role == 1) != swap; std::string o;
        auto pp = mqRPMTPSIcardsum::Setup(128, SSP, ls, lr, lsum, lval); if (file) roundtrip(pp, mqRPMTPSIcardsum::SavePP, mqRPMTPSIcardsum::FetchPP, role);
        for (auto& q : rounds) { auto X = q.first.X, Y = q.first.Y; std::vector<BigInt> v; for (auto& c : q.second) v.push_back(big(c)); auto v0 = v;
            if (snd) { auto [c, s] = mqRPMTPSIcardsum::Send(io, pp, X, v); std::string h = zu::S(zu::toZ(s)); bool keep = v.size() == v0.size(); for (size_t i = 0; keep && i < v.size(); i++) keep = v[i] == v0[i]; if (!keep) return std::string("!"); put(o, { B((uint8_t*)&c, (uint8_t*)&c + 8), B(h.begin(), h.end()) }); }
            else { size_t c = mqRPMTPSIcardsum::Receive(io, pp, Y); put(o, { B((uint8_t*)&c, (uint8_t*)&c + 8) }); }
            if (!same(X, q.first.X) || !same(Y, q.first.Y)) return std::string("!"); }
        party::settle(io, role); return o; }, party::Policy(), salt + 1);
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(rounds.size() << ls); mc::trace();
    if (!MC_CHECK(R.ok(), nm, ": the protocol does not complete: ", R.why)) return;
    if (!MC_CHECK(R.out[0] != "!" && R.out[1] != "!", nm, ": a party's inputs are modified")) return;
    size_t a = 0, b = 0; auto &so = R.out[swap ? 0 : 1], &ro = R.out[swap ? 1 : 0];
    for (size_t r = 0; r < rounds.size(); r++) {
        auto& q = rounds[r]; cpp_int sum = 0; for (size_t i = 0; i < q.second.size(); i++) if (q.first.in[i]) sum += q.second[i]; sum %= cpp_int(1) << lsum; size_t card = ones(q.first.in);
        BV s, c; if (!MC_CHECK(get(so, a, s) && get(ro, b, c) && s.size() == 2 && c.size() == 1, nm, " round ", r, ": outputs missing")) return;
        size_t c1, c2; memcpy(&c1, s[0].data(), 8); memcpy(&c2, c[0].data(), 8); std::string h(s[1].begin(), s[1].end()); cpp_int got; try { got = cpp_int(h); } catch (...) { got = -1; }
        if (!MC_CHECK(c1 == card && c2 == card, nm, " round ", r, ": cardinality ", c1, "/", c2, ", expected ", card)) return;
        if (!MC_CHECK(got == sum, nm, " round ", r, ": sum ", got.str(), ", expected ", sum.str(), " (pattern ", show(q.first.in), ")")) return;
    }
}
static std::vector<cpp_int> values(size_t n, size_t lval, int kind)
{
    std::vector<cpp_int> v(n); cpp_int top = (cpp_int(1) << lval) - 1;
    for (size_t i = 0; i < n; i++) switch (kind) { case 0: v[i] = 0; break; case 1: v[i] = 1; break; case 2: v[i] = top; break; case 3: v[i] = i & top; break; case 4: v[i] = i % 3 == 0 ? top : cpp_int(0); break; case 5: v[i] = cpp_int(1) << (i % lval); break; default: v[i] = 0; for (int w = 0; w < 4; w++) v[i] = (v[i] << 64) + mc::mix(i * 4 + w); v[i] &= top; }
    return v;
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    // every overlap pattern of small sets, for the protocols that take any size
    for (K k : { CARD, CWPSI, PSUB }) for (size_t ls = 0; ls <= (k == PSUB ? 2 : 3); ls++) for (size_t lr = 0; lr <= (k == PSUB ? 2 : 3); lr++) { size_t n = 1u << ls, m = 1u << lr;
        for (unsigned mask = 0; mask < (1u << n); mask++) { if ((size_t)__builtin_popcount(mask) > m) continue; if (!T && n == 8 && mask % (k == CARD ? 5 : 3) && m != 8) continue; if (!T && n == 8 && k == CARD && mask % 2) continue;
            if (!mc::begin(cat(KN[k], "-all:", ls, ":", lr, ":", mask))) continue; std::vector<uint8_t> in(n); for (size_t i = 0; i < n; i++) in[i] = mask >> i & 1;
            execute(k, ls, lr, { make(n, m, in, mask % FAMILIES, mask % 3, mask) }, mask & 1, false, 16, cat(KN[k], " |X|=", n, " |Y|=", m, " pattern ", show(in)), mask); } }
    // size pairs x patterns; protocols over OT extension take at least 128 items on the sending side
    for (K k : { PSI, PSU, CARD, CWPSI, PSUB }) for (size_t ls = 0; ls <= (T ? 11 : 9); ls++) for (size_t lr = 0; lr <= (T ? 11 : 9); lr++) for (int pt = 0; pt < PATTERNS; pt++) {
        if ((k == PSI || k == PSU) && ls < 7) continue; if (ls < 4 && lr < 4 && k != PSUB) continue; if (ls == 0 && pt > 1) continue;
        if (!T && (pt + ls * 3 + lr * 5 + k) % (ls == lr ? 2 : (k == PSI || k == PSU) ? 3 : 5)) continue;
        if (!mc::begin(cat(KN[k], ":", ls, ":", lr, ":", pt))) continue; size_t n = 1u << ls, m = 1u << lr; int fam = (ls + lr + pt) % FAMILIES;
        auto a = make(n, m, pattern(n, m, pt, ls), fam, pt % 3, ls * 16 + lr), b = make(n, m, pattern(n, m, (pt + 3) % PATTERNS, lr), (fam + 1) % FAMILIES, (pt + 1) % 3, lr);
        execute(k, ls, lr, ls + lr > 15 || pt % 2 ? std::vector<Pair>{ a } : std::vector<Pair>{ a, b, a }, pt & 1, pt == 2 || pt == 4, 16, cat(KN[k], " |X|=", n, " |Y|=", m, " pattern ", pt), pt); }
    for (K k : { PSI, PSU, CARD, CWPSI, PSUB }) for (auto& q : std::vector<std::pair<size_t, size_t>>{ {11, 11}, {12, 12}, {12, 9}, {9, 12}, {13, 11}, {11, 13}, {14, 14} }) { size_t ls = q.first, lr = q.second, n = 1u << ls, m = 1u << lr; if (!T && ls == 14) continue; if (mc::begin(cat(KN[k], "-big:", ls, ":", lr))) execute(k, ls, lr, { make(n, m, pattern(n, m, 6, ls), 0, 2, ls * 16 + lr) }, ls & 1, false, 16, cat(KN[k], " |X|=", n, " |Y|=", m), 6); }
    // one common / one missing item at every position of the sender
    for (K k : { PSI, PSU }) for (size_t i = 0; i < 128; i += T ? 1 : 5) for (int one = 0; one < 2; one++) if (mc::begin(cat(KN[k], "-pos:", i, ":", one))) { std::vector<uint8_t> in(128, !one); in[i] = one; execute(k, 7, 7, { make(128, 128, in, i % FAMILIES, i % 3, i) }, i & 1, false, 16, cat(KN[k], " 128 items, the odd one at ", i), i); }
    // byte strings of every length
    for (size_t L = 1; L <= (T ? 80 : 40); L++) for (int pt : { 4, 6, 0 }) if (mc::begin(cat("psu-len:", L, ":", pt))) { size_t lg = L == 1 ? 4 : 3 + L % 5; size_t n = 1u << lg; execute(PSUB, lg, lg, { make(n, n, pattern(n, n, pt, L), 0, pt % 3, L) }, L & 1, false, L, cat("psu-bytes length ", L, " pattern ", pt), L); }
    for (size_t L : { 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096 }) { if (T && L < 81) continue; if (mc::begin(cat("psu-len:", L, ":4"))) execute(PSUB, 5, 5, { make(32, 32, pattern(32, 32, 4, L), 0, 2, L) }, L & 1, false, L, cat("psu-bytes length ", L), L); }
    for (K k : { PSI, PSU, CARD, CWPSI, PSUB }) for (int ord : { 1, 2, 3 }) if (mc::begin(cat(KN[k], "-order:", ord))) { rt::order = ord; execute(k, 7, 6, { make(128, 64, pattern(128, 64, 6, ord), 0, 2, ord) }, ord & 1, false, 16, cat(KN[k], " team order ", ord), ord); rt::order = 0; }
    // cardinality with sum
    for (size_t lsum : { 8, 16, 24, 32, 64, 72, 128, 256 }) for (size_t lval : { 1, 7, 8, 16, 31, 32, 63, 64, 65, 100 }) for (int kind = 0; kind < 7; kind++) {
        if (lval > lsum) continue; if (!T && (kind + lsum / 8 + lval) % 3) continue; if (!mc::begin(cat("sum:", lsum, ":", lval, ":", kind))) continue; int pt = (kind + lval + lsum / 8) % PATTERNS;
        cardsum(7, 7, lsum, lval, { { make(128, 128, pattern(128, 128, pt, kind), kind % FAMILIES, kind % 3, kind), values(128, lval, kind) } }, kind & 1, kind == 3, cat("card-sum bound 2^", lsum, " values < 2^", lval, " kind ", kind), kind + lsum); }
    for (size_t ls = 7; ls <= (T ? 10 : 9); ls++) for (size_t lr = 0; lr <= (T ? 10 : 9); lr++) for (int pt = 0; pt < PATTERNS; pt++) { if (!T && (pt + ls + lr) % 3) continue; if (!mc::begin(cat("sum-size:", ls, ":", lr, ":", pt))) continue; size_t n = 1u << ls, m = 1u << lr;
        auto a = make(n, m, pattern(n, m, pt, ls), (ls + lr) % FAMILIES, pt % 3, ls), b = make(n, m, pattern(n, m, (pt + 1) % PATTERNS, ls), 0, 2, lr); std::vector<std::pair<Pair, std::vector<cpp_int>>> rr{ { a, values(n, 16, 6) } }; if (pt == 4 || pt == 1) { rr.push_back({ b, values(n, 32, 6) }); rr.push_back({ a, values(n, 32, 2) }); }
        cardsum(ls, lr, 32, 32, rr, pt & 1, pt == 2, cat("card-sum |X|=", n, " |Y|=", m, " pattern ", pt), pt); }
    for (auto& q : std::vector<std::pair<size_t, size_t>>{ {10, 10}, {11, 11}, {11, 8}, {8, 11}, {12, 12} }) { size_t ls = q.first, lr = q.second, n = 1u << ls, m = 1u << lr; if (!T && ls == 12) continue; if (mc::begin(cat("sum-big:", ls, ":", lr))) cardsum(ls, lr, 64, 48, { { make(n, m, pattern(n, m, 6, ls), 0, 2, ls), values(n, 48, 6) } }, ls & 1, false, cat("card-sum |X|=", n, " |Y|=", m), 6); }
    for (size_t i = 0; i < 128; i += T ? 1 : 9) if (mc::begin(cat("sum-pos:", i))) { std::vector<uint8_t> in(128, 0); in[i] = 1; auto v = values(128, 32, 6); cardsum(7, 7, 40, 32, { { make(128, 128, in, i % FAMILIES, i % 3, i), v } }, i & 1, false, cat("card-sum one common item at ", i), i); }
    for (size_t p : { 30, 48, 60, 64, 80 }) for (K k : { PSI, PSU, CARD, CWPSI, PSUB }) if (mc::begin(cat("security:", p, ":", KN[k]))) { SSP = p; for (int pt : { 4, 6 }) execute(k, 7, 6, { make(128, 64, pattern(128, 64, pt, p), pt % FAMILIES, pt % 3, p) }, p & 4, pt == 4, 16, cat(KN[k], " security ", p, " pattern ", pt), p); SSP = 40; }
    return mc::finish();
}
