// C20: private identifiers. Both parties run the real code over an owned transport; sizes, overlap patterns, item
// families, repetitions and parameter files are enumerated and the joint output is compared with the plain sets.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "mpc/pso/mqrpmt_private_id.hpp"
#include "party.hpp"
#include "rt.hpp"
#include "sets.hpp"
using mc::cat; using namespace sets;
static size_t SSP = 40;
static void execute(size_t ls, size_t lr, const std::vector<Pair>& rounds, bool swap, bool file, const std::string& nm, uint64_t salt, size_t lp = 0)
{
    if (!lp) lp = std::max(ls, lr);
    auto R = party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); bool snd = (role == 1) != swap; std::string o;
        auto pp = mqRPMTPrivateID::Setup(lp, 128, SSP, ls, lr); if (file) { std::string f = cat("pp", role, ".bin"); mqRPMTPrivateID::SavePP(pp, f); mqRPMTPrivateID::FetchPP(pp, f); }
        for (auto& p : rounds) { auto X = p.X, Y = p.Y; size_t L = pp.oprf_part.RANGE_SIZE;
            auto [uni, own] = snd ? mqRPMTPrivateID::Send(io, pp, X, L) : mqRPMTPrivateID::Receive(io, pp, Y, L);
            if (!same(X, p.X) || !same(Y, p.Y)) return std::string("!"); put(o, uni); put(o, own); put(o, { B(1, L) }); }
        party::settle(io, role); return o; }, party::Policy(), salt + 1);
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(rounds.size() * (rounds[0].X.size() + rounds[0].Y.size())); mc::trace();
    if (!MC_CHECK(R.ok(), nm, ": the protocol does not complete: ", R.why)) return;
    if (!MC_CHECK(R.out[0] != "!" && R.out[1] != "!", nm, ": a party's inputs are modified")) return;
    auto &so = R.out[swap ? 0 : 1], &ro = R.out[swap ? 1 : 0]; size_t a = 0, b = 0; std::set<B> old;
    for (size_t r = 0; r < rounds.size(); r++) {
        auto& p = rounds[r]; BV us, os, ur, orr, l, l2; if (!MC_CHECK(get(so, a, us) && get(so, a, os) && get(so, a, l) && get(ro, b, ur) && get(ro, b, orr) && get(ro, b, l2), nm, " round ", r, ": outputs missing")) return;
        if (!MC_CHECK(os.size() == p.X.size() && orr.size() == p.Y.size(), nm, " round ", r, ": wrong number of identifiers")) return;
        std::map<std::string, B> id; auto put1 = [&](const block& x, const B& v) { auto it = id.emplace(bs(x), v); return it.second || it.first->second == v; };
        for (size_t i = 0; i < p.X.size(); i++) if (!MC_CHECK(os[i].size() == l[0][0], nm, ": identifier of length ", os[i].size()) || !MC_CHECK(put1(p.X[i], os[i]), nm, ": one item, two identifiers")) return;
        for (size_t i = 0; i < p.Y.size(); i++) if (!MC_CHECK(orr[i].size() == l[0][0], nm, ": identifier of length ", orr[i].size()) || !MC_CHECK(put1(p.Y[i], orr[i]), nm, " round ", r, ": a common item has different identifiers at the two parties (pattern ", show(p.in), ")")) return;
        std::set<B> vals; for (auto& e : id) vals.insert(e.second); if (!MC_CHECK(vals.size() == id.size(), nm, ": two items share an identifier")) return;
        std::multiset<B> ms(us.begin(), us.end()), mr(ur.begin(), ur.end()), want(vals.begin(), vals.end());
        if (!MC_CHECK(ms == mr, nm, " round ", r, ": the parties hold different universal sets (", ms.size(), " and ", mr.size(), ")")) return;
        if (!MC_CHECK(ms == want, nm, " round ", r, ": the universal set has ", ms.size(), " identifiers, the union has ", want.size(), " items")) return;
        for (auto& v : vals) if (!MC_CHECK(old.insert(v).second, nm, ": an identifier of an earlier run returns")) return;
        for (int w = 0; w < 2; w++) for (auto* S : { &p.X, &p.Y }) for (size_t i = 0; i < S->size(); i += 1 + S->size() / 16) { std::string s = bs((*S)[i]); if (s[0] && s[15] && s != std::string(16, -1)) if (!MC_CHECK(R.wire[w].find(s) == std::string::npos, nm, ": an item travels in clear")) return; }
        // the shared set must not tell its order of origin
        if (p.Y.size() >= 16) { bool first = true; for (size_t i = 0; i < p.Y.size() && i < us.size(); i++) first = first && us[i] == orr[i]; MC_CHECK(!first, nm, ": the universal set lists the receiver's identifiers first, in order"); }
    }
}
int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    for (size_t ls = 0; ls <= (T ? 3 : 2); ls++) for (size_t lr = 0; lr <= (T ? 3 : 2); lr++) { size_t n = 1u << ls, m = 1u << lr; for (unsigned mask = 0; mask < (1u << n); mask++) { if ((size_t)__builtin_popcount(mask) > m || (n == 8 && mask % 5)) continue; if (!mc::begin(cat("all:", ls, ":", lr, ":", mask))) continue; std::vector<uint8_t> in(n); for (size_t i = 0; i < n; i++) in[i] = mask >> i & 1;
        execute(ls, lr, { make(n, m, in, mask % FAMILIES, mask % 3, mask) }, mask & 1, false, cat("private-id |X|=", n, " |Y|=", m, " pattern ", show(in)), mask); } }
    for (size_t ls = 0; ls <= (T ? 11 : 9); ls++) for (size_t lr = 0; lr <= (T ? 11 : 9); lr++) for (int pt = 0; pt < PATTERNS; pt++) { if (ls < 3 && lr < 3) continue; if (ls == 0 && pt > 1) continue; if (!T && (pt + ls * 3 + lr) % (ls == lr ? 2 : 5)) continue; if (!mc::begin(cat("size:", ls, ":", lr, ":", pt))) continue; size_t n = 1u << ls, m = 1u << lr; int fam = (ls + lr + pt) % FAMILIES;
        auto a = make(n, m, pattern(n, m, pt, ls), fam, pt % 3, ls * 16 + lr), b = make(n, m, pattern(n, m, (pt + 3) % PATTERNS, lr), (fam + 1) % FAMILIES, (pt + 1) % 3, lr);
        execute(ls, lr, pt % 4 == 0 ? std::vector<Pair>{ a, b } : std::vector<Pair>{ a }, pt & 1, pt == 2 || pt == 5, cat("private-id |X|=", n, " |Y|=", m, " pattern ", pt), pt, pt == 6 ? std::max(ls, lr) + 1 : 0); }
    for (auto& q : std::vector<std::pair<size_t, size_t>>{ {10, 10}, {11, 11}, {12, 12}, {12, 9}, {9, 12}, {11, 13} }) { size_t ls = q.first, lr = q.second, n = 1u << ls, m = 1u << lr; if (!T && ls == 12 && lr == 12) continue; if (mc::begin(cat("big:", ls, ":", lr))) execute(ls, lr, { make(n, m, pattern(n, m, 6, ls), 0, 2, ls * 16 + lr) }, ls & 1, false, cat("private-id |X|=", n, " |Y|=", m), 6); }
    for (size_t i = 0; i < 32; i++) for (int one = 0; one < 2; one++) if ((T || i % 4 == (size_t)one) && mc::begin(cat("pos:", i, ":", one))) { std::vector<uint8_t> in(32, !one); in[i] = one; execute(5, 5, { make(32, 32, in, i % FAMILIES, i % 3, i) }, i & 1, false, cat("private-id 32 items, the odd one at ", i), i); }
    for (int ord : { 1, 2, 3 }) if (mc::begin(cat("order:", ord))) { rt::order = ord; execute(6, 6, { make(64, 64, pattern(64, 64, 6, ord), 0, 2, ord) }, ord & 1, false, cat("private-id team order ", ord), ord); rt::order = 0; }
    for (size_t p : { 30, 48, 60, 64, 80 }) for (size_t lg : { 2, 5, 7 }) if (mc::begin(cat("security:", p, ":", lg))) { SSP = p; size_t n = 1u << lg; execute(lg, lg, { make(n, n, pattern(n, n, 6, p), 0, 2, p) }, p & 4, false, cat("private-id security ", p, " 2^", lg), p); SSP = 40; }
    return mc::finish();
}
