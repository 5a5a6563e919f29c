// C18: private membership and equality tests. Both parties run the real code; overlap patterns, item families, sizes,
// positions, repetitions, parameter files and team orders are enumerated. Each result bit is compared with plain
// membership, and a semi-honest peer (own implementation of one role) looks for what it must not see.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "mpc/rpmt/cwprf_mqrpmt.hpp"
#ifdef PLAIN
#include "mpc/rpmt/rrpke_mqrpmt.hpp"
#endif
#include "mpc/peqt/peqt_from_ddh.hpp"
#include "party.hpp"
#include "rt.hpp"
#include "sets.hpp"
using mc::cat; using namespace sets;
static size_t SSP = 40;

enum K { CW, RR }; static const char* KN[] = { "cwprf", "rrpke" };
static void execute(K k, size_t ls, size_t lc, const std::vector<Pair>& rounds, bool swap, bool file, const std::string& nm, uint64_t salt)
{
    auto R = party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); bool srv = (role == 0) != swap; std::string o;
        cwPRFmqRPMT::PP pc = cwPRFmqRPMT::Setup(SSP, ls, lc);
#ifdef PLAIN
        rrPKEmqRPMT::PP pr = rrPKEmqRPMT::Setup(SSP, ls, lc);
#endif
        if (file) { std::string f = cat("pp", role, ".bin"); cwPRFmqRPMT::SavePP(pc, f); pc = cwPRFmqRPMT::PP(); memset(&pc, 0x5a, sizeof pc); cwPRFmqRPMT::FetchPP(pc, f);
#ifdef PLAIN
            rrPKEmqRPMT::SavePP(pr, f); memset(&pr, 0x5a, sizeof pr); rrPKEmqRPMT::FetchPP(pr, f);
#endif
        }
        for (auto& p : rounds) {
            auto X = p.X, Y = p.Y; std::vector<uint8_t> bits;
            if (k == CW) { if (srv) bits = cwPRFmqRPMT::Server(io, pc, Y); else cwPRFmqRPMT::Client(io, pc, X); }
#ifdef PLAIN
            else { if (srv) bits = rrPKEmqRPMT::Server(io, pr, Y); else rrPKEmqRPMT::Client(io, pr, X); }
#endif
            if (!same(X, p.X) || !same(Y, p.Y)) return std::string("!");
            if (srv) put(o, { bits });
        }
        party::settle(io, role); return o; }, party::Policy(), salt + 1);
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(rounds.size() * rounds[0].X.size()); mc::trace();
    if (!MC_CHECK(R.ok(), nm, ": the protocol does not complete: ", R.why)) return;
    if (!MC_CHECK(R.out[0] != "!" && R.out[1] != "!", nm, ": a party's inputs are modified")) return;
    size_t at = 0; BV b; auto& so = R.out[swap];
    for (size_t r = 0; r < rounds.size(); r++) {
        if (!MC_CHECK(get(so, at, b) && b.size() == 1 && b[0].size() == rounds[r].X.size(), nm, " round ", r, ": wrong number of result bits")) return;
        for (size_t i = 0; i < b[0].size(); i++) if (!MC_CHECK(b[0][i] == rounds[r].in[i], nm, " round ", r, ": query ", i, " answered ", (int)b[0][i], ", membership is ", (int)rounds[r].in[i], " (pattern ", show(rounds[r].in), ")")) return;
        // items never travel in clear, neither as such nor hashed
        for (int w = 0; w < 2; w++) for (auto* S : { &rounds[r].X, &rounds[r].Y }) for (size_t i = 0; i < S->size(); i += 1 + S->size() / 16) { block x = (*S)[i]; std::string s = bs(x); if (s[0] && s[15] && s != std::string(16, -1)) if (!MC_CHECK(R.wire[w].find(s) == std::string::npos, nm, ": an item travels in clear")) return; unsigned char h[64]; Hash::BlockToBytes(x, h, 32); if (!MC_CHECK(R.wire[w].find(std::string((char*)h, 32)) == std::string::npos, nm, ": the plain hash of an item travels")) return; }
    }
}
static Pair P(size_t n, size_t m, const std::vector<uint8_t>& in, int fam, int place, uint64_t salt) { return make(n, m, in, fam, place, salt); }

// the private equality test: r x c table, both permutation factors
static void peqt(size_t r, size_t c, const std::vector<uint8_t>& eq, int fam, bool swap, const std::string& nm, uint64_t salt, std::vector<std::vector<uint64_t>>* perms = nullptr, int rounds = 1)
{
    size_t n = r * c; std::vector<block> X(n), Y(n); for (size_t i = 0; i < n; i++) { X[i] = item(fam, i, salt); Y[i] = eq[i] == 1 ? X[i] : eq[i] == 2 ? item(fam, (i + 1) % n, salt) : item(fam, n + i, salt); if (eq[i] == 2 && n == 1) Y[i] = item(fam, 5, salt); }
    if (eq.size() > n) for (size_t i = 0; i < n; i++) { X[i] = item(fam, 0, salt); Y[i] = eq[i] ? X[i] : item(fam, 1, salt); }       // repeated values
    auto R = party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); std::string o; auto x = X, y = Y;
        for (int q = 0; q < rounds; q++) if ((role == 0) != swap) { auto p = DDHPEQT::Send(io, y, r, c); B v; for (auto q : p) for (int k = 0; k < 8; k++) v.push_back(q >> (8 * k)); put(o, { v }); }
        else put(o, { DDHPEQT::Receive(io, x, r, c) });
        if (!same(x, X) || !same(y, Y)) return std::string("!");
        party::settle(io, role); return o; }, party::Policy(), salt + 1);
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(n); mc::trace();
    if (!MC_CHECK(R.ok() && R.out[0] != "!" && R.out[1] != "!", nm, ": does not complete or modifies inputs: ", R.why)) return;
    size_t a = 0, b = 0; for (int rd = 0; rd < rounds; rd++) { BV pv, rv; if (!MC_CHECK(get(R.out[swap], a, pv) && get(R.out[!swap], b, rv) && pv[0].size() == 8 * n && rv[0].size() == n, nm, ": wrong number of outputs")) return;
    std::vector<uint64_t> perm(n); for (size_t i = 0; i < n; i++) { uint64_t q = 0; for (int k = 8; k--;) q = q << 8 | pv[0][8 * i + k]; perm[i] = q; }
    auto srt = perm; std::sort(srt.begin(), srt.end()); for (size_t i = 0; i < n; i++) if (!MC_CHECK(srt[i] == i, nm, ": the permutation is not one")) return;
    for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) MC_CHECK(perm[i * c + j] / c == perm[i * c] / c && perm[i * c + j] % c == perm[j] % c, nm, ": the permutation does not act on rows and columns");
    for (size_t i = 0; i < n; i++) if (!MC_CHECK((rv[0][perm[i]] != 0) == (eq[i] == 1) && rv[0][perm[i]] <= 1, nm, ": position ", i, " (at ", perm[i], "): result ", (int)rv[0][perm[i]], " but equal is ", eq[i] == 1)) return;
    if (perms) perms->push_back(perm); }
}
#ifndef PLAIN
typedef EC25519Point Pt;
#else
typedef ECPoint Pt;
#endif
// what a server sees that follows the protocol with a key of its own choosing: does the answer tell which of its items matched?
static std::string order_seen(size_t lg, int rounds, uint64_t salt, std::string& why)
{
    size_t n = 1ull << lg; Pair p = P(n, n, std::vector<uint8_t>(n, 1), 0, 0, 7);
    auto R = party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); cwPRFmqRPMT::PP pp = cwPRFmqRPMT::Setup(SSP, lg, lg); auto X = p.X; std::string o;
        for (int r = 0; r < rounds; r++) {
            if (role) { cwPRFmqRPMT::Client(io, pp, X); continue; }
            std::vector<Pt> a(n), b(n), c(n);
#ifndef PLAIN
            std::vector<uint8_t> k(32, 0x42); for (size_t i = 0; i < n; i++) { Pt h; Hash::BlockToBytes(p.Y[i], h.px, 32); a[i] = h * k; }
            io.SendEC25519Points(a.data(), n); io.ReceiveEC25519Points(b.data(), n); io.ReceiveEC25519Points(c.data(), n);
            for (size_t i = 0; i < n; i++) { Pt q = b[i] * k; size_t at = n; for (size_t j = 0; j < n; j++) if (!memcmp(c[j].px, q.px, 32)) at = j; o += char(at); }
#else
            BigInt k(bn_3); for (size_t i = 0; i < n; i++) a[i] = Hash::BlockToECPoint(p.Y[i]) * k;
            io.SendECPoints(a.data(), n); io.ReceiveECPoints(b.data(), n); io.ReceiveECPoints(c.data(), n);
            for (size_t i = 0; i < n; i++) { Pt q = b[i] * k; size_t at = n; for (size_t j = 0; j < n; j++) if (c[j] == q) at = j; o += char(at); }
#endif
        }
        return o; }, party::Policy(), salt + 1);
    why = R.why; return R.out[0];
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    // every overlap pattern of small sets
    for (size_t lc = 0; lc <= 3; lc++) for (size_t ls = 0; ls <= 3; ls++) { size_t n = 1u << lc, m = 1u << ls;
        for (unsigned mask = 0; mask < (1u << n); mask++) { if ((size_t)__builtin_popcount(mask) > m) continue; if (!T && n == 8 && m != 8 && mask % 3) continue;
            if (!mc::begin(cat("cw-all:", lc, ":", ls, ":", mask))) continue;
            std::vector<uint8_t> in(n); for (size_t i = 0; i < n; i++) in[i] = mask >> i & 1;
            execute(CW, ls, lc, { P(n, m, in, mask % FAMILIES, mask % 3, mask) }, mask & 1, false, cat("cwprf client 2^", lc, " server 2^", ls, " pattern ", show(in)), mask); } }
    // larger and unequal sizes, all families and patterns, two rounds on one connection, parameter files
    for (size_t lc = 0; lc <= (T ? 11 : 9); lc++) for (size_t ls = 0; ls <= (T ? 11 : 9); ls++) for (int pt = 0; pt < PATTERNS; pt++) { if (lc < 4 && ls < 4) continue; if (!T && lc > 5 && ls > 5 && lc != ls && pt != int(lc * 3 + ls) % PATTERNS) continue; if (!T && lc != ls && (lc + ls + pt) % 2) continue;
        if (!mc::begin(cat("cw:", lc, ":", ls, ":", pt))) continue; size_t n = 1u << lc, m = 1u << ls; int fam = (lc + ls + pt) % FAMILIES;
        auto a = P(n, m, pattern(n, m, pt, lc), fam, pt % 3, lc * 16 + ls), b = P(n, m, pattern(n, m, (pt + 3) % PATTERNS, ls), (fam + 1) % FAMILIES, (pt + 1) % 3, lc);
        execute(CW, ls, lc, lc + ls > 14 ? std::vector<Pair>{ a } : std::vector<Pair>{ a, b, a }, pt & 1, pt == 2, cat("cwprf client 2^", lc, " server 2^", ls, " pattern ", pt), pt); }
    // sizes the protocols are meant for
    { std::vector<std::pair<size_t, size_t>> big = { {11, 11}, {12, 12}, {12, 9}, {9, 12}, {13, 11}, {11, 13} };
#ifndef PLAIN
      big.push_back({ 14, 14 }); if (T) big.push_back({ 16, 16 });
#endif
      for (auto& q : big) for (int pt : { 6, 7 }) { size_t lc = q.first, ls = q.second, n = 1u << lc, m = 1u << ls; if (!T && pt == 7 && lc != 11) continue; if (mc::begin(cat("cw-big:", lc, ":", ls, ":", pt))) execute(CW, ls, lc, { P(n, m, pattern(n, m, pt, lc), pt == 6 ? 0 : 5, 2, lc * 16 + ls) }, lc & 1, false, cat("cwprf client 2^", lc, " server 2^", ls, " pattern ", pt), pt); } }
    // one member at every position; one non-member at every position; items that differ from a member in one bit only
    for (size_t i = 0; i < 32; i++) for (int one = 0; one < 2; one++) if (mc::begin(cat("cw-pos:", i, ":", one))) { std::vector<uint8_t> in(32, !one); in[i] = one; execute(CW, 5, 5, { P(32, 32, in, i % FAMILIES, i % 3, i) }, i & 1, false, cat("cwprf 32 items, the odd one at ", i), i); }
    for (int b = 0; b < 128; b += T ? 1 : 8) if (mc::begin(cat("cw-near:", b))) { // server holds y and 127 others; client asks y ^ (1 << (b+j))
        Pair p; block y = item(0, 0, b); for (size_t j = 0; j < 128; j++) p.Y.push_back(item(0, j, b)); for (int j = 0; j < 8; j++) { int q = (b + j) % 128; p.X.push_back(y ^ (q < 64 ? blk(0, 1ull << q) : blk(1ull << (q - 64), 0))); } p.X[7] = y; p.in = { 0, 0, 0, 0, 0, 0, 0, 1 };
        execute(CW, 7, 3, { p }, false, false, cat("cwprf near misses from bit ", b), b); }
    for (int ord : { 1, 2, 3 }) for (int pt : { 4, 6, 7 }) if (mc::begin(cat("cw-order:", ord, ":", pt))) { rt::order = ord; execute(CW, 6, 6, { P(64, 64, pattern(64, 64, pt, ord), 0, 2, ord) }, ord & 1, false, cat("cwprf team order ", ord, " pattern ", pt), ord); rt::order = 0; }
#ifndef BLOOMFILTER
    if (mc::begin("cw-unlinkable")) { std::string why, all = order_seen(5, 8, 700, why); mc::eval("unlinkable"); mc::trace(); std::set<std::string> seen; std::string id; for (int i = 0; i < 32; i++) id += char(i);
        if (MC_CHECK(all.size() == 8 * 32 && why.empty(), "a client answering a server fails: ", why)) for (int s = 0; s < 8; s++) { auto v = all.substr(32 * s, 32); for (auto x : v) MC_CHECK(x < 32, "an item of the server is missing in the client's answer"); MC_CHECK(v != id, "the client's answer is in the server's order: the server learns which items are common"); MC_CHECK(seen.insert(v).second, "the same shuffle in two runs"); } }
#endif
#ifdef PLAIN
    for (size_t ls = 7; ls <= (T ? 10 : 8); ls++) for (size_t lc = 0; lc <= (T ? 9 : 8); lc++) for (int pt = 0; pt < PATTERNS; pt++) { if (lc == 0 && pt > 1) continue; if (!T && lc != 7 && (lc + pt + ls) % 2) continue; if (!mc::begin(cat("rr:", ls, ":", lc, ":", pt))) continue; size_t n = 1u << lc, m = 1u << ls; int fam = (lc + ls + pt) % FAMILIES;
        auto a = P(n, m, pattern(n, m, pt, lc), fam, pt % 3, lc * 16 + ls); execute(RR, ls, lc, pt == 4 ? std::vector<Pair>{ a, a } : std::vector<Pair>{ a }, pt & 1, pt == 2, cat("rrpke client 2^", lc, " server 2^", ls, " pattern ", pt), pt); }
    for (auto& q : std::vector<std::pair<size_t, size_t>>{ {10, 10}, {11, 9}, {9, 11}, {12, 12} }) { size_t lc = q.first, ls = q.second, n = 1u << lc, m = 1u << ls; if (lc == 12 && !T) continue; if (mc::begin(cat("rr-big:", lc, ":", ls))) execute(RR, ls, lc, { P(n, m, pattern(n, m, 6, lc), 0, 2, lc * 16 + ls) }, lc & 1, false, cat("rrpke client 2^", lc, " server 2^", ls), 6); }
    for (unsigned mask = 0; mask < 16; mask++) if (mc::begin(cat("rr-all:", mask))) { std::vector<uint8_t> in(4); for (int i = 0; i < 4; i++) in[i] = mask >> i & 1; execute(RR, 7, 2, { P(4, 128, in, mask % FAMILIES, mask % 3, mask) }, mask & 1, false, cat("rrpke 4 queries pattern ", show(in)), mask); }
    for (int ord : { 1, 2 }) if (mc::begin(cat("rr-order:", ord))) { rt::order = ord; execute(RR, 7, 4, { P(16, 128, pattern(16, 128, 6, ord), 0, 2, ord) }, ord & 1, false, cat("rrpke team order ", ord), ord); rt::order = 0; }
#endif
    for (size_t p : { 30, 48, 60, 64, 80 }) for (size_t lg : { 1, 4, 7 }) if (mc::begin(cat("security:", p, ":", lg))) { SSP = p; size_t n = 1u << lg; for (int pt : { 4, 6 }) { execute(CW, lg, lg, { P(n, n, pattern(n, n, pt, p), pt, pt % 3, p) }, p & 4, pt == 4, cat("cwprf security ", p, " 2^", lg, " pattern ", pt), p);
#ifdef PLAIN
        if (lg == 7 && p <= 60) execute(RR, 7, 5, { P(32, 128, pattern(32, 128, pt, p), pt, pt % 3, p) }, p & 4, pt == 4, cat("rrpke security ", p, " pattern ", pt), p);
#endif
        } SSP = 40; }
    // equality tests: every pattern of every shape with at most 6 cells (equal / other / neighbour's value), then families
    for (size_t r = 1; r <= 6; r++) for (size_t c = 1; r * c <= (T ? 7 : 6); c++) { size_t n = r * c, tot = 1; for (size_t i = 0; i < n; i++) tot *= n <= 4 ? 3 : 2;
        for (size_t code = 0; code < tot; code++) { if (!mc::begin(cat("peqt-all:", r, "x", c, ":", code))) continue; std::vector<uint8_t> eq(n); size_t x = code; for (auto& e : eq) { e = x % (n <= 4 ? 3 : 2); x /= n <= 4 ? 3 : 2; } peqt(r, c, eq, code % FAMILIES, code & 1, cat("peqt ", r, "x", c, " pattern ", show(eq)), code); } }
    for (size_t r : { 1, 2, 3, 5, 8, 17, 32 }) for (size_t c : { 1, 2, 7, 8, 9, 31 }) for (int pt = 0; pt < PATTERNS; pt++) { if (!T && r * c > 60 && pt != int(r + c) % PATTERNS) continue; if (mc::begin(cat("peqt:", r, "x", c, ":", pt))) peqt(r, c, pattern(r * c, r * c, pt, r), (r + c + pt) % FAMILIES, pt & 1, cat("peqt ", r, "x", c, " pattern ", pt), r * 64 + c); }
    for (auto& q : std::vector<std::pair<size_t, size_t>>{ {1, 300}, {300, 1}, {64, 64}, {16, 257}, {257, 16}, {128, 129} }) if (mc::begin(cat("peqt-big:", q.first, "x", q.second))) { size_t n = q.first * q.second; peqt(q.first, q.second, pattern(n, n, 6, n), 0, q.first & 1, cat("peqt ", q.first, "x", q.second), n); }
    for (int k = 0; k < 8; k++) if (mc::begin(cat("peqt-same:", k))) { std::vector<uint8_t> eq(13); for (int i = 0; i < 12; i++) eq[i] = k == 0 ? 1 : k == 1 ? 0 : mc::mix(k * 12 + i) & 1; peqt(3, 4, eq, k % FAMILIES, k & 1, cat("peqt repeated values ", k), k); }
    for (int ord : { 1, 2, 3 }) if (mc::begin(cat("peqt-order:", ord))) { rt::order = ord; peqt(5, 9, pattern(45, 45, 6, ord), 0, ord & 1, cat("peqt team order ", ord), ord); rt::order = 0; }
    if (mc::begin("peqt-perm")) { std::vector<std::vector<uint64_t>> ps; peqt(8, 8, pattern(64, 64, 6, 1), 0, false, "peqt, 8 runs on one connection", 900, &ps, 8); std::set<std::vector<uint64_t>> d(ps.begin(), ps.end()), rows, cols; for (auto& p : ps) { std::vector<uint64_t> a, b; for (int i = 0; i < 8; i++) { a.push_back(p[i * 8] / 8); b.push_back(p[i] % 8); } rows.insert(a); cols.insert(b); } MC_CHECK(d.size() == ps.size() && rows.size() > 6 && cols.size() > 6, "the result permutation is not fresh: ", d.size(), " permutations, ", rows.size(), " of rows, ", cols.size(), " of columns in 8 runs"); }
    return mc::finish();
}
