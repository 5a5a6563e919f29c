// C15: oblivious pseudorandom functions (OT-extension, VOLE and DDH based). Both parties run the real code; set sizes,
// input families, evaluation orders, permutations, repeated executions and team orders are enumerated. The client's
// values have to be the function the server evaluates under its key, and nothing else may be computable by the client.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "mpc/vole/vole.hpp"
static std::vector<block> spied_C; static bool spied = false;
namespace VOLE { inline std::vector<block> spy_A(NetIO& io, uint64_t n, std::vector<block>& c, uint64_t t = 128) { auto a = VOLE_A(io, n, c, t); spied_C = c; spied = true; return a; } }
#define VOLE_A spy_A
#include "mpc/oprf/vole_oprf.hpp"
#undef VOLE_A
#include "mpc/oprf/ote_oprf.hpp"
#include "mpc/oprf/ddh_oprf.hpp"
#include "party.hpp"
#include "rt.hpp"
using mc::cat;
static size_t SSP = 40;
typedef std::vector<uint8_t> B;
typedef std::vector<B> BV;
static block blk(uint64_t a, uint64_t b) { return Block::MakeBlock(a, b); }
static std::string bs(const block& b) { return std::string((const char*)&b, 16); }
static std::vector<block> input(size_t n, int kind, uint64_t salt)
{
    std::vector<block> v(n); mc::Rng r; r.s = mc::mix(salt * 77 + kind);
    for (size_t i = 0; i < n; i++) v[i] = kind == 0 ? blk(r.next(), r.next()) : kind == 1 ? blk(0, i) : kind == 2 ? blk(i, 0) : kind == 3 ? blk(~0ull, ~0ull - i) : blk(7, 7);
    return v;
}
// wire format of results between the children and this process
static void put(std::string& o, const BV& v) { uint32_t n = v.size(); o.append((char*)&n, 4); for (auto& x : v) { uint32_t k = x.size(); o.append((char*)&k, 4); o.append(x.begin(), x.end()); } }
static bool get(const std::string& s, size_t& p, BV& v) { uint32_t n; if (p + 4 > s.size()) return false; memcpy(&n, &s[p], 4); p += 4; v.clear(); for (uint32_t i = 0; i < n; i++) { uint32_t k; if (p + 4 > s.size()) return false; memcpy(&k, &s[p], 4); p += 4; if (p + k > s.size()) return false; v.emplace_back(s.begin() + p, s.begin() + p + k); p += k; } return true; }

enum K { OTE, VOL, VOL1, DDH };
static const char* KN[] = { "ote", "vole", "vole-blocks", "ddh" };
struct Round { std::vector<block> X; std::vector<uint64_t> perm; };
static BV toV(const std::vector<block>& v) { BV o; for (auto& x : v) o.emplace_back((uint8_t*)&x, (uint8_t*)&x + 16); return o; }

// one connection, `rounds` executions with one set of public parameters; after each round the server evaluates on several input vectors
static void execute(K k, size_t log, const std::vector<Round>& rounds, bool swap, const std::string& nm, uint64_t salt = 0)
{
    size_t n = rounds[0].X.size();
    auto evals = [&](const Round& r) { std::vector<std::vector<block>> q; auto rev = r.X; std::reverse(rev.begin(), rev.end()); auto oth = input(n, 0, salt + 4711), mix = oth; for (size_t i = 0; i < n; i += 2) mix[i] = r.X[(i * 5 + 1) % n];
        q.push_back(r.X); q.push_back(r.X); q.push_back(rev); q.push_back(oth); q.push_back(mix);
        if (k != OTE) { q.push_back({ r.X[n / 2] }); q.push_back({ r.X.begin(), r.X.begin() + (n + 1) / 2 }); auto sup = r.X; sup.insert(sup.end(), oth.begin(), oth.end()); sup.push_back(r.X[0]); q.push_back(sup); }
        return q; };
    auto R = party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); std::string o; bool srv = (role == 0) != swap;
        OTEOPRF::PP po; VOLEOPRF::PP pv; DDHOPRF::PP pd; if (k == OTE) po = OTEOPRF::Setup(log, SSP); if (k == VOL || k == VOL1) pv = VOLEOPRF::Setup(log, SSP); if (k == DDH) pd = DDHOPRF::Setup();
        for (auto& r : rounds) {
            if (srv) { B key = k == OTE ? OTEOPRF::Server(io, po) : k == VOL ? VOLEOPRF::Server(io, pv) : k == VOL1 ? VOLEOPRF::Server1(io, pv) : DDHOPRF::Server(io, pd, r.perm, n);
                put(o, { key }); B key0 = key;
                for (auto q : evals(r)) { auto q0 = q; put(o, k == OTE ? OTEOPRF::Evaluate(po, key, q, q.size()) : k == VOL ? VOLEOPRF::Evaluate(pv, key, q, q.size()) : k == VOL1 ? toV(VOLEOPRF::Evaluate1(pv, key, q, q.size())) : DDHOPRF::Evaluate(pd, key, q, q.size())); if (key != key0 || toV(q) != toV(q0)) return std::string("inputs changed"); } }
            else { auto X = r.X; spied = false; put(o, k == OTE ? OTEOPRF::Client(io, po, X, n) : k == VOL ? VOLEOPRF::Client(io, pv, X, n) : k == VOL1 ? toV(VOLEOPRF::Client1(io, pv, X, n)) : DDHOPRF::Client(io, pd, X, n)); if (toV(X) != toV(r.X)) return std::string("inputs changed");
                // everything the client could try by itself for other inputs
                BV own; if ((k == VOL || k == VOL1) && spied && spied_C.size() == pv.okvs_output_size) { auto oth = input(n, 0, salt + 4711); std::vector<block> w(n); pv.okvs.decode(oth, w, spied_C, 1); own = toV(w); } put(o, own); } }
        party::settle(io, role); return o; }, party::Policy(), salt + 1);
    mc::eval(nm); mc::state(mc::fnv(nm)); mc::transition(n * rounds.size()); mc::trace();
    if (!MC_CHECK(R.ok(), nm, ": the protocol does not complete: ", R.why)) return;
    const std::string &so = R.out[swap ? 1 : 0], &co = R.out[swap ? 0 : 1];
    if (!MC_CHECK(so != "inputs changed" && co != "inputs changed", nm, ": a party's inputs are modified")) return;
    size_t sp = 0, cp = 0; std::map<std::string, B> F0; std::set<B> keys; size_t width = 0;
    for (size_t rd = 0; rd < rounds.size(); rd++) {
        auto& r = rounds[rd]; BV key, cli, own; if (!MC_CHECK(get(so, sp, key) && get(co, cp, cli) && get(co, cp, own) && cli.size() == n, nm, ": outputs missing or wrong number of values")) return;
        MC_CHECK(keys.insert(key[0]).second, nm, ": the same key in two executions");
        std::map<std::string, B> F; auto learn = [&](const block& x, const B& v, const char* by) { if (!width) width = v.size(); auto it = F.find(bs(x)); bool ok = v.size() == width && width >= 5; if (it == F.end()) F[bs(x)] = v; else ok = ok && it->second == v; return MC_CHECK(ok, nm, " round ", rd, ": value of one input differs (", by, ")"); };
        for (size_t i = 0; i < n; i++) { size_t at = k == DDH && r.perm.size() == n ? r.perm[i] : i; if (!learn(r.X[i], cli[at], "client")) return; }
        for (auto& q : evals(r)) { BV v; if (!MC_CHECK(get(so, sp, v) && v.size() >= q.size(), nm, ": evaluation returns ", v.size(), " values for ", q.size(), " inputs")) return; for (size_t i = 0; i < q.size(); i++) if (!learn(q[i], v[i], "server evaluation")) return; }
        if (width >= 8) { std::set<B> d; for (auto& e : F) d.insert(e.second); if (!MC_CHECK(d.size() == F.size(), nm, ": two inputs have the same value")) return; }
        auto oth = input(n, 0, salt + 4711); std::set<std::string> mine; for (auto& x : r.X) mine.insert(bs(x));
        for (size_t i = 0; i < own.size(); i++) if (!mine.count(bs(oth[i])) && !MC_CHECK(F[bs(oth[i])] != own[i], nm, ": the client can compute the value of an input it did not query")) return;
        for (auto& e : F) { auto it = F0.find(e.first); if (it != F0.end() && !MC_CHECK(it->second != e.second, nm, ": two executions evaluate the same function")) return; } F0.insert(F.begin(), F.end());
        for (int w = 0; w < 2; w++) { auto& W = R.wire[w]; std::string kk(key[0].begin(), key[0].end()); if (kk.size() <= 64) MC_CHECK(W.find(kk) == std::string::npos, nm, ": the key appears on the wire"); else for (size_t o = 0; o + 32 <= kk.size(); o += 1 + kk.size() / 64) { std::string p = kk.substr(o, 32); if (p != std::string(32, 0)) { if (!MC_CHECK(W.find(p) == std::string::npos, nm, ": a part of the key appears on the wire")) return; } }
            for (size_t i = 0; i < n; i += 1 + n / 16) { std::string x = bs(r.X[i]); if (x[0] && x[15] && x != std::string(16, -1) && !MC_CHECK(W.find(x) == std::string::npos, nm, ": an input appears on the wire")) return; auto& v = cli[i]; if (v.size() >= 12 && !MC_CHECK(W.find(std::string(v.begin(), v.end())) == std::string::npos, nm, ": a function value appears on the wire")) return; } }
    }
}
static std::vector<uint64_t> iden(size_t n) { std::vector<uint64_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i; return p; }
int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    // DDH: all permutations of few inputs; families of larger ones
    for (size_t n = 1; n <= (T ? 5 : 4); n++) { auto p = iden(n); do { std::string s; for (auto x : p) s += char('0' + x); if (mc::begin(cat("ddh-perm:", s))) execute(DDH, 0, { { input(n, 0, n), p } }, n & 1, cat("ddh permutation ", s)); } while (std::next_permutation(p.begin(), p.end())); }
    for (size_t n : { 1, 2, 3, 7, 8, 9, 16, 33, 64, 100, 257 }) for (int kind = 0; kind < 5; kind++) for (int pm = 0; pm < 3; pm++) { if (n > 33 && pm != kind % 3) continue; if (kind == 4 && n > 16) continue; if (mc::begin(cat("ddh:", n, ":", kind, ":", pm))) { auto p = iden(n); if (pm == 1) std::reverse(p.begin(), p.end()); if (pm == 2) { mc::Rng r; r.s = n; for (size_t i = n; i-- > 1;) std::swap(p[i], p[r.next() % (i + 1)]); } auto x = input(n, kind, n); if (kind == 4) for (auto& y : x) y = blk(7, 7); execute(DDH, 0, { { x, p }, { x, iden(n) } }, pm & 1, cat("ddh n=", n, " inputs ", kind, " permutation ", pm), n + kind); } }
    for (size_t n : { 128, 129, 255, 256, 1000, 1025, 4096 }) if (mc::begin(cat("ddh-big:", n))) { auto p = iden(n); mc::Rng r; r.s = n; for (size_t i = n; i-- > 1;) std::swap(p[i], p[r.next() % (i + 1)]); execute(DDH, 0, { { input(n, 0, n), p } }, n & 1, cat("ddh n=", n), n); }
    if (!T) for (K k : { OTE, VOL, VOL1 }) for (size_t lg : { 12, 13 }) if (mc::begin(cat(KN[k], "-big:", lg))) execute(k, lg, { { input(1ull << lg, 0, lg), {} } }, lg & 1, cat(KN[k], " n=2^", lg), lg);
    for (size_t lg = 0; lg <= (T ? 14 : 11); lg++) for (int kind = 0; kind < 4; kind++) for (K k : { VOL, VOL1 }) { size_t n = 1ull << lg; if (lg > 9 && (kind > 1)) continue; if (mc::begin(cat(KN[k], ":", lg, ":", kind))) execute(k, lg, { { input(n, kind, lg), {} }, { input(n, lg & 1 ? kind : 0, lg), {} } }, (lg + kind) & 1, cat(KN[k], " n=2^", lg, " inputs ", kind), lg * 10 + kind); }
    for (int s = 0; s < (T ? 40 : 12); s++) if (mc::begin(cat("vole-salt:", s))) { size_t lg = 2 + s % 6; execute(VOL, lg, { { input(1ull << lg, 0, s), {} } }, s & 1, cat("vole n=2^", lg, " sample ", s), 1000 + s); }
    for (size_t lg : { 2, 4, 7 }) for (size_t n : { (size_t)1, ((size_t)1 << lg) - 1 }) if (mc::begin(cat("vole1-few:", lg, ":", n))) execute(VOL1, lg, { { input(n, 0, lg), {} }, { input(n, 1, lg + 1), {} } }, n == 1, cat("vole (block form) n=", n, " of 2^", lg), lg * 100 + n);
    for (size_t lg = 1; lg <= (T ? 11 : 8); lg++) for (size_t n : { (size_t)1, (size_t)2, ((size_t)1 << lg) / 2 + 1, ((size_t)1 << lg) - 1 }) for (int kind : { 0, 1, 3 }) { if (n >= (1ull << lg) || (!T && (lg + n + kind) % 2)) continue; if (mc::begin(cat("vole-few:", lg, ":", n, ":", kind))) execute(VOL, lg, { { input(n, kind, lg), {} }, { input(n, 0, lg + 1), {} } }, (lg + kind) & 1, cat("vole ", n, " inputs of at most 2^", lg, ", family ", kind), lg * 10 + kind); }
    if (mc::begin("vole-bins")) execute(VOL, 16, { { input(1 << 16, 0, 3), {} } }, false, "vole n=2^16 (several bins)", 3);
    for (size_t lg = 3; lg <= (T ? 13 : 11); lg++) for (int kind = 0; kind < 5; kind++) { size_t n = 1ull << lg; if (lg > 8 && kind > 1) continue; if (!T && lg < 8 && (int)(lg + kind) % 2) continue; if (mc::begin(cat("ote:", lg, ":", kind))) { auto x = input(n, kind, lg); std::vector<Round> r{ { x, {} } }; if (kind == 0) r.push_back({ x, {} }); if (kind == 1 && lg < 7) { r.push_back({ input(n, 0, 5), {} }); r.push_back({ x, {} }); } execute(OTE, lg, r, (lg + kind) & 1, cat("ote n=2^", lg, " inputs ", kind), lg * 10 + kind); } }
    for (int ord : { 1, 2, 3 }) for (K k : { OTE, VOL, DDH }) if (mc::begin(cat("order:", ord, ":", KN[k]))) { rt::order = ord; size_t lg = 5; auto p = iden(32); std::reverse(p.begin(), p.end()); execute(k, lg, { { input(32, 0, ord), p } }, ord & 1, cat(KN[k], " team order ", ord), ord); rt::order = 0; }
    for (size_t p : { 30, 48, 60, 64, 80 }) for (size_t lg : { 3, 6 }) if (mc::begin(cat("ote-security:", p, ":", lg))) { SSP = p; execute(OTE, lg, { { input(1ull << lg, 0, p), {} }, { input(1ull << lg, 1, p), {} } }, p & 4, cat("ote security ", p, " n=2^", lg), p); SSP = 40; }
    for (size_t p : { 30, 48, 60, 64, 80 }) for (size_t lg : { 1, 3, 5, 8 }) if (mc::begin(cat("security:", p, ":", lg))) { SSP = p; execute(VOL, lg, { { input(1ull << lg, 0, p), {} }, { input(1ull << lg, 1, p), {} } }, p & 4, cat("vole security ", p, " n=2^", lg), p); SSP = 40; }
    return mc::finish();
}
