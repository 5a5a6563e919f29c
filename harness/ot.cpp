// C14: oblivious transfer. Both parties run the real code; choice patterns, message contents, lengths, variants,
// role assignments and repetitions on one connection are enumerated. Besides the delivered messages the check looks
// at the pads: no two messages are masked by the same pad, and the receiver's stream does not contain its choices.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "mpc/ot/alsz_ote.hpp"
#include "mpc/ot/iknp_ote.hpp"
#include "party.hpp"
#include "rt.hpp"
using mc::cat;
typedef std::vector<uint8_t> B;
typedef std::vector<B> BV;

static std::string ser(const std::vector<block>& v) { return std::string((const char*)v.data(), v.size() * 16); }
static std::string serb(const BV& v) { std::string s; for (auto& x : v) { uint32_t n = x.size(); s.append((char*)&n, 4); s.append(x.begin(), x.end()); } return s; }

// messages: kind 0 all different, 1 equal in pairs, 2 all zero, 3 all ones, 4 all the same
static B msg(size_t i, int which, int kind, size_t len)
{
    B b(len);
    if (kind == 2) return b;
    if (kind == 3) { std::fill(b.begin(), b.end(), 0xff); return b; }
    mc::Rng r; r.s = mc::mix(kind == 4 ? 7 : kind == 1 ? 1000 + i : 5000 + 2 * i + which) ^ 0x55;
    for (size_t o = 0; o < len; o++) b[o] = (uint8_t)(r.next() >> 11);
    return b;
}
static std::vector<block> msgs(size_t n, int which, int kind) { std::vector<block> v(n); for (size_t i = 0; i < n; i++) { B b = msg(i, which, kind, 16); memcpy(&v[i], b.data(), 16); } return v; }
static BV bmsgs(size_t n, int which, int kind, size_t len) { BV v(n); for (size_t i = 0; i < n; i++) v[i] = msg(i, which, kind, len); return v; }

typedef unsigned __int128 u128;
static std::vector<u128> blocks_of(const std::string& s, size_t k) { std::vector<u128> v; if (s.size() < 16 * k) return v; const char* p = s.data() + s.size() - 16 * k; for (size_t i = 0; i < k; i++) { u128 x; memcpy(&x, p + 16 * i, 16); v.push_back(x); } return v; }
static bool pads_repeat(const std::string& wire, const std::vector<B>& m)     // messages (first 16 bytes) all different
{
    std::vector<u128> w = blocks_of(wire, m.size()); if (w.empty()) return false;
    std::vector<u128> M; for (auto& b : m) { if (b.size() < 16) return false; u128 x; memcpy(&x, b.data(), 16); M.push_back(x); }
    std::set<u128> d; for (size_t i = 0; i < M.size(); i++) for (size_t j = i + 1; j < M.size(); j++) d.insert(M[i] ^ M[j]);
    for (size_t i = 0; i < w.size(); i++) for (size_t j = i + 1; j < w.size(); j++) if (d.count(w[i] ^ w[j])) return true;
    std::set<u128> ms(M.begin(), M.end()); for (u128 x : w) if (ms.count(x)) return true;      // in the clear
    return false;
}
static bool reveals(const std::string& wire, const B& sel)                    // the receiver's stream contains its choices
{
    size_t n = sel.size() / 8; if (n < 16) return false;
    int w = 0; for (auto b : sel) w += b; if (w < 20 || w > (int)sel.size() - 20) return false;
    std::string r[2]; for (int o = 0; o < 2; o++) { r[o].assign(n, 0); for (size_t i = 0; i < sel.size(); i++) if (sel[i]) r[o][i / 8] |= 1 << (o ? 7 - i % 8 : i % 8); }
    std::string sp(sel.begin(), sel.end());
    for (int o = 0; o < 2; o++) if (wire.find(r[o]) != std::string::npos) return true;
    if (wire.find(sp) != std::string::npos) return true;
    std::set<std::string> chunks; size_t k = 0;
    for (size_t e = wire.size(); e >= n && k < 600; e -= n, k++) {
        std::string c = wire.substr(e - n, n); if (chunks.count(c)) return true;       // one mask used for two columns
        for (int o = 0; o < 2; o++) { std::string x = c; for (size_t i = 0; i < n; i++) x[i] ^= r[o][i]; if (chunks.count(x)) return true; }
        chunks.insert(c);
    }
    return false;
}

enum V { NP, ALSZ, IKNP, ALSZ1, IKNP1, ALSZB, ALSZB1, RALSZ, RIKNP, NV };
static const char* VN[] = { "np", "alsz", "iknp", "alsz-onesided", "iknp-onesided", "alsz-bytes", "alsz-onesided-bytes", "alsz-random", "iknp-random" };
struct Job { V v; B sel; int kind = 0; size_t item = 16; };

struct PPs { NPOT::PP np; ALSZOTE::PP al; IKNPOTE::PP ik; };
static PPs* Pp;
#define P (*Pp)
static std::string sender(NetIO& io, const Job& j)
{
    size_t n = j.sel.size(); auto m0 = msgs(n, 0, j.kind), m1 = msgs(n, 1, j.kind); auto b0 = bmsgs(n, 0, j.kind, j.item), b1 = bmsgs(n, 1, j.kind, j.item);
    std::string o;
    switch (j.v) {
    case NP: NPOT::Send(io, P.np, m0, m1, n); break;
    case ALSZ: ALSZOTE::Send(io, P.al, m0, m1, n); break;
    case IKNP: IKNPOTE::Send(io, P.ik, m0, m1, n); break;
    case ALSZ1: ALSZOTE::OnesidedSend(io, P.al, m1, n); break;
    case IKNP1: IKNPOTE::OnesidedSend(io, P.ik, m1, n); break;
    case ALSZB: ALSZOTE::SendByteVector(io, P.al, b0, b1, n); break;
    case ALSZB1: ALSZOTE::OnesidedSendByteVector(io, P.al, b1, n); break;
    case RALSZ: { std::vector<block> a(n), b(n); ALSZOTE::RandomSend(io, P.al, a, b, n); return ser(a) + ser(b); }
    case RIKNP: { std::vector<block> a(n), b(n); IKNPOTE::RandomSend(io, P.ik, a, b, n); return ser(a) + ser(b); }
    default: break;
    }
    if (ser(m0) != ser(msgs(n, 0, j.kind)) || ser(m1) != ser(msgs(n, 1, j.kind)) || b0 != bmsgs(n, 0, j.kind, j.item) || b1 != bmsgs(n, 1, j.kind, j.item)) return "inputs changed";
    return "";
}
static std::string receiver(NetIO& io, const Job& j)
{
    size_t n = j.sel.size(); B sel = j.sel; std::string o;
    switch (j.v) {
    case NP: o = ser(NPOT::Receive(io, P.np, sel, n)); break;
    case ALSZ: o = ser(ALSZOTE::Receive(io, P.al, sel, n)); break;
    case IKNP: o = ser(IKNPOTE::Receive(io, P.ik, sel, n)); break;
    case ALSZ1: o = ser(ALSZOTE::OnesidedReceive(io, P.al, sel, n)); break;
    case IKNP1: o = ser(IKNPOTE::OnesidedReceive(io, P.ik, sel, n)); break;
    case ALSZB: o = serb(ALSZOTE::ReceiveByteVector(io, P.al, sel, n)); break;
    case ALSZB1: o = serb(ALSZOTE::OnesidedReceiveByteVector(io, P.al, sel, n)); break;
    case RALSZ: { std::vector<block> k(n); ALSZOTE::RandomReceive(io, P.al, k, sel, n); o = ser(k); break; }
    case RIKNP: { std::vector<block> k(n); IKNPOTE::RandomReceive(io, P.ik, k, sel, n); o = ser(k); break; }
    default: break;
    }
    if (sel != j.sel) o += "choices changed";
    return o;
}
static std::string pack(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { uint64_t n = x.size(); s.append((char*)&n, 8); s += x; } return s; }
static std::vector<std::string> unpack(const std::string& s) { std::vector<std::string> v; size_t o = 0; while (o + 8 <= s.size()) { uint64_t n; memcpy(&n, s.data() + o, 8); v.push_back(s.substr(o + 8, n)); o += 8 + n; } return v; }

static std::map<std::string, std::pair<size_t, size_t>> traffic;
// swap[k]: the client sends in job k
static void judge(const std::vector<Job>& jobs, const std::vector<int>& swap, const std::string& how = "", const party::Policy& pol = party::Policy())
{
    auto r = party::run([&](int role) -> std::string {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", 8080); std::vector<std::string> o;
        for (size_t k = 0; k < jobs.size(); k++) o.push_back((role == 0) != (bool)swap[k] ? sender(io, jobs[k]) : receiver(io, jobs[k]));
        party::settle(io, role); return pack(o);
    }, pol);
    std::string nm = how; bool nt = false;
    for (auto& j : jobs) { nm += cat(" ", VN[j.v], " n=", j.sel.size(), " kind=", j.kind, " item=", j.item, " choices="); for (size_t i = 0; i < std::min<size_t>(j.sel.size(), 40); i++) nm += (char)('0' + j.sel[i]); if (j.sel.size()) nt = true; }
    std::string key = nm; for (auto& j : jobs) key.append(j.sel.begin(), j.sel.end());
    mc::eval(key, nt); mc::transition(jobs.size()); mc::trace(); mc::state(mc::fnv(key));
    if (!r.ok()) { mc::fail(nm + ": the run does not complete:" + r.why); return; }
    auto o0 = unpack(r.out[0]), o1 = unpack(r.out[1]);
    if (o0.size() != jobs.size() || o1.size() != jobs.size()) { mc::fail(nm + ": output missing"); return; }
    std::set<std::string> allkeys;
    for (size_t k = 0; k < jobs.size(); k++) {
        const Job& j = jobs[k]; size_t n = j.sel.size(); const std::string &so = swap[k] ? o1[k] : o0[k], &ro = swap[k] ? o0[k] : o1[k];
        if (j.v == RALSZ || j.v == RIKNP) {
            if (!MC_CHECK(so.size() == 32 * n && ro.size() == 16 * n, nm, ": number of keys")) return;
            std::set<std::string> diffs;
            for (size_t i = 0; i < n; i++) {
                std::string k0 = so.substr(16 * i, 16), k1 = so.substr(16 * (n + i), 16), kb = ro.substr(16 * i, 16), d = k0; for (int b = 0; b < 16; b++) d[b] ^= k1[b];
                if (!MC_CHECK(kb == (j.sel[i] ? k1 : k0), nm, ": receiver's key at position ", i, " is not the chosen one")) return;
                if (!MC_CHECK(allkeys.insert(k0).second && allkeys.insert(k1).second, nm, ": a key repeats at position ", i)) return;
                if (!MC_CHECK(diffs.insert(d).second, nm, ": the two keys have the same difference at two positions")) return;
            }
        } else {
            if (!MC_CHECK(so.empty(), nm, ": ", so)) return;
            std::string want; BV w;
            bool one = j.v == ALSZ1 || j.v == IKNP1 || j.v == ALSZB1, bytes = j.v == ALSZB || j.v == ALSZB1;
            for (size_t i = 0; i < n; i++) if (!one || j.sel[i]) { B m = msg(i, j.sel[i], j.kind, bytes ? j.item : 16); w.push_back(m); if (!bytes) want.append(m.begin(), m.end()); }
            if (bytes) want = serb(w);
            if (!MC_CHECK(ro == want, nm, ": the receiver's messages are not the chosen ones (job ", k, ")")) return;
            if (jobs.size() == 1 && j.kind == 0 && (!bytes || j.item == 16)) {
                std::vector<B> all; if (!one) for (size_t i = 0; i < n; i++) all.push_back(msg(i, 0, 0, 16)); for (size_t i = 0; i < n; i++) all.push_back(msg(i, 1, 0, 16));
                if (n <= 300 && !MC_CHECK(!pads_repeat(r.wire[swap[k] ? 1 : 0], all), nm, ": two messages are masked by one pad, or a message is sent in the clear")) return;
            }
        }
        if (jobs.size() == 1 && j.v != NP && !MC_CHECK(!reveals(r.wire[swap[k] ? 0 : 1], j.sel), nm, ": the receiver's stream reveals its choices")) return;
        if (jobs.size() == 1) {
            std::string t = cat(VN[j.v], n, " ", j.item); std::pair<size_t, size_t> now(r.wire[swap[k]].size(), r.wire[1 - swap[k]].size());
            auto it = traffic.insert({ t, now }).first; if (!MC_CHECK(it->second == now, nm, ": the amount of traffic depends on the inputs")) return;
        }
    }
}
static B bits(uint64_t m, size_t n) { B b(n); for (size_t i = 0; i < n; i++) b[i] = i < 64 ? (m >> i) & 1 : 0; return b; }
static B pat(const std::string& p, size_t n) { B b(n); mc::Rng r; r.s = mc::fnv(p) ^ n; for (size_t i = 0; i < n; i++) b[i] = p == "1" ? 1 : p == "01" ? i & 1 : p == "10" ? !(i & 1) : p == "half" ? i >= n / 2 : p == "r" || p == "s" || p == "t" ? r.next() & 1 : 0; return b; }

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    Pp = new PPs; P.np = NPOT::Setup(); P.al = ALSZOTE::Setup(128); P.ik = IKNPOTE::Setup(128);
    // base OT: every choice pattern
    for (size_t n = 1; n <= (T ? 8 : 6); n++) for (uint64_t m = 0; m < (1ull << n); m++) if (mc::begin(cat("np:", n, ":", m)))
        for (int kind = 0; kind < 5; kind++) for (int sw = 0; sw < 2; sw++) judge({ { NP, bits(m, n), kind } }, { sw });
    for (size_t n = 7; n <= (T ? 140 : 40); n++) if (mc::begin(cat("nplen:", n))) for (auto p : { "0", "1", "01", "r" }) judge({ { NP, pat(p, n) } }, { (int)(n & 1) });
    for (size_t n : { 127, 128, 129, 255, 256, 257, 300, 513 }) { if (T && n < 140) continue; if (mc::begin(cat("nplen:", n))) for (auto p : { "01", "r" }) judge({ { NP, pat(p, n) } }, { (int)(n & 1) }); }
    for (size_t n = 1; n <= 3; n++) for (uint64_t m = 0; m < (1ull << n); m++) if (mc::begin(cat("np2:", n, ":", m)))        // repeated on one connection, roles swapped or not
        for (size_t n2 = 1; n2 <= 3; n2++) for (uint64_t m2 = 0; m2 < (1ull << n2); m2++) for (int sw = 0; sw < 4; sw++) judge({ { NP, bits(m, n) }, { NP, bits(m2, n2) } }, { sw & 1, sw >> 1 });
    // extension: variants, lengths, patterns
    std::vector<size_t> lens = { 128, 256, 384, 512, 640, 1024 }; if (T) { lens.push_back(1152); lens.push_back(2048); lens.push_back(4096); }
    for (int v = ALSZ; v < NV; v++) for (size_t n : lens) for (auto p : { "0", "1", "01", "10", "half", "r", "s" }) if (mc::begin(cat("ext:", VN[v], ":", n, ":", p)))
        for (int sw = 0; sw < 2; sw++) for (int kind : { 0, 1, 2, 3 }) { if (kind && (sw || n > 256 || v >= RALSZ)) continue; judge({ { (V)v, pat(p, n), kind } }, { sw }); }
    for (int v = ALSZ; v < NV; v++) for (size_t n : { 2048, 2176, 4224, 8192, 16512, 65536, 65664 }) { if (T && n < 4097) continue; if (mc::begin(cat("long:", VN[v], ":", n))) for (auto p : { "r", "half" }) { if (p[0] == 'h' && n > 5000 && !T) continue; judge({ { (V)v, pat(p, n) } }, { (int)(n / 128 & 1) }); } }
    // every single choice bit, and every single choice bit inverted
    for (int v = ALSZ; v < NV; v++) for (size_t n : { 128, 256 }) for (size_t i = 0; i < n; i++) { if (!T && (v != RALSZ && v != RIKNP) && i % 8) continue; if (!T && n > 128 && i % 5) continue; if (mc::begin(cat("bit:", VN[v], ":", n, ":", i))) { B s = bits(0, n); s[i] = 1; judge({ { (V)v, s } }, { 0 }); for (auto& x : s) x ^= 1; judge({ { (V)v, s } }, { 1 }); } }
    // item lengths of the byte-vector variants
    for (int v : { ALSZB, ALSZB1 }) for (size_t it = 1; it <= (T ? 130 : 65); it++) if (mc::begin(cat("item:", VN[v], ":", it))) for (auto p : { "r", "01" }) for (int kind : { 0, 3 }) judge({ { (V)v, pat(p, 128), kind, it } }, { (int)(it & 1) });
    for (int v : { ALSZB, ALSZB1 }) for (size_t it : { 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 5000, 65536 }) if (mc::begin(cat("item:", VN[v], ":", it, "L"))) judge({ { (V)v, pat("r", 128), 0, it } }, { (int)(it & 1) });
    // all ordered pairs of variants on one connection
    for (int a = 0; a < NV; a++) for (int b = 0; b < NV; b++) if (mc::begin(cat("pair:", VN[a], ":", VN[b]))) for (int sw = 0; sw < 4; sw++) { if (!T && sw != ((a + b) & 3)) continue; judge({ { (V)a, pat("r", 128) }, { (V)b, pat("s", 256) } }, { sw & 1, sw >> 1 }); }
    // order in which the team's members run
    for (int v = 0; v < NV; v++) for (int ord : { 1, 2, 3 }) if (mc::begin(cat("order:", VN[v], ":", ord))) { rt::order = ord; judge({ { (V)v, pat("r", 128) } }, { 0 }); rt::order = 0; }
    // delivery of the stream
    for (int v = 0; v < NV; v++) for (size_t st : { 1, 7, 4093 }) if (mc::begin(cat("deliver:", VN[v], ":", st))) { party::Policy p; p.step = st; judge({ { (V)v, pat("r", st == 1 && v == NP ? 4 : 128) } }, { (int)(st & 1) }, cat("parts of ", st), p); }
    // number of base transfers; parameters reloaded from a file
    for (size_t base : { 128, 256, 384 }) for (int v = ALSZ; v < NV; v++) if (mc::begin(cat("base:", base, ":", VN[v]))) {
        PPs keep = P; P.al = ALSZOTE::Setup(base); P.ik = IKNPOTE::Setup(base);
        if (v == ALSZ) MC_CHECK(P.al.BASE_LEN == base, "Setup ignores the requested number of base transfers");
        if (v == IKNP) MC_CHECK(P.ik.BASE_LEN == base, "Setup ignores the requested number of base transfers");
        traffic.clear(); judge({ { (V)v, pat("r", 256) } }, { 0 });
        ALSZOTE::SavePP(P.al, "a.pp"); IKNPOTE::SavePP(P.ik, "i.pp"); NPOT::SavePP(P.np, "n.pp");
        PPs q; ALSZOTE::FetchPP(q.al, "a.pp"); IKNPOTE::FetchPP(q.ik, "i.pp"); NPOT::FetchPP(q.np, "n.pp"); P = q;
        MC_CHECK(P.al.BASE_LEN == base && P.ik.BASE_LEN == base, "reloaded parameters differ"); judge({ { (V)v, pat("t", 256) } }, { 1 }); judge({ { NP, pat("t", 5) } }, { 1 });
        P = keep; traffic.clear();
    }
    return mc::finish();
}
