// C13: conversations over the network channel under enumerated segmentations of the byte stream.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "netio/stream_channel.hpp"
#include "party.hpp"
#include "zutil.hpp"
using mc::cat; using namespace zu;

// the build with compressed points repeats only what concerns points
static bool go(const std::string& n)
{
#ifdef POINTS_ONLY
    if (n.find("point") == std::string::npos || n.find("xpoints") != std::string::npos) return false;
#endif
    return mc::begin(n);
}

// A message kind: send value v / receive it into an object that holds something else; both return the canonical text.
struct Kind { std::string name; size_t values; std::function<std::string(NetIO&, size_t)> put, get; };
static std::vector<Kind> K;
static std::string cano(const ECPoint& p) { char* h = EC_POINT_point2hex(group, p.point_ptr, POINT_CONVERSION_UNCOMPRESSED, nullptr); std::string s(h); OPENSSL_free(h); return s + ";"; }
static std::string cano(const BigInt& b) { return cat(toZ(b), ";"); }
static std::string cano(const block& b) { return mc::hex(&b, 16) + ";"; }
static std::string cano(const std::string& s) { return mc::hex(s.data(), s.size()) + ";"; }
static std::string cano(const EC25519Point& p) { return mc::hex(p.px, 32) + ";"; }
static std::string cano(const std::vector<uint8_t>& s) { return mc::hex(s.data(), s.size()) + ";"; }
template <class T> static std::string canov(const std::vector<T>& v) { std::string o = cat(v.size(), ":"); for (auto& x : v) o += cano(x); return o; }
static std::string canoi(const void* p, size_t n) { return mc::hex(p, n) + ";"; }
static uint64_t rv(uint64_t a, uint64_t b) { return mc::mix(a * 1000003 + b + 99); }
static block rblk(uint64_t a, uint64_t b) { switch (b % 5) { case 0: return _mm_setzero_si128(); case 1: return _mm_set1_epi64x(-1); case 2: return _mm_set_epi64x(0, 1); default: return _mm_set_epi64x(rv(a, b), rv(b, a)); } }
static ECPoint rpt(uint64_t a, uint64_t b)
{
    static std::vector<ECPoint> tab;
    if (tab.empty()) { tab.resize(64); for (size_t i = 0; i < 64; i++) { BigInt k = toB(i == 0 ? Z(0) : i == 1 ? Z(1) : i == 2 ? Z(N() - 1) : Z(rv(4, i))); EC_POINT_mul(group, tab[i].point_ptr, k.bn_ptr, nullptr, nullptr, nullptr); } }
    return tab[b % 4 < 3 ? b % 4 : (rv(a, b) % 61) + 3];
}
static Z rz(uint64_t a, uint64_t b, size_t bits) { Z m = Z(1) << bits; switch (b % 5) { case 0: return 0; case 1: return 1; case 2: return m - 1; case 3: return m >> 8; default: { Z z = 0; for (int i = 0; i < 6; i++) z = (z << 64) + Z(rv(a, b * 7 + i)); return z % m; } } }
static std::string rstr(size_t n, uint64_t s) { std::string o(n, 0); for (size_t i = 0; i < n; i++) o[i] = (char)(s % 3 == 0 ? 0 : s % 3 == 1 ? 0xff : rv(s, i)); return o; }

template <class T> static void ints(const char* n) {
    K.push_back({ n, 4, [](NetIO& io, size_t v) { T x = (T)(v == 0 ? 0 : v == 1 ? -1 : v == 2 ? 1 : (T)rv(5, v)); io.SendInteger(x); return canoi(&x, sizeof x); },
        [](NetIO& io, size_t v) { T x; memset(&x, 0xa5, sizeof x); io.ReceiveInteger(x); return canoi(&x, sizeof x); } });
}
template <class T, class MK, class SND, class RCV> static void vec(const std::string& n, size_t len, MK mk, SND snd, RCV rcv) {
    K.push_back({ n, 3, [=](NetIO& io, size_t v) { std::vector<T> a(len); for (size_t i = 0; i < len; i++) a[i] = mk(v, i + v); snd(io, a.data(), len); return canov(a); },
        [=](NetIO& io, size_t v) { std::vector<T> a(len); for (size_t i = 0; i < len; i++) a[i] = mk(77, i + 3); rcv(io, a.data(), len); return canov(a); } });
}
static void bytes(size_t n, const std::string& nm) {
    K.push_back({ nm, 3, [=](NetIO& io, size_t v) { std::string s = rstr(n, v + (n > 1000 ? 2 : 0)); io.SendBytes(s.data(), n); return cano(s); },
        [=](NetIO& io, size_t v) { std::string s(n + 1, 0x5a); io.ReceiveBytes(&s[0], n); if (s[n] != 0x5a) return std::string("wrote past the end"); s.resize(n); return cano(s); } });
}
static void kinds()
{
    ints<uint8_t>("u8"); ints<int32_t>("i32"); ints<size_t>("u64");
    for (size_t n : { 0, 1, 7, 33 }) bytes(n, cat("bytes", n));
    for (size_t n : { 0, 1, 3 }) {
        vec<block>(cat("blocks", n), n, rblk, [](NetIO& io, block* p, size_t l) { io.SendBlocks(p, l); }, [](NetIO& io, block* p, size_t l) { io.ReceiveBlocks(p, l); });
        vec<ECPoint>(cat("points", n), n, rpt, [](NetIO& io, ECPoint* p, size_t l) { io.SendECPoints(p, l); }, [](NetIO& io, ECPoint* p, size_t l) { io.ReceiveECPoints(p, l); });
        vec<EC25519Point>(cat("xpoints", n), n, [](size_t a, size_t b) { EC25519Point p; std::string s = rstr(32, a * 3 + b); memcpy(p.px, s.data(), 32); return p; }, [](NetIO& io, EC25519Point* p, size_t l) { io.SendEC25519Points(p, l); }, [](NetIO& io, EC25519Point* p, size_t l) { io.ReceiveEC25519Points(p, l); });
        K.push_back({ cat("strvec", n), 3, [=](NetIO& io, size_t v) { std::vector<std::string> a; for (size_t i = 0; i < n; i++) a.push_back(rstr(5, v + i)); io.SendStringVector(a, 5); return canov(a); }, [=](NetIO& io, size_t v) { std::vector<std::string> a(v * 2, "dirty"); io.ReceiveStringVector(a, 5); return canov(a); } });
        for (size_t l : { 0, 4 }) if (n || l) K.push_back({ cat("bytevec", n, "x", l), 3, [=](NetIO& io, size_t v) { std::vector<std::vector<uint8_t>> a; for (size_t i = 0; i < n; i++) { auto s = rstr(l, v + i); a.emplace_back(s.begin(), s.end()); } io.SendBytesVector(a); return canov(a); }, [=](NetIO& io, size_t v) { std::vector<std::vector<uint8_t>> a(v * 2, std::vector<uint8_t>(9, 7)); io.ReceiveBytesVector(a); return canov(a); } });
    }
    K.push_back({ "point", 4, [](NetIO& io, size_t v) { auto p = rpt(3, v); io.SendECPoint(p); return cano(p); }, [](NetIO& io, size_t v) { auto p = rpt(9, 3); io.ReceiveECPoint(p); return cano(p); } });
    K.push_back({ "block", 4, [](NetIO& io, size_t v) { auto p = rblk(3, v); io.SendBlock(p); return cano(p); }, [](NetIO& io, size_t v) { auto p = rblk(9, 3); io.ReceiveBlock(p); return cano(p); } });
    K.push_back({ "bigint", 5, [](NetIO& io, size_t v) { auto p = toB(rz(3, v, BN_BYTE_LEN * 8)); io.SendBigInt(p); return cano(p); }, [](NetIO& io, size_t v) { BigInt p(-77); BigInt x = toB(rz(9, 4, 200)); p = x; io.ReceiveBigInt(p); return cano(p); } });
    for (size_t l : { 1, 8, 40 }) K.push_back({ cat("bigint", l), 5, [=](NetIO& io, size_t v) { auto p = toB(rz(3, v, l * 8)); io.SendBigInt(p, l); return cano(p); }, [=](NetIO& io, size_t v) { BigInt p = toB(rz(9, 4, 200)); io.ReceiveBigInt(p, l); return cano(p); } });
    for (size_t l : { 1, 9 }) K.push_back({ cat("bits", l), 3, [=](NetIO& io, size_t v) { std::vector<uint8_t> b(l); for (size_t i = 0; i < l; i++) b[i] = v == 0 ? 0 : v == 1 ? 1 : (uint8_t)(i & 1); io.SendBits(b.data(), l); return cano(b); }, [=](NetIO& io, size_t v) { std::vector<uint8_t> b(l, 0xee); io.ReceiveBits(b.data(), l); return cano(b); } });
    for (size_t l : { 1, 6 }) {
        K.push_back({ cat("string", l), 3, [=](NetIO& io, size_t v) { std::string s = rstr(l, v); io.SendString(s); return cano(s); }, [=](NetIO& io, size_t v) { std::string s(l, 'd'); io.ReceiveString(s); return cano(s); } });
        K.push_back({ cat("chars", l), 3, [=](NetIO& io, size_t v) { std::string s = rstr(l, v); io.SendString(&s[0], l); return cano(s); }, [=](NetIO& io, size_t v) { std::string s(l, 'd'); io.ReceiveString(&s[0], l); return cano(s); } });
    }
}

struct Msg { size_t kind, val; int dir; };           // dir 0: server to client
static party::Result talk(const std::vector<Msg>& c, const party::Policy& p, int port = 8080)
{
    return party::run([&](int role) {
        NetIO io(role == 0 ? "server" : "client", role == 0 ? "" : "127.0.0.1", port);
        std::string o;
        if (party::sock().bind_port != port) o += "port;";
        if (party::sock().bind_addr != (role == 0 ? htonl(INADDR_ANY) : htonl(INADDR_LOOPBACK))) o += "address;";
        for (auto& m : c) { if (m.dir == role) o += K[m.kind].put(io, m.val); else { party::waiting(); o += K[m.kind].get(io, m.val); } o += "|"; }
        return o;
    }, p);
}
static std::string name(const std::vector<Msg>& c) { std::string s; for (auto& m : c) s += cat(m.dir ? "<" : ">", K[m.kind].name, ".", m.val, " "); return s; }
static void judge(const std::vector<Msg>& c, const party::Policy& p, const std::string& how, size_t* len = nullptr)
{
    auto r = talk(c, p);
    if (len) { len[0] = r.wire[0].size(); len[1] = r.wire[1].size(); }
    mc::eval(name(c) + how, c.size() > 0); mc::transition(c.size()); mc::trace();
    mc::state(mc::fnv(name(c) + how));
    if (!r.ok()) { mc::fail(cat("conversation ", name(c), "(", how, ") does not complete:", r.why)); return; }
    if (r.out[0] != r.out[1]) mc::fail(cat("conversation ", name(c), "(", how, "): received values differ from those sent"));
}

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    kinds(); rpt(0, 0);
    auto kid = [&](const std::string& n) { for (size_t i = 0; i < K.size(); i++) if (K[i].name == n) return i; return (size_t)0; };
    party::Policy eager, hold, byte, byteh; hold.hold = true; byte.step = 1; byteh.step = 1; byteh.hold = true;
    // every value of every kind, both directions, each delivery
    for (size_t k = 0; k < K.size(); k++) if (go("one:" + K[k].name)) {
        for (size_t v = 0; v < K[k].values; v++) for (int d = 0; d < 2; d++) { std::vector<Msg> c{ { k, v, d } }; size_t len[2]; judge(c, eager, "eager", len); judge(c, hold, "held", nullptr); judge(c, byte, "byte by byte");
            for (size_t s = 1; s < len[d]; s++) { party::Policy p; p.hold = true; p.cuts[d].push_back(s); judge(c, p, cat("cut ", s)); } }
    }
    // all ordered pairs of kinds in all directions
    for (size_t a = 0; a < K.size(); a++) for (size_t b = 0; b < K.size(); b++) if (go(cat("two:", K[a].name, ":", K[b].name)))
        for (int d = 0; d < 4; d++) { std::vector<Msg> c{ { a, (a + b) % K[a].values, d & 1 }, { b, (a * 3 + b + 1) % K[b].values, d >> 1 } }; judge(c, hold, "held"); if (T) { judge(c, eager, "eager"); judge(c, byteh, "byte by byte"); } }
    // every cut of the pipelined stream of two messages
    std::vector<size_t> rep; for (auto n : { "u8", "u64", "bytes0", "blocks3", "points1", "strvec3", "bytevec3x4", "bigint40" }) rep.push_back(kid(n));
    for (size_t a : rep) for (size_t b : rep) if (go(cat("cut:", K[a].name, ":", K[b].name))) {
        for (int d = 0; d < 2; d++) { std::vector<Msg> c{ { a, 1, d }, { b, 2 % K[b].values, d }, { kid("u64"), 3, 1 - d } }; size_t len[2]; judge(c, eager, "eager", len);
            for (size_t s = 1; s < len[d]; s++) { party::Policy p; p.hold = true; p.cuts[d].push_back(s); judge(c, p, cat("cut ", s)); } }
    }
    // all conversations of three (thorough: four) messages over representative kinds
    std::vector<size_t> r3; for (auto n : { "u8", "blocks3", "point", "strvec3", "bytevec3x4", "bigint" }) r3.push_back(kid(n));
    for (size_t a : r3) for (size_t b : r3) if (go(cat("three:", K[a].name, ":", K[b].name)))
        for (size_t e : r3) for (int d = 0; d < 8; d++) { std::vector<Msg> c{ { a, 1, d & 1 }, { b, 2 % K[b].values, (d >> 1) & 1 }, { e, 2 % K[e].values, d >> 2 } }; judge(c, hold, "held"); judge(c, d & 1 ? byte : eager, d & 1 ? "byte by byte" : "eager"); }
    // all directions of longer conversations: every interleaving of pipelining and turn-taking
    for (size_t n = 4; n <= (T ? 9 : 7); n++) for (int d = 0; d < (1 << n); d++) if (go(cat("turns:", n, ":", d))) {
        std::vector<Msg> c; for (size_t i = 0; i < n; i++) c.push_back({ r3[(i * 5 + d) % r3.size()], i % 3, (d >> i) & 1 }); judge(c, hold, "held"); judge(c, byteh, "byte by byte");
    }
    // payloads around the stream buffer
    size_t B = NETWORK_BUFFER_SIZE;
    std::vector<size_t> big; for (size_t n : { B / 2, B - 4096, B - 1, B, B + 1, B + 4096, 2 * B - 1, 2 * B, 2 * B + 7, 3 * B + 5 }) { big.push_back(K.size()); bytes(n, cat("bytes", n)); }
    for (size_t a : big) for (size_t b : big) if (go(cat("big:", K[a].name, ":", K[b].name))) for (int d = 0; d < 4; d++) {
        std::vector<Msg> c{ { kid("u8"), 1, 0 }, { a, 0, d & 1 }, { b, 0, d >> 1 }, { kid("u64"), 2, 0 }, { kid("u64"), 2, 1 } }; judge(c, hold, "held"); party::Policy p; p.step = 65537; judge(c, p, "parts of 65537");
    }
    for (size_t n : { 1000, 5000, 20000 }) { big.clear(); vec<ECPoint>(cat("points", n), n, rpt, [](NetIO& io, ECPoint* p, size_t l) { io.SendECPoints(p, l); }, [](NetIO& io, ECPoint* p, size_t l) { io.ReceiveECPoints(p, l); });
        vec<block>(cat("blocks", n), n, rblk, [](NetIO& io, block* p, size_t l) { io.SendBlocks(p, l); }, [](NetIO& io, block* p, size_t l) { io.ReceiveBlocks(p, l); });
        K.push_back({ cat("strvec", n), 3, [=](NetIO& io, size_t v) { std::vector<std::string> a; for (size_t i = 0; i < n; i++) a.push_back(rstr(33, v + i)); io.SendStringVector(a, 33); return canov(a); }, [=](NetIO& io, size_t v) { std::vector<std::string> a; io.ReceiveStringVector(a, 33); return canov(a); } });
        if (n < 20000 || T) for (int j = 0; j < 3; j++) { size_t k = K.size() - 3 + j; if (go("long:" + K[k].name)) for (int d = 0; d < 2; d++) { std::vector<Msg> c{ { k, 2, d }, { kid("u8"), 1, d }, { k, 1, 1 - d }, { kid("u64"), 2, d } }; judge(c, hold, "held"); party::Policy p; p.step = 4093; judge(c, p, "parts of 4093"); } } }
    // lengths around powers of two, every kind: followed by a sentinel, then answered
    { auto mid = [&](size_t k, bool cheap) { if (go("mid:" + K[k].name)) for (int d = 0; d < 2; d++) { std::vector<Msg> c{ { k, 2, d }, { kid("u64"), 3, d }, { k, 1, 1 - d }, { kid("u8"), 1, 1 - d } }; judge(c, hold, "held"); party::Policy p; p.step = cheap ? 17 : 4093; judge(c, p, "in parts"); } };
      std::vector<size_t> ns; for (size_t n : { 2, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1024 }) ns.push_back(n); if (T) for (size_t n = 34; n < 140; n++) ns.push_back(n); for (size_t n : { 32768, 65535, 65536, 70001 }) ns.push_back(n);
      for (size_t n : ns) { bool ch = n < 300;
        if (n < 2000) { vec<ECPoint>(cat("points", n), n, rpt, [](NetIO& io, ECPoint* p, size_t l) { io.SendECPoints(p, l); }, [](NetIO& io, ECPoint* p, size_t l) { io.ReceiveECPoints(p, l); }); mid(K.size() - 1, ch); }
        vec<block>(cat("blocks", n), n, rblk, [](NetIO& io, block* p, size_t l) { io.SendBlocks(p, l); }, [](NetIO& io, block* p, size_t l) { io.ReceiveBlocks(p, l); }); mid(K.size() - 1, ch);
        vec<EC25519Point>(cat("xpoints", n), n, [](size_t a, size_t b) { EC25519Point p; std::string s = rstr(32, a * 3 + b); memcpy(p.px, s.data(), 32); return p; }, [](NetIO& io, EC25519Point* p, size_t l) { io.SendEC25519Points(p, l); }, [](NetIO& io, EC25519Point* p, size_t l) { io.ReceiveEC25519Points(p, l); }); mid(K.size() - 1, ch);
        for (size_t l : { 1, 16, 33 }) { K.push_back({ cat("strvec", n, "x", l), 3, [=](NetIO& io, size_t v) { std::vector<std::string> a; for (size_t i = 0; i < n; i++) a.push_back(rstr(l, v + i)); io.SendStringVector(a, l); return canov(a); }, [=](NetIO& io, size_t v) { std::vector<std::string> a(v * 2, "dirty"); io.ReceiveStringVector(a, l); return canov(a); } }); mid(K.size() - 1, ch);
            K.push_back({ cat("bytevec", n, "x", l), 3, [=](NetIO& io, size_t v) { std::vector<std::vector<uint8_t>> a; for (size_t i = 0; i < n; i++) { auto s = rstr(l, v + i); a.emplace_back(s.begin(), s.end()); } io.SendBytesVector(a); return canov(a); }, [=](NetIO& io, size_t v) { std::vector<std::vector<uint8_t>> a(v * 2, std::vector<uint8_t>(9, 7)); io.ReceiveBytesVector(a); return canov(a); } }); mid(K.size() - 1, ch); }
        size_t l = n;   // long items
        K.push_back({ cat("strvec3x", l), 3, [=](NetIO& io, size_t v) { std::vector<std::string> a; for (size_t i = 0; i < 3; i++) a.push_back(rstr(l, v + i)); io.SendStringVector(a, l); return canov(a); }, [=](NetIO& io, size_t v) { std::vector<std::string> a(v * 2, "dirty"); io.ReceiveStringVector(a, l); return canov(a); } }); mid(K.size() - 1, ch);
        K.push_back({ cat("bytevec3x", l, "L"), 3, [=](NetIO& io, size_t v) { std::vector<std::vector<uint8_t>> a; for (size_t i = 0; i < 3; i++) { auto s = rstr(l, v + i); a.emplace_back(s.begin(), s.end()); } io.SendBytesVector(a); return canov(a); }, [=](NetIO& io, size_t v) { std::vector<std::vector<uint8_t>> a(v * 2, std::vector<uint8_t>(9, 7)); io.ReceiveBytesVector(a); return canov(a); } }); mid(K.size() - 1, ch);
        bytes(n, cat("bytes", n, "M")); mid(K.size() - 1, ch);
        K.push_back({ cat("bits", l), 3, [=](NetIO& io, size_t v) { std::vector<uint8_t> b(l); for (size_t i = 0; i < l; i++) b[i] = v == 0 ? 0 : v == 1 ? 1 : (uint8_t)(rv(v, i) & 1); io.SendBits(b.data(), l); return cano(b); }, [=](NetIO& io, size_t v) { std::vector<uint8_t> b(l, 0xee); io.ReceiveBits(b.data(), l); return cano(b); } }); mid(K.size() - 1, ch);
        K.push_back({ cat("string", l), 3, [=](NetIO& io, size_t v) { std::string s = rstr(l, v); io.SendString(s); return cano(s); }, [=](NetIO& io, size_t v) { std::string s(l, 'd'); io.ReceiveString(s); return cano(s); } }); mid(K.size() - 1, ch);
        K.push_back({ cat("chars", l), 3, [=](NetIO& io, size_t v) { std::string s = rstr(l, v); io.SendString(&s[0], l); return cano(s); }, [=](NetIO& io, size_t v) { std::string s(l, 'd'); io.ReceiveString(&s[0], l); return cano(s); } }); mid(K.size() - 1, ch);
        if (n < 2000) { K.push_back({ cat("bigint", l), 5, [=](NetIO& io, size_t v) { auto p = toB(rz(3, v, l * 8)); io.SendBigInt(p, l); return cano(p); }, [=](NetIO& io, size_t v) { BigInt p = toB(rz(9, 4, 200)); io.ReceiveBigInt(p, l); return cano(p); } }); mid(K.size() - 1, ch); } } }
    // a connection that breaks inside a message must not produce a value, and must not hang
    for (size_t k : rep) if (K[k].name != "bytes0") for (int d = 0; d < 2; d++) if (go(cat("break:", K[k].name, ":", d))) {
        std::vector<Msg> c{ { kid("u8"), 1, d }, { k, 1, d } }; size_t len[2]; judge(c, eager, "eager", len);
        for (size_t s = 0; s < len[d]; s++) { party::Policy p; p.close_after[d] = s; p.limit = 5; auto r = talk(c, p); mc::eval(cat("break", s)); mc::transition(); if (r.hang) { mc::fail(cat("connection closed after ", s, " of ", len[d], " bytes: the receiver never returns")); break; } if (!MC_CHECK(r.status[1 - d] != 0, "connection closed after ", s, " of ", len[d], " bytes: the receiver returns a value")) break; }
    }
    // ports and addresses
    for (int port : { 1, 80, 8080, 8081, 50000, 65535 }) if (go(cat("port:", port))) { std::vector<Msg> c{ { kid("u8"), 1, 0 } }; auto r = talk(c, eager, port); mc::eval(cat(port)); MC_CHECK(r.ok() && r.out[0] == r.out[1] && r.out[0].find("port") == std::string::npos && r.out[0].find("address") == std::string::npos, "endpoint does not use the requested port and address"); }
    return mc::finish();
}
