// C04: AES, hashes, PRG, one-time pad against OpenSSL's EVP implementations, for every length and split.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "crypto/otp.hpp"
#include "zutil.hpp"
#include "rt.hpp"
using mc::cat; using namespace zu;
typedef std::vector<uint8_t> V;
static block rndb() { block b; mc::rng().bytes((unsigned char*)&b, 16); return b; }
static bool eq(const block& a, const block& b) { return memcmp(&a, &b, 16) == 0; }
static V rv(size_t n) { V v(n); mc::rng().bytes(v.data(), n); return v; }
static V evp(const EVP_CIPHER* c, const block& key, const void* p, size_t n, bool enc)
{
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); uint8_t iv[16] = {0}; V o(n + 32); int l = 0, m = 0;
    EVP_CipherInit_ex(x, c, nullptr, (const uint8_t*)&key, iv, enc); EVP_CIPHER_CTX_set_padding(x, 0);
    EVP_CipherUpdate(x, o.data(), &l, (const uint8_t*)p, n); EVP_CipherFinal_ex(x, o.data() + l, &m); EVP_CIPHER_CTX_free(x); o.resize(n); return o;
}
static V dig(const EVP_MD* m, const void* p, size_t n) { V o(32); unsigned l = 32; EVP_Digest(p, n, o.data(), &l, m, nullptr); return o; }
static std::vector<block> keys()
{
    std::vector<block> k{Block::MakeBlock(0, 0), Block::MakeBlock(~0ULL, ~0ULL), Block::MakeBlock(0, 1), Block::MakeBlock(1ULL << 63, 0), Block::MakeBlock(0x0f0e0d0c0b0a0908ULL, 0x0706050403020100ULL)};
    for (int i = 0; i < 128; i += mc::thorough() ? 1 : 9) k.push_back(i < 64 ? Block::MakeBlock(0, 1ULL << i) : Block::MakeBlock(1ULL << (i - 64), 0));
    for (int i = 0; i < 4; i++) k.push_back(rndb()); return k;
}
// every length up to L, then lengths around the powers of two up to 2^16 and one far beyond
static std::vector<size_t> lens(size_t L, bool zero = true)
{
    std::vector<size_t> r; for (size_t n = zero ? 0 : 1; n <= L; n++) r.push_back(n);
    for (size_t w : {128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536}) for (long d = -1; d <= 1; d++) if (w + d > L) r.push_back(w + d);
    r.push_back(70001); return r;
}
static bool same(const std::vector<block>& a, const V& b) { return a.size() * 16 == b.size() && (b.empty() || memcmp(a.data(), b.data(), b.size()) == 0); }

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize();
    const bool T = mc::thorough(); const size_t L = T ? 200 : 70;
    // ---- AES
    for (size_t n : lens(L)) for (int ord = 0; ord < 3; ord++) if (mc::begin(cat("aes:", n, ":", ord))) {
        rt::order = ord; auto K = keys(); int ki = 0;
        for (auto& k : K) {
            if (n > 20 && ki % (n > 200 ? 12 : 5) && !T) { ki++; continue; }
            AES::Key ek = AES::GenEncKey(k), dk = AES::GenDecKey(k), dk2 = AES::DeriveDecKeyFromEncKey(ek);
            MC_CHECK(ek.ROUND_NUM == dk.ROUND_NUM && memcmp(dk.roundkey, dk2.roundkey, sizeof dk.roundkey) == 0, "derived decryption key");
            std::vector<block> p(n + 1), g; for (auto& b : p) b = rndb(); block guard = p[n]; V src((uint8_t*)p.data(), (uint8_t*)(p.data() + n));
            V ecb = evp(EVP_aes_128_ecb(), k, p.data(), n * 16, true);
            auto cut = [&](std::vector<block> v) { v.resize(n); return v; };
            auto a = p; AES::ECBEnc(ek, a.data(), n); MC_CHECK(same(cut(a), ecb) && eq(a[n], guard), "ECBEnc of ", n, " blocks");
            AES::ECBDec(dk, a.data(), n); MC_CHECK(same(cut(a), src) && eq(a[n], guard), "ECBDec of ", n, " blocks");
            a = p; AES::FastECBEnc(ek, a.data(), n); MC_CHECK(same(cut(a), ecb) && eq(a[n], guard), "FastECBEnc in place, ", n, " blocks");
            a = p; std::vector<block> o(n + 1, guard); AES::FastECBEnc(ek, a.data(), n, o.data()); MC_CHECK(same(cut(o), ecb) && same(cut(a), src) && eq(o[n], guard), "FastECBEnc to another buffer, ", n, " blocks");
            for (size_t i = 0; i < n && i < 3; i++) { block b = p[i]; AES::Enc(ek, b); MC_CHECK(memcmp(&b, &ecb[16 * i], 16) == 0, "Enc"); AES::Dec(dk, b); MC_CHECK(eq(b, p[i]), "Dec"); }
            if (n) { V cbc = evp(EVP_aes_128_cbc(), k, p.data(), n * 16, true); a = p; AES::CBCEnc(ek, a.data(), n); MC_CHECK(same(cut(a), cbc) && eq(a[n], guard), "CBCEnc of ", n, " blocks"); AES::CBCDec(dk, a.data(), n); MC_CHECK(same(cut(a), src) && eq(a[n], guard), "CBCDec of ", n, " blocks"); }
            mc::eval(ki++, n > 0);
        }
        rt::order = 0;
    }
    // ---- hashes: every input length; every byte matters
    for (size_t n : lens(T ? 400 : 150)) if (mc::begin(cat("hash:", n))) {
        V in = rv(n); V sha = dig(EVP_sha256(), in.data(), n), sm = dig(EVP_sm3(), in.data(), n); V o(48, 0xEE); std::string s((char*)in.data(), n);
        Hash::SM3(in.data(), n, o.data()); MC_CHECK(memcmp(o.data(), sm.data(), 32) == 0 && o[32] == 0xEE, "SM3 of ", n, " bytes");
        V o2(32); BasicHash(in.data(), n, o2.data()); MC_CHECK(o2 == sha, "BasicHash of ", n, " bytes");
        block b = Hash::StringToBlock(s), b2 = Hash::BytesToBlock(in); MC_CHECK(memcmp(&b, sha.data(), 16) == 0, "StringToBlock of ", n, " bytes"); MC_CHECK(memcmp(&b2, sha.data(), 16) == 0, "BytesToBlock of ", n, " bytes");
        Z e = 0; for (auto c : sha) e = (e << 8) + c; MC_CHECK(toZ(Hash::StringToBigInt(s)) == e, "StringToBigInt of ", n, " bytes");
        if (n) {
            V pad = in; pad.resize((n + 15) / 16 * 16, 0); V k(16, 0); block kb; memcpy(&kb, k.data(), 16); V c = evp(EVP_aes_128_cbc(), kb, pad.data(), pad.size(), true);
            for (int off = 0; off < 16; off += 5) { V shifted(off, 0x77); shifted.insert(shifted.end(), in.begin(), in.end()); for (int t = 0; t < 16; t++) shifted.push_back(0x99 + t); V d(32, 0xEE); Hash::CBCAES(shifted.data() + off, n, d.data()); MC_CHECK(memcmp(d.data(), c.data() + c.size() - 16, 16) == 0 && d[16] == 0xEE, "CBCAES of ", n, " bytes at offset ", off); }
            for (size_t i = 0; i < n; i = n < 500 || i + 1 >= n || i < 2 ? i + 1 : i + n / 16 < n - 1 ? i + n / 16 : n - 1) { V x = in; x[i] ^= 1 << (i % 8); V d(16), d0(16); Hash::CBCAES(x.data(), n, d.data()); Hash::CBCAES(in.data(), n, d0.data()); MC_CHECK(d != d0, "CBCAES ignores byte ", i); std::string s2((char*)x.data(), n); MC_CHECK(!eq(Hash::StringToBlock(s2), b) && !eq(Hash::BytesToBlock(x), b) && Hash::StringToBigInt(s2) != Hash::StringToBigInt(s), "hash ignores byte ", i); mc::eval(i); }
        }
        mc::eval(n, n > 0);
    }
    for (size_t n : lens(T ? 100 : 40, false)) if (mc::begin(cat("blocks:", n))) {
        std::vector<block> v(n); for (auto& b : v) b = rndb(); auto v0 = v; V sha = dig(EVP_sha256(), v.data(), n * 16); block b = Hash::BlocksToBlock(v); MC_CHECK(memcmp(&b, sha.data(), 16) == 0, "BlocksToBlock of ", n);
        V c = evp(EVP_aes_128_cbc(), Block::MakeBlock(0, 0), v.data(), n * 16, true); block f = Hash::FastBlocksToBlock(v); MC_CHECK(memcmp(&f, &c[(n - 1) * 16], 16) == 0, "FastBlocksToBlock of ", n);
        MC_CHECK(memcmp(v.data(), v0.data(), n * 16) == 0, "hash changed its input"); mc::eval(n);
    }
    for (int i = -1; i < 128; i++) if (mc::begin(cat("b2b:", i))) {
        block x = i < 0 ? Block::MakeBlock(0, 0) : i < 64 ? Block::MakeBlock(0, 1ULL << i) : Block::MakeBlock(1ULL << (i - 64), 0);
        V in(32, 0); memcpy(in.data(), &x, 16); V c = evp(EVP_aes_128_cbc(), Block::MakeBlock(0, 0), in.data(), 32, true);
        alignas(16) uint8_t o[48]; memset(o, 0x5C, 48); MC_CHECK(Hash::BlockToBytes(x, o, 32) == 1, "BlockToBytes status"); MC_CHECK(memcmp(o, c.data(), 32) == 0 && o[32] == 0x5C, "BlockToBytes of bit ", i);
        MC_CHECK(Hash::BlockToBytes(x, o, 33) == 0, "BlockToBytes must refuse 33 bytes");
        alignas(16) uint8_t d[32], q[32]; memcpy(q, in.data(), 32); Hash::Dedicated_CBCAES(q, d); MC_CHECK(memcmp(d, c.data(), 32) == 0, "Dedicated_CBCAES of bit ", i); mc::eval(i + 1);
    }
    for (int k = 1; k <= (T ? 200 : 40); k++) if (mc::begin(cat("pointhash:", k))) for (int sg = 0; sg < 2; sg++) {
        Pt G = rdp(ECPoint(generator)); Pt P = mul(G, sg ? Z(-k) : Z(k)); ECPoint A = mk(P); std::string s = A.ToByteString(); V sha = dig(EVP_sha256(), s.data(), s.size()); block b = Hash::ECPointToBlock(A); MC_CHECK(memcmp(&b, sha.data(), 16) == 0, "ECPointToBlock");
        V comp(33); comp[0] = 2 + (int)(P.y & 1); Z t = P.x; for (int i = 32; i >= 1; i--) { comp[i] = (uint8_t)(t & 0xff); t >>= 8; } V sc = dig(EVP_sha256(), comp.data(), 33);
        MC_CHECK(Hash::ECPointToString(A) == std::string((char*)sc.data(), 32), "ECPointToString"); MC_CHECK(Hash::ECPointToBytes(A) == sc, "ECPointToBytes"); mc::eval(k * 2 + sg);
        ECPoint B = (A + A) - A; MC_CHECK(Hash::ECPointToString(B) == Hash::ECPointToString(A) && eq(Hash::ECPointToBlock(B), b), "hash depends on the representation of the point");
    }
    // ---- PRG: the stream is a function of seed and position only
    for (int s = 0; s < 6; s++) for (size_t n = 0; n <= L; n++) if (mc::begin(cat("prg:", s, ":", n))) {
        block salt = s == 0 ? Block::MakeBlock(0, 0) : s == 1 ? Block::MakeBlock(~0ULL, ~0ULL) : rndb(); uint64_t id = s == 3 ? 1 : s == 4 ? ~0ULL : 0;
        PRG::Seed ref = PRG::SetSeed(&salt, id); std::vector<block> stream; for (size_t i = 0; i < 2 * L + 4; i++) stream.push_back(PRG::GenRandomBlocks(ref, 1)[0]);
        std::set<std::string> dist; for (auto& b : stream) dist.insert(std::string((char*)&b, 16)); MC_CHECK(dist.size() == stream.size(), "the stream repeats a block");
        auto at = [&](const std::vector<block>& v, size_t off) { return v.empty() || memcmp(v.data(), &stream[off], v.size() * 16) == 0; };
        for (size_t k = 0; k <= n; k++) {
            PRG::Seed x = PRG::SetSeed(&salt, id); auto a = PRG::GenRandomBlocks(x, k), b = PRG::GenRandomBlocks(x, n - k); MC_CHECK(a.size() == k && b.size() == n - k && at(a, 0) && at(b, k), "blocks ", k, "+", n - k); auto c = PRG::GenRandomBlocks(x, 3); MC_CHECK(at(c, n), "position after ", k, "+", n - k);
            x = PRG::SetSeed(&salt, id); V y = PRG::GenRandomBytes(x, k), z(n + 1, 0x42); PRG::GenRandomBytes(x, z.data(), n); MC_CHECK(y.size() == k && (k == 0 || memcmp(y.data(), stream.data(), k) == 0), "bytes ", k); MC_CHECK(z[n] == 0x42 && (n == 0 || memcmp(z.data(), &stream[(k + 15) / 16], n) == 0), "bytes ", n, " after ", k); auto d = PRG::GenRandomBlocks(x, 1); MC_CHECK(at(d, (k + 15) / 16 + (n + 15) / 16), "position after bytes ", k, "+", n);
            mc::eval(k, n > 0);
        }
        PRG::Seed x = PRG::SetSeed(&salt, id); V bt = PRG::GenRandomBits(x, n); int ones = 0; MC_CHECK(bt.size() == n, "bits length"); for (auto c : bt) { MC_CHECK(c < 2, "a bit is neither 0 nor 1"); ones += c; } if (n >= 60) MC_CHECK(ones > 0 && ones < (int)n, "bits are constant"); PRG::Seed x2 = PRG::SetSeed(&salt, id); MC_CHECK(PRG::GenRandomBits(x2, n) == bt, "bits are not a function of the seed");
        PRG::ReSeed(x, &salt, id); auto r = PRG::GenRandomBlocks(x, n); MC_CHECK(at(r, 0), "ReSeed does not restart the stream");
        PRG::Seed cp = x; auto r1 = PRG::GenRandomBlocks(x, 2), r2 = PRG::GenRandomBlocks(cp, 2); MC_CHECK(memcmp(r1.data(), r2.data(), 32) == 0, "a copied seed continues differently");
        for (int fl = 0; fl < 128; fl += 13) { block s2 = salt; ((uint8_t*)&s2)[fl / 8] ^= 1 << (fl % 8); PRG::Seed y = PRG::SetSeed(&s2, id); auto v = PRG::GenRandomBlocks(y, 4); for (auto& b : v) MC_CHECK(!dist.count(std::string((char*)&b, 16)), "streams of different seeds meet"); }
        PRG::Seed y = PRG::SetSeed(&salt, id ^ 1); auto v = PRG::GenRandomBlocks(y, 4); for (auto& b : v) MC_CHECK(!dist.count(std::string((char*)&b, 16)), "streams of different ids meet");
    }
    // long pieces: one call of n blocks, or n bytes, against pieces of 61 blocks
    for (size_t n : lens(L)) if (n > L && mc::begin(cat("prglong:", n))) {
        block salt = rndb(); PRG::Seed ref = PRG::SetSeed(&salt, 7); std::vector<block> stream; while (stream.size() < 2 * n + 4) { auto v = PRG::GenRandomBlocks(ref, 61); stream.insert(stream.end(), v.begin(), v.end()); }
        std::set<std::string> dist; for (auto& b : stream) dist.insert(std::string((char*)&b, 16)); MC_CHECK(dist.size() == stream.size(), "the stream repeats a block");
        auto at = [&](const std::vector<block>& v, size_t off) { return memcmp(v.data(), &stream[off], v.size() * 16) == 0; };
        for (size_t k : {size_t(0), size_t(1), n / 2, n}) {
            PRG::Seed x = PRG::SetSeed(&salt, 7); auto a = PRG::GenRandomBlocks(x, k), b = PRG::GenRandomBlocks(x, n), c = PRG::GenRandomBlocks(x, 2); MC_CHECK(a.size() == k && b.size() == n && at(a, 0) && at(b, k) && at(c, k + n), "blocks ", k, "+", n);
            x = PRG::SetSeed(&salt, 7); V y = PRG::GenRandomBytes(x, k), z(n + 1, 0x42); PRG::GenRandomBytes(x, z.data(), n); MC_CHECK(y.size() == k && (k == 0 || memcmp(y.data(), stream.data(), k) == 0), "bytes ", k); MC_CHECK(z[n] == 0x42 && memcmp(z.data(), &stream[(k + 15) / 16], n) == 0, "bytes ", n, " after ", k); auto d = PRG::GenRandomBlocks(x, 1); MC_CHECK(at(d, (k + 15) / 16 + (n + 15) / 16), "position after bytes ", k, "+", n);
            mc::eval(k);
        }
        PRG::Seed x = PRG::SetSeed(&salt, 7), x2 = PRG::SetSeed(&salt, 7); V bt = PRG::GenRandomBits(x, n); size_t ones = 0; MC_CHECK(bt.size() == n, "bits length"); for (auto c : bt) { MC_CHECK(c < 2, "a bit is neither 0 nor 1"); ones += c; } MC_CHECK(ones > n / 4 && ones < n - n / 4, "bits are lopsided"); for (size_t i = 0; i + 100 <= n; i += 100) { int q = 0; for (size_t j = 0; j < 100; j++) q += bt[i + j]; MC_CHECK(q > 0 && q < 100, "a hundred equal bits at ", i); } MC_CHECK(PRG::GenRandomBits(x2, n) == bt, "bits are not a function of the seed");
    }
    for (size_t R : {128, 256, 384}) for (size_t C : {8, 16, 128}) if (mc::begin(cat("prgmat:", R, ":", C))) { block salt = rndb(); PRG::Seed a = PRG::SetSeed(&salt, 0), b = PRG::SetSeed(&salt, 0); auto m = PRG::GenRandomBitMatrix(a, R, C), r = PRG::GenRandomBlocks(b, R / 128 * C); MC_CHECK(m.size() == r.size() && memcmp(m.data(), r.data(), m.size() * 16) == 0, "bit matrix"); mc::eval(R + C); }
    // ---- one-time pad
    for (size_t n : lens(T ? 300 : 100)) for (int ord = 0; ord < 3; ord++) if (mc::begin(cat("otp:", n, ":", ord))) {
        rt::order = ord; block k = rndb(), k2 = k; ((uint8_t*)&k2)[n % 16] ^= 1; V p = rv(n), p0 = p; std::string s((char*)p.data(), n), s0 = s;
        V c = OTP::Enc(k, p); MC_CHECK(c.size() == n, "OTP length"); MC_CHECK(OTP::Dec(k, c) == p, "OTP round trip of ", n, " bytes"); std::string sc = OTP::Enc(k, s); MC_CHECK(sc.size() == n && OTP::Dec(k, sc) == s, "OTP string round trip of ", n, " bytes"); MC_CHECK(p == p0 && s == s0, "OTP changed the plaintext"); MC_CHECK(std::string((char*)c.data(), n) == sc, "string and byte forms differ");
        if (n >= 8) { MC_CHECK(c != p, "OTP leaves the plaintext"); MC_CHECK(OTP::Dec(k2, c) != p, "OTP decrypts under another key"); for (size_t i = 0; i + 8 <= n; i++) MC_CHECK(memcmp(&c[i], &p[i], 8) != 0, "OTP leaves eight plaintext bytes at ", i); }
        V a = rv(n), b = rv(n), x(n + 1, 9); ::XOR(a.data(), b.data(), x.data(), n); MC_CHECK(x[n] == 9, "XOR wrote beyond"); bool ok = true; for (size_t i = 0; i < n; i++) ok &= x[i] == (a[i] ^ b[i]); MC_CHECK(ok, "XOR"); if (n) { V y = ::XOR(a, b); x.resize(n); MC_CHECK(y == x, "XOR of vectors"); std::string sa((char*)a.data(), n), sb((char*)b.data(), n); MC_CHECK(::XOR(sa, sb) == std::string((char*)x.data(), n), "XOR of strings"); }
        mc::eval(n, n > 0); rt::order = 0;
    }
    // ---- bit comparison
    for (size_t n = 0; n <= 40; n++) if (mc::begin(cat("cmpbits:", n))) { V a(n); for (auto& c : a) c = mc::rng().next() & 1; V b = a; MC_CHECK(CompareBits(a, b), "equal bits"); for (size_t i = 0; i < n; i++) { b = a; b[i] ^= 1; MC_CHECK(!CompareBits(a, b), "difference at ", i); mc::eval(i); } b = a; b.push_back(0); MC_CHECK(!CompareBits(a, b), "lengths"); mc::eval(n, n > 0); }
    return mc::finish();
}
