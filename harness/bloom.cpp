// C11: Bloom filter.  Real class, driven through (a) every operation history up to a depth against a
// set model, (b) every (capacity, security parameter) configuration, (c) every element type and key
// length, (d) false-positive counts over complete near-miss key families.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "filter/bloom_filter.hpp"
#include "rt.hpp"
using mc::cat;

static std::string key_of(int i) { std::string s = cat("key-", i); s += std::string(i % 7, 'x'); return s; }

// reload through a buffer or a file into (fresh | dirty) object
static BloomFilter reload(BloomFilter& f, int how)
{
    BloomFilter g;
    if (how & 2) { g = BloomFilter(7, 9); g.Insert(std::string("dirt")); }
    if (how & 1) {
        if (!f.WriteObject(std::string("bloom.tmp"))) mc::fail("WriteObject(file) failed");
        if (!g.ReadObject(std::string("bloom.tmp"))) mc::fail("ReadObject(file) failed");
    } else {
        std::vector<char> buf(f.ObjectSize() + 16, 0x5a);
        f.WriteObject(buf.data());
        for (size_t i = f.ObjectSize(); i < buf.size(); i++) if (buf[i] != 0x5a) { mc::fail("WriteObject(buffer) writes beyond ObjectSize()"); break; }
        g.ReadObject(buf.data());
    }
    return g;
}
static std::string image(BloomFilter& f) { std::string b(f.ObjectSize(), 0); f.WriteObject(&b[0]); return b; }

// ---------------------------------------------------------------- (a) histories
static void histories()
{
    const int K = 3, NOPS = K + 2 + 4;           // single inserts, batch insert, clear, 4 reloads
    int depth = mc::thorough() ? 5 : 4;
    size_t caps[] = {1, 4, 16}; size_t sps[] = {1, 8, 40};
    for (size_t cap : caps) for (size_t sp : sps) for (int first = 0; first < NOPS; first++) for (int second = 0; second < NOPS; second++) {
        if (!mc::begin(cat("hist cap=", cap, " sp=", sp, " prefix=", first, ",", second, " depth=", depth))) continue;
        struct N { BloomFilter f; std::set<int> m; size_t cnt; std::string path; };
        auto step = [&](N& n, int op) {
            if (op < K) { n.f.Insert(key_of(op)); n.m.insert(op); n.cnt++; }
            else if (op == K) { std::vector<std::string> v{key_of(0), key_of(K - 1)}; n.f.Insert(v); n.m.insert(0); n.m.insert(K - 1); n.cnt += 2; }
            else if (op == K + 1) { n.f.Clear(); n.m.clear(); n.cnt = 0; }
            else n.f = reload(n.f, op - K - 2);
            n.path += cat(op, " ");
            mc::transition();
            std::vector<std::string> all; for (int i = 0; i < K; i++) all.push_back(key_of(i));
            std::vector<uint8_t> bv = n.f.Contain(all);
            for (int i = 0; i < K; i++) {
                bool c = n.f.Contain(key_of(i));
                if (n.m.count(i)) MC_CHECK(c, "false negative for key ", i, " after ops ", n.path);
                if (n.m.empty()) MC_CHECK(!c, "empty filter claims to contain key ", i, " after ops ", n.path);
                MC_CHECK(bv[i] == (c ? 1 : 0), "batch query differs from single query after ops ", n.path);
            }
            MC_CHECK(n.f.inserted_element_num == n.cnt, "inserted element count ", n.f.inserted_element_num, " expected ", n.cnt, " after ops ", n.path);
            mc::eval(mc::fnv(n.path), n.m.size() > 0);
            mc::state(mc::fnv(image(n.f)) ^ mc::fnv(cat(cap, sp)));
        };
        // breadth-first over histories; identical (image, model) states are merged
        std::vector<N> layer; N root{BloomFilter(cap, sp), {}, 0, ""};
        step(root, first); step(root, second);
        layer.push_back(root);
        std::set<std::string> seen;
        for (int d = 2; d < depth; d++) {
            std::vector<N> next;
            for (auto& n : layer) for (int op = 0; op < NOPS; op++) {
                N c = n; step(c, op);
                std::string sig = image(c.f); for (int x : c.m) sig += cat("|", x);
                if (seen.insert(sig).second) next.push_back(c);
            }
            layer.swap(next);
        }
        mc::trace(seen.size() + 1);
    }
}

// ---------------------------------------------------------------- (b) configurations
static void configurations()
{
    size_t maxcap = mc::thorough() ? 300 : 70;
    size_t maxsp = mc::thorough() ? 160 : 135;
    for (size_t cap = 1; cap <= maxcap; cap++) {
        if (!mc::begin(cat("config cap=", cap, " sp=1..", maxsp))) continue;
        for (size_t sp = 1; sp <= maxsp; sp += (sp < 48 || sp > 120 ? 1 : 7)) {
            BloomFilter f(cap, sp);
            for (uint32_t i = 0; i < cap; i++) f.Insert(i * 2654435761u);
            for (int how = -1; how < 4; how++) {
                if (how >= 0 && !(sp % 8 == how)) continue;      // every reload path, spread over sp
                BloomFilter g = how < 0 ? f : reload(f, how);
                for (uint32_t i = 0; i < cap; i++) MC_CHECK(g.Contain(i * 2654435761u), "false negative cap=", cap, " sp=", sp, " element ", i, " reload=", how);
                if (how >= 0) MC_CHECK(image(g) == image(f), "reload changes the filter, cap=", cap, " sp=", sp);
                mc::transition();
            }
            mc::eval(sp); mc::state(mc::fnv(image(f)));
        }
        mc::trace();
    }
}

// ---------------------------------------------------------------- (c) types and lengths
template <class T> static void typed(const std::string& name, std::vector<T> in, std::vector<T> out)
{
    if (!mc::begin("type " + name)) return;
    size_t caps[] = {in.size(), in.size() * 2 + 1};
    for (size_t cap : caps) for (int mode = 0; mode < 3; mode++) for (int ord = 0; ord < 3; ord++) {
        rt::order = ord;
        BloomFilter f(cap, 30);
        if (mode == 0) for (auto& x : in) f.Insert(x);
        else if (mode == 1) f.Insert(in);
        else f.Insert(in.begin(), in.end());
        MC_CHECK(f.inserted_element_num == in.size(), "count after insertion mode ", mode, " is ", f.inserted_element_num);
        std::vector<uint8_t> b = f.Contain(in), bo = f.Contain(out);
        MC_CHECK(b.size() == in.size() && bo.size() == out.size(), "batch query size");
        size_t fp = 0;
        for (size_t i = 0; i < in.size(); i++) MC_CHECK(f.Contain(in[i]) && b[i] == 1, "false negative element ", i, " insertion mode ", mode, " cap ", cap);
        for (size_t i = 0; i < out.size(); i++) { bool c = f.Contain(out[i]); fp += c; MC_CHECK(c == (bo[i] == 1), "batch/single query disagree on non-member ", i); }
        // structured non-members may collide under the light-weight hash; they only must not all match
        MC_CHECK(out.size() < 4 || fp * 2 < out.size(), fp, " false positives among ", out.size(), " non-members with parameter 30, mode ", mode);
        mc::note("structured_false_positives", fp);
        mc::eval(mode * 8 + ord, true); mc::transition(in.size() + out.size()); mc::state(mc::fnv(image(f)));
    }
    rt::order = 0;
    mc::trace();
}

static void types()
{
    { std::vector<int> a, b; for (int i = -20; i < 20; i++) a.push_back(i); for (int i = 20; i < 400; i++) b.push_back(i); typed("int", a, b); }
    { std::vector<uint64_t> a, b; for (int i = 0; i < 64; i++) a.push_back(1ULL << i); for (int i = 0; i < 64; i++) for (int j = 0; j < i; j++) b.push_back((1ULL << i) | (1ULL << j)); typed("uint64 single bits", a, b); }
    { std::vector<uint8_t> a, b; for (int i = 0; i < 256; i++) (i % 3 ? b : a).push_back(i); typed("uint8", a, b); }
    { std::vector<uint16_t> a, b; for (int i = 0; i < 3000; i++) (i % 17 ? b : a).push_back(i); typed("uint16", a, b); }
    { std::vector<block> a, b; for (int i = 0; i < 128; i++) { uint64_t lo = i < 64 ? 1ULL << i : 0, hi = i < 64 ? 0 : 1ULL << (i - 64); a.push_back(Block::MakeBlock(hi, lo)); b.push_back(Block::MakeBlock(hi ^ 5, lo ^ 3)); b.push_back(Block::MakeBlock(~hi, lo)); }
      // only single-element paths: a vector of blocks
      typed("block", a, b); }
    // strings of every length 0..80: all inserted; non-members differ from a member in exactly one byte
    for (int L = 0; L <= (mc::thorough() ? 200 : 80); L++) {
        std::vector<std::string> a, b; std::string s; for (int i = 0; i < L; i++) s += char(33 + (i * 7) % 90);
        a.push_back(s); for (int k = 1; k < 4; k++) { std::string t = s; for (auto& c : t) c ^= k; if (L) a.push_back(t); }
        for (int p = 0; p < L; p++) for (int k = 0; k < 8; k++) { std::string t = s; t[p] ^= (1 << k); bool dup = false; for (auto& x : a) dup |= x == t; if (!dup) b.push_back(t); }
        if (L) { b.push_back(s.substr(0, L - 1)); b.push_back(s + "q"); b.push_back(s + std::string(1, '\0')); }
        typed(cat("string len=", L), a, b);
    }
    for (int L : {127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65535, 65536, 70001}) {     // long keys: one byte anywhere makes another key
        std::vector<std::string> a, b; std::string s(L, 0); mc::rng().bytes((unsigned char*)&s[0], L); a.push_back(s);
        for (int k = 0; k < 64; k++) { std::string t = s; t[(uint64_t)k * (L - 1) / 63] ^= 1 << (k % 8); b.push_back(t); }
        b.push_back(s.substr(0, L - 1)); b.push_back(s + "q"); typed(cat("string len=", L), a, b);
    }
    { std::vector<ECPoint> a, b; for (int i = 0; i < 24; i++) { ECPoint g = ECPoint(generator) * BigInt(i + 1); a.push_back(g); b.push_back(g.Invert()); b.push_back(ECPoint(generator) * BigInt(1000 + i)); } 
      { ECPoint inf; inf.SetInfinity(); a.push_back(inf); }
      typed("ECPoint", a, b); }
    { std::vector<EC25519Point> a, b; for (int i = 0; i < 32; i++) { uint8_t z[32] = {0}; z[i] = 1; a.push_back(EC25519Point(z)); for (int k = 1; k < 8; k++) { z[i] = 1 << k; b.push_back(EC25519Point(z)); } } typed("EC25519Point", a, b); }
}

// ---------------------------------------------------------------- (d) false-positive rate at capacity
static void rates()
{
    // small filters with a high parameter: no false positive is to be expected at all
    for (size_t len : {16, 24, 32, 33, 40, 64, 65}) for (size_t cap : {1, 2, 4, 8, 32}) {   // blocks, digests and encoded points
        if (!mc::begin(cat("fp-small len=", len, " cap=", cap))) continue;
        auto mk = [&]() { std::string s(len, 0); mc::rng().bytes((unsigned char*)&s[0], len); return s; };
        size_t fp = 0, tot = 0;
        for (size_t r = 0; r < 10; r++) { BloomFilter f(cap, 40); for (uint32_t i = 0; i < cap; i++) f.Insert(mk()); for (uint32_t i = 0; i < 300; i++) { fp += f.Contain(mk()); tot++; } mc::state(mc::fnv(image(f))); }
        MC_CHECK(fp == 0, fp, " false positives of ", tot, " non-members, target rate 2^-40");
        mc::S().evals += tot; mc::eval(len); mc::transition(tot); mc::trace();
    }
    for (size_t len : {8, 16, 31, 32, 33, 65}) for (size_t sp : {2, 4, 6, 8, 10}) for (size_t cap : {256, 600, 1000, 4096}) {
        if (!mc::begin(cat("fp-rate pseudorandom elements len=", len, " sp=", sp, " cap=", cap))) continue;
        auto mk = [&]() { std::string s(len, 0); mc::rng().bytes((unsigned char*)&s[0], len); return s; };
        size_t rounds = mc::thorough() ? 12 : 3, N = 6000, fp = 0, tot = 0;
        for (size_t r = 0; r < rounds; r++) {
            BloomFilter f(cap, sp);
            for (uint32_t i = 0; i < cap; i++) f.Insert(mk());
            for (uint32_t i = 0; i < N; i++) { fp += f.Contain(mk()); tot++; }
            mc::state(mc::fnv(image(f)));
        }
        double exp = double(tot) / double(1u << sp);
        MC_CHECK(fp <= 2.2 * exp + 25, fp, " false positives of ", tot, " non-members, target rate 2^-", sp, " (expected about ", exp, ")");
        mc::S().evals += tot; mc::eval(len); mc::transition(tot); mc::trace();
        mc::note("random_false_positives", fp); mc::note("random_false_positives_expected", (uint64_t)exp);
        if (getenv("MC_VERBOSE")) fprintf(stderr, "%zu %zu %zu: %zu / %.1f\n", len, sp, cap, fp, exp);
    }
}

// ---------------------------------------------------------------- (e) filters of the size the protocols use
static void large()
{
    std::vector<size_t> caps{300, 1000, 5000, 16384, 65535, 65537, 70000, 131072, 300000}; if (mc::thorough()) { caps.push_back(1 << 20); caps.push_back(3000000); }
    for (size_t cap : caps) for (size_t sp : {20, 40}) for (int kind = 0; kind < 2; kind++) {
        if (kind && cap > 70000 && !mc::thorough()) continue;
        if (!mc::begin(cat("large cap=", cap, " sp=", sp, " kind=", kind))) continue;
        auto go = [&](auto mk) {
            typedef decltype(mk()) T; std::vector<T> in(cap), out(20000); for (auto& x : in) x = mk(); for (auto& x : out) x = mk();
            BloomFilter f(cap, sp), g(cap, sp); f.Insert(in); for (size_t i = 0; i < cap; i++) g.Insert(in[i]);
            MC_CHECK(f.inserted_element_num == cap && g.inserted_element_num == cap, "count ", f.inserted_element_num, " ", g.inserted_element_num, " of ", cap);
            MC_CHECK(image(f) == image(g), "batch and single insertion build different filters");
            size_t fp = 0, miss = 0; auto b = f.Contain(in), bo = f.Contain(out);
            for (size_t i = 0; i < cap; i++) miss += !f.Contain(in[i]) || b[i] != 1; for (size_t i = 0; i < out.size(); i++) { bool c = f.Contain(out[i]); fp += c; MC_CHECK(c == (bo[i] == 1), "batch/single query disagree on non-member ", i); }
            MC_CHECK(miss == 0, miss, " false negatives of ", cap); MC_CHECK(sp == 40 ? fp == 0 : fp <= 3, fp, " false positives of ", out.size(), " non-members, target rate 2^-", sp);
            for (int how = 0; how < 4; how++) { BloomFilter r = reload(f, how); MC_CHECK(image(r) == image(f), "reload ", how, " changes the filter"); size_t m = 0; auto rb = r.Contain(in); for (size_t i = 0; i < cap; i++) m += rb[i] != 1 || !r.Contain(in[i]); MC_CHECK(m == 0, m, " false negatives after reload ", how); mc::transition(); }
            f.Clear(); size_t left = 0; for (size_t i = 0; i < cap; i += 7) left += f.Contain(in[i]); MC_CHECK(left == 0 && f.inserted_element_num == 0, left, " members left after Clear");
            mc::S().evals += 2 * cap + out.size(); mc::eval(sp); mc::trace(); mc::state(mc::fnv(image(g)));
        };
        if (kind == 0) go([] { block b; mc::rng().bytes((unsigned char*)&b, 16); return b; });
        else go([] { std::string s(33, 0); mc::rng().bytes((unsigned char*)&s[0], 33); return s; });
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    CRYPTO_Initialize();
    histories(); configurations(); types(); rates(); large();
    return mc::finish();
}
