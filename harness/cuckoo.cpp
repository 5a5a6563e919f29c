// C12: cuckoo filter.  Breadth-first exploration of insert/delete/save/load histories of the real
// class against a multiset model, on tables so small that evictions, the overflow slot and
// fingerprint collisions all occur.  The eviction choice (rand) is owned and enumerated.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "filter/cuckoo_filter.hpp"
using mc::cat;

static int g_policy = 0; static unsigned g_ctr = 0;
extern "C" int rand(void)
{
    g_ctr++;
    switch (g_policy) {
        case 0: case 1: case 2: case 3: return g_policy;
        case 4: return (int)(g_ctr & 3);
        default: return (int)(mc::mix(g_ctr * 977 + g_policy) & 0x7fffffff);
    }
}

static std::string image(CuckooFilter& f) { std::string b(f.ObjectSize() + 32, 0); f.WriteObject(&b[0]); return b; }

static CuckooFilter reload(CuckooFilter& f, int how)
{
    CuckooFilter g;
    if (how & 2) { g = CuckooFilter(40, 0.001); g.Insert(std::string("dirt")); }
    if (how & 1) {
        if (!f.WriteObject(std::string("cuckoo.tmp"))) mc::fail("WriteObject(file) failed");
        if (!g.ReadObject(std::string("cuckoo.tmp"))) mc::fail("ReadObject(file) failed");
    } else {
        size_t n = f.ObjectSize();
        std::vector<char> buf(n + 32, 0x5a);
        f.WriteObject(buf.data());
        for (size_t i = n; i < buf.size(); i++) if (buf[i] != 0x5a) { mc::fail("WriteObject(buffer) writes beyond ObjectSize()"); break; }
        // the receiver gets exactly ObjectSize() bytes
        std::vector<char> in(buf.begin(), buf.begin() + n);
        g.ReadObject(in.data());
    }
    return g;
}

// keys that collide with `a` in a table of this size (found through the public interface)
static std::vector<std::string> colliding(size_t projected, const std::string& a, int n)
{
    CuckooFilter f(projected, 0.001); f.Insert(a);
    std::vector<std::string> out;
    for (uint32_t i = 0; i < 20000000 && (int)out.size() < n; i++) {
        std::string k = cat("c", i);
        if (k != a && f.Contain(k)) out.push_back(k);
    }
    return out;
}

static void histories()
{
    size_t projs[] = {1, 3, 4, 7, 12};
    int maxdepth = mc::thorough() ? 16 : 12;
    for (size_t proj : projs) for (int pol = 0; pol < (mc::thorough() ? 9 : 6); pol++) for (int keyset = 0; keyset < 3; keyset++) {
        if (!mc::begin(cat("hist projected=", proj, " evict-policy=", pol, " keys=", keyset))) continue;
        g_policy = pol; g_ctr = 0;
        std::vector<std::string> keys{"alpha"};
        if (keyset == 0) { keys.push_back("beta"); keys.push_back("gamma"); keys.push_back("delta!"); }
        else {
            auto c = colliding(proj, "alpha", keyset == 1 ? 1 : 2);
            for (auto& k : c) keys.push_back(k);
            keys.push_back("other");
        }
        const int K = keys.size();
        struct N { CuckooFilter f; std::vector<int> m; std::string path; };
        std::vector<N> layer; std::set<std::string> seen;
        N root{CuckooFilter(proj, 0.001), std::vector<int>(K, 0), ""};
        for (auto& k : keys) MC_CHECK(!root.f.Contain(k), "empty filter contains ", k);
        layer.push_back(root);
        // the depth bound is the last complete layer within the state budget (at least 7)
        size_t cap = mc::thorough() ? 40000 : 3000;
        bool bad = false;
        for (int d = 0; d < maxdepth && !bad && (d < 7 || layer.size() <= cap) && layer.size(); d++) {
            std::vector<N> next;
            for (auto& n : layer) {
                for (int op = 0; op < 2 * K + 4 && !bad; op++) {
                    if (op >= K && op < 2 * K && n.m[op - K] == 0) continue;   // only delete what is present
                    N c = n; mc::beat();
                    g_ctr = 0;
                    if (op < K) {
                        bool ok = c.f.Insert(keys[op]); if (ok) c.m[op]++;
                        c.path += cat("I", op, ok ? " " : "! ");
                    } else if (op < 2 * K) {
                        bool ok = c.f.Delete(keys[op - K]); c.m[op - K]--;
                        c.path += cat("D", op - K, " ");
                        if (!ok) { mc::fail(cat("Delete of a present element reports failure after ", c.path)); bad = true; }
                    } else { c.f = reload(c.f, op - 2 * K); c.path += cat("R", op - 2 * K, " "); }
                    mc::transition();
                    int tot = 0;
                    for (int i = 0; i < K; i++) {
                        tot += c.m[i];
                        if (c.m[i] > 0 && !c.f.Contain(keys[i])) { mc::fail(cat("false negative: ", keys[i], " (count ", c.m[i], ") after ", c.path)); bad = true; }
                    }
                    if (tot == 0) for (int i = 0; i < K; i++) if (c.f.Contain(keys[i])) { mc::fail(cat("emptied filter contains ", keys[i], " after ", c.path)); bad = true; }
                    if (op < K && d < 3 && tot <= 4 && c.m[op] == n.m[op]) { mc::fail(cat("insertion refused although the filter holds only ", tot, " elements, after ", c.path)); bad = true; }
                    std::string sig = image(c.f); for (int x : c.m) sig += cat("|", x);
                    mc::state(mc::fnv(sig) ^ mc::fnv(mc::S().cur)); mc::eval(mc::fnv(c.path), tot > 0);
                    if (seen.insert(sig).second) next.push_back(c);
                }
                if (bad) break;
            }
            layer.swap(next);
            mc::note("complete_layers");
        }
        mc::trace(seen.size());
    }
}

// fill a table with many distinct keys until an insertion is refused; nothing may be lost
static void fills()
{
    std::vector<size_t> ps; for (size_t p = 1; p <= (mc::thorough() ? 200 : 64); p++) ps.push_back(p);
    for (size_t p : {100, 250, 255, 256, 257, 1000, 4000, 20000, 65535, 70000, 140000}) ps.push_back(p);
    for (size_t p : ps) for (int pol : {0, 3, 4, 5}) {
        if (p > 5000 && pol != 5 && !(pol == 0 && mc::thorough())) continue;
        if (!mc::begin(cat("fill projected=", p, " evict-policy=", pol))) continue;
        g_policy = pol; g_ctr = 0;
        CuckooFilter f(p, 0.001);
        std::vector<std::string> in; size_t i = 0; 
        for (; i < p * 8 + 64; i++) { std::string k = cat("item#", i); if (!f.Insert(k)) break; in.push_back(k); }
        MC_CHECK(i < p * 8 + 64 , "a full table never refuses");
        MC_CHECK(in.size() >= 5, "insertion refused although only ", in.size(), " elements were stored");   // 4 slots per bucket + overflow slot
        for (int how = -1; how < 4; how++) {
            CuckooFilter g = how < 0 ? f : reload(f, how);
            for (auto& k : in) if (!g.Contain(k)) { mc::fail(cat("false negative for ", k, " with ", in.size(), " elements, reload ", how)); break; }
            if (how >= 0) MC_CHECK(image(g) == image(f), "reloaded filter differs, reload ", how);
            mc::state(mc::fnv(image(g))); mc::transition(in.size());
        }
        // delete half, the rest must stay; then delete all
        for (size_t j = 0; j < in.size(); j += 2) MC_CHECK(f.Delete(in[j]), "Delete of ", in[j], " reports failure");
        for (size_t j = 1; j < in.size(); j += 2) MC_CHECK(f.Contain(in[j]), "false negative for ", in[j], " after deleting others");
        for (size_t j = 1; j < in.size(); j += 2) MC_CHECK(f.Delete(in[j]), "Delete of ", in[j], " reports failure");
        for (auto& k : in) if (f.Contain(k)) { mc::fail(cat("emptied filter contains ", k)); break; }
        size_t fp = 0; CuckooFilter g(p, 0.001); for (auto& k : in) if (!g.Insert(k)) break;
        for (int q = 0; q < 5000; q++) fp += g.Contain(cat("absent*", q));
        MC_CHECK(fp <= 60, fp, " of 5000 absent elements reported present");
        mc::eval(pol); mc::trace();
    }
}

template <class T> static void typed(const std::string& name, const std::vector<T>& in, const std::vector<T>& out)
{
    if (!mc::begin("type " + name)) return;
    for (int mode = 0; mode < 3; mode++) {
        CuckooFilter f(in.size() * 2 + 8, 0.001); g_policy = 5;
        bool ok = true;
        if (mode == 0) for (auto& x : in) ok = f.Insert(x) && ok;
        else if (mode == 1) { std::vector<T> v(in); ok = f.Insert(v); }
        else ok = f.Insert(in.begin(), in.end());
        MC_CHECK(ok, "insertion refused, mode ", mode);
        for (size_t i = 0; i < in.size(); i++) {
            // scribble over the stack between insertion and query: answers depend on the element only
            volatile unsigned char junk[512]; for (int k = 0; k < 512; k++) junk[k] = (unsigned char)(i * 7 + k + mode);
            MC_CHECK(f.Contain(in[i]), "false negative element ", i, " mode ", mode);
        }
        size_t fp = 0; for (auto& x : out) fp += f.Contain(x);
        MC_CHECK(out.size() < 4 || fp * 2 < out.size(), fp, " of ", out.size(), " absent elements reported present");
        for (size_t i = 0; i < in.size(); i++) {
            volatile unsigned char junk[512]; for (int k = 0; k < 512; k++) junk[k] = (unsigned char)(i * 5 + k);
            MC_CHECK(f.Delete(in[i]), "Delete of present element ", i, " reports failure, mode ", mode);
        }
        for (size_t i = 0; i < in.size(); i++) MC_CHECK(!f.Contain(in[i]), "emptied filter contains element ", i, " mode ", mode);
        mc::transition(in.size() * 3); mc::eval(mode); mc::state(mc::fnv(image(f)) ^ mode);
    }
    // batches that do not fit: refused as a whole or in part, but never reported as stored; what was there stays
    if (in.size() >= 24) for (int mode = 1; mode < 3; mode++) for (int pol : {0, 3, 5}) {
        CuckooFilter f(1, 0.001); g_policy = pol; g_ctr = 0;
        MC_CHECK(f.Insert(in[0]) && f.Insert(in[1]), "insertion into an empty filter refused");
        bool ok; if (mode == 1) { std::vector<T> v(in.begin() + 2, in.end()); ok = f.Insert(v); } else ok = f.Insert(in.begin() + 2, in.end());
        MC_CHECK(!ok, in.size(), " elements reported as stored in a filter for one element, mode ", mode);
        MC_CHECK(f.Contain(in[0]) && f.Contain(in[1]), "a refused batch removed an element, mode ", mode);
        mc::transition(in.size()); mc::eval(mode * 10 + pol);
    }
    mc::trace();
}
static void types()
{
    // integer keys are spread over the whole range (the light-weight hash does not mix small integers)
    { std::vector<int> a, b; for (int i = 0; i < 40; i++) { a.push_back((int)mc::mix(i)); b.push_back((int)mc::mix(1000 + i)); } typed("int", a, b); }
    { std::vector<uint64_t> a, b; for (int i = 0; i < 64; i++) { a.push_back(mc::mix(i)); b.push_back(mc::mix(1000 + i)); } typed("uint64", a, b); }
    for (int L = 0; L <= (mc::thorough() ? 150 : 70); L++) {
        std::vector<std::string> a, b; std::string s; for (int i = 0; i < L; i++) s += char(33 + (i * 7) % 90);
        a.push_back(s); if (L) { std::string t = s; t[L - 1] ^= 1; a.push_back(t); t = s; t[0] ^= 2; if (t != a[1]) a.push_back(t); }
        for (int k = 0; k < 64; k++) { std::string t(L + 9, 0); mc::rng().bytes((unsigned char*)&t[0], L + 9); b.push_back(t); }
        typed(cat("string len=", L), a, b);
    }
    for (int L : {127, 128, 129, 255, 256, 257, 1000, 4096, 65535, 65536, 70001}) {
        std::vector<std::string> a, b; for (int k = 0; k < 6; k++) { std::string t(L, 0); mc::rng().bytes((unsigned char*)&t[0], L); a.push_back(t); }
        for (int k = 0; k < 64; k++) { std::string t = a[k % 6]; t[(uint64_t)k * (L - 1) / 63] ^= 1 << (k % 8); b.push_back(t); }
        typed(cat("string len=", L), a, b);
    }
    { std::vector<ECPoint> a, b; for (int i = 0; i < 24; i++) { ECPoint g = ECPoint(generator) * BigInt(i + 1); a.push_back(g); b.push_back(ECPoint(generator) * BigInt(1000 + i)); } typed("ECPoint", a, b); }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    CRYPTO_Initialize();
    histories(); fills(); types();
    return mc::finish();
}
