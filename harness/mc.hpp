// Common enumeration/replay runtime for every harness in this directory.
//
//  * a harness enumerates *cases*; a case is named by a string id that fully determines it;
//  * all nondeterminism is owned: OpenSSL's RNG, std::random_device, rand() seeds are replaced by
//    a deterministic stream keyed by (VERIF_SEED, case id), so that a case can be replayed alone;
//  * the id of the case being executed is kept in a shared file, so that the driver can attribute
//    a crash or a hang to one case and replay it;
//  * counters are measured here and written to a summary file for the evidence.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <random>
#include <chrono>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <openssl/rand.h>

namespace mc {

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// ---------------------------------------------------------------- owned randomness
struct Rng {
    uint64_t s = 0x1234567;
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    void bytes(unsigned char* p, size_t n) { while (n) { uint64_t v = next(); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }
};
inline Rng sysrng0() { Rng r; if (const char* e = getenv("MC_SALT")) r.s = mix(strtoull(e, 0, 10)); return r; }   // before main
inline Rng& sysrng() { static Rng r = sysrng0(); return r; }      // what the code under test draws from
inline Rng& rng() { static Rng r; return r; }         // what the harness draws fixed test data from
inline volatile int& rng_lock() { static volatile int l = 0; return l; }
inline Rng* (*rng_override)() = nullptr;     // schedule exploration: every thread has a stream of its own
inline void lock_rng() { if (!rng_override) while (__sync_lock_test_and_set(&rng_lock(), 1)) ; }
inline void unlock_rng() { if (!rng_override) __sync_lock_release(&rng_lock()); }
inline Rng& draw() { if (rng_override) if (Rng* r = rng_override()) return *r; return sysrng(); }
inline int rnd_bytes(unsigned char* b, int n) { lock_rng(); draw().bytes(b, n); unlock_rng(); return 1; }
inline int rnd_seed(const void*, int) { return 1; }
inline int rnd_add(const void*, int, double) { return 1; }
inline int rnd_status() { return 1; }
inline void install_rng()
{
    static RAND_METHOD m = { rnd_seed, rnd_bytes, nullptr, rnd_add, rnd_bytes, rnd_status };
    RAND_set_rand_method(&m);
}

// ---------------------------------------------------------------- run state
struct Shared { volatile uint64_t seq, beat, failed, stop; char id[4000]; };
struct State {
    std::string tier = "quick", out, cur, only, prop, scratch;
    bool has_only = false;
    int shard = 0, nshards = 1;
    uint64_t seed = 1, idx = 0;
    uint64_t cases = 0, evals = 0, transitions = 0, traces = 0, fails = 0, schedules = 0;
    double deadline = 1e18;
    bool truncated = false;
    bool in_case = false;
    std::unordered_set<uint64_t> nontriv, states;
    std::vector<std::string> samples, fail_ids, fail_msgs;
    std::set<std::string> skip;
    std::map<std::string, uint64_t> extra;
    Shared* sh = nullptr;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    uint64_t max_fails = 20;
};
inline State& S() { static State* s = new State; return *s; }
inline bool thorough() { return S().tier == "thorough"; }
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().t0).count(); }
inline bool stop_now() { State& s = S(); return !s.has_only && (elapsed() > s.deadline || (s.sh && s.sh->stop)); }
inline void beat() { if (S().sh) S().sh->beat++; }

inline std::string jesc(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

inline void usage_args(int argc, char** argv)
{
    State& s = S();
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") s.tier = val();
        else if (a == "--out") s.out = val();
        else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &s.shard, &s.nshards); }
        else if (a == "--case") { s.only = val(); s.has_only = true; }
        else if (a == "--skip") s.skip.insert(val());
        else if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--deadline") s.deadline = atof(val().c_str());
        else if (a == "--scratch") s.scratch = val();
        else if (a == "--state") {
            std::string f = val();
            int fd = open(f.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
                s.sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (s.sh == MAP_FAILED) s.sh = nullptr;
            }
            if (fd >= 0) close(fd);
        }
    }
}

inline void init(int argc, char** argv)
{
    usage_args(argc, argv);
    install_rng();
    if (S().scratch.size()) { if (chdir(S().scratch.c_str()) != 0) { perror("chdir"); _exit(3); } }
    if (!getenv("MC_VERBOSE")) {     // the library prints a lot
        if (!freopen("/dev/null", "w", stdout)) {}
        std::cout.setstate(std::ios::badbit);
        std::cerr.setstate(std::ios::badbit);
    }
}

inline void reseed(const std::string& id)
{
    uint64_t h = mix(fnv(id) ^ mix(S().seed));
    sysrng().s = h; rng().s = mix(h ^ 77);
    srand((unsigned)h);
}

// Returns true when this process has to execute the case.
inline bool begin(const std::string& id)
{
    State& s = S();
    s.in_case = false;
    if (s.has_only) { if (id != s.only) return false; }
    else {
        if ((int)(s.idx++ % s.nshards) != s.shard) return false;
        if (s.skip.count(id)) return false;
        if (s.fails >= s.max_fails) { s.truncated = true; return false; }
        if (elapsed() > s.deadline || (s.sh && s.sh->stop)) { s.truncated = true; return false; }
    }
    s.cur = id; s.cases++; s.in_case = true;
    if (s.sh) { strncpy(s.sh->id, id.c_str(), sizeof(s.sh->id) - 1); s.sh->seq++; }
    if (s.samples.size() < 3 || (s.cases & (s.cases - 1)) == 0) { if (s.samples.size() < 12) s.samples.push_back(id); }
    reseed(id);
    return true;
}
inline void fail(const std::string& msg)
{
    State& s = S();
    s.fails++; if (s.sh) s.sh->failed++;
    if (s.fail_ids.size() < 50) { s.fail_ids.push_back(s.cur); s.fail_msgs.push_back(msg); }
    if (getenv("MC_VERBOSE")) fprintf(stderr, "FAIL %s: %s\n", s.cur.c_str(), msg.c_str());
}
inline bool check(bool c, const std::string& msg) { if (!c) fail(msg); return c; }

// one evaluated execution/input; key identifies it for the distinct count
inline void eval(uint64_t key, bool nontrivial = true) { State& s = S(); s.evals++; if (nontrivial) s.nontriv.insert(mix(key ^ fnv(s.cur))); }
inline void eval(const std::string& key, bool nontrivial = true) { eval(fnv(key), nontrivial); }
inline bool state(uint64_t h) { return S().states.insert(h).second; }
inline void transition(uint64_t n = 1) { S().transitions += n; }
inline void trace(uint64_t n = 1) { S().traces += n; }
inline void note(const std::string& k, uint64_t n = 1) { S().extra[k] += n; }

inline void dump_set(const std::string& f, const std::unordered_set<uint64_t>& st)
{
    FILE* o = fopen(f.c_str(), "wb"); if (!o) return;
    for (uint64_t v : st) fwrite(&v, 8, 1, o);
    fclose(o);
}

inline int finish()
{
    State& s = S();
    if (s.out.size()) {
        std::ostringstream o;
        o << "{\"cases\":" << s.cases << ",\"evals\":" << s.evals << ",\"transitions\":" << s.transitions
          << ",\"traces\":" << s.traces << ",\"truncated\":" << (s.truncated ? "true" : "false") << ",\"samples\":[";
        for (size_t i = 0; i < s.samples.size(); i++) o << (i ? "," : "") << jesc(s.samples[i]);
        o << "],\"failures\":[";
        for (size_t i = 0; i < s.fail_ids.size(); i++) o << (i ? "," : "") << "{\"case\":" << jesc(s.fail_ids[i]) << ",\"msg\":" << jesc(s.fail_msgs[i]) << "}";
        o << "],\"extra\":{";
        bool first = true;
        for (auto& kv : s.extra) { o << (first ? "" : ",") << jesc(kv.first) << ":" << kv.second; first = false; }
        o << "}}\n";
        dump_set(s.out + ".nontriv", s.nontriv);
        dump_set(s.out + ".states", s.states);
        std::string tmp = s.out + ".tmp";
        FILE* f = fopen(tmp.c_str(), "w");
        if (!f) return 3;
        std::string str = o.str();
        fwrite(str.data(), 1, str.size(), f); fclose(f);
        rename(tmp.c_str(), s.out.c_str());
    }
    fflush(nullptr);
    _exit(0);
}

inline std::string hex(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef"; std::string o; const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { o += d[c[i] >> 4]; o += d[c[i] & 15]; }
    return o;
}
template <class... A> std::string cat(A&&... a) { std::ostringstream o; ((o << a), ...); return o.str(); }

} // namespace mc

// deterministic std::random_device (the symbol in the executable takes precedence)
namespace mc { inline uint32_t rd_val() { lock_rng(); uint32_t v = (uint32_t)draw().next(); unlock_rng(); return v; } }
#define MC_CHECK(c, ...) mc::check((c), mc::cat(__VA_ARGS__))
#endif
