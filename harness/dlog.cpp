// C06: Shanks solver: all messages of small ranges, configuration histories, every truncation of the table file.
#include "mc.hpp"
#include "crypto/setup.hpp"
#include "pke/exponential_elgamal.hpp"
#include "pke/twisted_exponential_elgamal.hpp"
#include "zutil.hpp"
#include "rt.hpp"
#include <sys/wait.h>
#include <dirent.h>
using mc::cat; using namespace zu;
struct Conf { int base; size_t R, T; };
static ECPoint base(int b) { ECPoint g(generator); if (b == 0) return g; if (b == 1) return Hash::StringToECPoint("another base"); return g * BigInt(2); }
static std::string nm(const Conf& c) { return cat("b", c.base, "r", c.R, "t", c.T); }
static void wipe() { DIR* d = opendir("."); if (!d) return; std::vector<std::string> v; while (auto* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 6 && n.substr(n.size() - 6) == ".table") v.push_back(n); } closedir(d); for (auto& n : v) unlink(n.c_str()); }
static std::string table() { DIR* d = opendir("."); std::string r; while (auto* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 6 && n.substr(n.size() - 6) == ".table") r = n; } closedir(d); return r; }
// both front ends of the solver
static void init(const Conf& c, int scheme)
{
    if (scheme) { auto pp = TwistedExponentialElGamal::Setup(c.R, c.T); pp.h = base(c.base); TwistedExponentialElGamal::Initialize(pp); }
    else { auto pp = ExponentialElGamal::Setup(c.R, c.T); pp.g = base(c.base); ExponentialElGamal::Initialize(pp); }
}
static bool solve(const Conf& c, const ECPoint& g, const ECPoint& h, Z& x) { BigInt v; bool ok = ShanksDLOG(g, h, c.R, c.T, v); x = toZ(v); return ok; }
static bool in(const Conf& c, const ECPoint& g, const Z& m, const ECPoint& h)
{
    Z x; bool ok = solve(c, g, h, x); bool want = m >= 0 && m < (Z(1) << c.R);
    if (want) return MC_CHECK(ok && x == m, nm(c), ": log of ", S(m), " -> ", ok ? S(x) : std::string("not found"));
    return MC_CHECK(!ok, nm(c), ": a value outside the range (", S(m), ") is reported as ", S(x));
}
static bool in(const Conf& c, const ECPoint& g, const Z& m) { return in(c, g, m, g * toB(md(m, N()))); }
static std::vector<Z> outside(const Conf& c)
{
    std::vector<Z> v; Z n = Z(1) << c.R; Z b = Z(1) << (c.R / 2 + c.T);
    for (int i = 0; i < 3; i++) { v.push_back(n + i); v.push_back(-1 - i); v.push_back(2 * n + i); v.push_back(n + b - 1 + i); v.push_back(-b + i); v.push_back(-n - i); v.push_back(4 * n + i); } v.push_back((N() - 1) / 2); return v;
}
static std::vector<Z> border(const Conf& c)
{
    std::set<Z> s; Z n = Z(1) << c.R; for (size_t k = 0; k <= c.R; k++) for (int d = -1; d <= 1; d++) s.insert((Z(1) << k) + d);
    Z b = Z(1) << (c.R / 2 + c.T); Z sl = n / 64; for (int i = 0; i <= 64; i++) for (int d = -1; d <= 1; d++) { s.insert(sl * i + d); s.insert(b * i + d); s.insert(n - b * i + d); }
    std::vector<Z> v; for (auto& z : s) if (z >= 0 && z < n) v.push_back(z); return v;
}
static bool valid(size_t R, size_t T) { return R / 2 >= T + 6 && R / 2 + T >= 6; }

int main(int argc, char** argv)
{
    mc::init(argc, argv); CRYPTO_Initialize(); const bool T = mc::thorough();
    // ---- every message of the small ranges, for every tradeoff, base and thread order
    for (size_t R = 12; R <= (T ? 16u : 14u); R++) for (size_t t = 0; valid(R, t); t++) for (int b = 0; b < (R <= 13 || T ? 3 : 1); b++) for (int ord = 0; ord < (R == 12 ? 3 : 1); ord++) {
        size_t n = 1u << R, step = R <= 12 ? 512 : 1024;
        for (size_t lo = 0; lo < n; lo += step) if (mc::begin(cat("all:", nm({b, R, t}), ":o", ord, ":", lo))) {
            Conf c{b, R, t}; rt::order = ord; wipe(); init(c, b == 1); ECPoint g = base(b), h = g * BigInt(lo);
            for (size_t m = lo; m < lo + step; m++) { if (!in(c, g, m, h)) break; mc::eval(m, m > 0); h = h + g; if (m % 64 == 0) mc::beat(); }
            if (lo == 0 || lo + step == n) for (auto& m : outside(c)) { in(c, g, m); mc::eval(cat("out", S(m))); }
            rt::order = 0;
        }
    }
    // ---- boundary messages of larger ranges
    for (size_t R = 15; R <= (T ? 26u : 20u); R++) for (size_t t = 0; valid(R, t); t++) for (int b = 0; b < 2; b++) {
        if (!T && b && R % 2 == 0) continue;
        if (mc::begin(cat("border:", nm({b, R, t})))) { Conf c{b, R, t}; wipe(); rt::order = R % 3; init(c, b); ECPoint g = base(b); size_t k = 0; auto v = border(c); size_t step = T || R < 18 ? 1 : 5; for (size_t i = 0; i < v.size(); i += step) { in(c, g, v[i]); mc::eval(S(v[i])); if (++k % 16 == 0) mc::beat(); } for (auto& m : outside(c)) { in(c, g, m); mc::eval(cat("out", S(m))); mc::beat(); } rt::order = 0; }
    }
    // ---- histories of (re)initialisation, with and without the files of earlier configurations
    {
        std::vector<Conf> C{{0, 12, 0}, {0, 14, 0}, {0, 14, 1}, {1, 12, 0}, {0, 13, 0}, {1, 14, 1}, {2, 12, 0}}; int n = C.size();
        std::vector<int> start; for (int keep = 0; keep < 2; keep++) for (int len = 1; len <= 3; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= n; for (int x = 0; x < tot; x++) {
            if (!mc::begin(cat("hist:", keep, ":", len, ":", x))) continue;
            if (keep == 0) wipe(); else { wipe(); for (auto& c : C) init(c, 0); }
            int v = x; uint64_t h = keep; for (int i = 0; i < len; i++) {
                const Conf& c = C[v % n]; v /= n; if (keep == 0 && i) wipe(); init(c, (x + i) % 2); h = mc::mix(h * 31 + (&c - &C[0]) + 1); mc::state(h); mc::transition(); mc::trace(); ECPoint g = base(c.base); Z r = Z(1) << c.R, bb = Z(1) << (c.R / 2 + c.T);
                for (Z m : std::vector<Z>{0, 1, bb - 1, bb, r / 2 - 1, r / 2, r - 1, r, r + 1, r + bb, r + 2 * bb, 2 * r, 4 * r - 1, Z(-1), -bb + 1, Z(4096 + 3), Z(8192 + 5), Z(16383)}) in(c, g, m);
                mc::eval(cat(x, ".", i)); mc::beat();
            }
        } }
    }
    // ---- crash points: the table file cut short (or padded) at every byte; both front ends
    for (int scheme = 0; scheme < 2; scheme++) for (Conf c : std::vector<Conf>{{0, 12, 0}, {1, 13, 0}}) {
        size_t total = 64 * 8 + 65 * 65 + 17;
        for (size_t lo = 0; lo < total; lo += 100) if (mc::begin(cat("cut:", scheme, ":", nm(c), ":", lo))) {
            wipe(); init(c, scheme); std::string f = table(); if (!MC_CHECK(f.size() > 0, "no table file")) continue; std::ifstream fi(f, std::ios::binary); std::string img((std::istreambuf_iterator<char>(fi)), {}); fi.close();
            for (size_t L = lo; L < lo + 100; L++) {
                if (L == img.size()) { continue; }
                { std::string cut = img.substr(0, std::min(L, img.size())); while (cut.size() < L) cut += char(0x41 + cut.size() % 7); std::ofstream fo(f, std::ios::binary | std::ios::trunc); fo.write(cut.data(), cut.size()); }
                pid_t p = fork();
                if (p == 0) {        // a fresh process restarts on the damaged file: it may refuse, it must not answer wrongly
                    encoding2index_map.clear(); vec_searchanchor.clear(); giantstep = ECPoint();
                    init(c, scheme); ECPoint g = base(c.base); Z r = Z(1) << c.R;
                    for (Z m : std::vector<Z>{0, 1, 63, 64, 65, r / 2, r - 65, r - 1, r, r + 64, Z(-1)}) { Z x; bool ok = solve(c, g, g * toB(md(m, N())), x); bool want = m >= 0 && m < r; if (ok && !(want && x == m)) _exit(77); if (!ok && want && L > img.size() + 1000000) _exit(78); }
                    _exit(0);
                }
                int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { mc::fail(cat("a table cut at byte ", L, " of ", img.size(), " gives a wrong answer")); break; } if (!WIFEXITED(st)) { mc::fail(cat("a table cut at byte ", L, " crashes the solver")); break; }
                mc::eval(L); mc::note("crash_points"); if (L % 16 == 0) mc::beat();
            }
        }
    }
    return mc::finish();
}
