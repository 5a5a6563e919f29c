// Pairs of item sets with a chosen overlap pattern and item family, shared by the set-protocol harnesses.
#ifndef VERIF_SETS_HPP
#define VERIF_SETS_HPP
#include "mc.hpp"
namespace sets {
typedef std::vector<uint8_t> B;
typedef std::vector<B> BV;
inline block blk(uint64_t a, uint64_t b) { return Block::MakeBlock(a, b); }
inline std::string bs(const block& b) { return std::string((const char*)&b, 16); }
enum { FAMILIES = 6 };
// pairwise different items; side 0/1 only matters for the position inside the family
inline block item(int fam, uint64_t i, uint64_t salt)
{
    switch (fam) {
    case 0: return blk(mc::mix(salt * 1000003 + 2 * i), mc::mix(salt * 1000003 + 2 * i + 1));
    case 1: return blk(0, i);                                   // counters, the all-zero item among them
    case 2: return blk(i, 0);                                   // differ in the upper half only
    case 3: return blk(~0ull, ~0ull - i);
    case 4: return i < 128 ? (i < 64 ? blk(0, 1ull << i) : blk(1ull << (i - 64), 0)) : blk(i, i);     // single bits
    default: return blk(0x0123456789abcdefull, 0xfedcba9876543210ull ^ (i << 56) ^ (i >> 8));         // near misses
    }
}
// placement of the common items inside Y: 0 same order from the front, 1 reversed from the back, 2 spread pseudorandomly
struct Pair { std::vector<block> X, Y; std::vector<uint8_t> in; };
inline Pair make(size_t n, size_t m, const std::vector<uint8_t>& in, int fam, int place, uint64_t salt)
{
    Pair p; p.in = in; p.X.resize(n); p.Y.resize(m); std::vector<size_t> pos(m); for (size_t j = 0; j < m; j++) pos[j] = j;
    if (place == 1) std::reverse(pos.begin(), pos.end());
    if (place == 2) { mc::Rng r; r.s = mc::mix(salt + 99); for (size_t j = m; j-- > 1;) std::swap(pos[j], pos[r.next() % (j + 1)]); }
    for (size_t i = 0; i < n; i++) p.X[i] = item(fam, i, salt);
    size_t c = 0; for (size_t i = 0; i < n; i++) if (in[i]) p.Y[pos[c++]] = p.X[i];
    for (size_t k = 0; c < m; k++) p.Y[pos[c++]] = item(fam, n + k, salt);
    return p;
}
inline size_t ones(const std::vector<uint8_t>& v) { size_t c = 0; for (auto b : v) c += b; return c; }
// pattern families for longer sets
enum { PATTERNS = 8 };
inline std::vector<uint8_t> pattern(size_t n, size_t m, int k, uint64_t salt)
{
    std::vector<uint8_t> v(n, 0); mc::Rng r; r.s = mc::mix(salt * 31 + k); size_t lim = std::min(n, m);
    for (size_t i = 0; i < n; i++) v[i] = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? i == 0 : k == 3 ? i == n - 1 : k == 4 ? i % 2 : k == 5 ? i < n / 2 : k == 6 ? r.next() & 1 : i != n / 2;
    for (size_t i = n, c = ones(v); i-- > 0 && c > lim;) if (v[i]) v[i] = 0, c--;
    return v;
}
inline void put(std::string& o, const BV& v) { uint32_t n = v.size(); o.append((char*)&n, 4); for (auto& x : v) { uint32_t k = x.size(); o.append((char*)&k, 4); o.append(x.begin(), x.end()); } }
inline bool get(const std::string& s, size_t& p, BV& v) { uint32_t n; if (p + 4 > s.size()) return false; memcpy(&n, &s[p], 4); p += 4; v.clear(); for (uint32_t i = 0; i < n; i++) { uint32_t k; if (p + 4 > s.size()) return false; memcpy(&k, &s[p], 4); p += 4; if (p + k > s.size()) return false; v.emplace_back(s.begin() + p, s.begin() + p + k); p += k; } return true; }
inline BV toV(const std::vector<block>& v) { BV o; for (auto& x : v) o.emplace_back((uint8_t*)&x, (uint8_t*)&x + 16); return o; }
inline bool same(const std::vector<block>& a, const std::vector<block>& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), 16 * a.size())); }
inline std::string show(const std::vector<uint8_t>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; i++) s += char('0' + v[i]); return s; }
}
#endif
