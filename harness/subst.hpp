// Enumerates all single-component substitutions and all pairwise swaps of (pp, instance, proof).
#ifndef VERIF_SUBST_HPP
#define VERIF_SUBST_HPP
#include "zutil.hpp"
namespace subst {
struct comps {
    std::vector<std::pair<std::string, ECPoint*>> P; std::vector<std::pair<std::string, BigInt*>> B;
    void pt(const std::string& n, ECPoint& p) { P.push_back({n, &p}); }
    void sc(const std::string& n, BigInt& b) { B.push_back({n, &b}); }
};
template <class L, class A, class I, class P, class F> void each(L list, const A& pp, const I& inst, const P& proof, F f)
{
    using namespace zu;
    comps ref; A a0 = pp; I i0 = inst; P p0 = proof; list(ref, a0, i0, p0);
    auto fresh = [&](A& a, I& i, P& p, comps& c) { a = pp; i = inst; p = proof; list(c, a, i, p); };
    ECPoint g = ECPoint(generator), o; o.SetInfinity();
    for (size_t k = 0; k < ref.P.size(); k++) {
        const ECPoint& v = *ref.P[k].second; std::vector<std::pair<std::string, ECPoint>> alt{{"+g", v + g}, {"-g", v - g}, {"negated", mk(neg(rdp(v)))}, {"doubled", v + v}, {"identity", o}, {"generator", g}};
        for (auto& x : alt) { if (x.second == v) continue; A a; I i; P p; comps c; fresh(a, i, p, c); *c.P[k].second = x.second; if (!f(a, i, p, ref.P[k].first + " " + x.first)) return; }
        for (size_t m = k + 1; m < ref.P.size(); m++) { if (*ref.P[m].second == v) continue; A a; I i; P p; comps c; fresh(a, i, p, c); ECPoint t = *c.P[k].second; *c.P[k].second = *c.P[m].second; *c.P[m].second = t; if (!f(a, i, p, ref.P[k].first + " <-> " + ref.P[m].first)) return; }
        for (size_t m = 0; m < ref.P.size(); m++) { if (m == k || *ref.P[m].second == v) continue; A a; I i; P p; comps c; fresh(a, i, p, c); *c.P[k].second = *c.P[m].second; if (!f(a, i, p, ref.P[k].first + " := " + ref.P[m].first)) return; }
    }
    for (size_t k = 0; k < ref.B.size(); k++) {
        Z v = toZ(*ref.B[k].second); std::vector<std::pair<std::string, Z>> alt{{"+1", v + 1}, {"-1", v - 1}, {"negated", -v}, {"doubled", 2 * v}, {"zero", Z(0)}, {"one", Z(1)}, {"+2^255", v + (Z(1) << 255)}, {"^2^64", v + (Z(1) << 64)}};
        for (auto& x : alt) { if (md(x.second, N()) == md(v, N())) continue; A a; I i; P p; comps c; fresh(a, i, p, c); *c.B[k].second = toB(md(x.second, N())); if (!f(a, i, p, ref.B[k].first + " " + x.first)) return; }
        for (size_t m = 0; m < ref.B.size(); m++) { if (m == k || md(toZ(*ref.B[m].second), N()) == md(v, N())) continue; A a; I i; P p; comps c; fresh(a, i, p, c); if (m > k) { BigInt t = *c.B[k].second; *c.B[k].second = *c.B[m].second; *c.B[m].second = t; } else *c.B[k].second = *c.B[m].second; if (!f(a, i, p, ref.B[k].first + (m > k ? " <-> " : " := ") + ref.B[m].first)) return; }
    }
}
}
#endif
