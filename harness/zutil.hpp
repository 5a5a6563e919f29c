// Independent oracles: big integers (boost) and affine/Jacobian arithmetic on the curve in use.
#ifndef VERIF_ZUTIL_HPP
#define VERIF_ZUTIL_HPP
#include <boost/multiprecision/cpp_int.hpp>
namespace zu {
using Z = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off>;
inline Z bn2z(const BIGNUM* b)
{
    char* h = BN_bn2hex(b); std::string s(h); OPENSSL_free(h);
    bool neg = s[0] == '-'; if (neg) s = s.substr(1);
    Z z(s.empty() ? std::string("0") : "0x" + s); return neg ? Z(-z) : z;
}
inline Z toZ(const BigInt& a) { return bn2z(a.bn_ptr); }
inline BigInt toB(const Z& z)
{
    std::stringstream ss; Z m = z < 0 ? Z(-z) : z; ss << std::hex << m;
    BigInt r; BIGNUM* p = r.bn_ptr; BN_hex2bn(&p, ss.str().c_str()); if (z < 0) BN_set_negative(p, 1); return r;
}
inline std::string S(const Z& z) { std::stringstream ss; ss << z; return ss.str(); }
inline Z md(const Z& a, const Z& m) { Z r = a % m; if (r < 0) r += m; return r; }
inline Z inv(Z a, const Z& m) { a = md(a, m); Z r0 = m, r1 = a, s0 = 0, s1 = 1; while (r1 != 0) { Z q = r0 / r1; Z t = r0 - q * r1; r0 = r1; r1 = t; t = s0 - q * s1; s0 = s1; s1 = t; } return md(s0, m); }
struct Pt { bool inf = true; Z x, y; bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
inline Z P() { static Z p = bn2z(curve_params_p); return p; }
inline Z A() { static Z a = bn2z(curve_params_a); return a; }
inline Z Bc() { static Z b = bn2z(curve_params_b); return b; }
inline Z N() { static Z n = bn2z(order); return n; }
inline Pt neg(const Pt& a) { Pt r = a; if (!r.inf) r.y = md(-r.y, P()); return r; }
inline Pt add(const Pt& a, const Pt& b)
{
    if (a.inf) return b; if (b.inf) return a;
    Z l;
    if (a.x == b.x) { if (md(a.y + b.y, P()) == 0) return Pt(); l = md((3 * a.x * a.x + A()) * inv(2 * a.y, P()), P()); }
    else l = md((b.y - a.y) * inv(b.x - a.x, P()), P());
    Pt r; r.inf = false; r.x = md(l * l - a.x - b.x, P()); r.y = md(l * (a.x - r.x) - a.y, P()); return r;
}
inline Pt mul(Pt a, Z k)
{
    if (k < 0) { k = -k; a = neg(a); }
    k = k % N(); Pt r; while (k > 0) { if ((k & 1) != 0) r = add(r, a); a = add(a, a); k >>= 1; } return r;
}
inline bool oncurve(const Pt& a) { return a.inf || md(a.y * a.y - (a.x * a.x * a.x + A() * a.x + Bc()), P()) == 0; }
inline Pt rdp(const ECPoint& e)
{
    Pt r; if (EC_POINT_is_at_infinity(group, e.point_ptr)) return r;
    BIGNUM *x = BN_new(), *y = BN_new(); EC_POINT_get_affine_coordinates(group, e.point_ptr, x, y, nullptr);
    r.inf = false; r.x = bn2z(x); r.y = bn2z(y); BN_free(x); BN_free(y); return r;
}
inline ECPoint mk(const Pt& p)
{
    ECPoint e; if (p.inf) { EC_POINT_set_to_infinity(group, e.point_ptr); return e; }
    BigInt x = toB(p.x), y = toB(p.y); EC_POINT_set_affine_coordinates(group, e.point_ptr, x.bn_ptr, y.bn_ptr, nullptr); return e;
}
inline std::string str(const Pt& p) { if (p.inf) return "infinity"; std::stringstream s; s << "(" << std::hex << p.x << ")"; return s.str(); }
}
#endif
