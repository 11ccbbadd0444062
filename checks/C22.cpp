// C22: quadratic equations. Oracle: sign of the discriminant and both roots in quadruple precision.
// thorough: 20
// rule: linear coefficient and scale nonzero (all three terms take part)
#include "pbt.h"
#include <geomc/function/Utils.h>
using namespace geom;
typedef __float128 Q;
static Q qa(Q x) { return x < 0 ? -x : x; }
static Q qsqrt(Q x) { if (x <= 0) return 0; Q s = std::sqrt((double)x); for (int i = 0; i < 3; i++) s = (s + x / s) / 2; return s; }
template<class T> T coef(pbt::Ctx& c) { switch (c.i(0, 4)) { case 0: return c.si(9); case 1: return 0; case 2: return (T)(c.range(1, 2) * std::exp2(c.i(-24, 24)) * (c.b() ? 1 : -1)); case 3: return (T)c.range(-2, 2); default: return (T)c.real(10); } }
template<class T> void solve(pbt::Ctx& c) {
    T a = coef<T>(c), b = coef<T>(c), k = coef<T>(c); int mode = c.i(0, 5); double e = std::numeric_limits<T>::epsilon();
    if (mode == 1) { T r = c.si(20), s = c.si(20); a = c.i(1, 4) * (c.b() ? 1 : -1); b = -a * (r + s); k = a * r * s; } else if (mode == 2) { T r = c.i(-15, 15); a = (T)std::exp2(c.i(-6, 6)) * (c.b() ? 1 : -1); b = -2 * a * r; k = a * r * r; } // roots chosen, double root chosen
    else if (mode == 3 && a != 0 && b != 0) { k = b * b / (4 * a); for (int i = c.i(0, 3); i > 0; i--) k = std::nextafter(k, c.b() ? (T)1e30 : (T)-1e30); } // discriminant next to zero
    else if (mode == 4) { b *= (T)std::exp2(sizeof(T) == 4 ? 12 : 40); } // roots far apart
    Q d = (Q)b * b - (Q)4 * a * k; T res[2] = {(T)123, (T)-456}; LOG(c, "coefficients " << (double)a << " " << (double)b << " " << (double)k << ", discriminant " << (double)d); bool ok = quadratic_solve(res, a, b, k);
    c.label("no real root", d < 0); c.label("linear", a == 0); c.label("double root", d == 0); c.label("close to double", d > 0 && d < 1e-10 * (Q)b * b); c.nontrivial(b != 0 && k != 0);
    bool has = a != 0 ? d >= 0 : b != 0; REQUIRE(ok == has, "solving " << (double)a << " x^2 + " << (double)b << " x + " << (double)k << " = 0 reports " << (ok ? "roots" : "no roots") << ", discriminant " << (double)d);
    if (!ok) { REQUIRE(res[0] == 123 && res[1] == -456, "results changed without a solution"); return; }
    Q r[2]; if (a == 0) r[0] = r[1] = -(Q)k / b; else { Q s = qsqrt(d), q = b < 0 ? (-(Q)b + s) / 2 : (-(Q)b - s) / 2; r[0] = q / a; r[1] = q != 0 ? (Q)k / q : (Q)0; }
    auto near = [&](T x, Q w) { return qa(x - w) <= 16 * e * qa(w); }; REQUIRE((near(res[0], r[0]) && near(res[1], r[1])) || (near(res[0], r[1]) && near(res[1], r[0])), "roots of " << (double)a << " x^2 + " << (double)b << " x + " << (double)k << " are " << (double)res[0] << " and " << (double)res[1] << " instead of " << (double)r[0] << " and " << (double)r[1]);
    for (T x : res) { Q v = ((Q)a * x + b) * x + k, sc = qa((Q)a * x * x) + qa((Q)b * x) + qa((Q)k); REQUIRE(qa(v) <= 64 * e * sc, "root " << (double)x << " leaves a residual of " << (double)v); }
}
PROP(double_precision, 3000000) { solve<double>(c); }
PROP(single_precision, 1500000) { solve<float>(c); }
PROP(extended_precision, 300000) { long double a = c.si(9), r = c.si(9), s = c.range(-3, 3), res[2]; if (a == 0) a = 1; LOG(c, "roots " << (double)r << " " << (double)s); bool ok = quadratic_solve(res, a, -a * (r + s), a * r * s); if (std::abs(r - s) > .01L) { REQUIRE(ok, "two separate roots are not found"); long double lo = std::min(res[0], res[1]), hi = std::max(res[0], res[1]); REQUIRE(std::abs(lo - std::min(r, s)) < 1e-14L && std::abs(hi - std::max(r, s)) < 1e-14L, "roots are " << (double)lo << " and " << (double)hi); c.nontrivial(); } }
