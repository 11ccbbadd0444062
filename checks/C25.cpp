// C25: orthogonal polynomials. Oracle: their explicit coefficients (exact in quadruple precision), differentiated and integrated term by term.
// thorough: 20
// rule: degree above one (order above zero for associated functions)
// parts: 2
#include "pbt.h"
#include <geomc/linalg/Quaternion.h>
#include <geomc/function/SphericalHarmonics.h>
using namespace geom;
typedef __float128 Q; typedef long double L;
namespace ref {
typedef std::vector<Q> Poly;
static Poly legendre(int n) { Poly p(n + 1, 0); Q s = 1; for (int i = 0; i < n; i++) s /= 2; for (int k = 0; 2 * k <= n; k++) { Q a = 1; for (int i = 1; i <= k; i++) a = a * (n - k + i) / i; Q b = 1; for (int i = 1; i <= n; i++) b = b * (n - 2 * k + i) / i; p[n - 2 * k] = (k & 1 ? -1 : 1) * a * b * s; } return p; } // sum of (-1)^k C(n,k) C(2n-2k,n) x^(n-2k) / 2^n
static Poly diff(Poly p) { for (size_t i = 1; i < p.size(); i++) p[i - 1] = p[i] * (int)i; if (p.size() > 1) p.pop_back(); else p[0] = 0; return p; }
static Q eval(const Poly& p, Q x) { Q r = 0; for (size_t i = p.size(); i-- > 0;) r = r * x + p[i]; return r; }
static Q integral(const Poly& p, Q x) { Q a = 0, b = 0; for (size_t i = p.size(); i-- > 0;) { a = a * x + p[i] / (int)(i + 1); b = -b + p[i] / (int)(i + 1); } return a * x + b; }
static Poly chebyshev(int kind, int n) { Poly a{1}, b{0, (Q)kind}; if (n == 0) return a; for (int i = 1; i < n; i++) { Poly t(i + 2, 0); for (size_t k = 0; k < b.size(); k++) t[k + 1] = 2 * b[k]; for (size_t k = 0; k < a.size(); k++) t[k] -= a[k]; a = b; b = t; } return b; }
static Q associated(int l, int m, Q x, bool phase = true) { Poly p = legendre(l); for (int i = 0; i < m; i++) p = diff(p); L s = (L)(1 - x * x); Q w = m == 0 ? 1 : (Q)(m % 2 ? std::pow(s, m / 2) * std::sqrt(s) : std::pow(s, m / 2)); return eval(p, x) * w * (m % 2 && phase ? -1 : 1); }
static double size(int l, int m) { double r = 1; for (int i = l - m + 1; i <= l + m; i++) r *= i; return std::sqrt(r); }
}
static double qd(Q x) { return (double)(x < 0 ? -x : x); }
template<class T> T arg(pbt::Ctx& c) { switch (c.i(0, 5)) { case 0: return (T)(c.si(4) * .25); case 1: return c.b() ? 1 : -1; case 2: return (T)((c.b() ? 1 : -1) * (1 - std::exp2(-c.i(1, sizeof(T) == 4 ? 20 : 40)))); default: return (T)c.range(-1, 1); } }
template<class T> void polys(pbt::Ctx& c) {
    int n = c.i(0, 26); T x = arg<T>(c); double e = std::numeric_limits<T>::epsilon(), tol = 8 * e * (n + 1) * (n + 1); LOG(c, "order " << n << " at " << (double)x); ref::Poly p = ref::legendre(n); c.nontrivial(n > 1);
    Q w = ref::eval(p, x); T g = geom::legendre(n, x); REQUIRE(qd(g - w) <= tol, "Legendre polynomial of order " << n << " at " << (double)x << " is " << (double)g << " instead of " << (double)w); T a = geom::legendre(n, 0, x); REQUIRE(qd(a - w) <= tol, "associated polynomial of sub-band 0 is " << (double)a << " instead of " << (double)w);
    w = ref::integral(p, x); g = legendre_integral(n, x); REQUIRE(qd(g - w) <= tol, "integral of the Legendre polynomial of order " << n << " up to " << (double)x << " is " << (double)g << " instead of " << (double)w);
    for (int k = 1; k <= 2; k++) { w = ref::eval(ref::chebyshev(k, n), x); g = chebyshev(k, n, x); REQUIRE(qd(g - w) <= tol * (n + 1), "Chebyshev polynomial of kind " << k << " and order " << n << " at " << (double)x << " is " << (double)g << " instead of " << (double)w); }
}
template<class T> void assoc(pbt::Ctx& c) {
    int l = c.i(0, sizeof(T) == 4 ? 10 : 20), m = c.i(0, l); T x = arg<T>(c); double e = std::numeric_limits<T>::epsilon(); LOG(c, "band " << l << ", sub-band " << m << " at " << (double)x); c.nontrivial(m > 0 && l > 1); Q w = ref::associated(l, m, x); T g = geom::legendre(l, m, x); double s = (double)(1 - (Q)x * x), tol = 8 * e * (l + 1) * (l + 1) * ref::size(l, m) + (m > 0 && s > 0 ? qd(w) * m * 2 * e / s : 0); REQUIRE(qd(g - w) <= tol, "associated Legendre polynomial (" << l << ", " << m << ") at " << (double)x << " is " << (double)g << " instead of " << (double)w);
}
template<class T> void batch(pbt::Ctx& c) {
    int n = c.i(1, 9); SphericalHarmonics<T, 0> sh(n); T x = (T)c.range(-.99, .99); double e = std::numeric_limits<T>::epsilon(); LOG(c, n << " bands at " << (double)x); c.nontrivial(n > 2); for (int m = 0; m < n; m++) geom::legendre(&sh, m, x); for (int l = 0; l < n; l++) for (int m = -l; m <= l; m++) { Q w = ref::associated(l, std::abs(m), x); double tol = 800 * e * (l + 1) * (l + 1) * ref::size(l, std::abs(m)); T g = sh.coeff(l, m); REQUIRE(qd(g - w) <= tol, "batch-evaluated polynomial (" << l << ", " << m << ") of " << n << " bands at " << (double)x << " is " << (double)g << " instead of " << (double)w); }
}
#if PART(0)
PROP(polynomials_double, 160000) { polys<double>(c); }
PROP(polynomials_float, 80000) { polys<float>(c); }
PROP(polynomials_extended, 80000) { polys<long double>(c); }
#endif
#if PART(1)
PROP(associated_double, 160000) { assoc<double>(c); }
PROP(associated_float, 80000) { assoc<float>(c); }
PROP(associated_batch, 40000) { batch<double>(c); }
PROP(associated_batch_float, 20000) { batch<float>(c); }
// high orders: three-term recurrences in quadruple precision, and the trigonometric forms of the Chebyshev polynomials
PROP(high_orders, 12000) {
    int n = c.chance(1, 3) ? (int)c.i(27, 700) : (int)c.pick({64, 128, 256, 512}) + (int)c.si(3); double x = arg<double>(c), e = std::numeric_limits<double>::epsilon(); LOG(c, "order " << n << " at " << x); c.nontrivial(); Q a = 1, b = x, d = 0; for (int i = 1; i <= n; i++) { Q t = ((2 * i + 1) * (Q)x * b - i * a) / (i + 1); d = a; a = b; b = t; } // a: order n, b: n + 1, d: n - 1
    double tol = 8 * e * n * n; double g = geom::legendre(n, x); REQUIRE(qd(g - a) <= tol, "Legendre polynomial of order " << n << " at " << x << " is " << g << " instead of " << (double)a); double h = geom::legendre(n, 0, x); REQUIRE(qd(h - a) <= tol, "associated polynomial of sub-band 0 is " << h << " instead of " << (double)a); Q w = (b - d) / (2 * n + 1); g = legendre_integral(n, x); REQUIRE(qd(g - w) <= tol, "integral of the Legendre polynomial of order " << n << " up to " << x << " is " << g << " instead of " << (double)w);
    for (int k = 1; k <= 2; k++) { Q p = 1, q = (Q)k * x; for (int i = 1; i < n; i++) { Q t = 2 * (Q)x * q - p; p = q; q = t; } g = chebyshev(k, n, x); REQUIRE(qd(g - q) <= tol * (n + 1), "Chebyshev polynomial of kind " << k << " and order " << n << " at " << x << " is " << g << " instead of " << (double)q); }
    int m = c.i(1, 4); Q s = 1 - (Q)x * x, u = 1; L r = std::sqrt((L)s); for (int i = 0; i < m; i++) u *= -(2 * i + 1) * (Q)r; Q v = (2 * m + 1) * (Q)x * u; for (int l = m + 1; l < n; l++) { Q t = ((2 * l + 1) * (Q)x * v - (l + m) * u) / (l - m + 1); u = v; v = t; } g = geom::legendre(n, m, x); double at = 8 * e * (n + 1) * (n + 1) * ref::size(n, m) + (s > 0 ? qd(v) * m * 2 * e / (double)s : 0); REQUIRE(qd(g - v) <= at, "associated Legendre polynomial (" << n << ", " << m << ") at " << x << " is " << g << " instead of " << (double)v);
}
#endif
