// C26: spherical and zonal harmonics. Oracle: the real orthonormal basis from explicit Legendre coefficients (quadruple precision) and exact quadrature over the sphere.
// thorough: 20
// rule: more than one band
// parts: 4
#include "pbt.h"
#include <geomc/linalg/Quaternion.h>
#include <geomc/function/SphericalHarmonics.h>
using namespace geom;
typedef __float128 Q; typedef long double L;
namespace ref {
const int MAXB = 8; typedef std::vector<Q> Poly;
static Poly legendre(int n) { Poly p(n + 1, 0); Q s = 1; for (int i = 0; i < n; i++) s /= 2; for (int k = 0; 2 * k <= n; k++) { Q a = 1; for (int i = 1; i <= k; i++) a = a * (n - k + i) / i; Q b = 1; for (int i = 1; i <= n; i++) b = b * (n - 2 * k + i) / i; p[n - 2 * k] = (k & 1 ? -1 : 1) * a * b * s; } return p; }
static Q eval(const Poly& p, Q x) { Q r = 0; for (size_t i = p.size(); i-- > 0;) r = r * x + p[i]; return r; }
static L P(int l, L x) { static std::vector<Poly> t; while ((int)t.size() <= l) t.push_back(legendre(t.size())); return (L)eval(t[l], x); }
static Poly derivative(int l, int m) { Poly p = legendre(l); for (int j = 0; j < m; j++) { for (size_t i = 1; i < p.size(); i++) p[i - 1] = p[i] * (int)i; if (p.size() > 1) p.pop_back(); else p[0] = 0; } return p; }
// real orthonormal basis with the Condon-Shortley phase; s is the sine of the polar angle
static L Y(int l, int m, L z, L s, L azi) { static std::map<std::pair<int, int>, Poly> t; int a = std::abs(m); auto k = std::make_pair(l, a); if (!t.count(k)) t[k] = derivative(l, a); L p = (L)eval(t[k], z) * (a % 2 ? -1 : 1); for (int i = 0; i < a; i++) p *= s; L f = 1; for (int i = l - a + 1; i <= l + a; i++) f *= i; L n = std::sqrt((2 * l + 1) / (4 * (L)M_PIl * f)); return m == 0 ? n * p : std::sqrt((L)2) * n * p * (m > 0 ? std::cos(a * azi) : std::sin(a * azi)); }
static L Yd(int l, int m, const L* d) { L s = std::sqrt(d[0] * d[0] + d[1] * d[1]), r = std::sqrt(s * s + d[2] * d[2]); return Y(l, m, d[2] / r, s / r, std::atan2(d[1], d[0])); }
// Gauss-Legendre nodes and weights
struct Gauss { std::vector<L> x, w; Gauss(int n) { for (int i = 0; i < n; i++) { L v = std::cos((L)M_PIl * (i + .75L) / (n + .5L)), dp = 0; for (int k = 0; k < 60; k++) { L p0 = 1, p1 = v; for (int j = 1; j < n; j++) { L p2 = ((2 * j + 1) * v * p1 - j * p0) / (j + 1); p0 = p1; p1 = p2; } if (n == 1) p0 = 1; dp = n * (v * p1 - p0) / (v * v - 1); v -= p1 / dp; } x.push_back(v); w.push_back(2 / ((1 - v * v) * dp * dp)); } } };
static const Gauss& gauss(int n) { static std::map<int, Gauss> g; auto i = g.find(n); if (i == g.end()) i = g.emplace(n, Gauss(n)).first; return i->second; }
static L legendre_integral(int l, L a, L b, int times_x) { Poly p = legendre(l); L r = 0; for (size_t i = 0; i < p.size(); i++) { int e = i + 1 + times_x; r += (L)p[i] * (std::pow(b, e) - std::pow(a, e)) / e; } return r; }
}
template<class T> T val(pbt::Ctx& c) { return c.b() ? (T)c.si(5) : (T)c.range(-2, 2); }
template<class T> Vec<T, 3> dir(pbt::Ctx& c) { Vec<T, 3> d; switch (c.i(0, 3)) { case 0: { int a = c.i(0, 2); d[a] = c.b() ? 1 : -1; if (c.b()) d[a] *= (T)c.range(.1, 9); return d; } case 1: for (int i = 0; i < 3; i++) d[i] = c.si(3); break; default: for (int i = 0; i < 3; i++) d[i] = (T)c.range(-2, 2); } if (d.mag() < .1) d[2] = 1; return d; }
template<class T, index_t B> using SH = SphericalHarmonics<T, B>; template<class T, index_t B> using ZH = ZonalHarmonics<T, B>;
template<class S> void fill(pbt::Ctx& c, S& s, int n) { typedef typename std::decay<decltype(s.coeffs[0])>::type T; for (int i = 0; i < n; i++) s.coeffs[i] = val<T>(c); }
template<class T, index_t B> L value(const SH<T, B>& s, const L* d) { L r = 0; for (int l = 0; l < s.bands(); l++) for (int m = -l; m <= l; m++) r += (L)s.coeffs[l * l + l + m] * ref::Yd(l, m, d); return r; }
template<class T, index_t B> L zvalue(const ZH<T, B>& z, L x) { L r = 0; for (int l = 0; l < z.bands(); l++) r += (L)z.coeffs[l] * ref::P(l, x); return r; }
template<class S> L total(const S& s, int n) { L r = 0; for (int i = 0; i < n; i++) r += std::abs((L)s.coeffs[i]) * (1 + i); return r; }
static int pickbands(pbt::Ctx& c, int B) { return B ? B : c.chance(1, 60) ? c.i(9, 26) : c.i(1, ref::MAXB); }
template<class T, index_t B> void basis(pbt::Ctx& c) {
    int n = pickbands(c, B); double e = 60 * n * n * std::numeric_limits<T>::epsilon(); Vec<T, 3> d = dir<T>(c); L q[3] = {d[0], d[1], d[2]}, r = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]), z = q[2] / r, az = std::atan2(q[1], q[0]); LOG(c, n << " bands, direction " << d); c.nontrivial(n > 2);
    SH<T, B> b = SH<T, B>::basis(d, n); REQUIRE(b.bands() == n && b.size() == n * n, "basis of " << b.bands() << " bands instead of " << n); double amp = 1 / (1e-3 + std::sqrt(std::max(0., (double)(1 - z * z)))); double tol = e * amp;
    for (int l = 0; l < n; l++) for (int m = -l; m <= l; m++) { L w = ref::Yd(l, m, q); T g = spherical_harmonic_coeff<T>(l, m, (T)z, (T)az); REQUIRE(std::abs((double)(g - w)) <= tol, "basis function (" << l << ", " << m << ") is " << (double)g << " instead of " << (double)w << " in direction " << d); REQUIRE(std::abs((double)(b.coeff(l, m) - w)) <= tol, "basis coefficient (" << l << ", " << m << ") is " << (double)b.coeff(l, m) << " instead of " << (double)w); REQUIRE(&b.coeff(l, m) == b.get() + l * l + l + m, "layout of coefficients"); }
    int l = c.i(0, n - 1), m = c.i(-l, l); SH<T, B> u(n); for (int i = 0; i < n * n; i++) REQUIRE(u.coeffs[i] == 0, "new harmonics are not zero"); u.coeff(l, m) = 1; L w = ref::Yd(l, m, q); REQUIRE(std::abs((double)(u.eval(d) - w)) <= tol, "evaluating basis function (" << l << ", " << m << ") gives " << (double)u.eval(d) << " instead of " << (double)w);
    T v = val<T>(c), al = (T)std::acos(z); SH<T, B> p(n); if (c.b()) p.project(d, v); else p.project(al, (T)az, v); for (int i = 0; i < n; i++) for (int k = -i; k <= i; k++) REQUIRE(std::abs((double)(p.coeff(i, k) - v * ref::Yd(i, k, q))) <= 6 * tol, "projecting a sample of value " << (double)v << " gives coefficient (" << i << ", " << k << ") " << (double)p.coeff(i, k) << " instead of " << (double)(v * ref::Yd(i, k, q))); p.clear(); for (int i = 0; i < n * n; i++) REQUIRE(p.coeffs[i] == 0, "cleared harmonics are not zero");
}
template<class T, index_t B> void linear(pbt::Ctx& c) {
    int n = pickbands(c, B); SH<T, B> a(n), b(n); fill(c, a, n * n); fill(c, b, n * n); T k = val<T>(c); Vec<T, 3> d = dir<T>(c); L q[3] = {d[0], d[1], d[2]}, r = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]); L va = value(a, q), vb = value(b, q); LOG(c, n << " bands, direction " << d); c.nontrivial(n > 1); L sc = total(a, n * n) + total(b, n * n) + std::abs((L)k) + 1;
    L z = q[2] / r; double tol = (double)sc * 60 * n * std::numeric_limits<T>::epsilon() / (1e-3 + std::sqrt(std::max(0., (double)(1 - z * z)))); auto at = [&](const SH<T, B>& s) { return (L)s.eval(d); };
    auto same = [&](L g, L w, const char* what) { REQUIRE(std::abs((double)(g - w)) <= tol * (1 + std::abs((double)k)), what << " evaluates to " << (double)g << " instead of " << (double)w << " in direction " << d); };
    same(at(a), va, "the function"); same((L)a.eval((T)std::acos(z), (T)std::atan2(q[1], q[0])), va, "the function by angles"); SH<T, B> s = a + b; same(at(s), va + vb, "a sum"); SH<T, B> t(a); t += b; same(at(t), va + vb, "an in-place sum"); t = a; t *= k; same(at(t), k * va, "a multiple"); if (k != 0) { t = a; t /= k; REQUIRE(std::abs((double)(at(t) - va / k)) <= tol * (1 + 1 / std::abs((double)k)), "a quotient"); } t = a; t += k; same(at(t), va + k, "a function with an added constant"); t = a; SH<T, B> neg(-t); same(at(neg), -va, "a negated function");
    L dot = 0; for (int i = 0; i < n * n; i++) dot += (L)a.coeffs[i] * b.coeffs[i]; same(a.dot(b), dot, "inner product"); REQUIRE(a.dot(b) == b.dot(a), "inner product is not symmetric");
    if (B == 0) { int n2 = c.i(1, ref::MAXB); SH<T, B> u(n2); fill(c, u, n2 * n2); L w = 0; for (int i = 0; i < std::min(n, n2) * std::min(n, n2); i++) w += (L)a.coeffs[i] * u.coeffs[i]; REQUIRE(std::abs((double)(a.dot(u) - w)) <= tol + 1e-4 * (sizeof(T) == 4) * (1 + (double)total(u, n2 * n2)) + 1e-12 * (double)total(u, n2 * n2), "inner product of different band counts"); SH<T, B> s2 = a + u; REQUIRE(s2.bands() == std::max(n, n2), "sum of different band counts has " << s2.bands() << " bands"); for (int i = 0; i < s2.size(); i++) REQUIRE(s2.coeffs[i] == (i < n * n ? a.coeffs[i] : 0) + (i < n2 * n2 ? u.coeffs[i] : 0), "sum of different band counts"); }
    SH<T, B> N(a); N.normalize(); if (a.coeffs[0] == 0) { for (int i = 0; i < n * n; i++) REQUIRE(N.coeffs[i] == a.coeffs[i], "normalizing changed a function without integral"); } else { L in = (L)a.coeffs[0] * std::sqrt(4 * (L)M_PIl); for (int i = 0; i < n * n; i++) REQUIRE(std::abs((double)(N.coeffs[i] - a.coeffs[i] / in)) <= 16 * std::numeric_limits<T>::epsilon() * std::abs((double)(a.coeffs[i] / in)), "normalizing a function of integral " << (double)in << " turned coefficient " << i << " from " << (double)a.coeffs[i] << " into " << (double)N.coeffs[i]); }
}
// integrals over the sphere by quadrature that is exact for products of band-limited functions
template<class T, index_t B> void integrals(pbt::Ctx& c) {
    int n = B ? B : c.i(1, 5); SH<T, B> a(n), b(n), p(n); fill(c, a, n * n); fill(c, b, n * n); LOG(c, "quadrature of " << n << " bands"); c.nontrivial(n > 1); const ref::Gauss& g = ref::gauss(n); int K = 2 * n; L in = 0, ia = 0; for (int i = 0; i < n; i++) for (int j = 0; j < K; j++) { L az = 2 * (L)M_PIl * (j + .25L) / K, s = std::sqrt(1 - g.x[i] * g.x[i]), w = g.w[i] * 2 * (L)M_PIl / K; Vec<T, 3> d((T)(s * std::cos(az)), (T)(s * std::sin(az)), (T)g.x[i]); T va = a.eval(d); in += w * va * b.eval(d); ia += w * va; p.project(d, (T)(w * va)); }
    double tol = (double)((1 + total(a, n * n)) * (1 + total(b, n * n))) * 4000 * std::numeric_limits<T>::epsilon(); REQUIRE(std::abs((double)(in - a.dot(b))) <= tol, "inner product is " << (double)a.dot(b) << " but the integral of the product is " << (double)in); for (int i = 0; i < n * n; i++) REQUIRE(std::abs((double)(p.coeffs[i] - a.coeffs[i])) <= tol, "projection of a band-limited function has coefficient " << i << " " << (double)p.coeffs[i] << " instead of " << (double)a.coeffs[i]); REQUIRE(std::abs((double)(ia - a.coeffs[0] * std::sqrt(4 * (L)M_PIl))) <= tol, "integral");
}
template<class T, index_t B, index_t B2> void zonal(pbt::Ctx& c) {
    int n = pickbands(c, B), n2 = pickbands(c, B2); double e = std::numeric_limits<T>::epsilon(); ZH<T, B> z(n); REQUIRE(z.bands() == n, "zonal harmonics of " << z.bands() << " bands instead of " << n); for (int i = 0; i < n; i++) REQUIRE(z.coeff(i) == 0, "new zonal harmonics are not zero"); fill(c, z, n); T x = c.chance(1, 4) ? (T)c.i(-1, 1) : (T)c.range(-1, 1); LOG(c, n << " and " << n2 << " zonal bands, cosine " << (double)x); c.nontrivial(n > 1); double tz = (double)(1 + total(z, n)) * 60 * n * e; L w = zvalue(z, x); REQUIRE(std::abs((double)(z.eval(x) - w)) <= tz, "zonal function is " << (double)z.eval(x) << " instead of " << (double)w);
    // as spherical harmonics, about z and about any axis
    SH<T, B2> s(z); int nb = B2 ? B2 : n; REQUIRE(s.bands() == nb, "converted band count"); Vec<T, 3> d = dir<T>(c), ax = dir<T>(c); L q[3] = {d[0], d[1], d[2]}, r = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]), p[3] = {ax[0], ax[1], ax[2]}, rp = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); auto lim = [&](L u) { L t = 0; for (int l = 0; l < std::min(n, nb); l++) t += (L)z.coeffs[l] * ref::P(l, u); return t; }; auto near = [&](const Vec<T, 3>& v) { L m = std::sqrt((L)v[0] * v[0] + (L)v[1] * v[1]) / v.mag(); return 1 / (1e-3 + (double)m); };
    w = lim(q[2] / r); REQUIRE(std::abs((double)(s.eval(d) - w)) <= 8 * tz * n * near(d), "zonal function as spherical harmonics is " << (double)s.eval(d) << " instead of " << (double)w << " in direction " << d); for (int l = 0; l < nb; l++) for (int m = -l; m <= l; m++) if (m != 0 || l >= n) REQUIRE(s.coeff(l, m) == 0, "coefficient (" << l << ", " << m << ") of a zonal function is " << (double)s.coeff(l, m));
    SH<T, B2> t(z, ax); L dot = (p[0] * q[0] + p[1] * q[1] + p[2] * q[2]) / (r * rp); w = lim(std::max((L)-1, std::min((L)1, dot))); REQUIRE(std::abs((double)(t.eval(d) - w)) <= 40 * tz * n * n * near(d) * near(ax), "zonal function about the axis " << ax << " is " << (double)t.eval(d) << " instead of " << (double)w << " in direction " << d); for (int l = n; l < nb; l++) for (int m = -l; m <= l; m++) REQUIRE(t.coeff(l, m) == 0, "coefficient beyond the bands of the zonal function");
    // smoothing about the axis
    SH<T, B> f(n); fill(c, f, n * n); ZH<T, B> sm(f); REQUIRE(sm.bands() == n, "bands of a smoothed function"); L mean = 0; int K = 2 * n; L xs = std::sqrt(std::max((L)0, 1 - (L)x * x)); for (int j = 0; j < K; j++) { L az = 2 * (L)M_PIl * j / K, v[3] = {xs * std::cos(az), xs * std::sin(az), x}; mean += value(f, v) / K; } double ts = (double)(1 + total(f, n * n)) * 100 * n * e; REQUIRE(std::abs((double)(sm.eval(x) - mean)) <= ts, "smoothed function is " << (double)sm.eval(x) << " instead of the mean " << (double)mean << " about the axis");
    // inner product over the common bands, normalization, samples
    ZH<T, B2> y(n2); fill(c, y, n2); L in = 0; for (int i = 0; i < std::min(n, n2); i++) in += (L)z.coeffs[i] * y.coeffs[i]; double ti = (double)((1 + total(z, n)) * (1 + total(y, n2))) * 8 * e; REQUIRE(std::abs((double)(z.dot(y) - in)) <= ti && std::abs((double)(y.dot(z) - in)) <= ti, "zonal inner product is " << (double)z.dot(y) << " instead of " << (double)in);
    ZH<T, B> N(z); N.normalize(); L g = 4 * (L)M_PIl * z.coeffs[0]; for (int i = 0; i < n; i++) { L u = z.coeffs[0] == 0 ? (L)z.coeffs[i] : z.coeffs[i] / g; REQUIRE(std::abs((double)(N.coeffs[i] - u)) <= 8 * e * std::abs((double)u), "normalized zonal coefficient " << i << " is " << (double)N.coeffs[i] << " instead of " << (double)u); }
    ZH<T, B> P(n); T v = val<T>(c); P.project(x, v); for (int i = 0; i < n; i++) REQUIRE(std::abs((double)(P.coeffs[i] - v * ref::P(i, x))) <= 60 * (i + 1) * (i + 1) * e * (1 + std::abs((double)v)), "zonal coefficient " << i << " of a sample is " << (double)P.coeffs[i] << " instead of " << (double)(v * ref::P(i, x)));
}
template<class T, index_t B> void kernels(pbt::Ctx& c) {
    int n = B ? B : c.i(1, 14); double e = std::numeric_limits<T>::epsilon(); ZH<T, B> z(n); fill(c, z, n); T x = c.chance(1, 4) ? (T)c.i(-1, 1) : (T)c.range(-1, 1); int order = c.i(-1, n + 2); LOG(c, n << " bands, spot of cosine " << (double)x << ", order " << order); c.nontrivial(n > 2); z.generate_spot(x); for (int l = 0; l < n; l++) { L w = (2 * l + 1) / 2.L * ref::legendre_integral(l, x, 1, 0); REQUIRE(std::abs((double)(z.coeffs[l] - w)) <= 60 * (l + 1) * (l + 1) * e, "coefficient " << l << " of a spot is " << (double)z.coeffs[l] << " instead of " << (double)w); }
    fill(c, z, n); z.generate_lambertian(order); int ct = order < 1 ? n : std::min(order, n); for (int l = 0; l < n; l++) { L w = l < ct ? (2 * l + 1) / 2.L * ref::legendre_integral(l, 0, 1, 1) : 0; REQUIRE(std::abs((double)(z.coeffs[l] - w)) <= 200 * (l + 1) * e, "coefficient " << l << " of a diffuse lobe of order " << order << " is " << (double)z.coeffs[l] << " instead of " << (double)w); }
    // convolution powers
    ZH<T, B> a(n), b(n); for (int i = 0; i < n; i++) { a.coeffs[i] = (T)c.range(.05, 2); b.coeffs[i] = (T)c.range(.05, 2); } auto close = [&](const ZH<T, B>& g, const ZH<T, B>& w, const char* what) { for (int i = 0; i < n; i++) REQUIRE(std::abs((double)(g.coeffs[i] - w.coeffs[i])) <= 200 * e * std::abs((double)w.coeffs[i]), what << ": coefficient " << i << " is " << (double)g.coeffs[i] << " instead of " << (double)w.coeffs[i]); };
    ZH<T, B> ab(a), ba(b), d(a), one(a), id(a), sq(a), h(a); ab.convolve(b); ba.convolve(a); close(ab, ba, "convolution in either order"); one.diffuse(1); close(one, a, "one self-convolution"); d.diffuse(2); sq.convolve(a); close(d, sq, "two self-convolutions"); id.diffuse(0); ab = a; ab.convolve(id); close(ab, a, "convolution with the identity"); h.diffuse((T).5); ab = h; ab.convolve(h); close(ab, a, "half a self-convolution, twice"); ba = a; ba.diffuse((T)1.5); ab = a; ab.convolve(h); close(ba, ab, "one and a half self-convolutions");
    int m = B ? B : c.i(1, 6); SH<T, B> f(m), f2(m); fill(c, f, m * m); f2 = f; ZH<T, B> a2(a); for (int i = 0; i < n; i++) a2.coeffs[i] *= 2; f.convolve(a); SH<T, B> f3(f2); f3.convolve(a2); for (int l = 0; l < m; l++) { L ratio = NAN; for (int k = -l; k <= l; k++) { T o = f2.coeff(l, k), r = f.coeff(l, k); if (l >= n) { REQUIRE(r == 0, "band " << l << " survives a kernel of " << n << " bands"); continue; } REQUIRE(f3.coeff(l, k) == 2 * r, "convolution is not linear in the kernel"); if (o == 0) { REQUIRE(r == 0, "convolution created a coefficient"); continue; } L q = (L)r / o; if (ratio != ratio) ratio = q; REQUIRE(q > 0 && std::abs((double)(q - ratio)) <= 16 * e * (double)ratio, "convolution with an axially symmetric kernel scaled the sub-bands of band " << l << " by different factors " << (double)q << " and " << (double)ratio); } }
}
#if PART(0)
PROP(basis_dynamic, 60000) { basis<double, 0>(c); }
PROP(basis_fixed, 60000) { basis<double, 5>(c); }
PROP(basis_float, 30000) { basis<float, 4>(c); }
#endif
#if PART(1)
PROP(linear_dynamic, 60000) { linear<double, 0>(c); }
PROP(linear_fixed, 60000) { linear<double, 4>(c); }
PROP(linear_float, 30000) { linear<float, 3>(c); }
#endif
#if PART(2)
PROP(integrals_dynamic, 18000) { integrals<double, 0>(c); }
PROP(integrals_fixed, 18000) { integrals<double, 4>(c); }
PROP(kernels_dynamic, 60000) { kernels<double, 0>(c); }
PROP(kernels_fixed, 60000) { kernels<double, 6>(c); }
PROP(kernels_float, 30000) { kernels<float, 5>(c); }
#endif
#if PART(3)
PROP(zonal_dynamic, 60000) { zonal<double, 0, 0>(c); }
PROP(zonal_fixed, 60000) { zonal<double, 4, 4>(c); }
PROP(zonal_growing, 30000) { zonal<double, 3, 5>(c); }
PROP(zonal_shrinking, 30000) { zonal<double, 6, 2>(c); }
PROP(zonal_float, 30000) { zonal<float, 0, 4>(c); }
// functions of many bands: everything that is a sum over the bands
PROP(many_bands, 600) {
    int n = (int)c.i(20, c.chance(1, 3) ? 300 : 60), o = (int)c.i(1, 300); uint64_t seed = c.draw(~0ull >> 1); auto u = [&]() { return (double)((int)(pbt::splitmix(seed) % 17) - 8) / 4; }; LOG(c, n << " and " << o << " bands"); c.nontrivial(n > 20); c.label("more than 256 bands", n > 256);
    ZH<double, 0> z(n), y(o); REQUIRE(z.bands() == n && y.bands() == o, "band count"); std::vector<L> a(n), b(o); for (int i = 0; i < n; i++) a[i] = z.coeff(i) = u(); for (int i = 0; i < o; i++) b[i] = y.coeff(i) = u(); L dot = 0; for (int i = 0; i < std::min(n, o); i++) dot += a[i] * b[i]; REQUIRE((L)z.dot(y) == dot && (L)y.dot(z) == dot, "zonal dot product " << z.dot(y) << " instead of " << dot);
    double x = c.b() ? c.range(-1, 1) : c.pick({1., -1., 0., .5}); std::vector<L> P(n + 1); P[0] = 1; P[1] = x; for (int i = 1; i < n; i++) P[i + 1] = ((2 * i + 1) * (L)x * P[i] - i * P[i - 1]) / (i + 1); L want = 0, mag = 1; for (int i = 0; i < n; i++) { want += a[i] * P[i]; mag += std::abs(a[i]) * (1 + i); } REQUIRE(std::abs((L)z.eval(x) - want) <= 1e-13L * mag * n, "zonal function of " << n << " bands at " << x << " is " << z.eval(x) << " instead of " << want);
    ZH<double, 0> p(n), q(n); double v = c.range(-2, 2); p.project(x, v); q.generate_spot(x); for (int i = 0; i < n; i++) { REQUIRE(std::abs((L)p.coeff(i) - v * P[i]) <= 1e-13L * (1 + i) * (1 + i), "projected band " << i << " of " << n); L w = i == 0 ? (1 - (L)x) / 2 : (P[i - 1] - P[i + 1]) / 2; REQUIRE(std::abs((L)q.coeff(i) - w) <= 1e-13L * (1 + i) * (1 + i), "band " << i << " of a spot of cosine " << x << " is " << q.coeff(i) << " instead of " << w); }
    SH<double, 0> s(n), t(o); REQUIRE(s.size() == (index_t)n * n && s.bands() == n, "size of " << n << " bands"); std::vector<L> f(n * n), g(o * o); for (int l = 0; l < n; l++) for (int m = -l; m <= l; m++) f[l * l + l + m] = s.coeff(l, m) = u(); for (int l = 0; l < o; l++) for (int m = -l; m <= l; m++) g[l * l + l + m] = t.coeff(l, m) = u(); dot = 0; for (size_t i = 0; i < std::min(f.size(), g.size()); i++) { dot += f[i] * g[i]; }
    REQUIRE((L)s.dot(t) == dot && (L)t.dot(s) == dot, "dot product " << s.dot(t) << " instead of " << dot); auto sum = s + t; REQUIRE(sum.bands() == std::max(n, o), "bands of a sum"); for (int l = 0; l < std::max(n, o); l++) for (int m = -l; m <= l; m++) { size_t i = l * l + l + m; L w = (l < n ? f[i] : 0) + (l < o ? g[i] : 0); REQUIRE((L)sum.coeff(l, m) == w && sum.get()[i] == sum.coeff(l, m), "coefficient " << l << "," << m << " of a sum is " << sum.coeff(l, m) << " instead of " << w); }
    auto e = s; e += t; e *= 4; e.convolve(y); for (int l = 0; l < n; l++) for (int m = -l; m <= l; m++) { size_t i = l * l + l + m; L w = l < o ? 4 * (f[i] + g[i]) * b[l] : 0; REQUIRE((L)e.coeff(l, m) == w, "coefficient " << l << "," << m << " of a convolved sum is " << e.coeff(l, m) << " instead of " << w); }
    e.clear(); for (index_t i = 0; i < e.size(); i++) REQUIRE(e.get()[i] == 0, "coefficient " << i << " of a cleared function"); s.normalize(); if (f[0] != 0) for (size_t i = 0; i < f.size(); i++) { L w = f[i] / (f[0] * std::sqrt(4 * M_PIl)); REQUIRE(std::abs((L)s.get()[i] - w) <= 1e-14L * (1 + std::abs(w)), "coefficient " << i << " of a normalized function"); }
}
#endif
