// C20: scalar helpers. Oracle: exact integer arithmetic in 128 bits, quadruple-precision reals, and textbook interpolation formulas.
// thorough: 20
// rule: negative operands or exact multiples (integers); cancelling products; more than one dimension (interpolation)
// parts: 2
#include "pbt.h"
#include <complex>
#include <geomc/function/Utils.h>
using namespace geom;
typedef __float128 Q; typedef __int128 I;
static Q qa(Q x) { return x < 0 ? -x : x; }
static I floorQ(I a, I b) { I q = a / b; return q - (a % b != 0 && ((a < 0) != (b < 0))); }
static I ceilQ(I a, I b) { I q = a / b; return q + (a % b != 0 && ((a < 0) == (b < 0))); }
template<class T> T integer(pbt::Ctx& c, T lim) { int m = c.i(0, 4); uint64_t v; if (m < 2) v = c.draw(9); else if (m == 2) v = c.draw(1000); else if (m == 3) v = c.draw((uint64_t)lim); else v = (uint64_t)lim - c.draw(3); T r = (T)std::min<uint64_t>(v, lim); return std::is_signed<T>::value && c.b() ? -r : r; }
template<class T> void ints(pbt::Ctx& c) {
    const T half = std::numeric_limits<T>::max() / 2; T b = integer<T>(c, half), a = integer<T>(c, c.b() ? half : 40); if (b == 0) b = 1; if (c.chance(1, 3)) { I k = (I)b * c.si(4); if (k <= (I)half && k >= (std::is_signed<T>::value ? -(I)half : 0)) a = (T)k; } LOG(c, "integers " << (long long)a << " and " << (long long)b << " of " << sizeof(T) << " bytes");
    I m = (I)a - (I)b * floorQ(a, b); REQUIRE((I)positive_mod<T>(a, b) == m, "positive_mod(" << (long long)a << ", " << (long long)b << ") is " << (long long)positive_mod<T>(a, b) << " instead of " << (long long)m); REQUIRE((I)floor_div(a, b) == floorQ(a, b), "floor_div(" << (long long)a << ", " << (long long)b << ") is " << (long long)floor_div(a, b) << " instead of " << (long long)floorQ(a, b)); REQUIRE((I)ceil_div(a, b) == ceilQ(a, b), "ceil_div(" << (long long)a << ", " << (long long)b << ") is " << (long long)ceil_div(a, b) << " instead of " << (long long)ceilQ(a, b));
    if (b > 0 && ceilQ(a, b) * b <= (I)std::numeric_limits<T>::max()) { I s = (I)geom::snap(a, b); REQUIRE(s == ceilQ(a, b) * b, "snap(" << (long long)a << ", " << (long long)b << ") is " << (long long)s); }
    T lo = integer<T>(c, half), hi = integer<T>(c, half); if (lo > hi) std::swap(lo, hi); T k = geom::clamp<T>(a, lo, hi); REQUIRE(k == (a < lo ? lo : a > hi ? hi : a), "clamp(" << (long long)a << ", " << (long long)lo << ", " << (long long)hi << ") is " << (long long)k);
    bool p2 = false; for (int i = 0; i < 64; i++) p2 |= (I)a == (I)1 << i; REQUIRE(is_power_of_two(a) == p2, "is_power_of_two(" << (long long)a << ")"); { T w = (T)1 << c.i(0, sizeof(T) * 8 - 2), z = w + (T)c.i(0, 1); REQUIRE(is_power_of_two(w), "is_power_of_two of a power of two"); REQUIRE(is_power_of_two(z) == (z == w || z == 2), "is_power_of_two next to a power of two"); }
    // products, exactly
    T x[4]; for (auto& y : x) y = integer<T>(c, (T)std::min<uint64_t>(std::numeric_limits<T>::max(), sizeof(T) == 8 ? 1u << 30 : sizeof(T) == 4 ? 1 << 14 : 100)); I s = (I)x[0] * x[1] + (I)x[2] * x[3], d = (I)x[0] * x[1] - (I)x[2] * x[3], f = (I)x[0] * x[1] + x[2]; if (std::is_signed<T>::value) { REQUIRE((I)sum_of_products(x[0], x[1], x[2], x[3]) == (I)(T)s && (I)diff_of_products(x[0], x[1], x[2], x[3]) == (I)(T)d && (I)multiply_add(x[0], x[1], x[2]) == (I)(T)f, "integer products of " << (long long)x[0] << " " << (long long)x[1] << " " << (long long)x[2] << " " << (long long)x[3]); }
    c.nontrivial(a < 0 || b < 0 || (I)a % b == 0); c.label("negative", a < 0 || b < 0);
}
template<class T> T big(pbt::Ctx& c) { switch (c.i(0, 3)) { case 0: return c.si(9); case 1: return (T)c.real(10); case 2: return (T)(c.range(-1, 1) * std::exp2(c.i(-20, 20))); default: return (T)c.range(-2, 2); } }
template<class T> double ulp(Q x) { double a = std::abs((double)x); if (a < std::numeric_limits<T>::min()) return std::numeric_limits<T>::denorm_min(); return std::ldexp((double)std::numeric_limits<T>::epsilon(), std::ilogb(a)); }
// operands that cancel: d chosen so that c*d is a neighbour of a*b
template<class T> void products(pbt::Ctx& c) {
    T a = big<T>(c), b = big<T>(c), k = big<T>(c), d = big<T>(c); int mode = c.i(0, 3); if (k == 0) k = 1; if (mode == 1) d = a * b / k; else if (mode == 2) { d = a * b / k; for (int i = c.i(0, 3); i > 0; i--) d = std::nextafter(d, c.b() ? (T)1e30 : (T)-1e30); } else if (mode == 3) { k = a; d = b; for (int i = c.i(0, 2); i > 0; i--) d = std::nextafter(d, c.b() ? (T)1e30 : (T)-1e30); } if (c.b()) std::swap(k, d); if (c.b()) std::swap(a, b); LOG(c, "operands " << (double)a << " " << (double)b << " " << (double)k << " " << (double)d);
    Q want = (Q)a * b - (Q)k * d; T got = diff_of_products(a, b, k, d); REQUIRE(qa(got - want) <= 2 * ulp<T>(want), "diff_of_products is " << (double)got << " instead of " << (double)want << ", " << (double)(qa(got - want) / ulp<T>(want)) << " units in the last place off"); got = sum_of_products<T>(a, b, -k, d); REQUIRE(qa(got - want) <= 2 * ulp<T>(want), "sum_of_products is " << (double)got << " instead of " << (double)want); want = (Q)a * b + (Q)k * d; got = sum_of_products(a, b, k, d); REQUIRE(qa(got - want) <= 2 * ulp<T>(want), "sum_of_products is " << (double)got << " instead of " << (double)want << ", " << (double)(qa(got - want) / ulp<T>(want)) << " units in the last place off");
    T m = c.b() ? k : (T)(-a * b); want = (Q)a * b + m; got = multiply_add(a, b, m); REQUIRE(qa(got - want) <= ulp<T>(want), "multiply_add(" << (double)a << ", " << (double)b << ", " << (double)m << ") is " << (double)got << " instead of " << (double)want); c.nontrivial(mode != 0);
}
#if PART(0)
PROP(integers, 1200000) { switch (c.i(0, 5)) { case 0: ints<int>(c); break; case 1: ints<long>(c); break; case 2: ints<short>(c); break; case 3: ints<unsigned>(c); break; case 4: ints<uint8_t>(c); break; default: ints<uint64_t>(c); } }
// all pairs of a small range, for the exact multiples and signs
PROP(small_integers, 120000) { int a = c.i(-40, 40), b = c.i(1, 12) * (c.b() ? 1 : -1); REQUIRE((a - positive_mod(a, b)) % b == 0 && (b > 0 ? positive_mod(a, b) >= 0 && positive_mod(a, b) < b : positive_mod(a, b) <= 0 && positive_mod(a, b) > b), "positive_mod(" << a << ", " << b << ") is " << positive_mod(a, b)); REQUIRE(floor_div(a, b) == std::floor((double)a / b), "floor_div(" << a << ", " << b << ") is " << floor_div(a, b)); REQUIRE(ceil_div(a, b) == std::ceil((double)a / b), "ceil_div(" << a << ", " << b << ") is " << ceil_div(a, b)); REQUIRE(b * floor_div(a, b) + positive_mod(a, b) == a, "quotient and modulus of " << a << " by " << b << " do not recombine"); c.nontrivial(a < 0 || b < 0); }
PROP(products_double, 1200000) { products<double>(c); }
PROP(products_float, 600000) { products<float>(c); }
PROP(products_complex, 180000) { typedef std::complex<double> Z; auto z = [&] { return Z(big<double>(c), big<double>(c)); }; Z a = z(), b = z(), k = z(), d = z(); Q w[2] = {(Q)a.real() * b.real() - (Q)a.imag() * b.imag(), (Q)a.real() * b.imag() + (Q)a.imag() * b.real()}, v[2] = {(Q)k.real() * d.real() - (Q)k.imag() * d.imag(), (Q)k.real() * d.imag() + (Q)k.imag() * d.real()}; Z s = sum_of_products(a, b, k, d), f = diff_of_products(a, b, k, d), m = multiply_add(a, b, k); double t0 = 1e-15 * (double)(qa(w[0]) + qa(v[0])) + 1e-300, t1 = 1e-15 * (double)(qa(w[1]) + qa(v[1])) + 1e-300; REQUIRE(qa(s.real() - (w[0] + v[0])) <= t0 && qa(s.imag() - (w[1] + v[1])) <= t1, "complex sum_of_products is " << s); REQUIRE(qa(f.real() - (w[0] - v[0])) <= t0 && qa(f.imag() - (w[1] - v[1])) <= t1, "complex diff_of_products is " << f); double big = 4e-16 * (std::abs(a) * std::abs(b) + std::abs(k)) + 1e-300; REQUIRE(qa(m.real() - (w[0] + k.real())) <= big && qa(m.imag() - (w[1] + k.imag())) <= big, "complex multiply_add is " << m); c.nontrivial(); }
#endif
#if PART(1)
template<class T> void reals(pbt::Ctx& c) {
    T e = std::numeric_limits<T>::epsilon(), a = big<T>(c), b = (T)(c.b() ? c.i(1, 9) : c.logpos(.01, 100)); if (c.chance(1, 4)) a = b * c.si(20); LOG(c, "reals " << (double)a << " and " << (double)b); Q quo = (Q)a / b; double q = (double)quo, near = std::abs(q) * 2 * e;
    double fl = floor_div(a, b), ce = ceil_div(a, b), sn = geom::snap(a, b); auto flo = [](Q x) { double d = std::floor((double)x); while ((Q)d > x) d -= 1; while ((Q)(d + 1) <= x) d += 1; return d; }; REQUIRE(fl >= flo(quo - near) && fl <= flo(quo + near), "floor_div(" << (double)a << ", " << (double)b << ") is " << fl); REQUIRE(ce >= -flo(-(quo - near)) && ce <= -flo(-(quo + near)), "ceil_div(" << (double)a << ", " << (double)b << ") is " << ce); REQUIRE(std::abs(sn - ce * (double)b) <= 2 * e * std::abs(sn), "snap(" << (double)a << ", " << (double)b << ") is " << sn);
    double m = positive_mod(a, b), tol = 4 * e * (std::abs((double)a) + (double)b); REQUIRE(m >= -tol && m <= b + tol, "positive_mod(" << (double)a << ", " << (double)b << ") is " << m << ", out of range"); double turns = (a - m) / (double)b; REQUIRE(std::abs(turns - std::round(turns)) * b <= tol, "positive_mod(" << (double)a << ", " << (double)b << ") is " << m << ", off by " << turns << " periods");
    T lo = big<T>(c), hi = big<T>(c); if (lo > hi) std::swap(lo, hi); REQUIRE(geom::clamp(a, lo, hi) == (a < lo ? lo : a > hi ? hi : a), "clamp(" << (double)a << ", " << (double)lo << ", " << (double)hi << ") is " << (double)geom::clamp(a, lo, hi));
    T s = (T)(c.chance(1, 4) ? c.i(0, 1) : c.chance(1, 4) ? c.range(-2, 3) : c.unit()); double mx = mix(s, lo, hi), wm = (double)((Q)(T)(1 - s) * lo + (Q)s * hi); REQUIRE(std::abs(mx - wm) <= 4 * e * (std::abs((1 - (double)s) * lo) + std::abs((double)s * hi)), "mix(" << (double)s << ", " << (double)lo << ", " << (double)hi << ") is " << mx << " instead of " << wm); if (s == 0) REQUIRE(mx == lo, "mix at 0"); if (s == 1) REQUIRE(mx == hi, "mix at 1");
    T dg = (T)c.real(720); REQUIRE(std::abs((double)radians(dg) - (double)dg * 3.14159265358979323846 / 180) <= 4 * e * std::abs((double)dg) * .02, "radians(" << (double)dg << ") is " << (double)radians(dg)); REQUIRE(std::abs((double)degrees(dg) - (double)dg * 180 / 3.14159265358979323846) <= 4 * e * std::abs((double)dg) * 60, "degrees(" << (double)dg << ") is " << (double)degrees(dg)); c.nontrivial(a != 0);
}
PROP(reals_double, 600000) { reals<double>(c); }
PROP(reals_float, 360000) { reals<float>(c); }
template<class T> void angles(pbt::Ctx& c) { const double tau = 6.283185307179586; T e = std::numeric_limits<T>::epsilon(), a = (T)(c.b() ? c.range(-7, 7) : c.si(16) * tau / 16), b = (T)(c.b() ? c.range(-7, 7) : c.si(16) * tau / 16); if (c.chance(1, 5)) a += (T)(tau * c.si(50)); double r = angle_to(a, b), tol = 8 * e * (std::abs((double)a) + std::abs((double)b) + 7); LOG(c, "angle from " << (double)a << " to " << (double)b); REQUIRE(std::abs(r) <= tau / 2 + tol, "the angle from " << (double)a << " to " << (double)b << " is " << r << ", not the shortest"); double k = ((double)a + r - (double)b) / tau; REQUIRE(std::abs(k - std::round(k)) * tau <= tol, "turning by " << r << " from " << (double)a << " does not reach " << (double)b); c.nontrivial(); }
PROP(angle_difference, 600000) { if (c.b()) angles<double>(c); else angles<float>(c); }
// textbook: multilinear weights, and the Catmull-Rom cubic through the middle values
static double w3(double s, int k) { switch (k) { case 0: return .5 * (-s + 2 * s * s - s * s * s); case 1: return 1 - 2.5 * s * s + 1.5 * s * s * s; case 2: return .5 * (s + 4 * s * s - 3 * s * s * s); default: return .5 * (s * s * s - s * s); } }
template<class T> void interp(pbt::Ctx& c) {
    int dim = c.i(1, 4); T e = std::numeric_limits<T>::epsilon(), s[4]; for (auto& x : s) x = (T)(c.chance(1, 4) ? c.i(0, 1) : c.unit()); LOG(c, "dimension " << dim << " at " << (double)s[0] << " " << (double)s[1] << " " << (double)s[2] << " " << (double)s[3]);
    { std::vector<T> p(1 << dim); double want = 0, sc = 0; for (auto& x : p) x = (T)c.si(9); for (int i = 0; i < (1 << dim); i++) { double w = 1; for (int d = 0; d < dim; d++) w *= i >> d & 1 ? (double)s[d] : 1 - (double)s[d]; want += w * p[i]; sc += w * std::abs(p[i]); } double got = interp_linear(s, p.data(), dim); REQUIRE(std::abs(got - want) <= 16 * e * (sc + 1), "linear interpolation in " << dim << " dimensions is " << got << " instead of " << want); }
    if (dim <= 3) { std::vector<T> p(1 << 2 * dim); double want = 0; for (auto& x : p) x = (T)c.si(9); for (int i = 0; i < (1 << 2 * dim); i++) { double w = 1; for (int d = 0; d < dim; d++) w *= w3(s[d], i >> 2 * d & 3); want += w * p[i]; } double got = interp_cubic(s, p.data(), dim); REQUIRE(std::abs(got - want) <= 2000 * e, "cubic interpolation in " << dim << " dimensions is " << got << " instead of " << want); if (dim == 1) { double g = interp_cubic(s[0], p.data()); REQUIRE(std::abs(g - want) <= 400 * e, "cubic interpolation is " << g << " instead of " << want); if (s[0] == 0 || s[0] == 1) REQUIRE(std::abs(g - p[1 + (int)s[0]]) <= 200 * e, "the cubic does not pass through its middle values"); } }
    c.nontrivial(dim > 1);
}
PROP(interpolation, 360000) { if (c.b()) interp<double>(c); else interp<float>(c); }
#endif
