// C07: vector arithmetic is component-wise. Oracle: the same operation on plain arrays.
// thorough: 20
// rule: the two vectors differ in some but not all components
// parts: 4
#include "pbt.h"
#include <geomc/linalg/Vec.h>
using namespace geom;

template<class T> T elem(pbt::Ctx& c) {
    if constexpr (std::is_integral_v<T>) { switch (c.i(0, 3)) { case 0: return (T)c.si(3); case 1: return (T)c.si(10); default: return (T)c.si(1000); } }
    else { switch (c.i(0, 4)) { case 0: return (T)c.si(3); case 1: return (T)(c.si(20) * 0.5); case 2: return (T)(c.b() ? 0.0 : -0.0); case 3: return (T)(c.real(1) * std::exp2((double)c.si(60))); default: return (T)c.range(-10, 10); } }
}
template<class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
template<class T> bool close(T a, long double b, long double mag) {
    if constexpr (std::is_integral_v<T>) return (long double)a == b; 
    else return std::fabs((long double)a - b) <= 8 * mag * (long double)std::numeric_limits<T>::epsilon() + std::numeric_limits<T>::min();
}
#define EACH(got, want, what) do { auto g_ = (got); for (int i = 0; i < N; i++) { T w_ = (T)(want); REQUIRE(same<T>(g_[i], w_), what << " component " << i << " of " << N << ": " << g_[i] << " instead of " << w_); } } while (0)

template<class T, int N> void vec(pbt::Ctx& c) {
    typedef Vec<T,N> V;
    T a[N], b[N]; for (int i = 0; i < N; i++) { a[i] = elem<T>(c); b[i] = c.chance(1, 5) ? a[i] : c.chance(1, 8) ? (T)-a[i] : elem<T>(c); }
    T s = elem<T>(c);
    c.log([&](std::ostream& o) { o << "N=" << N << " a="; for (T x : a) o << x << ' '; o << " b="; for (T x : b) o << x << ' '; o << " s=" << s; });
    const V A(a), B(b);
    // construction and access
    EACH(A, a[i], "construction from an array"); EACH(V(), 0, "default construction"); EACH(V(s), s, "broadcast construction");
    EACH(V::ones, 1, "ones"); EACH(V::zeros, 0, "zeros"); EACH(V::unit_x, i == 0, "unit_x");
    REQUIRE(A.size() == N && A.end() - A.begin() == N, "size " << A.size() << ", iterator distance " << (A.end() - A.begin()));
    { int i = 0; for (const T& x : A) { REQUIRE(&x == &A[i] && &x == &A.get(i), "iteration element " << i << " is another element"); i++; } REQUIRE(i == N, "iteration visited " << i); }
    { V m(A); int k = c.i(0, N - 1); m[k] = b[k]; EACH(m, i == k ? b[i] : a[i], "write through []"); m.get(k) = s; EACH(m, i == k ? s : a[i], "write through get"); *(m.begin() + k) = b[k]; EACH(m, i == k ? b[i] : a[i], "write through an iterator"); REQUIRE(m.end() - m.begin() == N, "iterator distance"); }
    // comparison
    bool eq = true; for (int i = 0; i < N; i++) eq = eq && a[i] == b[i];
    REQUIRE((A == B) == eq && (A != B) == !eq, "comparison of vectors"); { V m(A); REQUIRE(m == A && !(m != A), "copy differs"); int k = c.i(0, N - 1); m[k] += (T)(std::fabs((double)a[k]) + 1); REQUIRE(m != A && !(m == A), "vectors differing in component " << k << " compare equal"); }
    // arithmetic
    EACH(A + B, a[i] + b[i], "a + b"); EACH(A - B, a[i] - b[i], "a - b"); EACH(-A, -a[i], "-a"); EACH(A * B, a[i] * b[i], "a * b");
    EACH(A.add(B), a[i] + b[i], "add"); EACH(A.sub(B), a[i] - b[i], "sub"); EACH(A.scale(B), a[i] * b[i], "scale(vector)"); EACH(A.scale(s), a[i] * s, "scale(scalar)");
    EACH(A * s, a[i] * s, "a * s"); EACH(s * A, s * a[i], "s * a");
    { V m(A); V& r = (m += B); REQUIRE(&r == &m, "+= returns another object"); EACH(m, a[i] + b[i], "+="); }
    { V m(A); V& r = (m -= B); REQUIRE(&r == &m, "-= returns another object"); EACH(m, a[i] - b[i], "-="); }
    { V m(A); V& r = (m *= s); REQUIRE(&r == &m, "*= returns another object"); EACH(m, a[i] * s, "*= scalar"); }
    { V m(A); V& r = (m *= B); REQUIRE(&r == &m, "*= returns another object"); EACH(m, a[i] * b[i], "*= vector"); }
    { V m(A); m += m; EACH(m, a[i] + a[i], "v += v"); m = A; m -= m; EACH(m, a[i] - a[i], "v -= v"); m = A; m *= m; EACH(m, a[i] * a[i], "v *= v"); }
    if (s != 0) { EACH(A / s, a[i] / s, "a / s"); V m(A); V& r = (m /= s); REQUIRE(&r == &m, "/= returns another object"); EACH(m, a[i] / s, "/= scalar"); }
    { bool ok = true; for (T x : b) ok = ok && x != 0; if (ok) { EACH(A / B, a[i] / b[i], "a / b"); EACH(s / B, s / b[i], "s / b"); } c.label("quotients", ok); }
    // component-wise functions
    EACH(A.abs(), std::abs(a[i]), "abs"); EACH(std::abs(A), std::abs(a[i]), "std::abs");
    EACH(A.min(B), a[i] < b[i] ? a[i] : b[i], "min"); EACH(A.max(B), a[i] > b[i] ? a[i] : b[i], "max"); EACH(std::min(A, B), a[i] < b[i] ? a[i] : b[i], "std::min"); EACH(std::max(A, B), a[i] > b[i] ? a[i] : b[i], "std::max");
    { T lo[N], hi[N]; for (int i = 0; i < N; i++) { lo[i] = std::min(b[i], s); hi[i] = std::max(b[i], s); } EACH(A.clamp(V(lo), V(hi)), a[i] < lo[i] ? lo[i] : a[i] > hi[i] ? hi[i] : a[i], "clamp"); }
    EACH(A.floor(), std::floor(a[i]), "floor"); EACH(A.ceil(), std::ceil(a[i]), "ceil"); EACH(std::floor(A), std::floor(a[i]), "std::floor"); EACH(std::ceil(A), std::ceil(a[i]), "std::ceil");
    EACH(A.round(), std::round(a[i]), "round");
    // reductions
    T mn = a[0], mx = a[0]; bool zero = true; for (T x : a) { if (x < mn) mn = x; if (x > mx) mx = x; zero = zero && x == 0; }
    REQUIRE(A.min() == mn, "least component " << A.min() << " instead of " << mn); REQUIRE(A.max() == mx, "greatest component " << A.max() << " instead of " << mx);
    REQUIRE(A.is_zero() == zero && V().is_zero(), "is_zero");
    { index_t hi = A.argmax(), lo = A.argmin(); REQUIRE(hi >= 0 && hi < N && lo >= 0 && lo < N, "argmax/argmin out of range");
      for (T x : a) { REQUIRE(!(std::abs(x) > std::abs(a[hi])), "argmax is not the component of greatest magnitude"); REQUIRE(!(std::abs(x) < std::abs(a[lo])), "argmin is not the component of least magnitude"); } }
    long double dot = 0, dm = 0, m2 = 0, d2 = 0, dd = 0; bool finite = true;
    for (int i = 0; i < N; i++) { dot += (long double)a[i] * b[i]; dm += std::fabs((long double)a[i] * b[i]); m2 += (long double)a[i] * a[i]; T q = a[i] - b[i]; d2 += (long double)q * q; dd += std::fabs((long double)q); }
    finite = m2 < std::numeric_limits<T>::max() / 4 && dm < std::numeric_limits<T>::max() / 4 && d2 < std::numeric_limits<T>::max() / 4;
    if (finite) {
        REQUIRE(close<T>(A.dot(B), dot, dm * N), "dot " << A.dot(B) << " instead of " << (double)dot);
        REQUIRE(close<T>(A.mag2(), m2, m2 * N), "squared magnitude " << A.mag2() << " instead of " << (double)m2); REQUIRE(close<T>(A.dist2(B), d2, d2 * N), "squared distance " << A.dist2(B) << " instead of " << (double)d2);
    }
    // mixing
    if constexpr (!std::is_integral_v<T>) {
        T t = (T)(c.chance(1, 4) ? c.i(0, 1) : c.range(-1, 2)); V m = A.mix(B, t);
        for (int i = 0; i < N; i++) { long double w = (1 - (long double)t) * a[i] + (long double)t * b[i], mag = std::fabs((1 - (long double)t) * a[i]) + std::fabs((long double)t * b[i]);
            REQUIRE(close<T>(m[i], w, mag + std::fabs((long double)a[i])), "mix component " << i << " at " << t << ": " << m[i] << " instead of " << (double)w); }
        EACH(A.mix(B, (T)0), a[i], "mix at 0"); EACH(A.mix(B, (T)1), b[i], "mix at 1");
        T p[N]; for (int i = 0; i < N; i++) p[i] = std::fabs(a[i]); V P(p);
        EACH(std::sqrt(P), std::sqrt(p[i]), "std::sqrt"); EACH(std::sin(A), std::sin(a[i]), "std::sin"); EACH(std::cos(A), std::cos(a[i]), "std::cos"); EACH(std::tan(A), std::tan(a[i]), "std::tan"); EACH(std::log(P), std::log(p[i]), "std::log"); EACH(std::exp(A), std::exp(a[i]), "std::exp");
    }
    // conversion and resizing
    { Vec<double,N> d = (Vec<double,N>)A; for (int i = 0; i < N; i++) REQUIRE(d[i] == (double)a[i], "cast to double, component " << i); Vec<float,N> f = (Vec<float,N>)A; for (int i = 0; i < N; i++) REQUIRE(same(f[i], (float)a[i]), "cast to float, component " << i); }
    if constexpr (N == 4 || N >= 6) { Vec<T,N-1> sh; for (int i = 0; i < N - 1; i++) sh[i] = a[i]; EACH(V(sh, s), i < N - 1 ? a[i] : s, "extension by one component"); }
    { auto r1 = A.template resized<1>(); REQUIRE(r1 == a[0], "resized to 1"); auto r2 = A.template resized<2>(); for (int i = 0; i < 2; i++) REQUIRE(r2[i] == a[i], "resized to 2, component " << i);
      auto r3 = A.template resized<3>(); for (int i = 0; i < 3; i++) REQUIRE(r3[i] == (i < N ? a[i] : 0), "resized to 3, component " << i);
      auto r4 = A.template resized<4>(); for (int i = 0; i < 4; i++) REQUIRE(r4[i] == (i < N ? a[i] : 0), "resized to 4, component " << i);
      auto r9 = A.template resized<9>(); for (int i = 0; i < 9; i++) REQUIRE(r9[i] == (i < N ? a[i] : 0), "resized to 9, component " << i);
      auto rs = A.template resized<N>(); REQUIRE(rs == A, "resized to itself"); }
    // named components and per-dimension overloads
    if constexpr (N == 2) {
        REQUIRE(A.x == a[0] && A.s == a[0] && A.row == a[0] && A.y == a[1] && A.t == a[1] && A.col == a[1], "named components"); V m(a[0], a[1]); REQUIRE(m == A, "construction from components"); m.y = s; EACH(m, i == 1 ? s : a[i], "write through a name"); m.x = b[0]; EACH(m, i == 1 ? s : b[i], "write through a name");
        EACH(A.add(b[0], b[1]), a[i] + b[i], "add(components)"); EACH(A.sub(b[0], b[1]), a[i] - b[i], "sub(components)"); EACH(A.scale(b[0], b[1]), a[i] * b[i], "scale(components)");
        if (finite) REQUIRE(close<T>(A.dot(b[0], b[1]), dot, dm * N), "dot(components)");
        EACH(A.reflected_x(), i == 0 ? -a[i] : a[i], "reflected_x"); EACH(A.reflected_y(), i == 1 ? -a[i] : a[i], "reflected_y"); EACH(V::X_AXIS, i == 0, "x axis"); EACH(V::Y_AXIS, i == 1, "y axis");
        EACH(A.left_perpendicular(), i == 0 ? -a[1] : a[0], "left perpendicular"); EACH(A.right_perpendicular(), i == 0 ? a[1] : -a[0], "right perpendicular");
    }
    if constexpr (N == 3) {
        REQUIRE(A.x == a[0] && A.y == a[1] && A.z == a[2] && A.s == a[0] && A.t == a[1] && A.u == a[2] && A.r == a[0] && A.g == a[1] && A.b == a[2], "named components"); V m(a[0], a[1], a[2]); REQUIRE(m == A, "construction from components"); m.z = s; EACH(m, i == 2 ? s : a[i], "write through a name"); m.y = b[1]; EACH(m, i == 2 ? s : i == 1 ? b[1] : a[i], "write through a name");
        EACH(V(Vec<T,2>(a[0], a[1]), s), i < 2 ? a[i] : s, "construction from two and one");
        EACH(A.add(b[0], b[1], b[2]), a[i] + b[i], "add(components)"); EACH(A.sub(b[0], b[1], b[2]), a[i] - b[i], "sub(components)"); EACH(A.scale(b[0], b[1], b[2]), a[i] * b[i], "scale(components)");
        if (finite) REQUIRE(close<T>(A.dot(b[0], b[1], b[2]), dot, dm * N), "dot(components)");
        EACH(A.reflected_x(), i == 0 ? -a[i] : a[i], "reflected_x"); EACH(A.reflected_y(), i == 1 ? -a[i] : a[i], "reflected_y"); EACH(A.reflected_z(), i == 2 ? -a[i] : a[i], "reflected_z");
        EACH(V::X_AXIS, i == 0, "x axis"); EACH(V::Y_AXIS, i == 1, "y axis"); EACH(V::Z_AXIS, i == 2, "z axis");
    }
    if constexpr (N == 4) {
        REQUIRE(A.x == a[0] && A.y == a[1] && A.z == a[2] && A.w == a[3] && A.s == a[0] && A.t == a[1] && A.u == a[2] && A.v == a[3] && A.r == a[0] && A.g == a[1] && A.b == a[2] && A.a == a[3], "named components");
        V m(a[0], a[1], a[2], a[3]); REQUIRE(m == A, "construction from components"); m.w = s; EACH(m, i == 3 ? s : a[i], "write through a name"); m.z = b[2]; EACH(m, i == 3 ? s : i == 2 ? b[2] : a[i], "write through a name");
        EACH(V(Vec<T,2>(a[0], a[1]), a[2], s), i < 3 ? a[i] : s, "construction from two, one and one"); EACH(V(Vec<T,3>(a[0], a[1], a[2]), s), i < 3 ? a[i] : s, "construction from three and one");
        EACH(A.add(b[0], b[1], b[2], b[3]), a[i] + b[i], "add(components)"); EACH(A.sub(b[0], b[1], b[2], b[3]), a[i] - b[i], "sub(components)"); EACH(A.scale(b[0], b[1], b[2], b[3]), a[i] * b[i], "scale(components)");
        if (finite) REQUIRE(close<T>(A.dot(b[0], b[1], b[2], b[3]), dot, dm * N), "dot(components)");
        EACH(V::X_AXIS, i == 0, "x axis"); EACH(V::Y_AXIS, i == 1, "y axis"); EACH(V::Z_AXIS, i == 2, "z axis"); EACH(V::W_AXIS, i == 3, "w axis");
    }
    if constexpr (!std::is_integral_v<T> && (N == 2 || N == 3)) {
        REQUIRE(A.is_finite_real(), "finite vector not reported finite"); V m(A); int k = c.i(0, N - 1); static const T bad[] = {INFINITY, -INFINITY, NAN}; m[k] = bad[c.i(0, 2)]; REQUIRE(!m.is_finite_real(), "non-finite component " << k << " reported finite");
    }
    bool ne = false; for (int i = 1; i < N; i++) ne = ne || a[i] != a[0];
    c.nontrivial(ne && !eq); c.label("N=2", N == 2); c.label("N=3", N == 3); c.label("N=4", N == 4); c.label("N>4", N > 4);
}
template<class T> void dims(pbt::Ctx& c) { switch (c.i(2, 8)) { case 2: return vec<T,2>(c); case 3: return vec<T,3>(c); case 4: return vec<T,4>(c); case 5: return vec<T,5>(c); case 6: if constexpr (std::is_same_v<T,double>) return vec<T,6>(c); case 7: if constexpr (std::is_same_v<T,double>) return vec<T,7>(c); default: return vec<T,8>(c); } }
#if PART(0)
PROP(doubles, 1600000) { dims<double>(c); }
PROP(rainbow_hues, 100000) { // piecewise linear hues, one cycle per unit
    double h = c.chance(1, 3) ? c.si(60) / 6.0 : c.range(-5, 5), f = h - std::floor(h); LOG(c, "hue " << h); auto tri = [](double x) { x -= std::floor(x); double u = std::min(x, 1 - x); return std::min(1.0, std::max(0.0, 2 - 6 * u)); };
    auto v = rainbow<double>(h); auto w = rainbow<float>(h); double want[3] = {tri(f), tri(f - 1 / 3.0), tri(f - 2 / 3.0)}; for (int k = 0; k < 3; k++) REQUIRE(std::fabs(v[k] - want[k]) < 1e-9 && std::fabs(w[k] - want[k]) < 1e-5, "channel " << k << " of hue " << h << " is " << v[k] << " instead of " << want[k]); c.nontrivial(h < 0 || h > 1); }
PROP(packed_colours, 100000) {
    uint32_t p = (uint32_t)c.draw(0xffffffffu); int v = (int)p; double ch[4] = {double(p >> 24), double(p >> 16 & 255), double(p >> 8 & 255), double(p & 255)};
    auto d3 = from_rgb<double>(v); auto i3 = from_rgb<int>(v); auto d4 = from_rgba<double>(v); auto a4 = from_argb<double>(v); auto i4 = from_rgba<int>(v); auto b4 = from_argb<int>(v);
    for (int k = 0; k < 4; k++) { int r = (k + 1) % 4;   // argb: channel k of the word is component (k+3)%4
        REQUIRE(std::fabs(d4[k] - ch[k] / 255) < 1e-12 && i4[k] == (int)ch[k], "rgba channel " << k); REQUIRE(std::fabs(a4[k] - ch[r] / 255) < 1e-12 && b4[k] == (int)ch[r], "argb channel " << k); if (k < 3) REQUIRE(std::fabs(d3[k] - ch[k + 1] / 255) < 1e-12 && i3[k] == (int)ch[k + 1], "rgb channel " << k); }
    c.nontrivial(p > 0xffff);
}
#endif
#if PART(1)
PROP(floats, 1600000) { dims<float>(c); }
#endif
#if PART(2)
PROP(ints, 1000000) { dims<int>(c); }
#endif
#if PART(3)
PROP(indices, 1000000) { dims<index_t>(c); }
#endif
