// C27: paths. Invariants: knots, tangents (finite differences), smoothness, blending between tangent lines, linear ends, symmetry under reversal and affine maps.
// thorough: 20
// rule: more than two knots
#include "pbt.h"
#include <geomc/function/Path.h>
using namespace geom;
template<class T, index_t N> struct Paths {
    typedef Vec<T, N> V; static constexpr double eps = std::numeric_limits<T>::epsilon();
    static V vec(pbt::Ctx& c, int m) { V v; int k = c.i(0, 2); for (int i = 0; i < N; i++) v[i] = k == 0 ? (T)c.si(m) : (T)c.range(-m, m); return v; }
    static void run(pbt::Ctx& c) {
        int n = c.i(1, 7); std::vector<V> p, v; Path<T, N> path, rev, aff; T k = (T)(c.b() ? c.si(3) : c.range(-2, 2)); V off = vec(c, 4); double size = 1; for (int i = 0; i < n; i++) { p.push_back(vec(c, 6)); v.push_back(c.chance(1, 6) ? V() : vec(c, 5)); size = std::max(size, (double)(p[i].mag() + v[i].mag())); path.appendKnot(p[i], v[i]); aff.appendKnot(p[i] * k + off, v[i] * k); } for (int i = n; i-- > 0;) rev.appendKnot(p[i], -v[i]); LOG(c, n << " knots, first " << p[0] << " tangent " << v[0]); c.nontrivial(n > 2); REQUIRE((int)path.knots.size() == n, "knot count");
        double tol = 64 * eps * size;
        auto same = [&](const V& a, const V& b, double t, const char* what, double at) { for (int i = 0; i < N; i++) REQUIRE(std::abs((double)(a[i] - b[i])) <= t, what << " at " << at << " is " << a << " instead of " << b); };
        for (int i = 0; i < n; i++) { same(path.eval(i), p[i], 0, "knot", i); double h = sizeof(T) == 4 ? 1. / 256 : 1. / 65536; for (int s = -1; s <= 1; s += 2) { V d = (path.eval((T)(i + s * h)) - p[i]) / (T)(s * h); same(d, v[i], 400 * size * h * h + 8 * n * eps * size / h, s < 0 ? "tangent arriving at knot" : "tangent leaving knot", i); } }
        // beyond the ends
        T t = (T)(c.b() ? c.i(0, 40) * .25 : c.range(0, 30)); if (t > 0) same(path.eval(-t), p[0] - v[0] * t, tol * (1 + t), "path before its start", -t); same(path.eval(n - 1 + t), p[n - 1] + v[n - 1] * t, tol * (1 + t) + 64 * eps * n * size, "path beyond its end", n - 1 + t);
        if (n < 2) return;
        // between knots
        for (int q = 0; q < 4; q++) { int i = c.i(0, n - 2); T s = (T)(c.b() ? c.i(0, 64) / 64. : c.range(0, .999)); T u = i + s; s = u - i; if (s >= 1 || s < 0) continue; V a = p[i] + v[i] * s, b = p[i + 1] + v[i + 1] * (s - 1), x = path.eval(u), ab = b - a, ax = x - a; double w = ab.mag2() > 1e-3 ? (double)(ax.dot(ab) / ab.mag2()) : -1; same(x, a + ab * (T)(w < 0 ? 0 : w), w < 0 ? .04 * size + tol : 40 * tol, "point between the tangent lines", u); if (w != -1) { double e = 40 * tol / std::sqrt((double)ab.mag2()); REQUIRE(w >= -e && w <= 1 + e, "path leaves the segment between its tangent lines at " << (double)u << ", blend " << w); if (s == .5) REQUIRE(std::abs(w - .5) <= e, "the middle of a span is not halfway between its tangent lines, blend " << w); }
            same(rev.eval(n - 1 - u), x, (400 + 200 * n) * eps * size, "reversed path", u); same(aff.eval(u), x * k + off, (1 + std::abs((double)k)) * 100 * eps * (size + 8) * n, "moved and scaled path", u);
            T h = sizeof(T) == 4 ? (T)(1. / 4096) : (T)std::exp2(-20); V y = path.eval(u + h); REQUIRE((y - x).mag() <= 40 * size * h + 100 * n * eps * size, "path jumps from " << x << " to " << y << " near " << (double)u);
            Path<T, N> two; two.appendKnot(p[i], v[i]); two.appendKnot(p[i + 1], v[i + 1]); same(two.eval(s), x, (100 + 100 * n) * eps * size, "span on its own", s); }
    }
};
PROP(double_2, 480000) { Paths<double, 2>::run(c); }
PROP(double_3, 480000) { Paths<double, 3>::run(c); }
PROP(double_5, 180000) { Paths<double, 5>::run(c); }
PROP(float_2, 300000) { Paths<float, 2>::run(c); }
PROP(float_3, 300000) { Paths<float, 3>::run(c); }
PROP(empty, 3000) { Path<double, 3> p; double t = c.range(-3, 3); LOG(c, "no knots, at " << t); REQUIRE((p.eval(t) == Vec<double, 3>()), "a path without knots is at " << p.eval(t)); c.nontrivial(); }
// long paths: every span depends on its own two knots only
PROP(many_knots, 600) {
    int n = (int)c.big(6, 17); uint64_t s = c.draw(1u << 30); auto r = [&] { return (double)(long)(pbt::splitmix(s) % 2001) / 100 - 10; }; Path<double, 2> path; std::vector<Vec<double,2>> p(n), v(n); for (int i = 0; i < n; i++) { p[i] = Vec<double,2>(r(), r()); v[i] = Vec<double,2>(r(), r()); path.appendKnot(p[i], v[i]); } LOG(c, n << " knots"); c.nontrivial(); c.label("more than 2^16 knots", n > 65536); double tol = 1e-13 * (n + 100) * 4000;
    for (int q = 0; q < 40; q++) { int i = c.i(0, n - 1); REQUIRE(path.eval(i) == p[i], "knot " << i << " of " << n << " is " << path.eval(i) << " instead of " << p[i]); if (i + 1 >= n) continue; double t = c.i(0, 63) / 64.; Path<double, 2> two; two.appendKnot(p[i], v[i]); two.appendKnot(p[i + 1], v[i + 1]); Vec<double,2> a = path.eval(i + t), b = two.eval(t); REQUIRE((a - b).mag() <= tol, "point at " << i + t << " of a path of " << n << " knots is " << a << ", the span on its own gives " << b); }
    double t = c.range(0, 9); REQUIRE((path.eval(n - 1 + t) - (p[n - 1] + v[n - 1] * t)).mag() <= tol && (path.eval(-t) - (p[0] - v[0] * t)).mag() <= tol, "path beyond its ends");
}
