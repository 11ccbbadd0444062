// Scaling: a power of two times the coordinates of a shape and of the question changes nothing but the scale of the answer.
#pragma once
#include "shaperef.h"
namespace scaled {
using namespace geom;
template<class S> struct Scale;
template<class S> S by(const S& s, typename S::elem_t k) { return Scale<S>::at(s, k); }
template<class T, index_t N> struct Scale<Sphere<T, N>> { static auto at(Sphere<T, N> s, T k) { s.center *= k; s.r *= k; return s; } };
template<class T, index_t N> struct Scale<Rect<T, N>> { static auto at(Rect<T, N> s, T k) { s.lo = s.lo * k; s.hi = s.hi * k; return s; } };
template<class T, index_t N> struct Scale<Capsule<T, N>> { static auto at(Capsule<T, N> s, T k) { s.p0 *= k; s.p1 *= k; s.radius *= k; return s; } };
template<class T, index_t N> struct Scale<Cylinder<T, N>> { static auto at(Cylinder<T, N> s, T k) { s.p0 *= k; s.p1 *= k; s.radius *= k; return s; } };
template<class T, index_t N> struct Scale<Simplex<T, N>> { static auto at(Simplex<T, N> s, T k) { for (index_t i = 0; i < s.n; i++) s.pts[i] *= k; return s; } };
template<class B> struct Scale<Extruded<B>> { static auto at(const Extruded<B>& s, typename B::elem_t k) { return Extruded<B>(by(s.base, k), s.height.lo * k, s.height.hi * k); } };
template<class B> struct Scale<Frustum<B>> { static auto at(const Frustum<B>& s, typename B::elem_t k) { return Frustum<B>(s.base, s.height.lo * k, s.height.hi * k); } };
template<class B> struct Scale<Dilated<B>> { static auto at(const Dilated<B>& s, typename B::elem_t k) { return Dilated<B>(by(s.shape, k), s.dilation * k); } };
// either the shape or the transform takes the scale
template<class B> struct Scale<Oriented<B>> { static auto at(Oriented<B> s, typename B::elem_t k) { s.shape = by(s.shape, k); constexpr index_t N = B::N; for (index_t i = 0; i < N; i++) s.xf.mat(i, N) *= k, s.xf.inv(i, N) *= k; return s; } };
template<class T> T factor(pbt::Ctx& c) { return std::ldexp((T)1, std::is_same<T, float>::value ? c.si(10) : c.si(28)); }
template<class S> struct Check {
    typedef typename S::elem_t T; static constexpr index_t N = S::N; typedef Vec<T, N> P; typedef ref::V<N> W;
    static bool close(const P& a, const P& b, long double tol) { W d = ref::from(a) - ref::from(b); return !d.finite() ? !ref::from(a).finite() && !ref::from(b).finite() : d.mag() <= tol; }
    struct Case { S s; ref::P<N> r; S big; T k; long double tol; };
    static Case start(pbt::Ctx& c, bool flat) { ref::Opt o; o.lattice = c.b(); o.flat = flat; auto [s, r] = ref::Gen<S>::make(c, o); T k = factor<T>(c); c.nontrivial(k != 1); return {s, r, by(s, k), k, 1e5L * std::numeric_limits<T>::epsilon()}; }
    static void points(pbt::Ctx& c) {
        auto [s, r, big, k, eps] = start(c, false); W w = ref::rnd<T>(ref::query<N>(c, *r, c.b())); P p = ref::to<T>(w), q = p * k; long double sd = r->sd(w), tol = eps * (1 + w.mag()), amb = r->amb(w); LOG(c, r->str() << ", point " << w.str() << ", everything times " << k);
        if (std::abs(sd) > tol) REQUIRE(s.contains(p) == big.contains(q), "the point is " << (s.contains(p) ? "" : "not ") << "contained, but at " << k << " times the size it is " << (big.contains(q) ? "" : "not"));
        if constexpr (requires { s.sdf(p); }) { REQUIRE(std::abs((long double)s.sdf(p) - big.sdf(q) / k) <= tol, "the distance is " << s.sdf(p) << ", at " << k << " times the size " << big.sdf(q));
            if constexpr (requires { s.project(p); }) if (amb > 1e-5L) { REQUIRE(close(s.project(p), big.project(q) / k, tol), "the projection is " << s.project(p) << ", at " << k << " times the size " << big.project(q)); REQUIRE(close(s.clip(p), big.clip(q) / k, tol), "the clipped point is " << s.clip(p) << ", at " << k << " times the size " << big.clip(q)); }
            if constexpr (requires { s.normal(p); }) if (std::abs(sd) > 1e-5L && amb > 1e-5L) REQUIRE(close(s.normal(p), big.normal(q), tol / std::abs(sd) + tol), "the normal is " << s.normal(p) << ", at " << k << " times the size " << big.normal(q)); }
    }
    static void support(pbt::Ctx& c) {
        auto [s, r, big, k, eps] = start(c, c.chance(1, 3)); W d = ref::rnd<T>(ref::direction<N>(c)); T m = factor<T>(c); LOG(c, r->str() << ", direction " << d.str() << ", the shape times " << k << " and the direction times " << m); P u = ref::to<T>(d); long double reach = 1; std::vector<W> f; r->feats(f); for (auto& x : f) reach = std::max(reach, x.mag()); long double tol = eps * reach;
        REQUIRE(close(s.convex_support(u), big.convex_support(u * m) / k, tol), "the support point is " << s.convex_support(u) << ", at " << k << " times the size " << big.convex_support(u * m)); auto a = s.bounds(), b = big.bounds(); REQUIRE(close(a.lo, b.lo / k, tol) && close(a.hi, b.hi / k, tol), "the bounds are " << a.lo << " to " << a.hi << ", at " << k << " times the size " << b.lo << " to " << b.hi);
    }
    static void plane(pbt::Ctx& c) { // a plane near a feature of the shape
        auto [s, r, big, k, eps] = start(c, false); W n = ref::rnd<T>(ref::direction<N>(c)), q = ref::rnd<T>(ref::query<N>(c, *r, false)); Plane<T, N> p(ref::to<T>(n), ref::to<T>(q)), P = p; P.d *= k; LOG(c, r->str() << ", plane through " << q.str() << " with normal along " << n.str() << ", everything times " << k); W nn = n * (1 / n.mag()); long double hi = r->h(nn) - nn.dot(q), lo = -r->h(nn * -1) - nn.dot(q), tol = eps * (1 + q.mag());
        if (std::abs(hi) > tol) REQUIRE(p.contains(s) == P.contains(big), "the shape, spanning distances " << lo << " to " << hi << " from the plane, is " << (p.contains(s) ? "" : "not ") << "below it, but at " << k << " times the size it is " << (P.contains(big) ? "" : "not")); if (std::abs(hi) > tol && std::abs(lo) > tol) REQUIRE(p.intersects(s) == P.intersects(big), "the shape, spanning distances " << lo << " to " << hi << " from the plane, is " << (p.intersects(s) ? "" : "not ") << "crossing it, but at " << k << " times the size it is " << (P.intersects(big) ? "" : "not"));
    }
    static void ray(pbt::Ctx& c) {
        auto [s, r, big, k, eps] = start(c, false); std::vector<W> f; r->feats(f); auto any = [&]() { return f[c.i(0, (int)f.size() - 1)]; }; W o = ref::rnd<T>(ref::query<N>(c, *r, false)), d = ref::direction<N>(c); if (c.b()) { W t = any() + ref::point<N>(c, {}, 1) * .5L; if ((t - o).mag() > .01L) d = t - o; } d = ref::rnd<T>(d); T m = factor<T>(c); LOG(c, r->str() << ", ray from " << o.str() << " along " << d.str() << ", all lengths times " << k << " and the direction times " << m);
        auto a = s.intersect(Ray<T, N>(ref::to<T>(o), ref::to<T>(d))), b = big.intersect(Ray<T, N>(ref::to<T>(o) * k, ref::to<T>(d) * m)); b.lo = b.lo / k * m; b.hi = b.hi / k * m; bool none = a.is_empty(), nob = b.is_empty(); auto& i = none ? b : a; long double len = none && nob ? 0 : ((long double)i.hi - i.lo) * d.mag(), e = eps < 1e-8L ? 1e-5L : 1e-2L; if (!(len > e)) return; c.label("hit");
        REQUIRE(none == nob, "the ray " << (none ? "misses" : "hits") << " the shape, but at " << k << " times the size it " << (nob ? "misses" : "hits")); REQUIRE(std::abs((long double)a.lo - b.lo) * d.mag() <= e && std::abs((long double)a.hi - b.hi) * d.mag() <= e, "the interval is [" << a.lo << ", " << a.hi << "], at " << k << " times the size [" << b.lo << ", " << b.hi << "] after scaling back");
    }
};
#define SCALED(name, n, what, ...) PROP(scale_##name, n) { typedef __VA_ARGS__ S; scaled::Check<S>::what(c); }
#define SCALED_SHAPES_1(n, what) \
 SCALED(sphere, n, what, Sphere<double, 3>) SCALED(box, n, what, Rect<double, 3>) SCALED(cylinder, n, what, Cylinder<double, 3>) SCALED(flat_cylinder, n, what, Cylinder<double, 2>) SCALED(extrusion, n, what, Extruded<Sphere<double, 2>>) \
 SCALED(cone, n, what, Frustum<Sphere<double, 2>>) SCALED(pyramid, n, what, Frustum<Rect<double, 2>>) SCALED(sphere_float, n, what, Sphere<float, 2>) SCALED(oriented_box, n, what, Oriented<Rect<double, 3>>) SCALED(oriented_cylinder, n, what, Oriented<Cylinder<double, 3>>)
#define SCALED_SHAPES_2(n, what) SCALED(triangle, n, what, Simplex<double, 2>) SCALED(tetrahedron, n, what, Simplex<double, 3>)
#define SCALED_SHAPES_3(n, what) SCALED(capsule, n, what, Capsule<double, 3>) SCALED(capsule_float, n, what, Capsule<float, 2>) SCALED(dilated_box, n, what, Dilated<Rect<double, 3>>)
}
