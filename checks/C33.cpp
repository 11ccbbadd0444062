// C33: point queries of shapes. Oracle: exact signed distances in extended precision (harness/shaperef.h).
// parts: 8
// thorough: 20
// rule: the point is off the surface by more than the tolerance
#include "shaperef.h"
#include "scaled.h"
using namespace geom;
template<class S> struct Point {
    typedef typename S::elem_t T; static constexpr index_t N = S::N; typedef Vec<T, N> P; typedef ref::V<N> W;
    static constexpr long double eps = std::numeric_limits<T>::epsilon();
    static void run(pbt::Ctx& c) {
        ref::Opt o; o.lattice = c.b(); auto [s, r] = ref::Gen<S>::make(c, o); const S shape = s; W w = ref::rnd<T>(ref::query<N>(c, *r, o.lattice)); P p = ref::to<T>(w); LOG(c, r->str() << ", point " << w.str());
        check(c, shape, *r, w, p, 1);
    }
    static void check(pbt::Ctx& c, const S& s, const ref::Shape<N>& r, W w, P p, long double k) {
        long double sd = r.sd(w), tol = k * 4000 * eps * (1 + w.mag()), amb = r.amb(w); c.nontrivial(std::abs(sd) > tol); c.label("inside", sd < -tol); c.label("outside", sd > tol);
        auto d = [](W a, W b) { return (a - b).mag(); };
        bool in = s.contains(p); if (sd > tol) REQUIRE(!in, "a point at distance " << sd << " outside is contained"); if (sd < -tol) REQUIRE(in, "a point at depth " << -sd << " is not contained");
        if (sd == 0 && r.crisp() && ref::Cap<N>::exact(w)) { c.nontrivial(); c.label("on the surface"); REQUIRE(in, "a point of the surface is not contained"); }
        if constexpr (requires { s.sdf(p); }) {
            long double got = s.sdf(p); REQUIRE(std::abs(got - sd) <= tol, "signed distance " << got << " instead of " << sd);
            if constexpr (requires { s.project(p); }) if (amb > 1e-5L) {
                W q = ref::from(s.project(p)); REQUIRE(q.finite() && std::abs(r.sd(q)) <= tol, "projected point " << q.str() << " is at " << r.sd(q) << " from the surface"); REQUIRE(std::abs(d(q, w) - std::abs(sd)) <= tol, "projected point " << q.str() << " is " << d(q, w) << " away, the surface is " << std::abs(sd) << " away");
                W l = ref::from(s.clip(p)); if (sd < -tol) REQUIRE(d(l, w) == 0, "clipping moved a point inside to " << l.str()); else { REQUIRE(l.finite() && r.sd(l) <= tol, "clipped point " << l.str() << " is outside by " << r.sd(l)); REQUIRE(d(l, w) <= std::max<long double>(sd, 0) + 2 * tol, "clipped point " << l.str() << " is " << d(l, w) << " away from a point at distance " << sd); }
            }
            if constexpr (requires { s.normal(p); }) {
                if (std::abs(sd) > 1e-5L && amb > 1e-5L) {
                    W n = ref::from(s.normal(p)); long double t = 100 * eps + tol / std::abs(sd); REQUIRE(n.finite() && std::abs(n.mag() - 1) <= 100 * eps, "normal " << n.str() << " is not a unit vector");
                    // stepping along the normal by the distance reaches the surface, and further out the distance grows by the step
                    REQUIRE(std::abs(r.sd(w - n * sd)) <= 3 * tol, "normal " << n.str() << " does not point at the surface: stepping by the distance ends at " << r.sd(w - n * sd)); long double step = sd > 0 ? 1 : -sd / 2; REQUIRE(std::abs(r.sd(w + n * step) - sd - step) <= 3 * tol + t * step * t, "the distance grows by " << r.sd(w + n * step) - sd << " along " << step << " times the normal " << n.str());
                    // where the distance is smooth, its gradient
                    long double e = std::min<long double>({1e-5L, std::abs(sd) / 16, amb / 16}); W g, g2; for (index_t i = 0; i < N; i++) { W a = w, b = w; a[i] += e; b[i] -= e; g[i] = (r.sd(a) - sd) / e; g2[i] = (sd - r.sd(b)) / e; } if (d(g, g2) < 1e-4L && std::abs(g.mag() - 1) < 1e-4L) REQUIRE(d(g, n) <= 1e-3L + t, "normal " << n.str() << " instead of " << g.str());
                    if constexpr (requires { s.sdf(p, &p); }) { P np = p; REQUIRE(s.sdf(p, &np) == s.sdf(p), "asking for the normal changes the distance"); W u = ref::from(np); REQUIRE(u.finite() && u.mag() > 0 && std::min(d(u * (1 / u.mag()), n), d(u * (-1 / u.mag()), n)) <= 100 * eps + t, "normal direction " << u.str() << " given with the distance, the normal is " << n.str()); c.label("normal with the distance"); }
                    c.label("normal");
                }
            }
        }
    }
};
#define SHAPE(name, n, ...) PROP(name, n) { typedef __VA_ARGS__ S; Point<S>::run(c); }
typedef double D;
#if PART(0)
SHAPE(sphere_2d, 24000, Sphere<D, 2>)
SHAPE(sphere_3d, 24000, Sphere<D, 3>)
SHAPE(sphere_float, 12000, Sphere<float, 4>)
SHAPE(box_2d, 18000, Rect<D, 2>)
SHAPE(box_3d, 18000, Rect<D, 3>)
SHAPE(box_4d, 12000, Rect<D, 4>)
SHAPE(capsule_2d, 24000, Capsule<D, 2>)
SHAPE(capsule_3d, 24000, Capsule<D, 3>)
SHAPE(capsule_4d, 18000, Capsule<D, 4>)
SHAPE(capsule_float, 12000, Capsule<float, 3>)
#endif
#if PART(1)
SHAPE(cylinder_2d, 24000, Cylinder<D, 2>)
SHAPE(cylinder_3d, 30000, Cylinder<D, 3>)
SHAPE(cylinder_4d, 18000, Cylinder<D, 4>)
SHAPE(extruded_circle, 30000, Extruded<Sphere<D, 2>>)
SHAPE(extruded_box, 18000, Extruded<Rect<D, 2>>)
SHAPE(extruded_sphere, 18000, Extruded<Sphere<D, 3>>)
#endif
#if PART(2)
SHAPE(extruded_capsule, 18000, Extruded<Capsule<D, 2>>)
SHAPE(extruded_cylinder, 18000, Extruded<Cylinder<D, 2>>)
SHAPE(extruded_twice, 18000, Extruded<Extruded<Sphere<D, 2>>>)
SHAPE(dilated_box_2d, 18000, Dilated<Rect<D, 2>>)
SHAPE(dilated_box_3d, 18000, Dilated<Rect<D, 3>>)
SHAPE(dilated_cylinder, 18000, Dilated<Cylinder<D, 3>>)
SHAPE(dilated_sphere, 12000, Dilated<Sphere<D, 3>>)
SHAPE(dilated_extrusion, 18000, Dilated<Extruded<Sphere<D, 2>>>)
SHAPE(extruded_dilation, 18000, Extruded<Dilated<Rect<D, 2>>>)
#endif
#if PART(3)
SHAPE(simplex_2d, 18000, Simplex<D, 2>)
SHAPE(simplex_3d, 15000, Simplex<D, 3>)
SHAPE(simplex_4d, 6000, Simplex<D, 4>)
#endif
#if PART(4)
SHAPE(extruded_triangle, 15000, Extruded<Simplex<D, 2>>)
SHAPE(dilated_triangle, 15000, Dilated<Simplex<D, 2>>)
SHAPE(dilated_tetrahedron, 9000, Dilated<Simplex<D, 3>>)
#endif
#if PART(5)
SHAPE(cone, 24000, Frustum<Sphere<D, 2>>)
SHAPE(pyramid, 24000, Frustum<Rect<D, 2>>)
SHAPE(frustum_of_triangle, 15000, Frustum<Simplex<D, 2>>)
SHAPE(frustum_of_cylinder, 15000, Frustum<Cylinder<D, 3>>)
SHAPE(oriented_box, 18000, Oriented<Rect<D, 3>>)
SHAPE(oriented_cylinder, 18000, Oriented<Cylinder<D, 3>>)
SHAPE(oriented_cone, 18000, OrientedCone<D>)
SHAPE(oriented_circle, 18000, Oriented<Sphere<D, 2>>)
#endif
#if PART(4)
// helpers that make dilated shapes
template<class S> static void dilation(pbt::Ctx& c) {
    typedef Dilated<S> DS; constexpr index_t N = S::N; ref::Opt o; o.lattice = c.b(); auto [s, r] = ref::Gen<S>::make(c, o); double a = c.b() ? c.si(6) * .5 : (double)c.range(-3, 3), b = c.b() ? c.si(6) * .5 : (double)c.range(-3, 3); LOG(c, r->str() << " dilated by " << a << " then " << b);
    DS d = dilate(s, a), e = dilate(d, b), u(s); double da = std::max(a, 0.), db = std::max(da + b, 0.); for (int k = 0; k < 4; k++) { ref::V<N> w = ref::rnd<double>(ref::query<N>(c, *r, o.lattice)); Vec<double, N> p = ref::to<double>(w);
        REQUIRE(std::abs((double)r->sd(w) - u.sdf(p)) <= 1e-10, "wrapping a shape changed it"); REQUIRE(std::abs((double)r->sd(w) - da - d.sdf(p)) <= 1e-10, "distance " << d.sdf(p) << " to a shape dilated by " << da << ", the shape is at " << r->sd(w)); REQUIRE(std::abs((double)r->sd(w) - db - e.sdf(p)) <= 1e-10, "distance " << e.sdf(p) << " to a shape dilated by " << da << " and " << b << ", the shape is at " << r->sd(w)); c.nontrivial(); }
}
PROP(dilate_box, 3000) { dilation<Rect<D, 3>>(c); }
PROP(dilate_triangle, 1500) { dilation<Simplex<D, 2>>(c); }
PROP(dilate_sphere, 3000) { ref::Opt o; o.lattice = c.b(); auto [s, r] = ref::Gen<Sphere<D, 3>>::make(c, o); double a = (double)c.range(-3, 3); Sphere<D, 3> d = dilate(s, a); LOG(c, r->str() << " dilated by " << a); REQUIRE(d.center == s.center && std::abs(d.r - std::max(s.r + a, 0.)) <= 1e-12, "dilated sphere has radius " << d.r); c.nontrivial(); }
PROP(dilate_plane, 3000) { ref::V<3> n = ref::direction<3>(c), q = ref::point<3>(c, {}), w = ref::point<3>(c, {}); double a = (double)c.range(0, 3); Plane<D, 3> p(ref::to<D>(n), ref::to<D>(q)), d = dilate(p, a); LOG(c, "half space below " << q.str() << " along " << n.str() << " dilated by " << a); double u = p.sdf(ref::to<D>(w)), v = d.sdf(ref::to<D>(w)); REQUIRE(std::abs(v - (u - a)) <= 1e-11, "distance " << v << " to the half space dilated by " << a << ", " << u << " before"); c.nontrivial(a > .01); }
PROP(roundrect, 4000) { ref::Opt o; o.lattice = c.b(); auto [s, b] = ref::Gen<Rect<D, 2>>::make(c, o); double rad = c.b() ? c.i(0, 6) * .5 : (double)c.range(0, 4); auto rr = roundrect(s, rad); LOG(c, b->str() << " with corners rounded by " << rad); auto dim = s.dimensions(); double k = std::min({rad, dim[0] / 2, dim[1] / 2}); ref::V<2> lo = ref::from(s.lo), hi = ref::from(s.hi); for (int i = 0; i < 2; i++) { lo[i] += k; hi[i] -= k; if (lo[i] > hi[i]) lo[i] = hi[i] = (lo[i] + hi[i]) / 2; } ref::Dil<2> model(std::make_shared<ref::Box<2>>(lo, hi), k); ref::V<2> w = ref::rnd<D>(ref::query<2>(c, *b, o.lattice)); Vec<D, 2> p = ref::to<D>(w); double sd = model.sd(w); c.nontrivial(k > .01); if (sd > 1e-9) REQUIRE(!rr.contains(p), "point " << w.str() << " is contained, " << sd << " outside"); if (sd < -1e-9) REQUIRE(rr.contains(p), "point " << w.str() << " is not contained, " << -sd << " inside"); if (k < std::min(dim[0], dim[1]) / 2 - 1e-6) REQUIRE(std::abs(rr.sdf(p) - sd) <= 1e-9, "distance " << rr.sdf(p) << " of " << w.str() << " instead of " << sd); auto bb = rr.bounds(); for (int i = 0; i < 2; i++) REQUIRE(std::abs(bb.lo[i] - s.lo[i]) <= 1e-12 && std::abs(bb.hi[i] - s.hi[i]) <= 1e-12, "the rounded rectangle spans " << bb.lo[i] << " to " << bb.hi[i] << " on axis " << i); }
#endif
#if PART(5)
// degenerate queries recorded in KNOWN_FINDINGS
EXAMPLE(normal_on_box_surface) { Rect<D, 2> b(Vec<D, 2>(0, 0), Vec<D, 2>(1, 1)); Vec<D, 2> n = b.normal(Vec<D, 2>(1, .5)); REQUIRE(std::abs(n[0] - 1) < 1e-9 && std::abs(n[1]) < 1e-9, "the normal of the unit square at (1, 0.5) is " << n); }
EXAMPLE(dilated_box_core_surface) { Dilated<Rect<D, 2>> b(Rect<D, 2>(Vec<D, 2>(0, 0), Vec<D, 2>(1, 1)), .5); Vec<D, 2> q = b.project(Vec<D, 2>(1, .5)); REQUIRE(std::abs(q[0] - 1.5) < 1e-9 && std::abs(q[1] - .5) < 1e-9, "(1, 0.5) is projected to " << q << " on the unit square dilated by 0.5"); }
#endif
#if PART(6)
SCALED_SHAPES_1(6000, points)
#endif
#if PART(7)
SCALED_SHAPES_2(6000, points)
SCALED_SHAPES_3(6000, points)
#endif
