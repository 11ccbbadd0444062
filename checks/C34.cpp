// C34: support points and bounds. Oracle: support functions and signed distances in extended precision (harness/shaperef.h).
// parts: 7
// thorough: 20
// rule: every case: a shape and a direction
#include "shaperef.h"
#include "scaled.h"
using namespace geom;
template<class S> struct Sup {
    typedef typename S::elem_t T; static constexpr index_t N = S::N; typedef Vec<T, N> P; typedef ref::V<N> W;
    static constexpr long double eps = std::numeric_limits<T>::epsilon();
    // directions: anywhere, along a coordinate, along or across differences of features of the shape, tiny or huge
    static W dir(pbt::Ctx& c, const ref::Shape<N>& r) {
        W d = ref::direction<N>(c); int k = c.i(0, 4); if (k >= 2) { std::vector<W> f; r.feats(f); int n = (int)f.size() - 1; W u = f[c.i(0, n)] - f[c.i(0, n)]; if (u.mag() > .01L) { if (k == 2) d = u * (1 + c.i(0, 6) * (1 / 3.L)); else if (k == 3) { W e = d - u * (d.dot(u) / u.dot(u)); if (e.mag() > .01L) d = e; } else d = u + d * std::pow(10.L, (long double)-c.i(1, 14)); } }
        if (c.chance(1, 6)) d = d * std::pow(10.L, (long double)c.si(6)); d = ref::rnd<T>(d); return d;
    }
    static void run(pbt::Ctx& c) {
        ref::Opt o; o.lattice = c.b(); o.flat = c.chance(1, 3); auto [s0, r0] = ref::Gen<S>::make(c, o); const S s = s0; const ref::Shape<N>& r = *r0; std::vector<W> f; r.feats(f); W d = dir(c, r); LOG(c, r.str() << ", direction " << d.str());
        long double size = 1; for (auto& x : f) size = std::max(size, x.mag()); for (int k = 0; k < N; k++) { W e; e[k] = 1; size = std::max({size, std::abs(r.h(e)), std::abs(r.h(e * -1))}); }
        long double tol = 4000 * eps * size * stretch(r); W p = ref::from(s.convex_support(ref::to<T>(d))); c.nontrivial();
        REQUIRE(p.finite(), "support point " << p.str()); long double h = r.h(d) / d.mag(), got = p.dot(d) / d.mag(); REQUIRE(std::abs(got - h) <= tol, "support point " << p.str() << " reaches " << got << ", the shape reaches " << h); REQUIRE(std::abs(r.sd(p)) <= tol || (!r.solid() && r.sd(p) <= tol), "support point " << p.str() << " is " << r.sd(p) << " from the surface");
        { // not further than any point the shape itself contains
          for (int t = 0; t < 3; t++) { W q = ref::rnd<T>(ref::query<N>(c, r, o.lattice)); if (s.contains(ref::to<T>(q))) { REQUIRE(q.dot(d) / d.mag() <= got + tol, "contained point " << q.str() << " lies further than the support point " << p.str()); c.label("beyond test"); } } }
        Rect<T, N> b = s.bounds(); for (index_t i = 0; i < N; i++) { W e; e[i] = 1; long double hi = r.h(e), lo = -r.h(e * -1); REQUIRE(std::abs((long double)b.lo[i] - lo) <= tol && std::abs((long double)b.hi[i] - hi) <= tol, "bounds along axis " << i << " are " << b.lo[i] << " to " << b.hi[i] << ", the shape spans " << lo << " to " << hi); }
        // the generic bounds by support points, and the type-erased shape
        Rect<T, N> g = static_cast<const Convex<T, N, S>&>(s).Convex<T, N, S>::bounds(); auto any = as_any_convex(s); const AnyConvex<T, N>& a = any; W pa = ref::from(a.convex_support(ref::to<T>(d))); REQUIRE((pa - p).mag() == 0, "the wrapped shape has support point " << pa.str() << " instead of " << p.str()); Rect<T, N> ab = a.bounds();
        for (index_t i = 0; i < N; i++) { REQUIRE(std::abs((long double)b.lo[i] - g.lo[i]) <= tol && std::abs((long double)b.hi[i] - g.hi[i]) <= tol, "bounds from support points along axis " << i << " are " << g.lo[i] << " to " << g.hi[i] << " instead of " << b.lo[i] << " to " << b.hi[i]); REQUIRE(ab.lo[i] == b.lo[i] && ab.hi[i] == b.hi[i], "the wrapped shape has other bounds"); }
    }
    static long double stretch(const ref::Shape<N>& r) { if (auto* x = dynamic_cast<const ref::Xfd<N>*>(&r)) { long double m = 1; for (auto* q : {&x->m, &x->inv}) for (int i = 0; i < N; i++) m = std::max(m, q->row[i].mag()); return m * m * 4; } return 1; }
};
#define SHAPE(name, n, ...) PROP(name, n) { typedef __VA_ARGS__ S; Sup<S>::run(c); }
typedef double D;
#if PART(0)
SHAPE(sphere_2d, 8000, Sphere<D, 2>)
SHAPE(sphere_3d, 8000, Sphere<D, 3>)
SHAPE(sphere_float, 4000, Sphere<float, 4>)
SHAPE(box_2d, 8000, Rect<D, 2>)
SHAPE(box_3d, 8000, Rect<D, 3>)
SHAPE(capsule_2d, 8000, Capsule<D, 2>)
SHAPE(capsule_3d, 12000, Capsule<D, 3>)
SHAPE(capsule_4d, 8000, Capsule<D, 4>)
#endif
#if PART(1)
SHAPE(cylinder_2d, 12000, Cylinder<D, 2>)
SHAPE(cylinder_3d, 16000, Cylinder<D, 3>)
SHAPE(cylinder_4d, 8000, Cylinder<D, 4>)
SHAPE(cylinder_float, 8000, Cylinder<float, 3>)
SHAPE(extruded_circle, 12000, Extruded<Sphere<D, 2>>)
SHAPE(extruded_box, 8000, Extruded<Rect<D, 2>>)
SHAPE(extruded_cylinder, 8000, Extruded<Cylinder<D, 2>>)
#endif
#if PART(2)
SHAPE(extruded_triangle, 8000, Extruded<Simplex<D, 2>>)
SHAPE(simplex_2d, 8000, Simplex<D, 2>)
SHAPE(simplex_3d, 8000, Simplex<D, 3>)
SHAPE(simplex_4d, 3000, Simplex<D, 4>)
SHAPE(dilated_box, 8000, Dilated<Rect<D, 3>>)
SHAPE(dilated_cylinder, 8000, Dilated<Cylinder<D, 3>>)
SHAPE(dilated_tetrahedron, 5000, Dilated<Simplex<D, 3>>)
#endif
#if PART(3)
SHAPE(cone, 16000, Frustum<Sphere<D, 2>>)
SHAPE(pyramid, 16000, Frustum<Rect<D, 2>>)
SHAPE(frustum_of_triangle, 8000, Frustum<Simplex<D, 2>>)
SHAPE(frustum_of_cylinder, 8000, Frustum<Cylinder<D, 3>>)
SHAPE(frustum_of_extrusion, 8000, Frustum<Extruded<Sphere<D, 2>>>)
SHAPE(extruded_cone, 8000, Extruded<Frustum<Sphere<D, 2>>>)
#endif
#if PART(4)
SHAPE(oriented_box_2d, 8000, Oriented<Rect<D, 2>>)
SHAPE(oriented_box_3d, 8000, Oriented<Rect<D, 3>>)
SHAPE(oriented_cylinder, 8000, Oriented<Cylinder<D, 3>>)
SHAPE(oriented_sphere, 8000, Oriented<Sphere<D, 3>>)
SHAPE(oriented_cone, 8000, OrientedCone<D>)
SHAPE(view_frustum, 8000, ViewFrustum<D, 3>)
SHAPE(oriented_capsule, 8000, Oriented<Capsule<D, 2>>)
SHAPE(oriented_simplex, 5000, Oriented<Simplex<D, 3>>)
#endif
#if PART(5)
SCALED_SHAPES_1(3000, support)
#endif
#if PART(6)
SCALED_SHAPES_2(3000, support)
SCALED_SHAPES_3(3000, support)
#endif
