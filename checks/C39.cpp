// C39: overlap of convex shapes. Ground truth by construction: a shared deep point, or a gap along a direction, from
// reference shapes (harness/shaperef.h).
// parts: 4
// thorough: 30
// rule: every pair has a known answer by construction; histories have more than three queries
#include "shaperef.h"
#include "pairs.h"
#include "scaled.h"
#include <geomc/shape/Intersect.h>
using namespace geom;
using ref::R; typedef double D; using namespace pairs;
// a library shape behind its virtual wrapper, its reference, and the same shape moved
template<index_t N> struct Body { std::shared_ptr<AnyConvex<D, N>> lib; ref::P<N> r; };
template<class S> static Body<S::N> body(const S& s, ref::P<S::N> r) { constexpr index_t N = S::N; return {std::static_pointer_cast<AnyConvex<D, N>>(std::make_shared<AnyConvexImpl<S>>(s)), r}; }
template<index_t N> struct Maker { virtual ~Maker() {} virtual ref::P<N> base() = 0; virtual Body<N> at(const ref::V<N>& v) = 0; };
template<class S> struct MakerOf : Maker<S::N> { S s; ref::P<S::N> r; MakerOf(ref::Pair<S> p) : s(p.first), r(p.second) {} ref::P<S::N> base() override { return r; } Body<S::N> at(const ref::V<S::N>& v) override { constexpr index_t N = S::N; if (v.mag() == 0) return body<S>(s, r); return body<decltype(Move<S>::at(s, Vec<D, N>()))>(Move<S>::at(s, ref::to<D>(v)), shifted<N>(r, v)); } };
template<class S> static std::shared_ptr<Maker<S::N>> mk(pbt::Ctx& c, ref::Opt o) { return std::make_shared<MakerOf<S>>(ref::Gen<S>::make(c, o)); }
template<index_t N> static std::shared_ptr<Maker<N>> any(pbt::Ctx& c, bool flat, bool poly) {
    ref::Opt o; o.lattice = c.b(); o.flat = flat && c.chance(1, 3);
    switch (c.i(0, poly ? 2 : N == 4 ? 5 : N == 2 ? 8 : 11)) {
        case 0: return mk<Rect<D, N>>(c, o); case 1: return mk<Simplex<D, N>>(c, o); case 2: return mk<Oriented<Rect<D, N>>>(c, o); case 3: return mk<Sphere<D, N>>(c, o); case 4: return mk<Capsule<D, N>>(c, o); case 5: return mk<Oriented<Sphere<D, N>>>(c, o);
        default: break; }
    if constexpr (N < 4) { switch (c.i(0, N == 2 ? 2 : 5)) { case 0: return mk<Cylinder<D, N>>(c, o); case 1: return mk<Dilated<Rect<D, N>>>(c, o); case 2: return mk<Oriented<Capsule<D, N>>>(c, o); default: break; } }
    if constexpr (N == 3) { switch (c.i(0, 3)) { case 0: return mk<Extruded<Sphere<D, 2>>>(c, o); case 1: return mk<Frustum<Rect<D, 2>>>(c, o); case 2: return mk<Frustum<Sphere<D, 2>>>(c, o); default: return mk<Oriented<Frustum<Sphere<D, 2>>>>(c, o); } }
    return mk<Rect<D, N>>(c, o);
}
template<index_t N> static void separates(const Intersector<D, N>& x, const ref::Shape<N>& a, const ref::Shape<N>& b, R tol) { ref::V<N> s = ref::from(x.separation_axis); REQUIRE(s.finite() && s.mag() > 0, "no overlap, but the separating axis is " << s.str()); s = s * (1 / s.mag()); R gap = -(a.h(s) + b.h(s * -1)); REQUIRE(gap >= -tol, "the reported axis " << s.str() << " does not separate the shapes, they overlap along it by " << -gap); }
// a shape made larger or smaller
template<index_t N> struct Times : AnyConvex<D, N> { const AnyConvex<D, N>& a; D k; Times(const AnyConvex<D, N>& a, D k) : a(a), k(k) {} Vec<D, N> _impl_convex_support(Vec<D, N> d) const override { return a.convex_support(d) * k; } Rect<D, N> _impl_bounds() const override { auto b = a.bounds(); return Rect<D, N>(b.lo * k, b.hi * k); } };
template<index_t N> static void overlap(pbt::Ctx& c, bool poly) {
    auto A = any<N>(c, true, poly), B = any<N>(c, true, poly); c.assume(A->base()->solid() || B->base()->solid()); int fine = poly ? 6 : c.b() ? 6 : 2; auto t = place<N>(c, *A->base(), *B->base(), fine); c.assume(t.margin > 0); Body<N> a = A->at({}), b = B->at(t.off); LOG(c, A->base()->str() << " and " << B->base()->str() << told(t)); c.label("overlap", t.overlap); c.label("apart", !t.overlap); c.nontrivial(true); R tol = 1e-12L * (reach<N>(*a.r) + reach<N>(*b.r));
    if (poly || fine < 4) { bool ab = geom::intersects(*a.lib, *b.lib), ba = geom::intersects(*b.lib, *a.lib); REQUIRE(ab == t.overlap, "reported " << (ab ? "overlapping" : "apart")); REQUIRE(ba == t.overlap, "with exchanged arguments, reported " << (ba ? "overlapping" : "apart")); }
    Intersector<D, N> x; if (fine > 3 && !poly) x.max_iterations = 5000; /* smooth shapes a hair apart take many steps */ bool got = x.intersects(*a.lib, *b.lib); REQUIRE(got == t.overlap, "by an Intersector, reported " << (got ? "overlapping" : "apart")); if (!got) separates<N>(x, *a.r, *b.r, tol);
    if (c.b()) { D k = scaled::factor<D>(c); LOG(c, "everything times " << k); c.label("scaled"); Times<N> ta(*a.lib, k), tb(*b.lib, k); Intersector<D, N> y; y.max_iterations = x.max_iterations; bool now = y.intersects(ta, tb); REQUIRE(now == t.overlap, "at " << k << " times the size, reported " << (now ? "overlapping" : "apart")); if (!now) separates<N>(y, *a.r, *b.r, tol); }
}
// one Intersector asked about many pairs, each answer starting from the last
template<index_t N> static void history(pbt::Ctx& c) {
    Intersector<D, N> x; int fine = c.b() ? 6 : 2; if (fine > 3) x.max_iterations = 5000; int n = c.i(2, 12); c.nontrivial(n > 3); std::vector<std::shared_ptr<Maker<N>>> m; for (int k = 0; k < 3; k++) m.push_back(any<N>(c, true, false));
    for (int k = 0; k < n; k++) { auto A = m[c.i(0, 2)], B = m[c.i(0, 2)]; if (!A->base()->solid() && !B->base()->solid()) continue; auto t = place<N>(c, *A->base(), *B->base(), fine); if (t.margin <= 0) continue; Body<N> a = A->at({}), b = B->at(t.off); LOG(c, "query " << k << ": " << A->base()->str() << " and " << B->base()->str() << told(t)); bool got = x.intersects(*a.lib, *b.lib); REQUIRE(got == t.overlap, "query " << k << " to the same Intersector, reported " << (got ? "overlapping" : "apart")); if (!got) separates<N>(x, *a.r, *b.r, 1e-12L * (reach<N>(*a.r) + reach<N>(*b.r))); }
}
// the member overlap test of a pair of classes
template<class A, class B> static void member(pbt::Ctx& c) {
    constexpr index_t N = A::N; ref::Opt o; o.lattice = c.b(); auto [a, ra] = ref::Gen<A>::make(c, o); auto [b, rb] = ref::Gen<B>::make(c, o); auto t = place<N>(c, *ra, *rb, 2); c.assume(t.margin > 0); LOG(c, ra->str() << " and " << rb->str() << told(t)); c.label("overlap", t.overlap); c.nontrivial(true); const auto m = Move<B>::at(b, ref::to<D>(t.off)); const A& k = a; bool got = k.intersects(m); REQUIRE(got == t.overlap, "reported " << (got ? "overlapping" : "apart"));
}
#if PART(0)
PROP(polytopes_2d, 40000) { overlap<2>(c, true); }
PROP(any_shapes_2d, 40000) { overlap<2>(c, false); }
PROP(history_2d, 10000) { history<2>(c); }
#endif
#if PART(1)
PROP(polytopes_3d, 40000) { overlap<3>(c, true); }
PROP(any_shapes_3d, 40000) { overlap<3>(c, false); }
PROP(history_3d, 10000) { history<3>(c); }
#endif
#if PART(2)
PROP(polytopes_4d, 20000) { overlap<4>(c, true); }
PROP(any_shapes_4d, 16000) { overlap<4>(c, false); }
PROP(history_4d, 4000) { history<4>(c); }
#endif
#if PART(3)
PROP(cylinder_simplex, 8000) { member<Cylinder<D, 3>, Simplex<D, 3>>(c); }
PROP(simplex_sphere, 8000) { member<Simplex<D, 3>, Sphere<D, 3>>(c); }
PROP(cone_box, 8000) { member<Frustum<Sphere<D, 2>>, Rect<D, 3>>(c); }
PROP(prism_capsule, 8000) { member<Extruded<Rect<D, 2>>, Capsule<D, 3>>(c); }
PROP(triangles, 8000) { member<Simplex<D, 2>, Simplex<D, 2>>(c); }
PROP(rounded_box_oriented_box, 8000) { member<Dilated<Rect<D, 3>>, Oriented<Rect<D, 3>>>(c); }
PROP(oriented_cylinder_cylinder, 8000) { member<Oriented<Cylinder<D, 3>>, Cylinder<D, 3>>(c); }
#endif
