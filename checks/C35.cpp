// C35: ray intersections. Oracle: the reference shape's (convex) distance along the ray (harness/shaperef.h).
// parts: 7
// thorough: 20
// rule: the ray enters the shape by more than the tolerance, or clearly misses it
#include "shaperef.h"
#include "scaled.h"
using namespace geom;
template<class S> struct Rays {
    typedef typename S::elem_t T; static constexpr index_t N = S::N; typedef Vec<T, N> P; typedef ref::V<N> W; typedef long double R;
    static constexpr R eps = std::numeric_limits<T>::epsilon();
    // rays: anywhere; between features of the shape; along coordinates; from or through features; starting anywhere on the line
    static void aim(pbt::Ctx& c, const ref::Shape<N>& r, bool lattice, W& o, W& d) {
        std::vector<W> f; r.feats(f); ref::Opt opt; opt.lattice = lattice; auto any = [&]() { return f[c.i(0, (int)f.size() - 1)]; }; o = ref::point<N>(c, opt, 8); d = ref::direction<N>(c);
        switch (c.i(0, 7)) { case 0: break; case 1: o = any(); break; case 2: { W a = any(), b = any(); if ((a - b).mag() > .01L) { o = a; d = b - a; } break; } case 3: { W t = any(); if ((t - o).mag() > .01L) d = t - o; break; } case 4: { W t = ref::query<N>(c, r, lattice); if ((t - o).mag() > .01L) d = t - o; break; } case 5: o = ref::query<N>(c, r, lattice); break; case 6: { W a = any(), b = any(); W t = a + (b - a) * (R)c.unit(); if ((t - o).mag() > .01L) d = t - o; break; } default: { o = W(); d = ref::query<N>(c, r, lattice); if (d.mag() < .01L) d[N - 1] = 1; } }
        if (c.b()) o = o - d * (R)c.si(4); if (c.chance(1, 5)) d = d * (c.b() ? -1 : 1) * std::pow(10.L, (R)c.si(2)); d = ref::rnd<T>(d); o = ref::rnd<T>(o);
    }
    static void run(pbt::Ctx& c) {
        ref::Opt o; o.lattice = c.b(); auto [s0, r0] = ref::Gen<S>::make(c, o); const S s = s0; const ref::Shape<N>& r = *r0; W ro, rd; aim(c, r, o.lattice, ro, rd); LOG(c, r.str() << ", ray from " << ro.str() << " along " << rd.str());
        check(c, s, r, ro, rd);
    }
    static void check(pbt::Ctx& c, const S& s, const ref::Shape<N>& r, W ro, W rd) {
        R len = rd.mag(); std::vector<W> f; r.feats(f); R size = 1 + ro.mag(); W ctr = f[0]; for (auto& x : f) { size = std::max(size, x.mag()); } auto at = [&](R t) { return r.sd(ro + rd * t); };
        for (int k = 0; k < N; k++) { W e; e[k] = 1; size = std::max({size, std::abs(r.h(e)), std::abs(r.h(e * -1))}); }
        // least value of the distance along the ray: it is convex along a line
        R reach = 3 * (size + ro.mag()) / len, mid = (ctr - ro).dot(rd) / (len * len), a = mid - reach, b = mid + reach; auto [dlo, dhi] = domain(r, ro, rd); a = std::max(a, dlo); b = std::min(b, dhi); R m;
        if (a > b) m = 1e30L; else { for (int k = 0; k < 120; k++) { R u = a + (b - a) / 3, v = b - (b - a) / 3; if (at(u) < at(v)) b = v; else a = u; } R t = (a + b) / 2; m = at(t); a = t; }
        R tol = (eps < 1e-10L ? tip(r) ? 1e-7L : 3e-10L : 3e-3L) * size * cond(r); Rect<T, 1> i = s.intersect(Ray<T, N>(ref::to<T>(ro), ref::to<T>(rd))); c.nontrivial(m < -tol); c.label("hit", m < -tol); c.label("miss", m > tol); c.label("grazing", std::abs(m) <= tol);
        REQUIRE(!std::isnan(i.lo) && !std::isnan(i.hi), "interval [" << i.lo << ", " << i.hi << "]");
        if (m > tol) REQUIRE(i.is_empty(), "the ray passes " << m << " away from the shape, but hits it in [" << i.lo << ", " << i.hi << "]");
        if (i.is_empty()) { REQUIRE(m >= -tol, "the ray is " << -m << " deep in the shape at " << a << ", but the interval is empty"); return; }
        REQUIRE(std::isfinite((R)i.lo * len) && std::isfinite((R)i.hi * len) && std::abs(i.lo) * len < 1e6 && std::abs(i.hi) * len < 1e6, "interval [" << i.lo << ", " << i.hi << "] of a bounded shape");
        R lo = at(i.lo), hi = at(i.hi); REQUIRE(lo <= tol && hi <= tol, "the ends of the interval [" << i.lo << ", " << i.hi << "] are at distances " << lo << " and " << hi);
        if (m < -tol) { REQUIRE(std::abs(lo) <= tol && std::abs(hi) <= tol, "the ends of the interval [" << i.lo << ", " << i.hi << "] are at distances " << lo << " and " << hi); REQUIRE(i.lo <= a && a <= i.hi, "the interval [" << i.lo << ", " << i.hi << "] misses the parameter " << a << ", which is " << -m << " deep"); }
        for (int k = 0; k < 2; k++) { R t = i.lo + (i.hi - (R)i.lo) * (R)c.unit(), d = at(t); REQUIRE(d <= tol, "the ray is " << d << " away from the shape inside the interval, at " << t); }
    }
    // parameters at which the reference's function is convex (frusta: their height range)
    static std::pair<R, R> domain(const ref::Shape<N>& r, W ro, W rd) {
        if (auto* x = dynamic_cast<const ref::Xfd<N>*>(&r)) return domain(*x->base, x->inv(ro), x->inv.lin(rd));
        if constexpr (N > 2) if (auto* x = dynamic_cast<const ref::Fru<N>*>(&r)) { R o = ro[N - 1], d = rd[N - 1]; if (std::abs(d) < 1e-12L * rd.mag()) return o >= x->lo - 1e-9L && o <= x->hi + 1e-9L ? std::make_pair(-1e30L, 1e30L) : std::make_pair(1.L, 0.L); R a = (x->lo - 1e-11L - o) / d, b = (x->hi + 1e-11L - o) / d; if (a > b) std::swap(a, b); return {std::min(a, b), std::max(a, b)}; }
        if constexpr (N > 3) if (auto* x = dynamic_cast<const ref::Ext<N>*>(&r)) return Rays0<N>::base(*x, ro, rd);
        return {-1e30L, 1e30L};
    }
    template<index_t M> struct Rays0 { static std::pair<R, R> base(const ref::Ext<M>& x, ref::V<M> ro, ref::V<M> rd) { if (auto* f = dynamic_cast<const ref::Fru<M - 1>*>(x.base.get())) { R o = ro[M - 2], d = rd[M - 2]; if (std::abs(d) < 1e-12L * rd.mag()) return o >= f->lo - 1e-9L && o <= f->hi + 1e-9L ? std::make_pair(-1e30L, 1e30L) : std::make_pair(1.L, 0.L); R a = (f->lo - 1e-11L - o) / d, b = (f->hi + 1e-11L - o) / d; return {std::min(a, b), std::max(a, b)}; } return {-1e30L, 1e30L}; } };
    // close to the tip of a frustum, round cross sections are small against the coordinates: a grazing ray is then only known to the root of the precision
    static bool tip(const ref::Shape<N>& r) { if (auto* x = dynamic_cast<const ref::Xfd<N>*>(&r)) return tip(*x->base); if constexpr (N > 2) return dynamic_cast<const ref::Fru<N>*>(&r); return false; }
    static R cond(const ref::Shape<N>& r) { if (auto* x = dynamic_cast<const ref::Xfd<N>*>(&r)) { R m = 1; for (auto* q : {&x->m, &x->inv}) for (int i = 0; i < N; i++) m = std::max(m, q->row[i].mag()); return m * m * 4; } return 1; }
};
#define SHAPE(name, n, ...) PROP(name, n) { typedef __VA_ARGS__ S; Rays<S>::run(c); }
typedef double D;
#if PART(0)
SHAPE(sphere_2d, 8000, Sphere<D, 2>)
SHAPE(sphere_3d, 8000, Sphere<D, 3>)
SHAPE(sphere_float, 4000, Sphere<float, 4>)
SHAPE(box_2d, 8000, Rect<D, 2>)
SHAPE(box_3d, 8000, Rect<D, 3>)
SHAPE(cylinder_2d, 8000, Cylinder<D, 2>)
SHAPE(cylinder_3d, 10000, Cylinder<D, 3>)
SHAPE(cylinder_4d, 5000, Cylinder<D, 4>)
#endif
#if PART(1)
SHAPE(simplex_2d, 2000, Simplex<D, 2>)
SHAPE(simplex_3d, 1000, Simplex<D, 3>)
SHAPE(simplex_4d, 300, Simplex<D, 4>)
#endif
#if PART(2)
SHAPE(extruded_circle, 8000, Extruded<Sphere<D, 2>>)
SHAPE(extruded_box, 6000, Extruded<Rect<D, 2>>)
SHAPE(extruded_cylinder, 5000, Extruded<Cylinder<D, 2>>)
SHAPE(extruded_cone, 5000, Extruded<Frustum<Sphere<D, 2>>>)
SHAPE(extruded_triangle, 1500, Extruded<Simplex<D, 2>>)
#endif
#if PART(3)
SHAPE(cone, 8000, Frustum<Sphere<D, 2>>)
SHAPE(pyramid, 8000, Frustum<Rect<D, 2>>)
SHAPE(frustum_of_cylinder, 5000, Frustum<Cylinder<D, 3>>)
SHAPE(frustum_of_extrusion, 5000, Frustum<Extruded<Sphere<D, 2>>>)
#endif
#if PART(4)
SHAPE(oriented_box_2d, 6000, Oriented<Rect<D, 2>>)
SHAPE(oriented_box_3d, 6000, Oriented<Rect<D, 3>>)
SHAPE(oriented_cylinder, 6000, Oriented<Cylinder<D, 3>>)
SHAPE(oriented_sphere, 6000, Oriented<Sphere<D, 3>>)
SHAPE(oriented_cone, 6000, OrientedCone<D>)
SHAPE(view_frustum, 6000, ViewFrustum<D, 3>)
#endif
#if PART(1)
// simplices with N vertices are hit in one point; smaller ones are never hit
template<index_t N> static void facet(pbt::Ctx& c) {
    typedef ref::V<N> W; typedef long double R; ref::Opt o; o.lattice = c.b(); int n = c.chance(1, 5) ? c.i(0, N) : N; auto [s, r] = ref::Gen<Simplex<D, N>>::make(c, o, n ? n : 1); if (n == 0) s = Simplex<D, N>(); auto& v = static_cast<ref::Simp<N>&>(*r).v;
    W ro, rd; Rays<Simplex<D, N>>::aim(c, *r, o.lattice, ro, rd); if (c.b()) { W t = v[0]; for (int i = 1; i < n; i++) t = t + (v[i] - v[0]) * (R)c.range(-.2, 1); if ((t - ro).mag() > .1L) rd = ref::rnd<D>(t - ro); } LOG(c, r->str() << ", ray from " << ro.str() << " along " << rd.str());
    Ray<D, N> ray(ref::to<D>(ro), ref::to<D>(rd)); Rect<D, 1> i = s.intersect(ray); if (n < N) { c.nontrivial(); c.label("too few vertices"); REQUIRE(i.is_empty(), "a simplex of " << n << " points is hit at [" << i.lo << ", " << i.hi << "]"); return; }
    ref::M<N> m; for (int k = 0; k < N; k++) for (int q = 0; q < N; q++) m.row[q][k] = k + 1 < N ? v[k + 1][q] - v[0][q] : -rd[q]; R scale = 1; for (int k = 0; k < N; k++) { W col; for (int q = 0; q < N; q++) col[q] = m.row[q][k]; scale *= col.mag(); } R det = m.det(); if (std::abs(det) < 1e-4L * scale) { c.label("parallel"); return; } W x = m.inverse().lin(ro - v[0]);
    R worst = 1, sum = 0; for (int k = 0; k + 1 < N; k++) { worst = std::min(worst, x[k]); sum += x[k]; } worst = std::min(worst, 1 - sum); R tol = 1e-8L; c.nontrivial(std::abs(worst) > tol); c.label("hit", worst > tol); c.label("miss", worst < -tol); Vec<D, N - 1> uv; D at = 0; bool hit; if constexpr (N > 2) hit = trace_simplex<D, N>(s.pts, ray, &uv, &at); else hit = trace_simplex<D, N>(s.pts, ray, nullptr, &at);
    if (worst < -tol) REQUIRE(i.is_empty() && !hit, "the ray misses by " << -worst << " in barycentric coordinates, but hits at [" << i.lo << ", " << i.hi << "]");
    if (worst > tol) { R t = 1e-7L * (1 + std::abs(x[N - 1])); REQUIRE(!i.is_empty() && hit, "the ray hits at " << x[N - 1] << " with barycentric margin " << worst << ", but is said to miss"); REQUIRE(i.lo == i.hi && std::abs(i.lo - x[N - 1]) <= t && std::abs(at - x[N - 1]) <= t, "the ray hits at " << x[N - 1] << " instead of [" << i.lo << ", " << i.hi << "] or " << at); if constexpr (N > 2) for (int k = 0; k + 1 < N; k++) REQUIRE(std::abs(uv[k] - x[k]) <= 1e-7L, "surface parameters " << uv << ", parameter " << k << " is " << x[k]); }
}
PROP(facet_2d, 8000) { facet<2>(c); }
PROP(facet_3d, 8000) { facet<3>(c); }
PROP(facet_4d, 5000) { facet<4>(c); }
#endif
#if PART(5)
SCALED_SHAPES_1(3000, ray)
#endif
#if PART(6)
SCALED_SHAPES_2(3000, ray)
#endif
