// C36: shapes under chains of affine transforms. Oracle: the reference shape under the composed map (harness/shaperef.h).
// parts: 5
// thorough: 20
// rule: the chain of transforms is not empty
#include "shaperef.h"
using namespace geom;
typedef double D; typedef long double R;
template<index_t N> static R stretch(const ref::M<N>& m) { ref::M<N> i = m.inverse(); R k = 1; for (auto* q : {&m, (const ref::M<N>*)&i}) for (int r = 0; r < N; r++) k = std::max({k, q->row[r].mag(), q->t.mag() / 8}); return k * k; }
// one step of a chain, returns false if the composed map would become badly conditioned
template<index_t N> struct Step { AffineTransform<D, N> xf; ref::M<N> m; bool undo; int how; };
template<index_t N> static std::vector<Step<N>> chain(pbt::Ctx& c, ref::M<N>& total) {
    std::vector<Step<N>> out; int n = c.i(0, 4); for (int k = 0; k < n; k++) { auto x = ref::transform<D, N>(c, 2); bool undo = c.b(); int how = c.i(0, 1); ref::M<N> t = (undo ? x.second.inverse() : x.second) * total; if (stretch(t) > 300) continue; total = t; out.push_back({x.first, x.second, undo, how}); } return out;
}
namespace ref { template<class S> constexpr bool has_ray = true; template<class T, index_t N> constexpr bool has_ray<Capsule<T, N>> = false; template<class S> constexpr bool has_ray<Dilated<S>> = false; }
template<class S> struct Moved {
    static constexpr index_t N = S::N; typedef ref::V<N> W; typedef Vec<D, N> P;
    static void run(pbt::Ctx& c) {
        ref::Opt o; o.lattice = c.b(); auto [s, base] = ref::Gen<S>::make(c, o); ref::M<N> total; auto steps = chain<N>(c, total); Oriented<S> q(s); std::string log; bool first = true;
        for (auto& e : steps) { const Oriented<S> before = q; if (first && c.b()) q = e.undo ? s / e.xf : e.xf * s; else if (e.how == 0) q = e.undo ? q / e.xf : e.xf * q; else { Oriented<S>* back = e.undo ? &(q /= e.xf) : &(q *= e.xf); REQUIRE(back == &q, "result of the in-place operator"); } first = false; log += (e.undo ? " undoing " : " under ") + e.m.str(); }
        const Oriented<S> t = q; ref::Xfd<N> r(base, total); LOG(c, base->str() << log); c.nontrivial(!steps.empty()); R k = stretch(total), tol = 1e-9L * k * 20;
        REQUIRE(t.shape == s, "transforming changed the wrapped shape");
        std::vector<W> f; base->feats(f); R size = 1; for (auto& x : f) size = std::max(size, total(x).mag()); tol *= size;
        for (int n = 0; n < 4; n++) { W w = ref::rnd<D>(ref::query<N>(c, r, false)); P p = ref::to<D>(w); R sd = r.sd(w); if (std::abs(sd) <= tol) continue; REQUIRE(t.contains(p) == (sd < 0), "point " << w.str() << (sd < 0 ? " is not contained" : " is contained") << ", in the shape's own space it is at " << sd); }
        // extents
        W d = ref::rnd<D>(ref::direction<N>(c)); W sp = ref::from(t.convex_support(ref::to<D>(d))); R h = r.h(d) / d.mag(); REQUIRE(sp.finite() && std::abs(sp.dot(d) / d.mag() - h) <= tol && r.sd(sp) <= tol, "support point " << sp.str() << " along " << d.str() << " reaches " << sp.dot(d) / d.mag() << " instead of " << h);
        Rect<D, N> b = t.bounds(); for (int i = 0; i < N; i++) { W e; e[i] = 1; REQUIRE(std::abs(b.hi[i] - r.h(e)) <= tol && std::abs(b.lo[i] + r.h(e * -1)) <= tol, "bounds along axis " << i << " are " << b.lo[i] << " to " << b.hi[i] << ", the shape spans " << -r.h(e * -1) << " to " << r.h(e)); }
        auto ob = t.oriented_bounds(); Rect<D, N> bb = s.bounds(); for (int i = 0; i < N; i++) REQUIRE(ob.shape.lo[i] == bb.lo[i] && ob.shape.hi[i] == bb.hi[i], "oriented bounds wrap another box"); { W w = f[c.i(0, (int)f.size() - 1)]; P in = ref::to<D>(total(w)); ref::Xfd<N> rb(std::make_shared<ref::Box<N>>(ref::from(bb.lo), ref::from(bb.hi)), total); R sd = rb.sd(total(w)); if (std::abs(sd) > tol) REQUIRE(ob.contains(in) == (sd < 0), "oriented bounds and feature " << w.str()); }
        // rays and volume
        if constexpr (ref::has_ray<S>) { W o1 = ref::rnd<D>(ref::query<N>(c, r, false)), v = ref::rnd<D>(ref::direction<N>(c)); if (c.b()) { W tgt = total(f[c.i(0, (int)f.size() - 1)]) - o1; if (tgt.mag() > .1L) v = ref::rnd<D>(tgt); } Rect<D, 1> got = t.intersect(Ray<D, N>(ref::to<D>(o1), ref::to<D>(v))); ref::M<N> inv = total.inverse(); R len = v.mag(); 
            if (!got.is_empty()) { R lo = r.sd(o1 + v * got.lo), hi = r.sd(o1 + v * got.hi); R rt = 1e-6L * k * size; REQUIRE(lo <= rt && hi <= rt, "the ray from " << o1.str() << " along " << v.str() << " is in the shape in [" << got.lo << ", " << got.hi << "], but its ends are at " << lo << " and " << hi << " in the shape's own space"); R step = 1e-3L / len; bool deep = false; for (int n = 1; n < 8; n++) deep = deep || r.sd(o1 + v * (got.lo + (got.hi - got.lo) * n / 8.)) < -1e-2L; if (deep) REQUIRE(std::abs(lo) <= rt && std::abs(hi) <= rt, "the interval [" << got.lo << ", " << got.hi << "] of the ray from " << o1.str() << " along " << v.str() << " ends inside the shape"); c.label("ray hits"); }
            else { for (int n = 0; n < 24; n++) { W at = total(f[n % f.size()]); R u = (at - o1).dot(v) / (len * len); REQUIRE(r.sd(o1 + v * u) >= -1e-6L * k * size, "the ray from " << o1.str() << " along " << v.str() << " misses, but is inside at " << u); } } }
        if constexpr (requires { t.volume(); }) { R det = std::abs(total.det()), vol = det; for (int i = 0; i < N; i++) vol *= (R)bb.hi[i] - bb.lo[i]; REQUIRE(std::abs(t.volume() - vol) <= 1e-9L * (1 + vol) * k, "volume " << t.volume() << " instead of " << vol); }
        // undoing the whole chain restores the shape; the composition does the same as the chain
        Oriented<S> u = t; for (size_t n = steps.size(); n-- > 0;) { auto& e = steps[n]; if (e.undo) u = e.xf * u; else u = u / e.xf; } AffineTransform<D, N> all; for (auto& e : steps) all = e.undo ? all / e.xf : e.xf * all; Oriented<S> once = all * s; Oriented<S> composed = all * Oriented<S>(s);
        for (int n = 0; n < 3; n++) { W w = ref::rnd<D>(ref::query<N>(c, *base, o.lattice)); R sd = base->sd(w); if (std::abs(sd) <= tol) continue; REQUIRE(u.contains(ref::to<D>(w)) == (sd < 0), "after undoing the chain, point " << w.str() << " at " << sd); P p = ref::to<D>(total(w)); REQUIRE(once.contains(p) == (sd < 0) && composed.contains(p) == (sd < 0), "under the composed transform, the image of point " << w.str() << " at " << sd); }
        REQUIRE(t == q && Oriented<S>(s) == Oriented<S>(s) && Oriented<S>(s, all) == once, "equality");
    }
};
#define SHAPE(name, n, ...) PROP(name, n) { typedef __VA_ARGS__ S; Moved<S>::run(c); }
#if PART(0)
SHAPE(box_2d, 5000, Rect<D, 2>)
SHAPE(box_3d, 5000, Rect<D, 3>)
SHAPE(box_4d, 2500, Rect<D, 4>)
SHAPE(sphere_2d, 4000, Sphere<D, 2>)
SHAPE(sphere_3d, 4000, Sphere<D, 3>)
#endif
#if PART(1)
SHAPE(cylinder_3d, 4000, Cylinder<D, 3>)
SHAPE(capsule_3d, 4000, Capsule<D, 3>)
SHAPE(simplex_3d, 1500, Simplex<D, 3>)
#endif
#if PART(2)
SHAPE(extruded_circle, 4000, Extruded<Sphere<D, 2>>)
SHAPE(cone, 4000, Frustum<Sphere<D, 2>>)
SHAPE(pyramid, 4000, Frustum<Rect<D, 2>>)
#endif
#if PART(3)
// planes: the half space moves with the transform
template<index_t N> static void plane(pbt::Ctx& c) {
    typedef ref::V<N> W; W n = ref::rnd<D>(ref::direction<N>(c)), q = ref::rnd<D>(ref::point<N>(c, {})); n = n * (1 / n.mag()); ref::M<N> total; auto steps = chain<N>(c, total); Plane<D, N> p(ref::to<D>(n), ref::to<D>(q)); const Plane<D, N> p0 = p; std::string log;
    for (auto& e : steps) { switch (c.i(0, 2)) { case 0: p = e.undo ? p / e.xf : e.xf * p; break; case 1: { Plane<D, N>* back = e.undo ? &(p /= e.xf) : &(p *= e.xf); REQUIRE(back == &p, "result of the in-place operator"); break; } default: if (e.undo) p.apply_inverse(e.xf); else p.apply(e.xf); } log += (e.undo ? " undoing " : " under ") + e.m.str(); }
    LOG(c, "half space below " << q.str() << " along " << n.str() << log); c.nontrivial(!steps.empty()); R k = stretch(total), tol = 1e-10L * k; W g = total.inverse().tr(n); REQUIRE(std::abs(ref::from(p.normal).mag() - 1) <= 1e-12L, "normal " << ref::from(p.normal).str()); REQUIRE((ref::from(p.normal) - g * (1 / g.mag())).mag() <= tol, "normal " << ref::from(p.normal).str() << " instead of " << (g * (1 / g.mag())).str());
    for (int t = 0; t < 3; t++) { W w = ref::rnd<D>(ref::point<N>(c, {})), u = total(w); R was = (w - q).dot(n), now = was / g.mag(), got = p.sdf(ref::to<D>(u)); REQUIRE(std::abs(got - now) <= tol * (1 + u.mag()) * 10, "the image " << u.str() << " of a point at " << was << " is at " << got << " instead of " << now); if (std::abs(now) > tol * (1 + u.mag()) * 10) REQUIRE(p.contains(ref::to<D>(u)) == (was < 0), "containment of the image of a point"); }
    Plane<D, N> back = p; for (size_t i = steps.size(); i-- > 0;) back = steps[i].undo ? steps[i].xf * back : back / steps[i].xf; REQUIRE((ref::from(back.normal) - n).mag() <= 10 * tol && std::abs(back.d - p0.d) <= 100 * tol, "undoing the chain gives normal " << ref::from(back.normal).str() << " and offset " << back.d << " instead of " << n.str() << " and " << p0.d);
}
PROP(plane_2d, 8000) { plane<2>(c); }
PROP(plane_3d, 8000) { plane<3>(c); }
PROP(plane_4d, 5000) { plane<4>(c); }
// simplices move their vertices; only the used ones
template<index_t N> static void simplex(pbt::Ctx& c) {
    typedef ref::V<N> W; ref::Opt o; o.lattice = c.b(); o.flat = true; auto [s, r] = ref::Gen<Simplex<D, N>>::make(c, o); auto v = static_cast<ref::Simp<N>&>(*r).v; ref::M<N> total; auto steps = chain<N>(c, total); LOG(c, r->str() << " under " << total.str()); c.nontrivial(!steps.empty()); const Simplex<D, N> s0 = s; for (auto& e : steps) { Simplex<D, N>* back = e.undo ? &(s /= e.xf) : &(s *= e.xf); REQUIRE(back == &s, "result of the in-place operator"); }
    R tol = 1e-10L * stretch(total) * 10; REQUIRE(s.n == (index_t)v.size(), "vertex count"); for (size_t i = 0; i < v.size(); i++) REQUIRE((ref::from(s[i]) - total(v[i])).mag() <= tol, "vertex " << i << " is at " << ref::from(s[i]).str() << " instead of " << total(v[i]).str());
    if (r->solid()) { R det = total.det(); REQUIRE(std::abs(s.volume() - det * s0.volume()) <= 1e-8L * stretch(total) * (1 + std::abs(s0.volume())), "volume " << s.volume() << " instead of " << det << " times " << s0.volume()); }
}
PROP(simplex_2d, 6000) { simplex<2>(c); }
PROP(simplex_3d_vertices, 6000) { simplex<3>(c); }
PROP(simplex_4d, 4000) { simplex<4>(c); }
#endif
#if PART(4)
SHAPE(frustum_of_cylinder, 2000, Frustum<Cylinder<D, 3>>)
SHAPE(extruded_cone, 2000, Extruded<Frustum<Sphere<D, 2>>>)
SHAPE(dilated_box, 2500, Dilated<Rect<D, 2>>)
SHAPE(triangle, 2500, Simplex<D, 2>)
#endif
