// C40: closed-form overlap tests of spheres, boxes, transformed boxes and capsules. Oracles: nearest distances (exact at
// lattice positions), separating axes in extended precision, and constructed gaps and shared points.
// parts: 3
// thorough: 30
// rule: every pair has a known answer; touching pairs are at lattice positions where arithmetic is exact
#include "shaperef.h"
#include "pairs.h"
#include "scaled.h"
#include <geomc/shape/Intersect.h>
using namespace geom;
using ref::R; typedef double D; using namespace pairs;
template<class T> static constexpr R eps = std::numeric_limits<T>::epsilon();
// ---- a sphere and a shape with exact distances: they share a point iff the center is within r of the shape
template<class S> static void ball(pbt::Ctx& c) {
    constexpr index_t N = S::N; typedef typename S::elem_t T; typedef ref::V<N> W; ref::Opt o; o.lattice = c.b(); auto [s, r] = ref::Gen<S>::make(c, o); auto [b, br] = ref::Gen<Sphere<T, N>>::make(c, o); W q = static_cast<ref::Ball<N>&>(*br).c; R rad = static_cast<ref::Ball<N>&>(*br).r;
    if (c.b()) { /* almost or exactly touching */ W at = ref::rnd<T>(ref::query<N>(c, *r, o.lattice)); R sd = r->sd(at); if (sd > .1L) { q = at; if (o.lattice) rad = sd; else rad = sd * (1 + (c.b() ? 1 : -1) * std::pow(10.L, (R)-c.i(1, sizeof(T) > 4 ? 11 : 4))); rad = ref::rnd<T>(rad); b = Sphere<T, N>(ref::to<T>(q), (T)rad); br = std::make_shared<ref::Ball<N>>(q, rad); } }
    if (c.chance(1, 10)) { rad = 0; b.r = 0; br = std::make_shared<ref::Ball<N>>(q, rad); }
    LOG(c, r->str() << " and " << br->str()); R d = r->sd(q) - rad, tol = 64 * eps<T> * (1 + q.mag() + rad + pairs::reach<N>(*r)); bool crisp = r->crisp() && br->crisp() && std::round(rad * 2) == rad * 2; if (crisp) for (auto& x : {r->sd(q)}) crisp = x * 2 == std::round(x * 2) || std::abs(d) > tol; c.label("touching", d == 0); c.label("apart", d > 0); c.nontrivial(true); if (std::abs(d) <= tol && !crisp) return;
    const auto& cs = s; const auto& cb = b; if constexpr (requires { cs.intersects(cb); }) REQUIRE(cs.intersects(cb) == (d <= 0), "the shape and the sphere, at " << d << ", are reported to " << (d <= 0 ? "share no point" : "overlap")); if constexpr (requires { cb.intersects(cs); }) REQUIRE(cb.intersects(cs) == (d <= 0), "the sphere and the shape, at " << d << ", are reported to " << (d <= 0 ? "share no point" : "overlap"));
    if (c.chance(1, 3)) { T k = scaled::factor<T>(c); const S ks = scaled::by(s, k); const auto kb = scaled::by(b, k); LOG(c, "everything times " << k); if constexpr (requires { ks.intersects(kb); }) REQUIRE(ks.intersects(kb) == (d <= 0), "at " << k << " times the size, the shape and the sphere, which were at " << d << ", are reported to " << (d <= 0 ? "share no point" : "overlap")); if constexpr (requires { kb.intersects(ks); }) REQUIRE(kb.intersects(ks) == (d <= 0), "at " << k << " times the size, the sphere and the shape, which were at " << d << ", are reported to " << (d <= 0 ? "share no point" : "overlap")); }
}
// ---- transformed boxes
template<index_t N> static ref::V<N> cross(const ref::V<N>& a, const ref::V<N>& b) { ref::V<N> r; if constexpr (N == 3) { r[0] = a[1] * b[2] - a[2] * b[1]; r[1] = a[2] * b[0] - a[0] * b[2]; r[2] = a[0] * b[1] - a[1] * b[0]; } return r; }
// largest gap along a separating direction (positive: apart by that distance along it; negative: overlap along all)
template<index_t N> static std::vector<ref::V<N>> axes(const ref::M<N>& ma, const ref::M<N>& mb) {
    typedef ref::V<N> W; std::vector<W> ax; for (auto* m : {&ma, &mb}) { ref::M<N> inv = m->inverse(); for (int i = 0; i < N; i++) ax.push_back(inv.row[i]); } if (N == 3) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { W u, v; u[i] = 1; v[j] = 1; W o; u = ma(u) - ma(o); v = mb(v) - mb(o); W x = cross<N>(u, v); if (x.mag() > 1e-6L * u.mag() * v.mag()) ax.push_back(x); } return ax;
}
template<index_t N> static R sat(const ref::Shape<N>& a, const ref::Shape<N>& b, const ref::M<N>& ma, const ref::M<N>& mb) {
    typedef ref::V<N> W; R best = -1e30L; for (W x : axes<N>(ma, mb)) { x = x * (1 / x.mag()); best = std::max({best, -(a.h(x) + b.h(x * -1)), -(a.h(x * -1) + b.h(x))}); } return best;
}
// offset that brings `b` to a small gap from (or a small depth into) `a`, at random points of a face, edge or corner of each that face one of the separating directions
template<class T, index_t N> static ref::V<N> against(pbt::Ctx& c, const ref::Shape<N>& A, const Rect<T, N>& a, const ref::M<N>& ma, const ref::Shape<N>& B, const Rect<T, N>& b, const ref::M<N>& mb) {
    typedef ref::V<N> W; auto ax = axes<N>(ma, mb); W n = ax[c.i(0, (int)ax.size() - 1)]; n = n * ((c.b() ? 1 : -1) / n.mag());
    auto feature = [&](const Rect<T, N>& r, const ref::M<N>& m, W d) { std::vector<W> p; R best = -1e30L, size = 0; for (int k = 0; k < 1 << N; k++) { W x; for (int i = 0; i < N; i++) x[i] = k >> i & 1 ? r.hi[i] : r.lo[i]; x = m(x); p.push_back(x); best = std::max(best, x.dot(d)); size = std::max(size, x.mag()); } W sum; R tw = 0; for (W& x : p) if (x.dot(d) >= best - 1e-9L * (1 + size)) { R w = .05L + c.unit(); sum = sum + x * w; tw += w; } return sum * (1 / tw); };
    W pa = feature(a, ma, n), pb = feature(b, mb, n * -1); R sz = std::min(pairs::reach<N>(A), pairs::reach<N>(B)) + .01L, gap = sz * std::pow(10.L, -(R)c.range(1, sizeof(T) > 4 ? 8 : 3)) * (c.b() ? 1 : -1); LOG(c, "placed along a separating direction, gap " << (double)gap); c.label("along a separating direction"); return ref::rnd<T>(pa - pb + n * gap);
}
template<class T, index_t N> static void boxes(pbt::Ctx& c) {
    typedef ref::V<N> W; ref::Opt o; o.lattice = c.b(); typedef Rect<T, N> B; auto [a, ra] = ref::Gen<B>::make(c, o); auto [b, rb] = ref::Gen<B>::make(c, o); auto xa = ref::transform<T, N>(c), xb = ref::transform<T, N>(c); bool plain = c.chance(1, 3); if (plain) xb = {AffineTransform<T, N>(), ref::M<N>()}; ref::Xfd<N> A(ra, xa.second); R gap; int fine = sizeof(T) > 4 ? 6 : 2;
    ref::M<N> mb = xb.second; W off; bool built = N > 3 || c.chance(2, 3); bool truth = false; if (N < 4 && c.chance(1, 2)) { built = false; off = against<T, N>(c, A, a, xa.second, ref::Xfd<N>(rb, mb), b, mb); } else if (built) { ref::Xfd<N> B0(rb, mb); auto t = place<N>(c, A, B0, fine); c.assume(t.margin > 0); off = ref::rnd<T>(t.off); truth = t.overlap; LOG(c, told(t)); } else if (c.b()) off = ref::rnd<T>(ref::point<N>(c, o));
    // the box moves in its own space when it is not transformed, else its transform does
    if (plain) { W lo = ref::rnd<T>(ref::from(b.lo) + off), hi = ref::rnd<T>(ref::from(b.hi) + off); b = B(ref::to<T>(lo), ref::to<T>(hi)); rb = std::make_shared<ref::Box<N>>(lo, hi); } else { mb.t = ref::rnd<T>(mb.t + off); xb = {ref::toxf<T>(mb), mb}; }
    ref::Xfd<N> Bx(rb, mb); LOG(c, A.str() << " and " << Bx.str()); R tol = 300 * eps<T> * (1 + pairs::reach<N>(A) + pairs::reach<N>(Bx)) * 30; if (!built || N < 4) { gap = sat<N>(A, Bx, xa.second, mb); if (built && std::abs(gap) > tol) REQUIRE(truth == (gap < 0), "reference disagreement: gap " << gap); truth = gap < 0; } else gap = truth ? -1 : 1; c.label("overlap", truth); c.label("apart", !truth); c.nontrivial(true); if (std::abs(gap) <= tol) return;
    const Oriented<B> qa(a, xa.first), qb(b, xb.first); const B ca = a, cb = b; REQUIRE(qa.intersects(qb) == truth && qb.intersects(qa) == truth, "two transformed boxes, gap " << gap << ": reported " << qa.intersects(qb) << " and " << qb.intersects(qa)); REQUIRE(qa.intersects(qa), "a box does not overlap itself"); if (plain) REQUIRE(qa.intersects(cb) == truth && cb.intersects(qa) == truth, "a transformed box and a plain one, gap " << gap << ": reported " << qa.intersects(cb) << " and " << cb.intersects(qa));
    if (c.chance(1, 3)) { T k = scaled::factor<T>(c); const auto ka = scaled::by(qa, k), kb = scaled::by(qb, k); LOG(c, "everything times " << k); REQUIRE(ka.intersects(kb) == truth && kb.intersects(ka) == truth, "at " << k << " times the size, two transformed boxes with gap " << gap << " are reported " << ka.intersects(kb) << " and " << kb.intersects(ka)); if (plain) { const B kc = scaled::by(cb, k); REQUIRE(ka.intersects(kc) == truth && kc.intersects(ka) == truth, "at " << k << " times the size, a transformed box and a plain one with gap " << gap << " are reported " << ka.intersects(kc) << " and " << kc.intersects(ka)); } }
    if (c.b() && N < 4) { bool g = geom::intersects<T, N>(as_any_convex(qa), as_any_convex(qb)); REQUIRE(g == truth, "the simplex-based test of two transformed boxes, gap " << gap << ": reported " << g); }
}
// ---- boxes under translations by halves: exact, including touching
template<index_t N> static void shifts(pbt::Ctx& c) {
    typedef ref::V<N> W; ref::Opt o; o.lattice = true; typedef Rect<D, N> B; auto [a, ra] = ref::Gen<B>::make(c, o); auto [b, rb] = ref::Gen<B>::make(c, o); W u = ref::point<N>(c, o), v = ref::point<N>(c, o); bool meet = true, touch = false; for (int i = 0; i < N; i++) { R al = a.lo[i] + u[i], ah = a.hi[i] + u[i]; if (c.chance(1, 3)) v[i] = c.b() ? ah - b.lo[i] : al - b.hi[i]; R bl = b.lo[i] + v[i], bh = b.hi[i] + v[i]; meet = meet && al <= bh && bl <= ah; touch = touch || al == bh || bl == ah; }
    LOG(c, ra->str() << " moved by " << u.str() << " and " << rb->str() << " moved by " << v.str()); c.nontrivial(touch); c.label("touching", touch && meet); const Oriented<B> qa = translation(ref::to<D>(u)) * a, qb = translation(ref::to<D>(v)) * b; const B pa(a.lo + ref::to<D>(u), a.hi + ref::to<D>(u)), pb(b.lo + ref::to<D>(v), b.hi + ref::to<D>(v));
    REQUIRE(qa.intersects(qb) == meet && qa.intersects(pb) == meet && pb.intersects(qa) == meet && pa.intersects(qb) == meet && pa.intersects(pb) == meet, "the boxes " << (meet ? "share" : "do not share") << " a point; reported " << qa.intersects(qb) << " for the transformed boxes, " << qa.intersects(pb) << ", " << pb.intersects(qa) << " and " << pa.intersects(qb) << " for one, and " << pa.intersects(pb) << " for none transformed");
}
#if PART(0)
PROP(spheres_2d, 42000) { ball<Sphere<D, 2>>(c); }
PROP(spheres_3d, 42000) { ball<Sphere<D, 3>>(c); }
PROP(spheres_4d_float, 28000) { ball<Sphere<float, 4>>(c); }
PROP(sphere_and_box_2d, 42000) { ball<Rect<D, 2>>(c); }
PROP(sphere_and_box_3d, 42000) { ball<Rect<D, 3>>(c); }
PROP(sphere_and_box_4d_float, 28000) { ball<Rect<float, 4>>(c); }
PROP(sphere_and_capsule_2d, 42000) { ball<Capsule<D, 2>>(c); }
PROP(sphere_and_capsule_3d, 42000) { ball<Capsule<D, 3>>(c); }
PROP(sphere_and_capsule_3d_float, 28000) { ball<Capsule<float, 3>>(c); }
#endif
#if PART(1)
PROP(oriented_boxes_2d, 140000) { boxes<D, 2>(c); }
PROP(oriented_boxes_3d, 140000) { boxes<D, 3>(c); }
PROP(shifted_boxes_2d, 105000) { shifts<2>(c); }
PROP(shifted_boxes_3d, 105000) { shifts<3>(c); }
#endif
#if PART(2)
PROP(oriented_boxes_4d, 35000) { boxes<D, 4>(c); }
PROP(oriented_boxes_3d_float, 70000) { boxes<float, 3>(c); }
PROP(oriented_boxes_2d_float, 70000) { boxes<float, 2>(c); }
#endif
