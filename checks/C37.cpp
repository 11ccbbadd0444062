// C37: planes. Oracle: dot products in extended precision, and support functions of reference shapes (harness/shaperef.h).
// parts: 3
// thorough: 30
// rule: the plane is off the origin, or the point list has more than one point
#include "shaperef.h"
#include "scaled.h"
using namespace geom;
using ref::R; typedef double D;
template<class T> static constexpr R eps = std::numeric_limits<T>::epsilon();
template<class T, index_t N> struct Pl { Plane<T, N> p; ref::V<N> n, q; R at(const ref::V<N>& w) const { return (w - q).dot(n) / n.mag(); } std::string str() const { return "plane through " + q.str() + " with normal along " + n.str(); } };
// a plane with a normal of any length and a point on it
template<class T, index_t N> static Pl<T, N> make(pbt::Ctx& c, bool lattice) {
    typedef ref::V<N> W; ref::Opt o; o.lattice = lattice; W n, q = ref::rnd<T>(ref::point<N>(c, o)); if (lattice) { n[c.i(0, N - 1)] = c.b() ? 1 : -1; } else { n = ref::rnd<T>(ref::direction<N>(c)); if (c.chance(1, 4)) n = ref::rnd<T>(n * c.logpos(1e-3, 1e3)); }
    if (c.chance(1, 8)) { q = W(); return {Plane<T, N>(ref::to<T>(n)), n, q}; } return {Plane<T, N>(ref::to<T>(n), ref::to<T>(q)), n, q};
}
template<class T, index_t N> static void points(pbt::Ctx& c) {
    typedef ref::V<N> W; typedef Vec<T, N> P; bool lat = c.chance(1, 3); auto pl = make<T, N>(c, lat); const Plane<T, N> p = pl.p; LOG(c, pl.str()); W nn = pl.n * (1 / pl.n.mag()); c.nontrivial(pl.q.mag() > 0);
    REQUIRE((ref::from(p.normal) - nn).mag() <= 8 * eps<T>, "normal " << ref::from(p.normal).str());
    W og = ref::from(p.origin()); R t0 = 32 * eps<T> * (1 + pl.q.mag()); REQUIRE(std::abs(pl.at(og)) <= t0 && std::abs(og.mag() - std::abs(pl.at(W()))) <= t0, "the point nearest to the origin is " << og.str() << " at " << pl.at(og) << " from the plane, which is at " << pl.at(W()) << " from the origin");
    for (int k = 0; k < 4; k++) {
        W w; ref::Opt o; o.lattice = lat; switch (c.i(0, 3)) { case 0: w = pl.q; break; case 1: w = ref::point<N>(c, o, 50); break; case 2: { w = ref::point<N>(c, o); w = w - nn * pl.at(w) + nn * (c.b() ? 1.L : -1.L) * std::pow(10.L, (R)-c.i(0, 9)); break; } default: w = ref::point<N>(c, o); } w = ref::rnd<T>(w);
        P x = ref::to<T>(w); R is = pl.at(w), tol = 32 * eps<T> * (1 + w.mag() + pl.q.mag()); if (lat) tol = 0; c.label("on the plane", is == 0);
        REQUIRE(std::abs(p.distance(x) - is) <= tol && p.sdf(x) == p.distance(x), "point " << w.str() << " is at " << is << ", reported at " << p.distance(x) << " and " << p.sdf(x)); if (lat || std::abs(is) > tol) REQUIRE(p.contains(x) == (is <= 0), "point " << w.str() << " at " << is << (p.contains(x) ? " is" : " is not") << " contained");
        W pr = ref::from(p.project(x)), want = w - nn * is; REQUIRE((pr - want).mag() <= 4 * tol, "point " << w.str() << " projects to " << pr.str() << " instead of " << want.str());
    }
    Plane<T, N> same = p, other = p; REQUIRE(same == p, "a copy differs"); other.d = p.d + 1; REQUIRE(!(other == p), "planes one apart compare equal"); other = p; other.normal = -p.normal; REQUIRE(!(other == p), "planes facing opposite ways compare equal");
}
template<class T, index_t N> static void built(pbt::Ctx& c) {
    typedef ref::V<N> W; typedef Vec<T, N> P; ref::Opt o; o.lattice = c.b(); std::vector<W> v; for (int t = 0; t < 20; t++) { v.clear(); for (int i = 0; i < N; i++) v.push_back(ref::rnd<T>(ref::point<N>(c, o))); if (ref::least_edge<N>(v) > .05L) break; c.assume(t < 19); }
    P pts[N], bases[N - 1]; std::vector<W> b; for (int i = 0; i < N; i++) pts[i] = ref::to<T>(v[i]); for (int i = 0; i + 1 < N; i++) { b.push_back(ref::rnd<T>(v[i + 1] - v[0])); bases[i] = ref::to<T>(b[i]); } std::string s; for (auto& x : v) s += " " + x.str(); LOG(c, "vertices" << s); c.nontrivial(true); R tol = 1e5L * eps<T>;
    Plane<T, N> p = Plane<T, N>::from_simplex(pts), q = Plane<T, N>::from_basis(bases), r = Plane<T, N>::from_basis(bases, pts[N - 1]);
    for (auto* k : {&p, &q, &r}) { REQUIRE(std::abs(ref::from(k->normal).mag() - 1) <= 16 * eps<T>, "normal " << ref::from(k->normal).str()); for (auto& e : b) REQUIRE(std::abs(ref::from(k->normal).dot(e)) <= tol * e.mag(), "the normal " << ref::from(k->normal).str() << " is not orthogonal to " << e.str()); }
    R big = 0; for (auto& x : v) big = std::max(big, x.mag()); for (int i = 0; i < N; i++) { REQUIRE(std::abs(p.distance(pts[i])) <= tol * (1 + big), "vertex " << v[i].str() << " is at " << p.distance(pts[i])); REQUIRE(std::abs(r.distance(pts[i])) <= tol * (1 + big), "plane of a basis through a point: vertex " << v[i].str() << " is at " << r.distance(pts[i])); } REQUIRE(q.distance(P()) == 0, "the plane of a basis does not pass through the origin");
    // any affine combination lies on the plane, and points off it are at the height of the simplex
    W a; R sum = 0; for (int i = 0; i < N; i++) { R k = i + 1 < N ? (R)c.range(-2, 2) : 1 - sum; sum += k; a = a + v[i] * k; } REQUIRE(std::abs(p.distance(ref::to<T>(a))) <= 10 * tol * (1 + big + a.mag()), "combination " << a.str() << " of the vertices is at " << p.distance(ref::to<T>(a)));
}
// overlap with point sets
template<class T, index_t N> static void hull(pbt::Ctx& c) {
    typedef ref::V<N> W; typedef Vec<T, N> P; bool lat = c.b(); auto pl = make<T, N>(c, lat); ref::Opt o; o.lattice = lat; int n = c.i(0, 7); int side = c.i(0, 2); std::vector<P> v; R lo = 1e30L, hi = -1e30L; std::string s; for (int i = 0; i < n; i++) { W w = ref::point<N>(c, o); R d = pl.at(w); W nn = pl.n * (1 / pl.n.mag()); if (side < 2 && !(i == n - 1 && c.chance(1, 3)) && (side ? d > 0 : d < 0)) w = w - nn * (2 * d); if (c.chance(1, 12)) w = w - nn * pl.at(w); w = ref::rnd<T>(w); v.push_back(ref::to<T>(w)); d = pl.at(w); lo = std::min(lo, d); hi = std::max(hi, d); s += " " + w.str(); }
    LOG(c, pl.str() << ", points" << s << ", at distances " << lo << " to " << hi); c.nontrivial(n > 1); bool got = pl.p.intersects(v.data(), n); R tol = lat ? 0 : 300 * eps<T>; if (n == 0) { REQUIRE(!got, "the plane passes through no points"); return; } bool yes = lo < -tol && hi > tol; if (lat) yes = lo <= 0 && hi >= 0; bool no = lo > tol || hi < -tol; c.label("crosses", yes); c.label("touches", lo == 0 || hi == 0); if (yes || no) REQUIRE(got == yes, "the hull " << (yes ? "crosses" : "does not cross") << " the plane, reported " << got);
}
// a power of two times all coordinates changes nothing but the scale of the answers
template<class T, index_t N> static void scale(pbt::Ctx& c) {
    typedef ref::V<N> W; typedef Vec<T, N> P; auto pl = make<T, N>(c, false); Plane<T, N> big = pl.p; T k = scaled::factor<T>(c); big.d *= k; ref::Opt o; int n = c.i(1, 5), side = c.i(0, 2); std::vector<P> v, u; R lo = 1e30L, hi = -1e30L; W nn = pl.n * (1 / pl.n.mag()); for (int i = 0; i < n; i++) { W w = ref::point<N>(c, o); R d = pl.at(w); if (side < 2 && !(i == n - 1 && c.chance(1, 3)) && (side ? d > 0 : d < 0)) w = w - nn * (2 * d); w = ref::rnd<T>(w); v.push_back(ref::to<T>(w)); u.push_back(v.back() * k); lo = std::min(lo, pl.at(w)); hi = std::max(hi, pl.at(w)); }
    c.nontrivial(k != 1); LOG(c, pl.str() << ", " << n << " points from " << v[0] << ", everything times " << k); R tol = 300 * eps<T>; for (int i = 0; i < n; i++) { R d = pl.at(ref::from(v[i])); REQUIRE(std::abs(big.distance(u[i]) / k - d) <= tol && std::abs(big.sdf(u[i]) / k - d) <= tol, "the distance is " << d << ", at " << k << " times the size " << big.distance(u[i])); REQUIRE((ref::from(big.project(u[i]) / k) - ref::from(pl.p.project(v[i]))).mag() <= tol, "the projection is " << pl.p.project(v[i]) << ", at " << k << " times the size " << big.project(u[i])); if (std::abs(d) > tol) REQUIRE(big.contains(u[i]) == (d < 0), "the point at distance " << d << " is " << (d < 0 ? "not " : "") << "contained at " << k << " times the size"); }
    REQUIRE((ref::from(big.origin() / k) - ref::from(pl.p.origin())).mag() <= tol, "the point nearest the origin is " << pl.p.origin() << ", at " << k << " times the size " << big.origin()); if (lo < -tol && hi > tol) REQUIRE(big.intersects(u.data(), n), "the points no longer cross the plane at " << k << " times the size"); if (lo > tol || hi < -tol) REQUIRE(!big.intersects(u.data(), n), "the points, at distances " << lo << " to " << hi << ", cross the plane at " << k << " times the size");
}
template<class S> static void shape(pbt::Ctx& c) {
    constexpr index_t N = S::N; typedef typename S::elem_t T; typedef ref::V<N> W; bool lat = c.chance(1, 3); auto pl = make<T, N>(c, lat); ref::Opt o; o.lattice = lat; auto [s, r] = ref::Gen<S>::make(c, o); W nn = pl.n * (1 / pl.n.mag());
    // move the plane close to touching the shape sometimes
    if (!lat && c.b()) { R gap = (c.b() ? 1.L : -1.L) * std::pow(10.L, (R)-c.i(1, sizeof(T) > 4 ? 7 : 3)); pl.q = ref::rnd<T>(c.b() ? nn * (r->h(nn) + gap) : nn * (gap - r->h(nn * -1))); pl.p = Plane<T, N>(ref::to<T>(pl.n), ref::to<T>(pl.q)); }
    R off = nn.dot(pl.q), hi = r->h(nn) - off, lo = -r->h(nn * -1) - off; LOG(c, pl.str() << ", " << r->str() << ", spanning distances " << lo << " to " << hi); std::vector<W> f; r->feats(f); R big = pl.q.mag(); for (auto& x : f) big = std::max(big, x.mag()); R tol = 2000 * eps<T> * (1 + big); c.nontrivial(true); c.label("crosses", lo < 0 && hi > 0); c.label("below", hi <= 0);
    bool in = pl.p.contains(s), cut = pl.p.intersects(s); if (std::abs(hi) > tol) REQUIRE(in == (hi < 0), "reported " << (in ? "" : "not ") << "contained in the half space"); if (std::abs(hi) > tol && std::abs(lo) > tol) REQUIRE(cut == (lo < 0 && hi > 0), "reported " << (cut ? "" : "not ") << "crossing the plane");
    if (lat && (std::is_same_v<S, Rect<T, N>> || std::is_same_v<S, Sphere<T, N>>) && hi == 0) REQUIRE(in, "a shape touching the plane from below is not contained in the half space");
}
#if PART(0)
PROP(plane_points_2d, 20000) { points<D, 2>(c); }
PROP(plane_points_3d, 20000) { points<D, 3>(c); }
PROP(plane_points_4d, 12000) { points<D, 4>(c); }
PROP(plane_points_5d_float, 12000) { points<float, 5>(c); }
PROP(plane_points_3d_float, 12000) { points<float, 3>(c); }
PROP(default_plane, 2000) { Plane<D, 3> p; Vec<D, 3> x(c.real(5), c.real(5), c.real(5)); c.nontrivial(true); REQUIRE((p.distance(x) == x[0] && p.contains(x) == (x[0] <= 0) && p.project(x) == Vec<D, 3>(0, x[1], x[2]) && p.origin() == Vec<D, 3>()), "the default plane is not x = 0"); }
#endif
#if PART(1)
PROP(plane_of_line, 15000) { built<D, 2>(c); }
PROP(plane_of_triangle, 15000) { built<D, 3>(c); }
PROP(plane_of_tetrahedron, 8000) { built<D, 4>(c); }
PROP(plane_of_triangle_float, 8000) { built<float, 3>(c); }
PROP(scale_plane_2d, 10000) { scale<D, 2>(c); }
PROP(scale_plane_3d, 10000) { scale<D, 3>(c); }
PROP(scale_plane_4d_float, 8000) { scale<float, 4>(c); }
PROP(plane_and_points_2d, 15000) { hull<D, 2>(c); }
PROP(plane_and_points_3d, 15000) { hull<D, 3>(c); }
// long lists with at most one point on the far side
PROP(plane_and_many_points, 800) {
    size_t n = c.big(6, 17), at = c.i(0, n - 1); bool cross = c.b(); uint64_t seed = c.draw(~0ull >> 1); int axis = c.i(0, 2); double d = c.si(9), side = c.b() ? 1 : -1; Vec<D, 3> nrm; nrm[axis] = 1; Plane<D, 3> p(nrm, Vec<D, 3>() + nrm * d); std::vector<Vec<D, 3>> v(n); for (size_t k = 0; k < n; k++) { for (int i = 0; i < 3; i++) v[k][i] = (int)(pbt::splitmix(seed) % 2001) - 1000; v[k][axis] = d + side * (1 + (int)(pbt::splitmix(seed) % 100)) * (cross && k == at ? -1 : 1); }
    LOG(c, n << " points, " << (cross ? "one" : "none") << " of them across the plane"); REQUIRE(p.intersects(v.data(), n) == cross, "the hull of " << n << " points " << (cross ? "crosses the plane with point " : "does not cross the plane, point ") << at << ", reported otherwise"); c.nontrivial(n > 256); c.label("more than 65536", n > 65536);
}
PROP(plane_and_points_4d_float, 8000) { hull<float, 4>(c); }
#endif
#if PART(2)
SCALED(plane_box, 6000, plane, Rect<D, 3>)
SCALED(plane_sphere, 6000, plane, Sphere<D, 2>)
SCALED(plane_cylinder, 6000, plane, Cylinder<D, 3>)
SCALED(plane_cone, 6000, plane, Frustum<Sphere<D, 2>>)
PROP(plane_and_box_2d, 10000) { shape<Rect<D, 2>>(c); }
PROP(plane_and_box_3d, 10000) { shape<Rect<D, 3>>(c); }
PROP(plane_and_sphere_2d, 10000) { shape<Sphere<D, 2>>(c); }
PROP(plane_and_sphere_3d, 10000) { shape<Sphere<D, 3>>(c); }
PROP(plane_and_sphere_4d_float, 5000) { shape<Sphere<float, 4>>(c); }
PROP(plane_and_capsule, 6000) { shape<Capsule<D, 3>>(c); }
PROP(plane_and_cylinder, 6000) { shape<Cylinder<D, 3>>(c); }
PROP(plane_and_tetrahedron, 6000) { shape<Simplex<D, 3>>(c); }
PROP(plane_and_cone, 6000) { shape<Frustum<Sphere<D, 2>>>(c); }
PROP(plane_and_prism, 6000) { shape<Extruded<Rect<D, 2>>>(c); }
PROP(plane_and_oriented_box, 6000) { shape<Oriented<Rect<D, 3>>>(c); }
PROP(plane_and_rounded_box, 6000) { shape<Dilated<Rect<D, 3>>>(c); }
#endif
