// C38: simplices. Oracles: a list of vertices; barycentric coordinates, exhaustive nearest faces and Gram-Schmidt measure in extended precision (harness/shaperef.h).
// parts: 3
// thorough: 20
// rule: more than two vertices
#include "shaperef.h"
#include "scaled.h"
using namespace geom;
using ref::R; typedef double D;
template<class T, index_t N> struct Case {
    typedef ref::V<N> W; Simplex<T, N> s; std::vector<W> v; R tol, size = 0; bool lat;
    Case(pbt::Ctx& c, int n = 0) { ref::Opt o; o.lattice = lat = c.b(); if (!n) n = c.i(1, N + 1); auto [x, r] = ref::Gen<Simplex<T, N>>::make(c, o, n); s = x; v = static_cast<ref::Simp<N>&>(*r).v; for (auto& x : v) size = std::max(size, x.mag()); tol = (R)std::numeric_limits<T>::epsilon() * 2e5L * (1 + size); LOG(c, r->str()); c.nontrivial(v.size() > 2); static const char* nm[] = {"", "point", "segment", "triangle", "tetrahedron", "order 5", "order 6"}; for (int k = 1; k <= N + 1; k++) c.label(nm[k], (int)v.size() == k); }
    // points: combinations of the vertices with random or simple weights, plus an offset
    W point(pbt::Ctx& c) { W p; R sum = 0; bool half = c.b(); for (size_t i = 0; i < v.size(); i++) { R k = half ? c.i(-1, 3) * .5L : (R)c.range(-1, 2); if (i + 1 == v.size()) k = 1 - sum; sum += k; p = p + v[i] * k; } if (c.b()) { ref::Opt o; o.lattice = half; p = p + ref::point<N>(c, o) * (c.chance(1, 3) ? 1e-4L : 1.L); } if (c.chance(1, 8)) p = v[c.i(0, (int)v.size() - 1)]; return ref::rnd<T>(p); }
};
template<class T, index_t N> static void project(pbt::Ctx& c) {
    typedef ref::V<N> W; Case<T, N> k(c); const Simplex<T, N>& s = k.s; ref::Simp<N> r(k.v);
    for (int t = 0; t < 3; t++) {
        W p = k.point(c); LOG(c, "point " << p.str()); R sd = r.sd(p), tol = k.tol + p.mag() * std::numeric_limits<T>::epsilon() * 1e5L; Simplex<T, N> f;
        auto face = [&](const char* what, const W& q) { std::vector<W> fv; REQUIRE(f.n >= 1 && f.n <= (index_t)k.v.size(), what << " is onto a face of " << f.n << " vertices"); std::vector<bool> used(k.v.size()); for (index_t i = 0; i < f.n; i++) { W x = ref::from(f[i]); bool found = false; for (size_t j = 0; j < k.v.size() && !found; j++) if (!used[j] && f[i] == ref::to<T>(k.v[j])) { used[j] = found = true; } REQUIRE(found, what << " is onto a face with vertex " << x.str() << ", not one of the simplex's, or twice"); fv.push_back(x); } ref::Simp<N> fs(fv); REQUIRE(fs.dist(q) <= 4 * tol, what << " is " << q.str() << ", which is at " << fs.dist(q) << " from the face " << fs.str() << " it is said to be on"); };
        W q = ref::from(s.clip(ref::to<T>(p), &f)); R far = (q - p).mag(); REQUIRE(q.finite() && r.dist(q) <= 4 * tol && std::abs(far - std::max<R>(0, sd)) <= 4 * tol, "clipped to " << q.str() << ", at " << far << " from the point and " << r.dist(q) << " from the simplex; the point is at " << sd); face("the clipped point", q); if (sd < -tol) REQUIRE(f.n == N + 1 && s.clip(ref::to<T>(p)) == ref::to<T>(p), "a point inside is clipped to " << q.str());
        { Simplex<T, N> a = s; Vec<T, N> got = a.clip(ref::to<T>(p), &a); REQUIRE(a == f && got == ref::to<T>(q), "clipping with the simplex itself as output"); REQUIRE(s.clip(ref::to<T>(p)) == got, "clipping without a face"); }
        q = ref::from(s.project(ref::to<T>(p), &f)); far = (q - p).mag(); REQUIRE(q.finite() && std::abs(far - std::abs(sd)) <= 4 * tol && std::abs(r.sd(q)) <= 4 * tol, "projected to " << q.str() << ", at " << far << " from the point and " << r.sd(q) << " from the surface; the point is at " << sd); face("the projected point", q); REQUIRE(f.n <= N, "projected onto a full simplex"); REQUIRE(s.project(ref::to<T>(p)) == ref::to<T>(q), "projecting without a face"); { Simplex<T, N> a = s; Vec<T, N> got = a.project(ref::to<T>(p), &a); REQUIRE(a == f && got == ref::to<T>(q), "projecting with the simplex itself as output"); } c.label("inside", sd < 0); c.label("interior of a proper face", f.n > 1 && f.n < (index_t)k.v.size());
    }
}
template<class T, index_t N> static void contain(pbt::Ctx& c) {
    typedef ref::V<N> W; { Simplex<T, N> none; Vec<T, N> z((T)c.si(4)); REQUIRE(!none.is_facing(z) && !none.contains(z), "a simplex without vertices contains or faces a point"); } Case<T, N> k(c); const Simplex<T, N>& s = k.s; R slack = k.tol / k.size * 50;
    for (int t = 0; t < 4; t++) {
        W p = k.point(c); LOG(c, "point " << p.str()); std::vector<R> w; c.assume(ref::bary<N>(k.v, p, w)); R least = 1e30L; for (R x : w) least = std::min(least, x); bool got = s.contains(ref::to<T>(p)); std::string ws; for (R x : w) ws += " " + std::to_string((double)x); c.label("inside", least > 0); R sl = slack * (1 + p.mag() / (1 + k.size));
        if (k.v.size() <= N) REQUIRE(!got, "a simplex with fewer than N + 1 vertices contains a point"); else if (std::abs(least) > sl) REQUIRE(got == (least > 0), "weights" << ws << ", reported " << (got ? "inside" : "outside"));
        Vec<T, N> prm; bool facing = s.is_facing(ref::to<T>(p), &prm); if (k.v.size() == 1) { REQUIRE(facing, "every point faces a point"); continue; } if (std::abs(least) > sl) REQUIRE(facing == (least > 0), "the projection has weights" << ws << ", reported " << (facing ? "" : "not ") << "facing"); REQUIRE(s.is_facing(ref::to<T>(p)) == facing, "without parameters"); if (facing) for (size_t i = 1; i < w.size(); i++) REQUIRE(std::abs(prm[i - 1] - w[i]) <= sl, "parameter " << i - 1 << " is " << prm[i - 1] << " instead of " << w[i]);
    }
}
template<class T, index_t N> static void measure(pbt::Ctx& c) {
    Case<T, N> k(c, c.i(1, N + 1)); const Simplex<T, N>& s = k.s; ref::Simp<N> r(k.v); R m = r.vol(), tol = k.tol * std::pow(1 + 2 * k.size, (R)N) * 10; R vol = 0; if (k.v.size() == N + 1) { ref::M<N> e; for (int i = 0; i < N; i++) e.row[i] = k.v[i + 1] - k.v[0]; vol = e.det(); for (int i = 2; i <= N; i++) vol /= i; }
    REQUIRE(std::abs(s.volume() - vol) <= tol, "volume " << s.volume() << " instead of " << vol); if (k.v.size() > 1) REQUIRE(std::abs(s.measure() - m) <= tol, "measure " << s.measure() << " instead of " << m);
    // swapping two vertices turns a full simplex inside out and leaves the measure
    if (k.v.size() > 1) { int i = c.i(0, (int)k.v.size() - 1), j = (i + c.i(1, (int)k.v.size() - 1)) % k.v.size(); Simplex<T, N> t = s; std::swap(t[i], t[j]); REQUIRE(std::abs(t.volume() + vol) <= tol && std::abs(t.measure() - m) <= tol, "with vertices " << i << " and " << j << " exchanged: volume " << t.volume() << " and measure " << t.measure() << " instead of " << -vol << " and " << m); }
}
// rays through the inside of a facet: parameters and hit
template<class T, index_t N> static void trace(pbt::Ctx& c) {
    typedef ref::V<N> W; Case<T, N> k(c, N); W a = k.point(c), o = ref::rnd<T>(ref::point<N>(c, {})); W d = ref::rnd<T>((a - o) * c.logpos(.2, 5)); std::vector<R> wo; W foot; c.assume(ref::bary<N>(k.v, o, wo)); for (int i = 0; i < N; i++) foot = foot + k.v[i] * wo[i]; R high = (o - foot).mag(); c.assume(high > .2L && d.mag() > .1L); W e = a - o; std::vector<R> wa; c.assume(ref::bary<N>(k.v, a, wa)); W on; for (int i = 0; i < N; i++) on = on + k.v[i] * wa[i];
    // the line from o along d meets the plane of the simplex at o + d u
    W nn = (o - foot) * (1 / high); R speed = -d.dot(nn); c.assume(speed > .05L * d.mag()); R u = high / speed; W hit = o + d * u; std::vector<R> w; ref::bary<N>(k.v, hit, w); R least = 1e30L; for (R x : w) least = std::min(least, x); LOG(c, "ray from " << o.str() << " along " << d.str() << " meets the plane of the simplex at " << u << " at " << hit.str());
    R tol = k.tol / k.size * 1000 * (1 + hit.mag() + o.mag()); std::vector<Vec<T, N>> pts; for (auto& x : k.v) pts.push_back(ref::to<T>(x)); Vec<T, N - 1> uv; T at = -77; bool got = trace_simplex<T, N>(pts.data(), Ray<T, N>(ref::to<T>(o), ref::to<T>(d)), &uv, &at); c.label("hit", got); if (std::abs(least) > tol) REQUIRE(got == (least > 0), "least weight " << least << ", reported " << (got ? "hit" : "miss")); if (got) { REQUIRE(std::abs(at - u) <= tol * (1 + u), "reported at " << at); for (int i = 0; i + 1 < N; i++) REQUIRE(std::abs(uv[i] - w[i + 1]) <= tol, "parameter " << i << " is " << uv[i] << " instead of " << w[i + 1]); T at2 = 0; bool again = trace_simplex<T, N>(pts.data(), Ray<T, N>(ref::to<T>(o), ref::to<T>(d)), nullptr, &at2); REQUIRE(again && at2 == at, "without parameters"); }
}
// the vertex list
template<class T, index_t N> static void edits(pbt::Ctx& c) {
    typedef Vec<T, N> P; typedef Simplex<T, N> S; auto vert = [&]() { P p; for (int i = 0; i < N; i++) p[i] = c.si(2); return p; }; S s; std::vector<P> m; int n = c.i(0, 14); std::string log; auto same = [](const S& s, const std::vector<P>& m) { if (s.n != (index_t)m.size()) return false; for (size_t i = 0; i < m.size(); i++) if (!(s[i] == m[i]) || !(s.pts[i] == m[i])) return false; return true; };
    for (int k = 0; k < n; k++) {
        P p = vert(); int i = m.empty() ? 0 : c.i(0, (int)m.size() - 1); int op = c.i(0, m.empty() ? 4 : 9); S copy = s; std::vector<P> old = m; bool room = m.size() < N + 1;
        switch (op) {
            case 0: case 1: s.insert(p); if (room) m.push_back(p); log += " insert"; break;
            case 2: { S* back = &(s |= p); REQUIRE(back == &s, "result of |="); if (room) m.push_back(p); log += " |="; break; }
            case 3: { S t = s | p; std::vector<P> q = m; if (room) q.push_back(p); REQUIRE(same(t, q) && same(s, m), "after" << log << ": | with a vertex"); if (c.b()) { s = t; m = q; } log += " |"; break; }
            case 4: { std::vector<P> q; int k = c.i(0, N + 1); for (int j = 0; j < k; j++) q.push_back(vert()); s = S(q.data(), k); m = q; log += " array" + std::to_string(k); break; }
            case 5: s.exclude(i); m.erase(m.begin() + i); log += " exclude" + std::to_string(i); break;
            case 6: case 7: { const S t = s.excluded(i); std::vector<P> q = m; q.erase(q.begin() + i); REQUIRE(same(t, q) && same(s, m), "after" << log << ": vertex " << i << " excluded from a copy"); if (c.b()) { s = t; m = q; } log += " excluded" + std::to_string(i); break; }
            case 8: s[i] = p; m[i] = p; log += " set" + std::to_string(i); break;
            default: if (c.b()) { s = S({p, p + p, p}); m = {p, p + p, p}; if (m.size() > N + 1) m.resize(N + 1); log += " list3"; } else { std::initializer_list<P> l = {p, p, p + p, p, p, p, p + p}; s = S(l); m = l; if (m.size() > N + 1) m.resize(N + 1); log += " list7"; }
        }
        REQUIRE(same(s, m), "after" << log << ": " << s.n << " vertices instead of " << m.size() << ", or different ones"); REQUIRE((s == copy) == (m == old) && (s != copy) == (m != old) && (copy == s) == (m == old), "after" << log << ": comparison with the simplex before the last step"); if (m == old) REQUIRE(std::hash<S>()(s) == std::hash<S>()(copy), "after" << log << ": equal simplices hash differently");
    }
    LOG(c, log); c.nontrivial(n > 3); S st = S::standard_simplex(); REQUIRE(st.n == N + 1, "standard simplex"); for (int i = 0; i <= N; i++) for (int j = 0; j < N; j++) REQUIRE(st[i][j] == (i == j + 1 ? 1 : 0), "standard simplex");
}
// coincident vertices: zero volume, contains nothing
template<class T, index_t N> static void flat(pbt::Ctx& c) {
    ref::Opt o; o.lattice = true; std::vector<Vec<T, N>> v; for (int i = 0; i <= N; i++) v.push_back(ref::to<T>(ref::point<N>(c, o))); int i = c.i(0, N), j = (i + c.i(1, N)) % (N + 1); v[i] = v[j]; Simplex<T, N> s(v.data(), N + 1); Vec<T, N> p = ref::to<T>(ref::point<N>(c, o)); std::string log; for (auto& x : v) log += " " + ref::from(x).str(); LOG(c, "vertices" << log << ", point " << ref::from(p).str()); c.nontrivial(true); REQUIRE(std::abs(s.volume()) <= 1e4 * std::numeric_limits<T>::epsilon() * 1000, "volume " << s.volume()); std::vector<ref::V<N>> d; for (int k = 0; k <= N; k++) if (k != i) d.push_back(ref::from(v[k])); R away = ref::Simp<N>(d).dist(ref::from(p)); if (away > .1L) REQUIRE(!s.contains(p), "a simplex with coincident vertices contains " << ref::from(p).str() << ", at " << away << " from its points");
}
#if PART(0)
PROP(project_segment_or_triangle_2d, 20000) { project<D, 2>(c); }
PROP(project_up_to_tetrahedron_3d, 20000) { project<D, 3>(c); }
PROP(project_4d, 8000) { project<D, 4>(c); }
PROP(project_5d, 3000) { project<D, 5>(c); }
PROP(project_3d_float, 8000) { project<float, 3>(c); }
#endif
#if PART(1)
PROP(contains_2d, 20000) { contain<D, 2>(c); }
PROP(contains_3d, 20000) { contain<D, 3>(c); }
PROP(contains_4d, 12000) { contain<D, 4>(c); }
PROP(contains_5d, 6000) { contain<D, 5>(c); }
PROP(contains_3d_float, 8000) { contain<float, 3>(c); }
PROP(trace_line, 10000) { trace<D, 2>(c); }
PROP(trace_triangle, 10000) { trace<D, 3>(c); }
PROP(trace_tetrahedron, 6000) { trace<D, 4>(c); }
#endif
#if PART(2)
// a power of two times all coordinates changes nothing but the scale of the answers
template<class T, index_t N> static void scale(pbt::Ctx& c) {
    typedef ref::V<N> W; Case<T, N> q(c); const Simplex<T, N>& s = q.s; T k = scaled::factor<T>(c); const Simplex<T, N> b = scaled::by(s, k); ref::Simp<N> r(q.v); int n = (int)q.v.size(); c.nontrivial(k != 1 && n > 2);
    for (int t = 0; t < 3; t++) {
        W w = q.point(c); Vec<T, N> p = ref::to<T>(w), u = p * k; LOG(c, "point " << w.str() << ", everything times " << k); R tol = 4 * q.tol + 1e5L * w.mag() * std::numeric_limits<T>::epsilon(), sd = r.sd(w); Simplex<T, N> f, g; auto same = [&](const char* what, const Vec<T, N>& x, const Vec<T, N>& y) { R d = (ref::from(x) - ref::from(y / k)).mag(); REQUIRE(d <= tol, what << " is " << x << ", at " << k << " times the size " << y); REQUIRE(f.n == g.n, what << " is onto a face of " << f.n << " vertices, at " << k << " times the size of " << g.n); for (index_t i = 0; i < f.n; i++) REQUIRE(f[i] * k == g[i], what << " is onto another face at " << k << " times the size"); };
        { auto x = s.clip(p, &f), y = b.clip(u, &g); same("the clipped point", x, y); } { auto x = s.project(p, &f), y = b.project(u, &g); same("the projection", x, y); }
        if (n == N + 1 && std::abs(sd) > tol) REQUIRE(s.contains(p) == b.contains(u), "the point at distance " << sd << " is " << (s.contains(p) ? "" : "not ") << "contained, at " << k << " times the size it is " << (b.contains(u) ? "" : "not"));
        std::vector<R> wt; if (n < 2 || !ref::bary<N>(q.v, w, wt)) continue; R least = 1e30L; for (R x : wt) least = std::min(least, x); R slack = q.tol / q.size * 50 * (1 + w.mag() / (1 + q.size)); Vec<T, N> pa, pb; if (std::abs(least) > slack) { bool fa = s.is_facing(p, &pa), fb = b.is_facing(u, &pb); REQUIRE(fa == fb, "the point is " << (fa ? "" : "not ") << "facing, at " << k << " times the size it is " << (fb ? "" : "not")); if (fa) for (int i = 0; i + 1 < n; i++) REQUIRE(std::abs(pa[i] - pb[i]) <= 2 * slack, "parameter " << i << " is " << pa[i] << ", at " << k << " times the size " << pb[i]); }
    }
    R mk = std::pow((R)k, n - 1), mt = q.tol * std::pow(1 + 2 * q.size, (R)N) * 10; if (n > 1) REQUIRE(std::abs(b.measure() / mk - s.measure()) <= mt, "the measure is " << s.measure() << ", at " << k << " times the size " << b.measure()); if (n == N + 1) REQUIRE(std::abs(b.volume() / mk - s.volume()) <= mt, "the volume is " << s.volume() << ", at " << k << " times the size " << b.volume());
}
PROP(scale_2d, 8000) { scale<D, 2>(c); }
PROP(scale_3d, 8000) { scale<D, 3>(c); }
PROP(scale_4d, 3000) { scale<D, 4>(c); }
PROP(scale_3d_float, 4000) { scale<float, 3>(c); }
PROP(measure_2d, 12000) { measure<D, 2>(c); }
PROP(measure_3d, 12000) { measure<D, 3>(c); }
PROP(measure_4d, 10000) { measure<D, 4>(c); }
PROP(measure_5d, 6000) { measure<D, 5>(c); }
PROP(measure_3d_float, 6000) { measure<float, 3>(c); }
PROP(vertices_2d, 10000) { edits<D, 2>(c); }
PROP(vertices_3d, 10000) { edits<D, 3>(c); }
PROP(vertices_4d, 6000) { edits<float, 4>(c); }
EXAMPLE(vertex_of_flat_triangle) { Simplex<D, 2> s({Vec<D, 2>(-.5, 0), Vec<D, 2>(0, -1.5), Vec<D, 2>(0, -1.5)}); REQUIRE((!s.contains(Vec<D, 2>(-.5, 0))), "the triangle (-0.5, 0) (0, -1.5) (0, -1.5) is documented as empty, but contains (-0.5, 0)"); }
PROP(coincident_2d, 6000) { flat<D, 2>(c); }
PROP(coincident_3d, 6000) { flat<D, 3>(c); }
PROP(coincident_4d, 6000) { flat<D, 4>(c); }
#endif
