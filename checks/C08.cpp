// C08: vector geometry. Oracle: the Euclidean definitions evaluated in long double.
// thorough: 20
// rule: the vectors are neither parallel nor orthogonal / the angles are not degenerate
// parts: 2
#include "pbt.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
using namespace geom;
typedef long double L;
typedef std::vector<L> A;
static L dot(const A& a, const A& b) { L s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static L len(const A& a) { return std::sqrt(dot(a, a)); }
static A add(const A& a, const A& b, L k = 1) { A r = a; for (size_t i = 0; i < a.size(); i++) r[i] += k * b[i]; return r; }
static A mul(const A& a, L k) { A r = a; for (L& x : r) x *= k; return r; }
static A crs(const A& a, const A& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static A rodrigues(const A& v, const A& axis, L t) { A k = mul(axis, 1 / len(axis)); return add(add(mul(v, std::cos(t)), crs(k, v), std::sin(t)), k, dot(k, v) * (1 - std::cos(t))); }
static const L kPi = 3.14159265358979323846264338327950288L;
template<class T, index_t N> A up(const Vec<T,N>& v) { return A(v.begin(), v.end()); }
static std::string show(const A& a) { std::ostringstream o; o << std::setprecision(17) << "("; for (L x : a) o << (double)x << " "; o << ")"; return o.str(); }
#define NEAR(got, want, tol, what) do { L g_ = (got), w_ = (want), t_ = (tol); REQUIRE(std::fabs(g_ - w_) <= t_, what << ": " << (double)g_ << " instead of " << (double)w_ << ", tolerance " << (double)t_); } while (0)
#define VNEAR(got, want, tol, what) do { A g_ = up(got), w_ = (want); L t_ = (tol); for (size_t i_ = 0; i_ < w_.size(); i_++) REQUIRE(std::fabs(g_[i_] - w_[i_]) <= t_, what << ": " << show(g_) << " instead of " << show(w_) << ", tolerance " << (double)t_); } while (0)

// a vector: generic, axis aligned, or with repeated / zero components; never shorter than 2^-20 or longer than 2^20
template<class T, index_t N> Vec<T,N> gen(pbt::Ctx& c, bool scaled = true) {
    Vec<T,N> v; int kind = c.i(0, 5);
    for (index_t i = 0; i < N; i++) v[i] = kind == 0 ? (T)c.si(3) : kind == 1 ? (T)(c.si(8) * 0.5) : (T)c.range(-2, 2);
    if (kind == 2) { int k = c.i(0, N - 1); for (index_t i = 0; i < N; i++) if (i != k) v[i] = 0; }
    if (kind == 3) v[c.i(0, N - 1)] = 0;
    if (scaled && c.chance(1, 3)) { T s = (T)std::exp2((double)c.si(15)); for (index_t i = 0; i < N; i++) v[i] *= s; }
    c.assume(len(up(v)) > 1e-6); return v;
}
template<class T> T angle(pbt::Ctx& c) { switch (c.i(0, 3)) { case 0: return (T)(c.si(8) * M_PI / 4); case 1: return (T)c.range(-0.01, 0.01); default: return (T)c.range(-7, 7); } }

template<class T, index_t N> void any_dim(pbt::Ctx& c) {
    typedef Vec<T,N> V; const L e = std::numeric_limits<T>::epsilon();
    V a = gen<T,N>(c), b = c.chance(1, 6) ? (V)(a * (T)c.range(-2, 2)) : gen<T,N>(c); c.assume(len(up(b)) > 1e-6);
    A x = up(a), y = up(b); L la = len(x), lb = len(y), d = dot(x, y);
    LOG(c, "a=" << a << " b=" << b);
    NEAR(a.dot(b), d, 2 * N * e * la * lb, "dot product"); NEAR(b.dot(a), d, 2 * N * e * la * lb, "dot product reversed");
    NEAR(a.mag(), la, 2 * N * e * la, "length"); NEAR(a.mag2(), la * la, 2 * N * e * la * la, "squared length");
    L dd = len(add(x, y, -1)); NEAR(a.dist(b), dd, 2 * N * e * dd + e * (la + lb), "distance"); NEAR(b.dist(a), dd, 2 * N * e * dd + e * (la + lb), "distance reversed"); NEAR(a.dist2(b), dd * dd, 4 * e * (N * dd * dd + dd * (la + lb)), "squared distance");
    VNEAR(a.unit(), mul(x, 1 / la), 2 * N * e, "unit vector");
    { T m = (T)c.range(-3, 3); VNEAR(a.with_length(m), mul(x, m / la), 4 * N * e * std::fabs(m), "vector of given length"); REQUIRE(V().with_length(m) == V(), "zero vector given a length"); }
    // angle: its cosine is the normalised dot product
    { L t = a.angle_to(b); REQUIRE(t >= 0 && t <= kPi * (1 + 2 * e), "angle " << (double)t << " out of range"); NEAR(std::cos(t), d / (la * lb), 6 * N * e, "cosine of the angle between vectors"); L t2 = b.angle_to(a); NEAR(t2, t, 8 * std::sqrt(N * e), "angle reversed"); }
    // projection
    { A p = mul(y, d / (lb * lb)); V q = a.project_on(b); VNEAR(q, p, 6 * N * e * la, "projection"); NEAR(dot(add(x, up(q), -1), y), 0, 8 * N * e * la * lb, "rejection is not orthogonal to the axis"); NEAR(a.fraction_on(b), d / (lb * lb), 6 * N * e * la / lb, "fraction along the axis"); REQUIRE(a.project_on(V()) == V(), "projection on the zero vector"); }
    // reflection
    { A n = mul(y, 1 / lb), r = add(mul(n, 2 * dot(x, n)), x, -1); VNEAR(a.reflect_about(b), r, 12 * N * e * la, "reflection about an axis"); VNEAR(a.bounce_on(b), mul(r, -1), 12 * N * e * la, "bounce off a surface");
      NEAR(a.reflect_about(b).mag(), la, 12 * N * e * la, "length after reflection"); VNEAR(a.reflect_about(b).reflect_about(b), x, 24 * N * e * la, "reflecting twice"); }
    // rays (treated as full lines by project, dist2 and sdf)
    V o = gen<T,N>(c, false); Ray<T,N> r(o, b); A O = up(o); T s = (T)c.range(-5, 5); L lo = len(O);
    VNEAR(r.at_multiple(s), add(O, y, s), 4 * e * (lo + std::fabs(s) * lb), "ray point at a multiple"); VNEAR(r * s, add(O, y, s), 4 * e * (lo + std::fabs(s) * lb), "ray * s"); VNEAR(s * r, add(O, y, s), 4 * e * (lo + std::fabs(s) * lb), "s * ray");
    VNEAR(r.at_distance(s), add(O, y, s / lb), 4 * N * e * (lo + std::fabs(s)), "ray point at a distance");
    { Ray<T,N> m = -r; VNEAR(m.origin, O, 0, "origin of a reversed ray"); VNEAR(m.direction, mul(y, -1), 0, "direction of a reversed ray"); Ray<T,N+1> w = r.template resized<N+1>(); VNEAR(w.origin, [&]{ A k = O; k.push_back(0); return k; }(), 0, "resized ray"); VNEAR(w.direction, [&]{ A k = y; k.push_back(0); return k; }(), 0, "resized ray"); }
    { A q = add(x, O, -1); L lq = len(q), sc = la + lo; A foot = add(O, y, dot(q, y) / (lb * lb)); L dist = len(add(x, foot, -1));
      VNEAR(r.project(a), foot, 12 * N * e * sc, "projection onto a ray"); NEAR(r.sdf(a), dist, 12 * N * e * sc, "distance to a ray"); NEAR(r.dist2(a), dist * dist, 24 * N * e * sc * (dist + 12 * N * e * sc), "squared distance to a ray"); (void)lq;
      V on = r.at_multiple(s); NEAR(r.sdf(on), 0, 12 * N * e * (2 * lo + std::fabs(s) * lb), "distance of a point of the ray"); }
    c.nontrivial(std::fabs(d) > 1e-3L * la * lb && std::fabs(d) < 0.999L * la * lb); c.label("parallel", std::fabs(d) > 0.9999L * la * lb); c.label("perpendicular", std::fabs(d) < 1e-9L * la * lb);
}
template<class T> void two_d(pbt::Ctx& c) {
    typedef Vec<T,2> V; const L e = std::numeric_limits<T>::epsilon();
    V a = gen<T,2>(c), o = gen<T,2>(c); A x = up(a), O = up(o); L la = len(x), lo = len(O); T t = angle<T>(c); L ct = std::cos((L)t), st = std::sin((L)t);
    LOG(c, "a=" << a << " centre=" << o << " angle=" << t);
    A rot{ct * x[0] - st * x[1], st * x[0] + ct * x[1]};
    VNEAR(a.rotated(t), rot, 8 * e * la, "rotation in the plane");
    { A q = add(x, O, -1), w = add(O, A{ct * q[0] - st * q[1], st * q[0] + ct * q[1]}); VNEAR(a.rotate(o, t), w, 16 * e * (la + lo), "rotation in the plane about a centre"); }
    NEAR(dot(up(a.left_perpendicular()), x), 0, 0 + 4 * e * la * la, "left perpendicular"); { V p = a.left_perpendicular(); REQUIRE((L)a.x * p.y - (L)a.y * p.x > 0, "left perpendicular is not counterclockwise"); V q = a.right_perpendicular(); REQUIRE((L)a.x * q.y - (L)a.y * q.x < 0, "right perpendicular is not clockwise"); VNEAR(q, mul(up(p), -1), 0, "left and right perpendicular"); }
    // polar
    V p = a.to_polar(); NEAR(p[0], la, 4 * e * la, "polar radius"); L th = std::atan2(x[1], x[0]); if (th < 0) th += 2 * kPi; NEAR(p[1], th, 8 * e * (1 + th), "polar angle"); REQUIRE(p[1] >= 0 && (L)p[1] <= 2 * kPi * (1 + e), "polar angle " << p[1] << " out of range"); NEAR(a.angle(), th, 8 * e * (1 + th), "angle from the x axis");
    VNEAR(p.from_polar(), x, 32 * e * la, "polar round trip"); { T r = (T)c.range(0.1, 5); VNEAR(V(r, t).from_polar(), (A{r * ct, r * st}), 8 * e * r, "point from polar coordinates"); }
    c.nontrivial(std::fabs(x[0] * x[1]) > 0 && std::fabs(ct * st) > 1e-3); c.label("y < 0", a.y < 0); c.label("x < 0", a.x < 0);
}
template<class T> void three_d(pbt::Ctx& c) {
    typedef Vec<T,3> V; const L e = std::numeric_limits<T>::epsilon();
    V a = gen<T,3>(c), b = gen<T,3>(c), o = gen<T,3>(c, false); A x = up(a), y = up(b), O = up(o); L la = len(x), lb = len(y), lo = len(O); T t = angle<T>(c);
    LOG(c, "a=" << a << " b=" << b << " o=" << o << " angle=" << t);
    A k = crs(x, y); VNEAR(a.cross(b), k, 4 * e * la * lb, "cross product"); VNEAR(a ^ b, k, 4 * e * la * lb, "cross product operator"); VNEAR(b.cross(a), mul(k, -1), 4 * e * la * lb, "cross product reversed");
    A rot = rodrigues(x, y, t);
    VNEAR(a.rotate(b, t), rot, 40 * e * la, "rotation about an axis"); VNEAR(a.rotate(b.x, b.y, b.z, t), rot, 40 * e * la, "rotation about axis components"); NEAR(a.rotate(b, t).mag(), la, 40 * e * la, "length after rotation");
    { A w = add(O, rodrigues(add(x, O, -1), y, t)); VNEAR(a.rotate(b, o, t), w, 80 * e * (la + lo), "rotation about an axis through a centre"); VNEAR(a.rotate(b.x, b.y, b.z, o.x, o.y, o.z, t), w, 80 * e * (la + lo), "rotation about axis and centre components"); }
    // spherical: conditioning of the elevation is 1/sin
    { V s = a.to_spherical(); NEAR(s[0], la, 4 * e * la, "spherical radius"); L cz = x[2] / la; NEAR(std::cos((L)s[1]), cz, 6 * e, "cosine of the elevation"); REQUIRE(s[1] >= 0 && (L)s[1] <= kPi * (1 + e), "elevation out of range"); if (std::hypot(x[0], x[1]) > 0) NEAR(s[2], std::atan2(x[1], x[0]), 8 * e, "azimuth");
      L sn = std::sqrt(std::max<L>(0, 1 - cz * cz)); VNEAR(V::from_spherical(s[0], s[1], s[2]), x, la * std::min(16 * e / std::max(sn, std::sqrt(e)), 8 * std::sqrt(e)) + 32 * e * la, "spherical round trip"); 
      T r = (T)c.range(0.1, 4), el = (T)c.range(0, M_PI), az = (T)c.range(-M_PI, M_PI); L se = std::sin((L)el); VNEAR(V::from_spherical(r, el, az), (A{r * se * std::cos((L)az), r * se * std::sin((L)az), r * std::cos((L)el)}), 8 * e * r, "point from spherical coordinates"); }
    // alignment of unit vectors
    { V f = a.unit(), g = b.unit(); A F = up(f), G = up(g); L cs = dot(F, G); if (cs > -0.99L) { L tol = 40 * e * (1 + 1 / (1 + cs)); V v = o; VNEAR(V(f).align(f, g), G, tol, "alignment does not carry the first direction to the second");
        A q = crs(F, G); L s = len(q); A w = s > 1e-9L ? rodrigues(O, q, std::atan2(s, cs)) : O; if (s > 1e-9L || cs > 0) VNEAR(v.align(f, g), w, 4 * tol * (lo + 1) + (s <= 1e-9L ? 2e-9L * lo : 0), "alignment is not the shortest rotation"); } }
    { V p = o; A n = crs(add(y, O, -1), add(x, O, -1)); L ln = len(n), sc = (lb + lo) * (la + lo); if (ln > 1e-2L * sc) VNEAR(triangle_normal(p, b, a), mul(n, 1 / ln), 64 * e * sc / ln, "triangle normal"); }
    c.nontrivial(len(k) > 1e-3L * la * lb && std::fabs(std::sin((L)t)) > 1e-3L);
}
#if PART(0)
PROP(any_dimension_double, 300000) { switch (c.i(2, 6)) { case 2: return any_dim<double,2>(c); case 3: return any_dim<double,3>(c); case 4: return any_dim<double,4>(c); case 5: return any_dim<double,5>(c); default: return any_dim<double,6>(c); } }
PROP(plane_double, 300000) { two_d<double>(c); }
PROP(space_double, 300000) { three_d<double>(c); }
#endif
#if PART(1)
PROP(any_dimension_float, 300000) { switch (c.i(2, 5)) { case 2: return any_dim<float,2>(c); case 3: return any_dim<float,3>(c); case 4: return any_dim<float,4>(c); default: return any_dim<float,5>(c); } }
PROP(plane_float, 300000) { two_d<float>(c); }
PROP(space_float, 300000) { three_d<float>(c); }
#endif
#if PART(1)
// plain numbers and vectors as points of a space of one or more dimensions
template<class T, index_t N> void points(pbt::Ctx& c) {
    typedef PointType<T,N> P; typedef typename P::point_t Pt; const L e = std::numeric_limits<T>::epsilon(); T x[N], y[N]; for (index_t i = 0; i < N; i++) { x[i] = c.b() ? (T)c.si(4) : (T)c.range(-5, 5); y[i] = c.b() ? (T)c.si(4) : (T)c.range(-5, 5); }
    Pt p = P::from_ptr(x), q = P::from_ptr(y); A a(x, x + N), b(y, y + N); LOG(c, "p=" << p << " q=" << q); static_assert(std::is_same_v<Pt, std::conditional_t<N == 1, T, Vec<T, N == 1 ? 2 : N>>> && VectorDimension<Pt>::N == N && std::is_same_v<typename CoordType<Pt>::coord_t, T>);
    for (index_t i = 0; i < N; i++) REQUIRE(P::iterator(p)[i] == x[i] && P::iterator((const Pt&)p)[i] == x[i] && P::iterator(q)[i] == y[i], "component " << i << " of a point made from an array");
    NEAR(P::dot(p, q), dot(a, b), 2 * N * e * len(a) * len(b), "dot product of points"); NEAR(P::mag2(p), dot(a, a), 2 * N * e * dot(a, a), "squared length of a point"); NEAR(P::mag(p), len(a), 2 * N * e * len(a), "length of a point");
    if (len(a) > 1e-3) { Pt u = P::unit(p); for (index_t i = 0; i < N; i++) NEAR(P::iterator(u)[i], a[i] / len(a), 4 * N * e, "unit point, axis " << i); }
    Vec<T,N + 1> big; for (index_t i = 0; i < N; i++) big[i] = y[i]; big[N] = (T)99; Pt s = P::from_larger_vector(big); for (index_t i = 0; i < N; i++) REQUIRE(P::iterator(s)[i] == y[i], "axis " << i << " of a point cut from a larger vector");
    index_t k = c.i(0, N - 1); P::iterator(p)[k] = (T)7.5; for (index_t i = 0; i < N; i++) REQUIRE(P::iterator(p)[i] == (i == k ? (T)7.5 : x[i]), "writing one component of a point"); c.nontrivial(x[0] != 0 && y[0] != 0 && x[0] != y[0]);
}
PROP(points, 60000) { switch (c.i(0, 6)) { case 0: points<double,1>(c); break; case 1: points<float,1>(c); break; case 2: points<double,2>(c); break; case 3: points<float,3>(c); break; case 4: points<double,4>(c); break; case 5: points<double,5>(c); break; default: points<double,3>(c); } }
#endif
