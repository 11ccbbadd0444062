// Reference shapes: signed distance (or a convex violation function), support function and feature points of the
// shapes of geomc/shape, written from their definitions in extended precision, and generators of (library shape,
// reference shape) pairs.
#pragma once
#include "pbt.h"
#include <memory>
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Shape.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Plane.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Dilated.h>

namespace ref {
typedef long double R;
template<index_t N> struct V {
    R a[N] = {};
    R& operator[](index_t i) { return a[i]; } R operator[](index_t i) const { return a[i]; }
    V operator+(const V& o) const { V r; for (index_t i = 0; i < N; i++) r.a[i] = a[i] + o.a[i]; return r; }
    V operator-(const V& o) const { V r; for (index_t i = 0; i < N; i++) r.a[i] = a[i] - o.a[i]; return r; }
    V operator*(R k) const { V r; for (index_t i = 0; i < N; i++) r.a[i] = a[i] * k; return r; }
    R dot(const V& o) const { R s = 0; for (index_t i = 0; i < N; i++) s += a[i] * o.a[i]; return s; }
    R mag() const { return std::sqrt(dot(*this)); }
    bool finite() const { for (index_t i = 0; i < N; i++) if (!std::isfinite(a[i])) return false; return true; }
    std::string str() const { std::ostringstream o; o << std::setprecision(12) << "("; for (index_t i = 0; i < N; i++) o << (i ? ", " : "") << (double)a[i]; o << ")"; return o.str(); }
};
template<index_t N> V<N - 1> cut(const V<N>& v) { V<N - 1> r; for (index_t i = 0; i + 1 < N; i++) r[i] = v[i]; return r; }
template<index_t N> V<N + 1> ext(const V<N>& v, R h) { V<N + 1> r; for (index_t i = 0; i < N; i++) r[i] = v[i]; r[N] = h; return r; }
template<class T, index_t N> V<N> from(const geom::Vec<T, N>& v) { V<N> r; for (index_t i = 0; i < N; i++) r[i] = v[i]; return r; }
template<class T, index_t N> geom::Vec<T, N> to(const V<N>& v) { geom::Vec<T, N> r; for (index_t i = 0; i < N; i++) r[i] = (T)v[i]; return r; }
template<index_t N> struct Shape {
    virtual ~Shape() {}
    virtual R sd(const V<N>& p) const = 0;            // signed distance if exact(), else a convex function negative inside, positive outside
    virtual R h(const V<N>& d) const = 0;             // largest dot product with d over the shape
    virtual void feats(std::vector<V<N>>& out) const = 0; // vertices, centers, axis ends...
    virtual std::string str() const = 0;
    virtual bool exact() const { return true; }
    virtual bool solid() const { return true; }       // has an interior
    virtual bool crisp() const { return false; }      // at multiples of a half, sane arithmetic on this shape is exact
    virtual R amb(const V<N>& p) const { return 1e30L; } // distance to the set from which nearest points spread in all directions by rounding (centers, axes)
};
template<index_t N> using P = std::shared_ptr<Shape<N>>;
template<index_t N> struct Cap;
inline R combine(R a, R b) { return a > 0 && b > 0 ? std::sqrt(a * a + b * b) : std::max(a, b); } // signed distance to a product
template<index_t N> struct Ball : Shape<N> {
    V<N> c; R r; Ball(V<N> c, R r) : c(c), r(r) {}
    bool crisp() const override { return Cap<N>::exact(c) && r * 2 == std::round(r * 2); }
    R sd(const V<N>& p) const override { return (p - c).mag() - r; }
    R h(const V<N>& d) const override { return c.dot(d) + r * d.mag(); }
    void feats(std::vector<V<N>>& o) const override { o.push_back(c); for (index_t i = 0; i < N; i++) { V<N> e; e[i] = r; o.push_back(c + e); o.push_back(c - e); } }
    std::string str() const override { std::ostringstream o; o << "sphere about " << c.str() << " of radius " << (double)r; return o.str(); }
    bool solid() const override { return r > 0; }
};
template<index_t N> struct Box : Shape<N> {
    V<N> lo, hi; Box(V<N> lo, V<N> hi) : lo(lo), hi(hi) {}
    bool crisp() const override { return Cap<N>::exact(lo) && Cap<N>::exact(hi); }
    R sd(const V<N>& p) const override { R m = -1e30L, s = 0; for (index_t i = 0; i < N; i++) { R q = std::max(lo[i] - p[i], p[i] - hi[i]); m = std::max(m, q); if (q > 0) s += q * q; } return m > 0 ? std::sqrt(s) : m; }
    R h(const V<N>& d) const override { R s = 0; for (index_t i = 0; i < N; i++) s += std::max(lo[i] * d[i], hi[i] * d[i]); return s; }
    void feats(std::vector<V<N>>& o) const override { for (int k = 0; k < (1 << N); k++) { V<N> v; for (index_t i = 0; i < N; i++) v[i] = k >> i & 1 ? hi[i] : lo[i]; o.push_back(v); } o.push_back((lo + hi) * .5L); }
    std::string str() const override { return "box " + lo.str() + " to " + hi.str(); }
    bool solid() const override { for (index_t i = 0; i < N; i++) if (!(lo[i] < hi[i])) return false; return true; }
};
template<index_t N> struct Cap : Shape<N> {
    V<N> a, b; R r; Cap(V<N> a, V<N> b, R r) : a(a), b(b), r(r) {}
    bool crisp() const override { return aligned(b - a) && exact(a) && exact(b) && r * 2 == std::round(r * 2); }
    R amb(const V<N>& p) const override { V<N> u = b - a; if (aligned(u) && exact(p)) return 1e30L; return sd(p) + r; }
    static bool exact(const V<N>& p) { for (index_t i = 0; i < N; i++) if (p[i] * 2 != std::round(p[i] * 2)) return false; return true; }
    static bool aligned(const V<N>& u) { int n = 0; R l = 0; for (index_t i = 0; i < N; i++) if (u[i] != 0) { n++; l = std::abs(u[i]); } int e; return n == 0 || (n == 1 && std::frexp(l, &e) == .5L); }
    R sd(const V<N>& p) const override { V<N> u = b - a; R m = u.dot(u), t = m > 0 ? (p - a).dot(u) / m : 0; t = std::min<R>(1, std::max<R>(0, t)); return (p - a - u * t).mag() - r; }
    R h(const V<N>& d) const override { return std::max(a.dot(d), b.dot(d)) + r * d.mag(); }
    void feats(std::vector<V<N>>& o) const override { o.push_back(a); o.push_back(b); o.push_back((a + b) * .5L); V<N> u = b - a; if (u.mag() > 0) { u = u * (r / u.mag()); o.push_back(a - u); o.push_back(b + u); } }
    std::string str() const override { std::ostringstream o; o << "capsule " << a.str() << " to " << b.str() << " of radius " << (double)r; return o.str(); }
    bool solid() const override { return r > 0; }
};
template<index_t N> struct Cyl : Shape<N> {
    V<N> a, b; R r; Cyl(V<N> a, V<N> b, R r) : a(a), b(b), r(r) {}
    bool crisp() const override { return Cap<N>(a, b, r).crisp(); }
    R amb(const V<N>& p) const override { V<N> u = b - a; if (Cap<N>::aligned(u) && Cap<N>::exact(p)) return 1e30L; u = u * (1 / u.mag()); V<N> q = p - a; return (q - u * u.dot(q)).mag(); }
    R sd(const V<N>& p) const override { V<N> u = b - a; R L = u.mag(); u = u * (1 / L); R t = (p - a).dot(u); R d = (p - a - u * t).mag(); return combine(std::max(-t, t - L), d - r); }
    R h(const V<N>& d) const override { V<N> u = b - a; u = u * (1 / u.mag()); return std::max(a.dot(d), b.dot(d)) + r * (d - u * d.dot(u)).mag(); }
    void feats(std::vector<V<N>>& o) const override { o.push_back(a); o.push_back(b); o.push_back((a + b) * .5L); V<N> u = b - a; u = u * (1 / u.mag()); for (index_t i = 0; i < N; i++) { V<N> e; e[i] = 1; e = e - u * u[i]; if (e.mag() < .1L) continue; e = e * (r / e.mag()); o.push_back(a + e); o.push_back(b - e); o.push_back(b + e); o.push_back((a + b) * .5L + e); } }
    std::string str() const override { std::ostringstream o; o << "cylinder " << a.str() << " to " << b.str() << " of radius " << (double)r; return o.str(); }
};
template<index_t N> struct Ext : Shape<N> {
    P<N - 1> base; R lo, hi; Ext(P<N - 1> b, R lo, R hi) : base(b), lo(lo), hi(hi) {}
    bool crisp() const override { return base->crisp() && lo * 2 == std::round(lo * 2) && hi * 2 == std::round(hi * 2); }
    R amb(const V<N>& p) const override { return base->amb(cut(p)); }
    R sd(const V<N>& p) const override { return combine(base->sd(cut(p)), std::max(lo - p[N - 1], p[N - 1] - hi)); }
    R h(const V<N>& d) const override { return base->h(cut(d)) + std::max(d[N - 1] * lo, d[N - 1] * hi); }
    void feats(std::vector<V<N>>& o) const override { std::vector<V<N - 1>> b; base->feats(b); for (auto& v : b) { o.push_back(ext(v, lo)); o.push_back(ext(v, hi)); o.push_back(ext(v, (lo + hi) / 2)); } }
    std::string str() const override { std::ostringstream o; o << "extrusion over [" << (double)lo << ", " << (double)hi << "] of " << base->str(); return o.str(); }
    bool exact() const override { return base->exact(); } bool solid() const override { return base->solid() && lo < hi; }
};
template<index_t N> struct Dil : Shape<N> {
    P<N> base; R r; Dil(P<N> b, R r) : base(b), r(r) {}
    bool crisp() const override { return base->crisp() && r * 2 == std::round(r * 2); }
    R amb(const V<N>& p) const override { return std::min(base->amb(p), std::abs(base->sd(p))); } // the surface of the core
    R sd(const V<N>& p) const override { return base->sd(p) - r; }
    R h(const V<N>& d) const override { return base->h(d) + r * d.mag(); }
    void feats(std::vector<V<N>>& o) const override { base->feats(o); }
    std::string str() const override { std::ostringstream o; o << "dilation by " << (double)r << " of " << base->str(); return o.str(); }
    bool exact() const override { return base->exact(); } bool solid() const override { return base->solid() || r > 0; }
};
template<index_t N> struct Fru : Shape<N> {
    P<N - 1> base; R lo, hi; // the height range, already cut at the origin
    Fru(P<N - 1> b, R l, R h) : base(b), lo(l < 0 && h > 0 ? 0 : l), hi(h) {}
    R sd(const V<N>& p) const override { R z = p[N - 1], q = std::max(lo - z, z - hi), side = lo < 0 ? -1 : 1; V<N - 1> b = cut(p); if (z * side > 0) return std::max(q, std::abs(z) * base->sd(b * (1 / z))); return std::max(q, b.mag()); }
    R h(const V<N>& d) const override { R side = lo < 0 ? -1 : 1; R k = base->h(cut(d) * side) * side + d[N - 1]; return std::max(lo * k, hi * k); }
    void feats(std::vector<V<N>>& o) const override { std::vector<V<N - 1>> b; base->feats(b); for (auto& v : b) for (R z : {lo, hi, (lo + hi) / 2}) o.push_back(ext(v, 1) * z); o.push_back(V<N>()); }
    std::string str() const override { std::ostringstream o; o << "frustum over [" << (double)lo << ", " << (double)hi << "] of " << base->str(); return o.str(); }
    bool exact() const override { return false; } bool solid() const override { return base->solid() && lo < hi; }
};
// linear maps
template<index_t N> struct M {
    V<N> row[N]; V<N> t; M() { for (index_t i = 0; i < N; i++) row[i][i] = 1; }
    V<N> lin(const V<N>& v) const { V<N> r; for (index_t i = 0; i < N; i++) r[i] = row[i].dot(v); return r; }
    V<N> operator()(const V<N>& v) const { return lin(v) + t; }
    V<N> tr(const V<N>& v) const { V<N> r; for (index_t i = 0; i < N; i++) for (index_t j = 0; j < N; j++) r[j] += row[i][j] * v[i]; return r; }
    M operator*(const M& o) const { M r; for (index_t i = 0; i < N; i++) for (index_t j = 0; j < N; j++) { R s = 0; for (index_t k = 0; k < N; k++) s += row[i][k] * o.row[k][j]; r.row[i][j] = s; } r.t = lin(o.t) + t; return r; }
    static bool solve(V<N> a[N], V<N> b[N]) { for (index_t k = 0; k < N; k++) { index_t p = k; for (index_t i = k + 1; i < N; i++) if (std::abs(a[i][k]) > std::abs(a[p][k])) p = i; if (std::abs(a[p][k]) < 1e-15L) return false; std::swap(a[p], a[k]); std::swap(b[p], b[k]); for (index_t i = 0; i < N; i++) if (i != k) { R f = a[i][k] / a[k][k]; a[i] = a[i] - a[k] * f; b[i] = b[i] - b[k] * f; } } for (index_t k = 0; k < N; k++) b[k] = b[k] * (1 / a[k][k]); return true; }
    M inverse() const { M r, s = *this; if (!solve(s.row, r.row)) throw std::runtime_error("singular reference transform"); r.t = r.lin(t) * -1; return r; }
    R det() const { V<N> a[N]; for (index_t i = 0; i < N; i++) a[i] = row[i]; R d = 1; for (index_t k = 0; k < N; k++) { index_t p = k; for (index_t i = k + 1; i < N; i++) if (std::abs(a[i][k]) > std::abs(a[p][k])) p = i; if (a[p][k] == 0) return 0; if (p != k) { std::swap(a[p], a[k]); d = -d; } d *= a[k][k]; for (index_t i = k + 1; i < N; i++) a[i] = a[i] - a[k] * (a[i][k] / a[k][k]); } return d; }
    std::string str() const { std::string s = "["; for (index_t i = 0; i < N; i++) s += row[i].str(); return s + "|" + t.str() + "]"; }
};
template<index_t N> struct Xfd : Shape<N> {
    P<N> base; M<N> m, inv; Xfd(P<N> b, M<N> m) : base(b), m(m), inv(m.inverse()) {}
    R sd(const V<N>& p) const override { return base->sd(inv(p)); }
    R h(const V<N>& d) const override { return base->h(m.tr(d)) + m.t.dot(d); }
    void feats(std::vector<V<N>>& o) const override { std::vector<V<N>> b; base->feats(b); for (auto& v : b) o.push_back(m(v)); }
    std::string str() const override { return base->str() + " under " + m.str(); }
    bool exact() const override { return false; } bool solid() const override { return base->solid(); }
};
// barycentric coordinates of the projection of p onto the affine hull of pts; false if degenerate
template<index_t N> bool bary(const std::vector<V<N>>& pts, const V<N>& p, std::vector<R>& w) {
    int n = (int)pts.size() - 1; std::vector<std::vector<R>> g(n, std::vector<R>(n + 1)); for (int i = 0; i < n; i++) { V<N> u = pts[i + 1] - pts[0]; for (int j = 0; j < n; j++) g[i][j] = u.dot(pts[j + 1] - pts[0]); g[i][n] = u.dot(p - pts[0]); }
    R big = 0; for (int i = 0; i < n; i++) big = std::max(big, g[i][i]);
    for (int k = 0; k < n; k++) { int b = k; for (int i = k + 1; i < n; i++) if (std::abs(g[i][k]) > std::abs(g[b][k])) b = i; if (std::abs(g[b][k]) <= 1e-14L * big) return false; std::swap(g[b], g[k]); for (int i = 0; i < n; i++) if (i != k) { R f = g[i][k] / g[k][k]; for (int j = k; j <= n; j++) g[i][j] -= f * g[k][j]; } }
    w.assign(n + 1, 0); R s = 0; for (int i = 0; i < n; i++) { w[i + 1] = g[i][n] / g[i][i]; s += w[i + 1]; } w[0] = 1 - s; return true;
}
template<index_t N> struct Simp : Shape<N> {
    std::vector<V<N>> v; Simp(std::vector<V<N>> v) : v(v) {}
    // distance to the convex hull of the subset of vertices given by mask, by trying all its subsets
    R dist(const V<N>& p, V<N>* near = nullptr) const { R best = 1e30L; int n = v.size(); for (int m = 1; m < (1 << n); m++) { std::vector<V<N>> s; for (int i = 0; i < n; i++) if (m >> i & 1) s.push_back(v[i]); std::vector<R> w; if (!bary<N>(s, p, w)) continue; bool in = true; V<N> q; for (size_t i = 0; i < s.size(); i++) { in = in && w[i] >= -1e-13L; q = q + s[i] * w[i]; } if (!in) continue; R d = (p - q).mag(); if (d < best) { best = d; if (near) *near = q; } } return best; }
    bool full() const { return v.size() == N + 1; }
    R sd(const V<N>& p) const override { if (full()) { std::vector<R> w; if (bary<N>(v, p, w)) { bool in = true; for (R x : w) in = in && x >= 0; if (in) { R best = 1e30L; for (int k = 0; k <= N; k++) { std::vector<V<N>> f; for (int i = 0; i <= N; i++) if (i != k) f.push_back(v[i]); std::vector<R> u; if (!bary<N>(f, p, u)) continue; V<N> q; for (int i = 0; i < N; i++) q = q + f[i] * u[i]; best = std::min(best, (p - q).mag()); } return -best; } } } return dist(p); }
    R h(const V<N>& d) const override { R m = -1e30L; for (auto& x : v) m = std::max(m, x.dot(d)); return m; }
    void feats(std::vector<V<N>>& o) const override { V<N> s; for (auto& x : v) { o.push_back(x); s = s + x; } o.push_back(s * (R(1) / v.size())); for (size_t i = 1; i < v.size(); i++) o.push_back((v[i] + v[i - 1]) * .5L); }
    std::string str() const override { std::string s = "simplex"; for (auto& x : v) s += " " + x.str(); return s; }
    bool solid() const override { return full(); }
    R vol() const { // measure in the spanned space
        int n = (int)v.size() - 1; if (n == 0) return 0; std::vector<V<N>> q; R k = 1; for (int i = 1; i <= n; i++) { V<N> u = v[i] - v[0]; for (int t = 0; t < 2; t++) for (auto& e : q) u = u - e * u.dot(e); R l = u.mag(); k *= l / i; if (l == 0) return 0; q.push_back(u * (1 / l)); } return k; }
};
template<index_t N> R least_edge(const std::vector<V<N>>& v) { // least distance of a vertex to the affine hull of the others, relative to the size
    R worst = 1e30L, size = 0; for (auto& a : v) for (auto& b : v) size = std::max(size, (a - b).mag()); if (v.size() < 2) return 1; for (size_t k = 0; k < v.size(); k++) { std::vector<V<N>> f; for (size_t i = 0; i < v.size(); i++) if (i != k) f.push_back(v[i]); std::vector<R> w; if (!bary<N>(f, v[k], w)) return 0; V<N> q; for (size_t i = 0; i < f.size(); i++) q = q + f[i] * w[i]; worst = std::min(worst, (v[k] - q).mag()); } return size > 0 ? worst / size : 0; }

// ---------------------------------------------------------------- generators
struct Opt { bool flat = false; bool lattice = false; };           // flat: zero sizes allowed; lattice: halves only
inline R coord(pbt::Ctx& c, const Opt& o, int m = 4) { return o.lattice ? c.si(2 * m) * .5 : (R)(double)c.range(-m, m); }
template<index_t N> V<N> point(pbt::Ctx& c, const Opt& o, int m = 4) { V<N> v; for (index_t i = 0; i < N; i++) v[i] = coord(c, o, m); return v; }
inline R size(pbt::Ctx& c, const Opt& o) { if (o.lattice) return c.i(1, 6) * .5; return c.logpos(.05, 5); }
template<index_t N> V<N> direction(pbt::Ctx& c) { V<N> v; do { Opt o; o.lattice = c.b(); v = point<N>(c, o, 2); if (c.chance(1, 4)) { index_t k = c.i(0, N - 1); for (index_t i = 0; i < N; i++) if (i != k) v[i] = 0; } if (v.mag() < .1L) v[0] = 1; } while (0); return v; }
template<class S> struct Gen;
template<class S> using Pair = std::pair<S, P<S::N>>;
template<class T> static inline R rnd(R x) { return (R)(T)x; }
template<class T, index_t N> static V<N> rnd(V<N> v) { for (index_t i = 0; i < N; i++) v[i] = (T)v[i]; return v; }
template<class T, index_t N> struct Gen<geom::Sphere<T, N>> { typedef geom::Sphere<T, N> S; static Pair<S> make(pbt::Ctx& c, Opt o) { V<N> p = rnd<T>(point<N>(c, o)); R r = rnd<T>(size(c, o)); return {S(to<T>(p), (T)r), std::make_shared<Ball<N>>(p, r)}; } };
template<class T, index_t N> struct Gen<geom::Rect<T, N>> { typedef geom::Rect<T, N> S; static Pair<S> make(pbt::Ctx& c, Opt o) { V<N> a = rnd<T>(point<N>(c, o)), b = a; for (index_t i = 0; i < N; i++) { R s = o.flat && c.chance(1, 4) ? 0 : size(c, o); b[i] = (T)(a[i] + s); } return {S(to<T>(a), to<T>(b)), std::make_shared<Box<N>>(a, b)}; } };
template<class T, index_t N> static void segment(pbt::Ctx& c, Opt o, V<N>& a, V<N>& b) { a = rnd<T>(point<N>(c, o)); b = a; if (c.chance(1, 3)) { R s = size(c, o) * (c.b() ? 1 : -1); index_t k = c.i(0, N - 1); b[k] = (T)(a[k] + s); if (!o.lattice && c.chance(1, 4)) { index_t q = (k + c.i(1, N - 1)) % N; b[q] = (T)(a[q] + std::pow(10.L, (R)-c.i(1, 9))); } } else b = rnd<T>(point<N>(c, o)); if ((b - a).mag() < .05L) b[0] = (T)(a[0] + 1); }
template<class T, index_t N> struct Gen<geom::Capsule<T, N>> { typedef geom::Capsule<T, N> S; static Pair<S> make(pbt::Ctx& c, Opt o) { V<N> a, b; segment<T>(c, o, a, b); if (o.flat && c.chance(1, 8)) b = a; R r = rnd<T>(size(c, o)); return {S(to<T>(a), to<T>(b), (T)r), std::make_shared<Cap<N>>(a, b, r)}; } };
template<class T, index_t N> struct Gen<geom::Cylinder<T, N>> { typedef geom::Cylinder<T, N> S; static Pair<S> make(pbt::Ctx& c, Opt o) { V<N> a, b; segment<T>(c, o, a, b); R r = rnd<T>(size(c, o)); return {S(to<T>(a), to<T>(b), (T)r), std::make_shared<Cyl<N>>(a, b, r)}; } };
template<class T, index_t N> struct Gen<geom::Simplex<T, N>> { typedef geom::Simplex<T, N> S;
    static Pair<S> make(pbt::Ctx& c, Opt o, int n = 0) { if (!n) n = o.flat ? c.i(1, N + 1) : N + 1; std::vector<V<N>> v; for (int t = 0; t < 20; t++) { v.clear(); for (int i = 0; i < n; i++) v.push_back(rnd<T>(point<N>(c, o))); if (least_edge<N>(v) > .08L) break; if (t == 19) { v.clear(); for (int i = 0; i < n; i++) { V<N> e; if (i) e[i - 1] = 2; v.push_back(e); } } } S s; for (auto& x : v) s.insert(to<T>(x)); return {s, std::make_shared<Simp<N>>(v)}; } };
template<class B> struct Gen<geom::Extruded<B>> { typedef geom::Extruded<B> S; typedef typename B::elem_t T; static Pair<S> make(pbt::Ctx& c, Opt o) { Opt q = o; q.flat = false; auto b = Gen<B>::make(c, q); R l = rnd<T>(coord(c, o)), h = rnd<T>(l + size(c, o)); S s(b.first, (T)l, (T)h); if (c.b()) s = S(b.first, (T)h, (T)l); else if (c.b()) s = S(b.first, geom::Rect<T, 1>((T)l, (T)h)); else if (c.b()) s = geom::extrude(b.first, (T)l, (T)h); return {s, std::make_shared<Ext<(index_t)S::N>>(b.second, l, h)}; } };
template<class B> struct Gen<geom::Frustum<B>> { typedef geom::Frustum<B> S; typedef typename B::elem_t T; static Pair<S> make(pbt::Ctx& c, Opt o) { Opt q = o; q.flat = false; auto b = Gen<B>::make(c, q); R l, h; switch (c.i(0, 3)) { case 0: l = 0; h = size(c, o); break; case 1: l = size(c, o); h = l + size(c, o); break; case 2: h = -size(c, o) * (c.chance(1, 4) ? 0 : 1); l = h - size(c, o); break; default: l = -size(c, o); h = size(c, o); } l = (T)l; h = (T)h; S s(b.first, (T)l, (T)h); if (c.b()) s = S(b.first, (T)h, (T)l); else if (c.b()) s = S(b.first, geom::Rect<T, 1>((T)l, (T)h)); else if (c.b()) s = geom::frustum(b.first, (T)l, (T)h); return {s, std::make_shared<Fru<(index_t)S::N>>(b.second, l, h)}; } };
template<class B> struct Gen<geom::Dilated<B>> { typedef geom::Dilated<B> S; typedef typename B::elem_t T; static Pair<S> make(pbt::Ctx& c, Opt o) { auto b = Gen<B>::make(c, o); R r = c.chance(1, 12) && b.second->solid() ? 0 : rnd<T>(size(c, o)); return {S(b.first, (T)r), std::make_shared<Dil<(index_t)S::N>>(b.second, r)}; } };
// well-conditioned affine maps: products of rotations, scalings, shears, reflections and translations
template<index_t N> M<N> rotation(index_t i, index_t j, R a) { M<N> m; m.row[i][i] = m.row[j][j] = std::cos(a); m.row[i][j] = -std::sin(a); m.row[j][i] = std::sin(a); return m; }
template<class T, index_t N> geom::AffineTransform<T, N> toxf(const M<N>& m) { geom::SimpleMatrix<T, N, N> a; for (index_t i = 0; i < N; i++) for (index_t j = 0; j < N; j++) a(i, j) = (T)m.row[i][j]; return geom::translation(to<T>(m.t)) * geom::transformation(a); }
template<class T, index_t N> std::pair<geom::AffineTransform<T, N>, M<N>> transform(pbt::Ctx& c, int steps = 3) {
    M<N> m; geom::AffineTransform<T, N> xf; int k = c.i(0, steps); for (int s = 0; s < k; s++) { M<N> e; switch (c.i(0, 4)) {
        case 0: { index_t i = c.i(0, N - 1), j = (i + c.i(1, N - 1)) % N; e = rotation<N>(i, j, c.b() ? c.i(0, 7) * (R)M_PI / 4 : (R)c.range(-3, 3)); break; }
        case 1: for (index_t i = 0; i < N; i++) e.row[i][i] = c.b() ? c.i(1, 4) * .5 : c.logpos(.4, 2.5); break;
        case 2: { index_t i = c.i(0, N - 1), j = (i + c.i(1, N - 1)) % N; e.row[i][j] = c.si(4) * .5; break; }
        case 3: e.row[c.i(0, N - 1)].a[0] *= 1; { index_t i = c.i(0, N - 1); e.row[i][i] = -1; } break;
        default: { Opt o; o.lattice = c.b(); e.t = point<N>(c, o); } }
        for (index_t i = 0; i < N; i++) e.row[i] = rnd<T>(e.row[i]); e.t = rnd<T>(e.t); m = e * m; }
    // the library's transform is built from the rounded product, so both describe the same map
    for (index_t i = 0; i < N; i++) m.row[i] = rnd<T>(m.row[i]); m.t = rnd<T>(m.t); xf = toxf<T>(m); return {xf, m};
}
template<class B> struct Gen<geom::Oriented<B>> { typedef geom::Oriented<B> S; typedef typename B::elem_t T; static constexpr index_t N = B::N; static Pair<S> make(pbt::Ctx& c, Opt o) { auto b = Gen<B>::make(c, o); auto x = transform<T, N>(c); return {S(b.first, x.first), std::make_shared<Xfd<N>>(b.second, x.second)}; } };
// query points: anywhere, features of the shape, their midpoints and extensions, and points near the boundary
template<index_t N> V<N> query(pbt::Ctx& c, const Shape<N>& s, bool lattice) {
    std::vector<V<N>> f; s.feats(f); Opt o; o.lattice = lattice; auto any = [&]() { return f[c.i(0, (int)f.size() - 1)]; }; V<N> p;
    switch (c.i(0, 7)) { case 0: p = point<N>(c, o, 8); break; case 1: p = any(); break; case 2: p = (any() + any()) * .5L; break; case 3: { V<N> a = any(), b = any(); p = a + (b - a) * (R)c.range(-1, 2); break; } case 4: p = any() + point<N>(c, o, 1) * .5L; break; case 5: { V<N> a = any(); p = a; p[c.i(0, N - 1)] += coord(c, o, 3); break; } case 6: { V<N> a = any(), b = any(), d = any(); p = a + (b - a) * (R)c.unit() + (d - a) * (R)c.unit(); break; }
        default: { // close to the boundary
            V<N> a = any(), b = point<N>(c, o, 8); if (s.sd(a) <= 0 && s.sd(b) > 0) for (int k = 0; k < 40; k++) { V<N> m = (a + b) * .5L; (s.sd(m) <= 0 ? a : b) = m; } p = a; R e = std::pow(10.L, (R)-c.i(1, 8)); V<N> d = direction<N>(c); p = p + d * e; } }
    return p;
}
}
