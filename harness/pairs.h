// Pairs of shapes placed so that it is known whether they overlap: with a shared deep point, or with a gap along a direction.
#pragma once
#include <random>
#include "shaperef.h"
namespace pairs {
using namespace geom;
using ref::R; typedef double D;
template<index_t N> static ref::P<N> shifted(ref::P<N> r, const ref::V<N>& v) { ref::M<N> m; m.t = v; return std::make_shared<ref::Xfd<N>>(r, m); }
template<class S> struct Move { static auto at(const S& s, const Vec<typename S::elem_t, S::N>& v) { return translation(v) * s; } };
template<class T, index_t N> struct Move<Rect<T, N>> { static Rect<T, N> at(Rect<T, N> s, const Vec<T, N>& v) { s.lo += v; s.hi += v; return s; } };
template<class T, index_t N> struct Move<Sphere<T, N>> { static Sphere<T, N> at(Sphere<T, N> s, const Vec<T, N>& v) { s.center += v; return s; } };
template<class T, index_t N> struct Move<Capsule<T, N>> { static Capsule<T, N> at(Capsule<T, N> s, const Vec<T, N>& v) { s.p0 += v; s.p1 += v; return s; } };
template<class T, index_t N> struct Move<Cylinder<T, N>> { static Cylinder<T, N> at(Cylinder<T, N> s, const Vec<T, N>& v) { s.p0 += v; s.p1 += v; return s; } };
template<class T, index_t N> struct Move<Simplex<T, N>> { static Simplex<T, N> at(Simplex<T, N> s, const Vec<T, N>& v) { for (index_t i = 0; i < s.n; i++) s.pts[i] += v; return s; } };
template<class S> struct Move<Oriented<S>> { static Oriented<S> at(Oriented<S> s, const Vec<typename S::elem_t, S::N>& v) { return translation(v) * s; } };
template<index_t N> static ref::V<N> mix(pbt::Ctx& c, const ref::Shape<N>& s) { std::vector<ref::V<N>> f; s.feats(f); ref::V<N> p; R t = 0; int n = c.i(1, 4); for (int k = 0; k < n; k++) { R w = c.i(1, 4); p = p + f[c.i(0, (int)f.size() - 1)] * w; t += w; } return p * (1 / t); }
template<index_t N> static R reach(const ref::Shape<N>& s) { std::vector<ref::V<N>> f; s.feats(f); R m = 1; for (auto& x : f) m = std::max(m, x.mag()); return m; }
// place b relative to a so that the answer is known: true if they overlap. Returns the offset of b.
template<index_t N> struct Truth { ref::V<N> off; bool overlap; R margin; ref::V<N> witness; };
template<index_t N> static Truth<N> place(pbt::Ctx& c, const ref::Shape<N>& a, const ref::Shape<N>& b, int fine) {
    typedef ref::V<N> W; Truth<N> t; t.overlap = c.b();
    if (t.overlap) { // a point of a which lies deep in b, or the other way around
        bool swap = !b.solid() || (a.solid() && c.b()); const ref::Shape<N>&x = swap ? b : a, &y = swap ? a : b; W p = mix<N>(c, x), q = mix<N>(c, y); if (c.b()) { /* q close to the surface of y */ W out = ref::point<N>(c, {}, 8); if (y.sd(out) > 0) { W in = q; for (int k = 0; k < 40; k++) { W m = (in + out) * .5L; (y.sd(m) <= 0 ? in : out) = m; } R u = std::pow(10.L, (R)-c.i(1, fine)); q = in + (q - in) * u; } } t.margin = -y.sd(q); if (x.sd(p) > 1e-12L || t.margin < 1e-7L) { t.margin = 0; return t; } t.off = swap ? q - p : p - q; t.witness = swap ? q : p; }
    else if (c.chance(1, 2)) { // leaving a in a direction u, out to the plane (with a normal n near the tightest) which ends the overlap: usually faces, edges and corners meet there that no random plane touches
        W u = ref::direction<N>(c); u = u * (1 / u.mag()); W z = mix<N>(c, a) - mix<N>(c, b), n = u; R gap = std::pow(10.L, (R)-c.i(0, fine)); std::mt19937 g((unsigned)c.draw(1u << 20)); auto far = [&](const W& m) { return (a.h(m) + b.h(m * -1) - m.dot(z)) / m.dot(u); }; R best = far(n), s = 1;
        for (int k = 0; k < 60; k++) { W m; for (int i = 0; i < N; i++) m[i] = g() / 2147483648.L - 1; m = n + m * s; if (m.mag() < 1e-3L) continue; m = m * (1 / m.mag()); if (m.dot(u) < .02L) { s *= .8L; continue; } R x = far(m); if (x < best) { best = x; n = m; } else s *= .85L; }
        t.margin = gap; t.off = z + u * best + n * gap; t.witness = n; }
    else { W d = ref::direction<N>(c); d = d * (1 / d.mag()); R gap = std::pow(10.L, (R)-c.i(-1, fine)); t.margin = gap; W side = ref::point<N>(c, {}, 3); side = side - d * side.dot(d); if (c.chance(1, 3)) side = W(); /* b beyond a along d */ t.off = side + d * (a.h(d) + b.h(d * -1) + gap); t.witness = d; }
    t.off = ref::rnd<D>(t.off); return t;
}
template<index_t N> static std::string told(const Truth<N>& t) { std::ostringstream o; o << std::setprecision(12) << " offset by " << t.off.str() << (t.overlap ? ", sharing point " : ", separated along ") << t.witness.str() << (t.overlap ? " at depth " : " by ") << (double)t.margin; return o.str(); }
}
