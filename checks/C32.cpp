// C32: boxes as sets of points. Oracle: interval arithmetic on plain arrays, and membership of sampled points.
// parts: 4
// thorough: 20
// rule: neither box is empty, or the case has a point or contact vector to check
#include "pbt.h"
#include <geomc/shape/Rect.h>
using namespace geom;
template<class T, index_t N> struct Boxes {
    typedef Rect<T, N> R; typedef typename R::point_t P; typedef std::vector<T> A; static constexpr bool integer = std::is_integral<T>::value; static constexpr double eps = integer ? 0 : (double)std::numeric_limits<T>::epsilon();
    static T get(const P& p, int i) { if constexpr (N == 1) return p; else return p[i]; }
    static P make(const A& a) { P p; for (int i = 0; i < N; i++) if constexpr (N == 1) p = a[i]; else p[i] = a[i]; return p; }
    static A arr(const P& p) { A a; for (int i = 0; i < N; i++) a.push_back(get(p, i)); return a; }
    struct M { A lo, hi; bool empty() const { for (int i = 0; i < N; i++) if (lo[i] > hi[i]) return true; return false; } bool has(const A& p) const { for (int i = 0; i < N; i++) if (p[i] < lo[i] || p[i] > hi[i]) return false; return true; } R box() const { return R(make(lo), make(hi)); } };
    static bool grid; // this case uses exactly representable quarters only
    static T val(pbt::Ctx& c, int m) { if (integer) return (T)c.si(m); if (grid) return (T)(c.si(4 * m) * .25); return (T)c.range(-m, m); }
    static A pt(pbt::Ctx& c, int m = 8) { A a; for (int i = 0; i < N; i++) a.push_back(val(c, m)); return a; }
    // points: anywhere, on the boundary planes of a box, or next to them
    static A near(pbt::Ctx& c, const M& b) { A a; for (int i = 0; i < N; i++) { T v; switch (c.i(0, 5)) { case 0: v = b.lo[i]; break; case 1: v = b.hi[i]; break; case 2: v = b.lo[i] + (integer ? (T)c.si(1) : (T)(c.si(1) * .25)); break; case 3: v = b.hi[i] + (integer ? (T)c.si(1) : (T)(c.si(1) * .25)); break; default: v = val(c, 8); } if (std::abs((double)v) > 1e6) v = val(c, 8); a.push_back(v); } return a; }
    static M box(pbt::Ctx& c, bool nonempty = false) { M m; int k = c.i(0, 9); m.lo = pt(c); m.hi = pt(c); if (k == 0) m.hi = m.lo; for (int i = 0; i < N; i++) if (m.lo[i] > m.hi[i] && (nonempty || k != 1)) std::swap(m.lo[i], m.hi[i]); if (k == 2) { int i = c.i(0, N - 1); m.hi[i] = m.lo[i]; } return m; }
    static M other(pbt::Ctx& c, const M& b, bool nonempty = false) { M m = box(c, nonempty); for (int i = 0; i < N; i++) { switch (c.i(0, 7)) { case 0: m.lo[i] = b.hi[i]; m.hi[i] = m.lo[i] + (T)c.i(0, 3); break; case 1: m.hi[i] = b.lo[i]; m.lo[i] = m.hi[i] - (T)c.i(0, 3); break; case 2: m.lo[i] = b.lo[i]; m.hi[i] = b.hi[i]; break; case 3: m.lo[i] = b.lo[i]; break; case 4: m.hi[i] = b.hi[i]; break; } if (nonempty && m.lo[i] > m.hi[i]) std::swap(m.lo[i], m.hi[i]); } return m; }
    static std::string str(const A& a) { std::ostringstream o; o << std::setprecision(17) << "("; for (size_t i = 0; i < a.size(); i++) o << (i ? ", " : "") << a[i]; o << ")"; return o.str(); }
    static std::string str(const M& m) { return "[" + str(m.lo) + " to " + str(m.hi) + "]"; }
    static std::string str(const R& r) { return "[" + str(arr(r.lo)) + " to " + str(arr(r.hi)) + "]"; }
    static bool same(const R& r, const M& m) { return arr(r.lo) == m.lo && arr(r.hi) == m.hi; }
    static bool close(const P& p, const A& a, double t) { for (int i = 0; i < N; i++) if (!(std::abs((double)get(p, i) - (double)a[i]) <= t)) return false; return true; }
#define SAME(r, m, what) do { R _r = (r); REQUIRE(same(_r, m), what << " is " << str(_r) << " instead of " << str(m)); } while (0)
    static void sets(pbt::Ctx& c) {
        grid = c.b(); M a = box(c), b = c.b() ? other(c, a) : box(c); R ra = a.box(), rb = b.box(); LOG(c, str(a) << " and " << str(b)); bool ea = a.empty(), eb = b.empty(); c.nontrivial(!ea && !eb);
        REQUIRE(ra.is_empty() == ea && rb.is_empty() == eb, "emptiness of " << str(a) << " or " << str(b));
        M n = a, u = a; for (int i = 0; i < N; i++) { n.lo[i] = std::max(a.lo[i], b.lo[i]); n.hi[i] = std::min(a.hi[i], b.hi[i]); u.lo[i] = std::min(a.lo[i], b.lo[i]); u.hi[i] = std::max(a.hi[i], b.hi[i]); }
        R x = ra & rb, y = ra, z = ra | rb, w = ra; y &= rb; w |= rb; bool en = ea || eb || n.empty(); REQUIRE(x.is_empty() == en && y.is_empty() == en, "intersection of " << str(a) << " and " << str(b) << " is " << str(x)); if (!en) { SAME(x, n, "intersection"); SAME(y, n, "intersection in place"); } if (!ea && !eb) { SAME(z, u, "union"); SAME(w, u, "union in place"); }
        REQUIRE(ra.intersects(rb) == !en && rb.intersects(ra) == !en, "overlap of " << str(a) << " and " << str(b) << " is said to be " << ra.intersects(rb) << " and " << rb.intersects(ra));
        bool in = true; for (int i = 0; i < N; i++) in = in && b.lo[i] >= a.lo[i] && b.hi[i] <= a.hi[i]; in = eb || (!ea && in); REQUIRE(ra.contains(rb) == in, str(a) << (in ? " does not contain " : " contains ") << str(b)); REQUIRE(ra.contains(ra), "a box does not contain itself");
        for (int k = 0; k < 6; k++) { A p = k & 1 ? near(c, a) : near(c, b); P q = make(p); bool pa = a.has(p), pb = b.has(p); REQUIRE(ra.contains(q) == pa && R::contains(ra.lo, ra.hi, q) == pa, "point " << str(p) << " in " << str(a)); REQUIRE(x.contains(q) == (pa && pb), "point " << str(p) << " in the intersection of " << str(a) << " and " << str(b)); if (!ea && !eb && (pa || pb)) REQUIRE(z.contains(q), "point " << str(p) << " is not in the union"); }
        REQUIRE((ra == rb) == (a.lo == b.lo && a.hi == b.hi) && (ra != rb) == !(ra == rb) && ra == a.box(), "equality"); if (ra == rb) REQUIRE(std::hash<R>()(ra) == std::hash<R>()(rb), "hash");
        // the default box contains nothing and is neutral for union
        R e, f = R::full; REQUIRE(e.is_empty() && R::empty.is_empty() && !f.is_empty() && f.contains(make(near(c, a))), "empty and full boxes"); if (!ea) { SAME(e | ra, a, "union with the empty box"); SAME(ra | R::empty, a, "union with the empty box"); SAME(f & ra, a, "intersection with everything"); SAME(ra & f, a, "intersection with everything"); REQUIRE(!ra.intersects(e) && ra.intersects(f), "overlap with empty or everything"); } REQUIRE((ra & e).is_empty(), "intersection with the empty box");
        // points
        int np = c.i(0, 5); M h; std::vector<P> ps; R seq; A last; for (int k = 0; k < np; k++) { last = near(c, a); ps.push_back(make(last)); if (k == 0) h.lo = h.hi = last; else for (int i = 0; i < N; i++) { h.lo[i] = std::min(h.lo[i], last[i]); h.hi[i] = std::max(h.hi[i], last[i]); } seq |= ps.back(); } R fs = R::from_point_sequence(ps.begin(), ps.end()); if (np) { SAME(seq, h, "union of points"); SAME(fs, h, "box of a point sequence"); R one(ps[0]); REQUIRE(one.lo == ps[0] && one.hi == ps[0] && one.contains(ps[0]) && !one.is_empty(), "box of one point"); if (!ea) { R g = ra; g = g | ps[0]; M k = a; for (int i = 0; i < N; i++) { T v = get(ps[0], i); k.lo[i] = std::min(k.lo[i], v); k.hi[i] = std::max(k.hi[i], v); } SAME(g, k, "union with a point"); } } else REQUIRE(fs.is_empty(), "box of no points");
        A s = pt(c), t = pt(c); M sp; for (int i = 0; i < N; i++) { sp.lo.push_back(std::min(s[i], t[i])); sp.hi.push_back(std::max(s[i], t[i])); } SAME(R::spanning_corners(make(s), make(t)), sp, "box spanning two corners"); R sc = ra; sc.set_corners(make(s), make(t)); SAME(sc, sp, "box set to two corners");
        M ab; for (int i = 0; i < N; i++) { ab.lo.push_back(std::min(a.lo[i], a.hi[i])); ab.hi.push_back(std::max(a.lo[i], a.hi[i])); } SAME(ra.abs(), ab, "box with normalised sign");
        for (int i = 0; i < N; i++) { Rect<T, 1> r = ra.axis(i); REQUIRE(r.lo == a.lo[i] && r.hi == a.hi[i], "range along axis " << i); }
        // exclusion
        if (!ea) { R d = ra - rb, d2 = ra; d2 -= rb; REQUIRE(same(ra, a) && same(rb, b), "excluding a box changed the operands"); REQUIRE(d == d2, "exclusion in place differs"); if (!d.is_empty()) { REQUIRE(ra.contains(d), "excluding " << str(b) << " from " << str(a) << " gives " << str(d)); if (!eb) { bool inside = true; M m{arr(d.lo), arr(d.hi)}; for (int i = 0; i < N; i++) inside = inside && std::max(m.lo[i], b.lo[i]) < std::min(m.hi[i], b.hi[i]); REQUIRE(!inside, "excluding " << str(b) << " from " << str(a) << " leaves " << str(d)); } }
            if (N == 1 && !eb) { if (b.hi[0] < a.lo[0] || b.lo[0] > a.hi[0]) SAME(d, a, "exclusion of a disjoint range"); else if (b.lo[0] > a.lo[0] && b.hi[0] > a.hi[0]) REQUIRE(arr(d.lo)[0] == a.lo[0] && arr(d.hi)[0] == b.lo[0], "excluding the upper part gives " << str(d)); else if (b.lo[0] < a.lo[0] && b.hi[0] < a.hi[0]) REQUIRE(arr(d.lo)[0] == b.hi[0] && arr(d.hi)[0] == a.hi[0], "excluding the lower part gives " << str(d)); } }
    }
    // moves and sizes
    static void moves(pbt::Ctx& c) {
        grid = c.b(); M a = box(c, true), b = box(c, true); A v = pt(c), k = pt(c, 3); R ra = a.box(); P pv = make(v), pk = make(k); LOG(c, str(a) << " moved by " << str(v) << " scaled by " << str(k)); c.nontrivial();
        M up = a, dn = a, sc = a, mk = a, di = a; for (int i = 0; i < N; i++) { up.lo[i] = a.lo[i] + v[i]; up.hi[i] = a.hi[i] + v[i]; dn.lo[i] = a.lo[i] - v[i]; dn.hi[i] = a.hi[i] - v[i]; T x = a.lo[i] * k[i], y = a.hi[i] * k[i]; sc.lo[i] = std::min(x, y); sc.hi[i] = std::max(x, y); mk.lo[i] = a.lo[i] + b.lo[i]; mk.hi[i] = a.hi[i] + b.hi[i]; T g = std::abs(v[i]); di.lo[i] = a.lo[i] - g; di.hi[i] = a.hi[i] + g; }
        SAME(ra + pv, up, "moved box"); SAME(pv + ra, up, "moved box"); SAME(ra - pv, dn, "box moved back"); SAME(ra * pk, sc, "scaled box"); R r = ra; REQUIRE(&(r += pv) == &r, "result of +="); SAME(r, up, "box moved in place"); r = ra; r -= pv; SAME(r, dn, "box moved back in place"); r = ra; r *= pk; SAME(r, sc, "box scaled in place"); SAME(ra.minkowski_sum(b.box()), mk, "Minkowski sum"); A g; for (T x : v) g.push_back(std::abs(x)); SAME(ra.dilated(make(g)), di, "dilated box");
        if (!integer) { bool z = false; for (T x : k) z = z || std::abs((double)x) < .01; if (!z) { M q = a; for (int i = 0; i < N; i++) { T x = a.lo[i] / k[i], y = a.hi[i] / k[i]; q.lo[i] = std::min(x, y); q.hi[i] = std::max(x, y); } R d = ra / pk, e = ra; e /= pk; REQUIRE(close(d.lo, q.lo, 8000 * eps) && close(d.hi, q.hi, 8000 * eps) && d == e, "box divided is " << str(d) << " instead of " << str(q)); } }
        A dim; double vol = 1; for (int i = 0; i < N; i++) { dim.push_back(a.hi[i] - a.lo[i] + (integer ? 1 : 0)); vol *= dim[i]; } REQUIRE(arr(ra.dimensions()) == dim, "dimensions " << str(arr(ra.dimensions()))); REQUIRE(std::abs((double)ra.volume() - vol) <= 4 * N * eps * vol, "volume " << ra.volume() << " instead of " << vol); REQUIRE(std::abs(ra.length() - std::pow(vol, 1. / N)) <= 1e-5 * (1 + std::pow(vol, 1. / N)), "length measure " << ra.length()); M em = a; int ax = c.i(0, N - 1); em.lo[ax] = a.hi[ax] + 1; REQUIRE(em.box().volume() == 0 || (integer && em.lo[ax] == a.hi[ax] + 1 && em.box().volume() == 0), "volume of an empty box is " << em.box().volume());
        { R bad = em.box(); bad.hi = bad.lo; auto ph = arr(bad.lo); for (int i = 0; i < N; i++) ph[i] = a.lo[i] - 3; bad = R(make(a.lo), make(ph)); REQUIRE(bad.volume() == 0, "volume of an inverted box is " << bad.volume()); }
        double t = 64 * eps; P ctr = ra.center(); A mid; for (int i = 0; i < N; i++) mid.push_back(integer ? (T)std::floor(((double)a.lo[i] + a.hi[i] + 1) / 2) : (T)(((double)a.lo[i] + a.hi[i]) / 2)); REQUIRE(close(ctr, mid, t), "center " << str(arr(ctr)) << " of " << str(a) << " instead of " << str(mid));
        A d2; for (int i = 0; i < N; i++) d2.push_back(integer ? (T)c.i(1, 9) : (T)std::abs(val(c, 8))); R fc = R::from_center(pv, make(d2)), fo = R::from_corner(pv, make(d2)), fz = R::from_size(make(d2)), co = ra.centered_on(pv), sd = ra; sd.set_dimensions(make(d2)); M want; want.lo = v; want.hi = v; for (int i = 0; i < N; i++) want.hi[i] = v[i] + d2[i] - (integer ? 1 : 0); REQUIRE(close(fo.lo, want.lo, t) && close(fo.hi, want.hi, t), "box from a corner is " << str(fo) << " instead of " << str(want));
        REQUIRE(close(fc.dimensions(), d2, t) && close(fc.center(), v, t), "box of size " << str(d2) << " about " << str(v) << " is " << str(fc)); REQUIRE(close(fz.dimensions(), d2, t) && close(fz.center(), A(N, 0), t), "box of size " << str(d2) << " about the origin is " << str(fz)); REQUIRE(close(co.dimensions(), dim, t) && close(co.center(), v, t), "box recentered on " << str(v) << " is " << str(co)); REQUIRE(close(sd.dimensions(), d2, t) && close(sd.center(), mid, t), "box " << str(a) << " resized to " << str(d2) << " is " << str(sd));
        if (!integer) { A nd = d2; for (T& x : nd) if (c.b()) x = -x; R n1 = R::from_center(pv, make(nd)), n2 = R::from_corner(pv, make(nd)), n3 = ra; n3.set_dimensions(make(nd)); M w; w.lo = w.hi = v; for (int i = 0; i < N; i++) { w.lo[i] = std::min(v[i], v[i] + nd[i]); w.hi[i] = std::max(v[i], v[i] + nd[i]); } REQUIRE(close(n1.dimensions(), d2, t) && close(n1.center(), v, t), "box about a center from negative lengths is " << str(n1)); REQUIRE(close(n2.lo, w.lo, t) && close(n2.hi, w.hi, t), "box from a corner and negative lengths is " << str(n2)); REQUIRE(close(n3.dimensions(), d2, t), "box resized to negative lengths is " << str(n3)); }
        R un = R::unit_interval, su = R::signed_unit_interval; for (int i = 0; i < N; i++) REQUIRE(get(un.lo, i) == 0 && get(un.hi, i) == 1 && get(su.lo, i) == -1 && get(su.hi, i) == 1, "unit boxes"); REQUIRE(ra.bounds() == ra, "bounds of a box");
        typedef std::conditional_t<integer, double, float> U; Rect<U, N> cv = (Rect<U, N>)ra; for (int i = 0; i < N; i++) REQUIRE((PointType<U, N>::iterator(cv.lo)[i] == (U)a.lo[i] && PointType<U, N>::iterator(cv.hi)[i] == (U)a.hi[i]), "converted box");
    }
    // nearest points
    static void points(pbt::Ctx& c) {
        grid = c.b(); M a = box(c, true); R ra = a.box(); A p = c.b() ? near(c, a) : pt(c, 12); P q = make(p); LOG(c, str(a) << " point " << str(p)); c.nontrivial();
        A cl = p; double d2 = 0; for (int i = 0; i < N; i++) { cl[i] = std::min(std::max(p[i], a.lo[i]), a.hi[i]); d2 += ((double)p[i] - cl[i]) * ((double)p[i] - cl[i]); } REQUIRE(arr(ra.clip(q)) == cl, "clipped point " << str(arr(ra.clip(q))) << " instead of " << str(cl)); REQUIRE(std::abs((double)ra.dist2(q) - d2) <= 8 * N * eps * (d2 + 1), "squared distance " << ra.dist2(q) << " instead of " << d2);
        A dir = pt(c, 3); P s = ra.convex_support(make(dir)); for (int i = 0; i < N; i++) { T v = get(s, i); REQUIRE(dir[i] == 0 ? v >= a.lo[i] && v <= a.hi[i] : v == (dir[i] > 0 ? a.hi[i] : a.lo[i]), "support point " << str(arr(s)) << " of " << str(a) << " along " << str(dir)); }
        if constexpr (!integer) {
            double best = std::sqrt(d2), t = 64 * eps * 12; bool in = d2 == 0; if (in) { best = 1e9; for (int i = 0; i < N; i++) best = std::min({best, (double)p[i] - a.lo[i], (double)a.hi[i] - p[i]}); } P pr = ra.project(q); double g = 0; bool onface = false, inside = true; for (int i = 0; i < N; i++) { T v = get(pr, i); inside = inside && v >= a.lo[i] && v <= a.hi[i]; onface = onface || v == a.lo[i] || v == a.hi[i]; g += ((double)v - p[i]) * ((double)v - p[i]); } REQUIRE(inside && onface, "projection " << str(arr(pr)) << " of " << str(p) << " is not on the surface of " << str(a)); REQUIRE(std::abs(std::sqrt(g) - best) <= t, "projection " << str(arr(pr)) << " of " << str(p) << " is at " << std::sqrt(g) << ", the surface of " << str(a) << " is at " << best);
            double sd = ra.sdf(q); REQUIRE(std::abs(sd - (in ? -best : best)) <= t, "signed distance " << sd << " of " << str(p) << " to " << str(a) << " instead of " << (in ? -best : best));
            A u = pt(c, 1); P m = ra.remap(make(u)); bool flat = false; for (int i = 0; i < N; i++) { double w = a.lo[i] + (double)u[i] * ((double)a.hi[i] - a.lo[i]); REQUIRE(std::abs(get(m, i) - w) <= t, "fraction " << str(u) << " of " << str(a) << " is " << str(arr(m))); flat = flat || (double)a.hi[i] - a.lo[i] < .1; } REQUIRE(arr(ra.remap(make(A(N, 0)))) == a.lo && arr(ra.remap(make(A(N, 1)))) == a.hi, "the corners are not at fractions 0 and 1"); if (!flat) REQUIRE(close(ra.unmap(m), u, 20 * t), "point " << str(arr(m)) << " of " << str(a) << " is at fraction " << str(arr(ra.unmap(m))) << " instead of " << str(u));
            // fitting
            M b = box(c, true); R rb = b.box(), f = ra.fitted_to(rb); double k = 0, size = 16; for (int i = 0; i < N; i++) { double e = (double)a.hi[i] - a.lo[i]; if (e > 0) k = std::max(k, ((double)b.hi[i] - b.lo[i]) / e); } for (int i = 0; i < N; i++) { double e = k * ((double)a.hi[i] - a.lo[i]), mid = ((double)b.lo[i] + b.hi[i]) / 2, l = get(f.lo, i), h = get(f.hi, i); double tt = t + 64 * eps * (e + size); REQUIRE(std::abs(l - (mid - e / 2)) <= tt && std::abs(h - (mid + e / 2)) <= tt, str(a) << " fitted to " << str(b) << " is " << str(f) << ", axis " << i << " should span " << e << " about " << mid); }
        }
    }
    static void contact(pbt::Ctx& c) {
        if constexpr (!integer) {
            grid = c.b(); M a = box(c, true), b = other(c, a, true); R ra = a.box(), rb = b.box(); LOG(c, str(a) << " against " << str(b)); auto [v, o] = ra.contact_vector(rb); bool sep = false; int gaps = 0; double best = 1e9; std::vector<double> gap(N, 0); for (int i = 0; i < N; i++) { double up = (double)b.lo[i] - a.hi[i], dn = (double)b.hi[i] - a.lo[i]; if (up > 0) { gap[i] = up; gaps++; } else if (dn < 0) { gap[i] = dn; gaps++; } sep = sep || up >= 0 || dn <= 0; best = std::min({best, std::abs(up), std::abs(dn)}); } c.nontrivial(true);
            double t = 64 * eps * 16; if (gaps) { REQUIRE(!o, str(a) << " and " << str(b) << " are said to overlap"); for (int i = 0; i < N; i++) REQUIRE(std::abs(get(v, i) - gap[i]) <= t, "contact vector " << str(arr(v)) << " from " << str(a) << " to " << str(b) << ", the gap along axis " << i << " is " << gap[i]); }
            else { if (!sep) REQUIRE(o, str(a) << " and " << str(b) << " are said not to overlap"); double l = 0; int axes = 0, ax = 0; for (int i = 0; i < N; i++) { l += std::abs((double)get(v, i)); if (get(v, i) != 0) { axes++; ax = i; } } REQUIRE(axes <= 1 && std::abs(l - best) <= t, "contact vector " << str(arr(v)) << " between overlapping " << str(a) << " and " << str(b) << ", the least separation is " << best); if (axes) { double x = get(v, ax); REQUIRE(std::abs(x - ((double)b.lo[ax] - a.hi[ax])) <= t || std::abs(x - ((double)b.hi[ax] - a.lo[ax])) <= t, "contact vector " << str(arr(v)) << " does not separate " << str(a) << " from " << str(b)); } }
        }
    }
    // everything times a power of two gives everything times a power of two
    static void scale(pbt::Ctx& c) {
        if constexpr (!integer) {
            grid = c.b(); M a = box(c, true), b = c.b() ? other(c, a, true) : box(c, true); A p = c.b() ? near(c, a) : pt(c, 12), v = pt(c, 3); int e = c.si(std::is_same<T, float>::value ? 20 : 60); T k = std::ldexp((T)1, e); auto big = [&](A x) { for (T& y : x) y *= k; return x; }; M ak{big(a.lo), big(a.hi)}, bk{big(b.lo), big(b.hi)}; R ra = a.box(), rb = b.box(), qa = ak.box(), qb = bk.box(); P q = make(p), Q = make(big(p)); LOG(c, str(a) << " and " << str(b) << ", point " << str(p) << ", all times " << k); c.nontrivial(k != 1);
            double t = 64 * eps * 16; auto pts = [&](P s, P l, double size, const char* what) { for (int i = 0; i < N; i++) REQUIRE(std::abs((double)get(s, i) - (double)get(l, i) / k) <= t * (1 + size), what << " is " << str(arr(s)) << ", at " << k << " times the size " << str(arr(l))); }; auto rect = [&](R s, R l, double size, const char* what) { REQUIRE(s.is_empty() == l.is_empty(), what << " is " << str(s) << ", at " << k << " times the size " << str(l)); if (!s.is_empty()) { pts(s.lo, l.lo, size, what); pts(s.hi, l.hi, size, what); } }; auto num = [&](double s, double l, double size, const char* what) { REQUIRE(std::abs(s - l) <= t * (1 + size), what << " is " << s << ", at " << k << " times the size " << l << " after scaling back"); };
            REQUIRE(ra.contains(q) == qa.contains(Q) && ra.intersects(rb) == qa.intersects(qb) && ra.contains(rb) == qa.contains(qb), "containment or overlap changes at " << k << " times the size"); rect(ra & rb, qa & qb, 0, "intersection"); rect(ra | rb, qa | qb, 0, "union"); rect(ra - rb, qa - qb, 0, "exclusion"); rect(ra + q, qa + Q, 0, "moved box"); rect(ra.minkowski_sum(rb), qa.minkowski_sum(qb), 0, "Minkowski sum"); rect(ra * make(v), qa * make(v), 0, "scaled box");
            pts(ra.clip(q), qa.clip(Q), 0, "clipped point"); pts(ra.center(), qa.center(), 0, "center"); pts(ra.dimensions(), qa.dimensions(), 0, "dimensions"); num(ra.dist2(q), (double)qa.dist2(Q) / k / k, 1000, "squared distance"); num(ra.sdf(q), (double)qa.sdf(Q) / k, 0, "signed distance"); pts(ra.convex_support(make(v)), qa.convex_support(make(big(v))), 0, "support point"); pts(ra.remap(make(v)), qa.remap(make(v)), 30, "point at a fraction"); { P s = ra.project(q), l = qa.project(Q); double ds = 0, dl = 0; for (int i = 0; i < N; i++) { ds += std::pow((double)get(s, i) - p[i], 2); dl += std::pow((double)get(l, i) / k - p[i], 2); } num(std::sqrt(ds), std::sqrt(dl), 30, "distance of the projection"); }
            double f = 0; bool flat = false; for (int i = 0; i < N; i++) { double w = (double)a.hi[i] - a.lo[i]; flat = flat || w < .1; if (w > 0) f = std::max(f, ((double)b.hi[i] - b.lo[i]) / w); } num(ra.volume(), (double)qa.volume() / std::pow((double)k, (double)N), 1e6, "volume"); if (f < 1e6) rect(ra.fitted_to(rb), qa.fitted_to(qb), f * 30, "fitted box"); if (!flat) pts(ra.unmap(q), make(big(arr(qa.unmap(Q)))), 1000, "fraction of a point");
            auto [s, so] = ra.contact_vector(rb); auto [l, lo] = qa.contact_vector(qb); double ms = 0, ml = 0; for (int i = 0; i < N; i++) { ms += std::abs((double)get(s, i)); ml += std::abs((double)get(l, i) / k); } REQUIRE(so == lo, "contact changes at " << k << " times the size"); num(ms, ml, 30, "length of the contact vector");
        }
    }
};
template<class T, index_t N> bool Boxes<T, N>::grid = false;
// products and slices
template<class T> static void products(pbt::Ctx& c) {
    auto v = [&]() { return (T)c.si(9); }; T p[6], q[6]; for (int i = 0; i < 6; i++) { p[i] = v(); q[i] = v(); if (c.chance(9, 10) && p[i] > q[i]) std::swap(p[i], q[i]); } LOG(c, "products and slices, first range " << p[0] << " to " << q[0]); c.nontrivial();
    Rect<T, 1> a(p[0], q[0]); Rect<T, 2> b(Vec<T, 2>(p[1], p[2]), Vec<T, 2>(q[1], q[2])); Rect<T, 3> d(Vec<T, 3>(p[3], p[4], p[5]), Vec<T, 3>(q[3], q[4], q[5]));
    auto chk = [&](const auto& r, std::vector<int> ix, const char* what) { for (size_t i = 0; i < ix.size(); i++) { auto x = r.axis(i); REQUIRE(x.lo == p[ix[i]] && x.hi == q[ix[i]], what << ": axis " << i << " is " << x.lo << " to " << x.hi << " instead of " << p[ix[i]] << " to " << q[ix[i]]); } };
    chk(a * b, {0, 1, 2}, "1-D by 2-D"); chk(b * a, {1, 2, 0}, "2-D by 1-D"); chk(a * a, {0, 0}, "1-D by 1-D"); chk(b * b, {1, 2, 1, 2}, "2-D by 2-D"); chk(d * b, {3, 4, 5, 1, 2}, "3-D by 2-D"); chk(b * d, {1, 2, 3, 4, 5}, "2-D by 3-D");
    int i = c.i(0, 2), j = c.i(0, 2), k = c.i(0, 2); chk(d(i, j), {3 + i, 3 + j}, "slice of two axes"); chk(d(i), {3 + i}, "slice of one axis"); chk(d(i, j, k), {3 + i, 3 + j, 3 + k}, "slice of three axes"); chk(d(i, j, k, i), {3 + i, 3 + j, 3 + k, 3 + i}, "slice of four axes"); chk(b(1, 0), {2, 1}, "swapped axes"); Vec<T, 2> s(v(), v()); T r = v(); auto prod = b * a; REQUIRE((prod.contains(Vec<T, 3>(s[0], s[1], r)) == (b.contains(s) && a.contains(r))), "a point is in a product");
}
// the bounds of long point lists
template<class T, index_t N> static void long_list(pbt::Ctx& c) {
    typedef typename Rect<T, N>::point_t P; size_t n = c.big(6, 17), far = c.i(0, n - 1); uint64_t seed = c.draw(~0ull >> 1); std::vector<P> v(n); T lo[N], hi[N]; for (size_t k = 0; k < n; k++) for (int i = 0; i < N; i++) { T x = (T)((int)(pbt::splitmix(seed) % 2001) - 1000); if (k == far) x *= 3; PointType<T, N>::iterator(v[k])[i] = x; lo[i] = k ? std::min(lo[i], x) : x; hi[i] = k ? std::max(hi[i], x) : x; }
    LOG(c, "bounds of " << n << " points"); typedef Rect<T, N> Box; Box r = Box::from_point_sequence(v.begin(), v.end()), q; for (auto& x : v) q |= x; for (int i = 0; i < N; i++) REQUIRE((PointType<T, N>::iterator(r.lo)[i] == lo[i] && PointType<T, N>::iterator(r.hi)[i] == hi[i]), "bounds of " << n << " points along axis " << i); REQUIRE(q == r, "adding " << n << " points one by one"); c.nontrivial(n > 256); c.label("more than 65536", n > 65536);
}
#define DIM(T, N, n) PROP(sets_##T##_##N, 20000 * n) { Boxes<T, N>::sets(c); } PROP(moves_##T##_##N, 15000 * n) { Boxes<T, N>::moves(c); } PROP(points_##T##_##N, 20000 * n) { Boxes<T, N>::points(c); }
#define REAL(T, N, n) DIM(T, N, n) PROP(contact_##T##_##N, 20000 * n) { Boxes<T, N>::contact(c); } PROP(scale_##T##_##N, 12000 * n) { Boxes<T, N>::scale(c); }
#if PART(0)
DIM(int, 1, 2)
DIM(int, 2, 4)
DIM(int, 3, 3)
PROP(long_list_int_2, 400) { long_list<int, 2>(c); }
PROP(products_int, 60000) { products<int>(c); }
#endif
#if PART(1)
REAL(double, 1, 2)
REAL(double, 2, 4)
REAL(double, 3, 3)
PROP(long_list_double_3, 400) { long_list<double, 3>(c); }
PROP(long_list_double_1, 200) { long_list<double, 1>(c); }
PROP(products_double, 60000) { products<double>(c); }
#endif
#if PART(2)
REAL(float, 1, 1)
REAL(float, 2, 2)
REAL(float, 3, 2)
#endif
#if PART(3)
DIM(int, 4, 1)
DIM(long, 2, 1)
REAL(double, 4, 1)
REAL(double, 5, 1)
#endif
