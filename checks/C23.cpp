// C23: rasters. Oracle: textbook interpolation weights (nearest, multilinear, Catmull-Rom) over an independently edge-extended grid, in extended precision.
// thorough: 20
// rule: the raster has more than two samples
// parts: 4
#include "pbt.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/function/Raster.h>
using namespace geom;
typedef long double L;
namespace ref {
template<index_t M, index_t N> struct Grid { long e[M]; std::vector<double> v; double abyss[N]; Rect<double, 1> unused;
    long fold(long c, long n, int edge) const { if (edge == EDGE_CLAMP) return c < 0 ? 0 : c >= n ? n - 1 : c; if (edge == EDGE_PERIODIC) { while (c < 0) c += n; while (c >= n) c -= n; return c; } while (c < 0 || c >= n) { if (n == 1) return 0; if (c < 0) c = -c; else c = 2 * (n - 1) - c; } return c; }
    double at(const long* c, int edge, int ch) const { long i = 0, w = 1; for (int d = 0; d < M; d++) { if (edge == EDGE_CONSTANT) { if (c[d] < 0 || c[d] >= e[d]) return abyss[ch]; i += c[d] * w; } else i += fold(c[d], e[d], edge) * w; w *= e[d]; } return v[i * N + ch]; }
    // tensor product of one-dimensional weights
    L sample(const L* g, int edge, int interp, int ch) const { int n = interp == INTERP_CUBIC ? 4 : 2; long base[M]; L wt[M][4]; for (int d = 0; d < M; d++) { L f = std::floor(g[d]); base[d] = (long)f; L s = g[d] - f; if (n == 2) { wt[d][0] = 1 - s; wt[d][1] = s; } else { base[d]--; L a = s * s, b = a * s; wt[d][0] = (-b + 2 * a - s) / 2; wt[d][1] = (3 * b - 5 * a + 2) / 2; wt[d][2] = (-3 * b + 4 * a + s) / 2; wt[d][3] = (b - a) / 2; } }
        L r = 0; int total = 1; for (int d = 0; d < M; d++) total *= n; for (int k = 0; k < total; k++) { long c[M]; L w = 1; int q = k; for (int d = 0; d < M; d++) { c[d] = base[d] + q % n; w *= wt[d][q % n]; q /= n; } r += w * at(c, edge, ch); } return r; }
};
}
template<class I, class O, index_t M, index_t N> void raster(pbt::Ctx& c) {
    typedef Raster<I, O, M, N> R; typedef PointType<index_t, M> GP; typedef PointType<I, M> IP; typedef PointType<O, N> OP; typename R::grid_t ext; ref::Grid<M, N> g; long total = 1; bool domain = c.b(); for (int d = 0; d < M; d++) { g.e[d] = c.i(domain ? 1 : 2, M > 3 ? 4 : M == 1 ? 9 : 5); } bool large = c.chance(1, 400); if (large) { if (M == 1) g.e[0] = c.big(7, 17); else { int a = c.i(0, M - 1); g.e[a] = (long)c.pick({128, 256, 300}) + c.si(3); if (M == 2 && c.chance(1, 4)) g.e[1 - a] = 66000 / g.e[a] + c.i(0, 20); } } for (int d = 0; d < M; d++) { GP::iterator(ext)[d] = g.e[d]; total *= g.e[d]; } c.label("long axis", large);
    std::vector<O> data(total * N); g.v.resize(total * N); uint64_t more = large ? c.draw(1u << 30) : 0; for (long i = 0; i < total * N; i++) g.v[i] = data[i] = large ? (double)(long)(pbt::splitmix(more) % 19) - 9 : c.si(9); for (auto& a : g.abyss) a = 0;
    double lo[M], hi[M]; typename R::coord_t dlo, dhi; for (int d = 0; d < M; d++) { lo[d] = domain ? (I)(c.b() ? c.si(6) : c.real(3)) : 0; hi[d] = domain ? (I)(lo[d] + (c.b() ? c.i(1, 8) : c.range(.25, 6))) : g.e[d] - 1; IP::iterator(dlo)[d] = lo[d]; IP::iterator(dhi)[d] = hi[d]; }
    Rect<I, M> dom(dlo, dhi); int mk = c.i(0, 1); R r = domain ? (mk ? R(ext, data.data(), dom) : R(ext, dom)) : mk ? R(ext, data.data()) : R(ext); std::string es; for (long x : g.e) es += std::to_string(x) + " "; LOG(c, "raster of extents " << es << (domain ? "over a chosen domain" : "over its default domain"));
    REQUIRE(r.dataExtents() == ext && r.samplecount() == total && r.inputDimension() == M && r.outputDimension() == N, "extents and counts: " << r.samplecount() << " samples instead of " << total); auto rd = r.domain(); REQUIRE(rd.lo == dlo && rd.hi == dhi, "domain");
    auto cell = [&](typename R::grid_t& x, long* o, int spread) { for (int d = 0; d < M; d++) GP::iterator(x)[d] = o[d] = c.i(-spread, g.e[d] - 1 + spread); };
    if (!mk) { std::vector<long> at(M, 0); for (long i = 0; i < total; i++) { typename R::grid_t x; long q = i; for (int d = 0; d < M; d++) { GP::iterator(x)[d] = q % g.e[d]; q /= g.e[d]; } REQUIRE(r.contains_gridpt(x), "a grid point is not contained"); typename R::sample_t s = r.sample_discrete(x, EDGE_CLAMP); for (int k = 0; k < N; k++) REQUIRE(OP::iterator(s)[k] == 0, "a new raster is not zero"); for (int k = 0; k < N; k++) OP::iterator(s)[k] = data[i * N + k]; r.set(x, s); } }
    for (int n = c.i(0, 2); n > 0; n--) { typename R::grid_t x; long o[M]; cell(x, o, 1); typename R::sample_t s; bool in = true; long i = 0, w = 1; for (int d = 0; d < M; d++) { in &= o[d] >= 0 && o[d] < g.e[d]; i += o[d] * w; w *= g.e[d]; } REQUIRE(r.contains_gridpt(x) == in, "containment of a grid point"); for (int k = 0; k < N; k++) { OP::iterator(s)[k] = c.si(9); if (in) g.v[i * N + k] = OP::iterator(s)[k]; } r.set(x, s); }
    if (c.b()) { typename R::sample_t a; for (int k = 0; k < N; k++) g.abyss[k] = OP::iterator(a)[k] = c.si(9); r.setAbyss(a); }
    // discrete samples and copies
    { typename R::grid_t x, y; long o[M], p[M]; cell(x, o, 4); int vol = 1; for (int d = 0; d < M; d++) { p[d] = o[d] + c.i(0, 2); GP::iterator(y)[d] = p[d]; vol *= p[d] - o[d] + 1; } std::vector<typename R::sample_t> buf(vol), buf2(vol); int edge = c.i(0, 3);
        auto disc = [&](auto E) { constexpr EdgeBehavior e = decltype(E)::value; typename R::sample_t s = r.template sample_discrete<e>(x), s2 = r.sample_discrete(x, e); for (int k = 0; k < N; k++) { double w = g.at(o, e, k); REQUIRE(OP::iterator(s)[k] == w && OP::iterator(s2)[k] == w, "grid sample with edge rule " << (int)e << " is " << OP::iterator(s)[k] << " and " << OP::iterator(s2)[k] << " instead of " << w << ", first coordinate " << o[0]); } if (e == edge) { r.template copy<e>(buf.data(), Rect<index_t, M>(x, y)); r.copy(buf2.data(), Rect<index_t, M>(x, y), e); } };
        disc(std::integral_constant<EdgeBehavior, EDGE_CLAMP>()); disc(std::integral_constant<EdgeBehavior, EDGE_PERIODIC>()); disc(std::integral_constant<EdgeBehavior, EDGE_MIRROR>()); disc(std::integral_constant<EdgeBehavior, EDGE_CONSTANT>());
        for (int i = 0; i < vol; i++) { long at[M]; int q = i; for (int d = 0; d < M; d++) { int n = p[d] - o[d] + 1; at[d] = o[d] + q % n; q /= n; } for (int k = 0; k < N; k++) { double w = g.at(at, edge, k); REQUIRE(OP::iterator(buf[i])[k] == w && OP::iterator(buf2[i])[k] == w, "copied sample " << i << " with edge rule " << edge << " is " << OP::iterator(buf[i])[k] << " instead of " << w); } }
    }
    // continuous samples
    for (int n = c.i(1, 2); n > 0; n--) {
        typename R::coord_t pt; L pos[M]; double e = std::numeric_limits<I>::epsilon(), perr = 0; bool lattice = true; int kind = c.i(0, 3); for (int d = 0; d < M; d++) { double q = kind == 0 ? c.i(0, g.e[d] - 1) : kind == 1 ? c.i(-4, g.e[d] + 3) : kind == 2 ? c.i(-6, 2 * g.e[d] + 4) * .5 : c.range(-4, g.e[d] + 3); I x = domain ? (I)(g.e[d] > 1 ? lo[d] + q * (hi[d] - lo[d]) / (g.e[d] - 1) : lo[d] + q) : (I)q; IP::iterator(pt)[d] = x; pos[d] = (g.e[d] - 1) * ((L)x - lo[d]) / ((L)hi[d] - lo[d]); perr = std::max(perr, 4 * e * (double)((g.e[d] - 1) * (std::abs((double)x) + std::abs(lo[d])) / (hi[d] - lo[d]) + std::abs((double)pos[d]))); lattice &= kind < 2; }
        c.label("on the grid", kind == 0); c.label("outside", kind > 0); c.nontrivial(total > 2); std::string where; for (L x : pos) where += std::to_string((double)x) + " "; LOG(c, "at grid position " << where);
        double tol = 100 * M * perr + 4000 * std::numeric_limits<O>::epsilon() + 1000 * e;
        auto near = [&](int edge, const typename R::sample_t& s) { // all grid points within rounding of the nearest
            for (int m = 0; m < 1 << M; m++) { long at[M]; bool ok = true; for (int d = 0; d < M; d++) { L f = std::floor(pos[d]), fr = pos[d] - f; at[d] = (long)f + (m >> d & 1); ok &= (m >> d & 1) ? fr >= .5L - perr - 4 * e : fr <= .5L + perr + 4 * e; } if (!ok) continue; bool all = true; for (int k = 0; k < N; k++) all &= OP::iterator(s)[k] == g.at(at, edge, k); if (all) return true; } return false; };
        auto one = [&](auto E, auto P) { constexpr EdgeBehavior ed = decltype(E)::value; constexpr Interpolation in = decltype(P)::value; typename R::sample_t s = r.template sample<ed, in>(pt), s2 = r.sample(pt, ed, in);
            if (in == INTERP_NEAREST) { REQUIRE(near(ed, s), "nearest sample with edge rule " << (int)ed << " is " << OP::iterator(s)[0] << " at " << where); REQUIRE(near(ed, s2), "nearest sample with run-time edge rule " << (int)ed << " is " << OP::iterator(s2)[0] << " at " << where); return; }
            for (int k = 0; k < N; k++) { L w = g.sample(pos, ed, in, k); REQUIRE(std::abs((double)(OP::iterator(s)[k] - w)) <= tol, (in == INTERP_LINEAR ? "linear" : "cubic") << " sample with edge rule " << (int)ed << " at " << where << " is " << OP::iterator(s)[k] << " instead of " << (double)w); REQUIRE(std::abs((double)(OP::iterator(s2)[k] - w)) <= tol, (in == INTERP_LINEAR ? "linear" : "cubic") << " sample with run-time edge rule " << (int)ed << " at " << where << " is " << OP::iterator(s2)[k] << " instead of " << (double)w); } };
        auto each = [&](auto E) { one(E, std::integral_constant<Interpolation, INTERP_NEAREST>()); one(E, std::integral_constant<Interpolation, INTERP_LINEAR>()); if (M < 4) one(E, std::integral_constant<Interpolation, INTERP_CUBIC>()); };
        each(std::integral_constant<EdgeBehavior, EDGE_CLAMP>()); each(std::integral_constant<EdgeBehavior, EDGE_PERIODIC>()); each(std::integral_constant<EdgeBehavior, EDGE_MIRROR>()); each(std::integral_constant<EdgeBehavior, EDGE_CONSTANT>());
        typename R::sample_t s = r.sample(pt), s2 = r.template sample<EDGE_CLAMP, INTERP_LINEAR>(pt); for (int k = 0; k < N; k++) REQUIRE(std::abs(OP::iterator(s)[k] - OP::iterator(s2)[k]) <= tol, "default sampling is not linear with clamped edges");
    }
}
#if PART(0)
PROP(line_double_1, 250000) { raster<double, double, 1, 1>(c); }
PROP(plane_double_1, 250000) { raster<double, double, 2, 1>(c); }
#endif
#if PART(1)
PROP(line_float_3, 250000) { raster<float, double, 1, 3>(c); }
PROP(plane_float_2, 200000) { raster<float, float, 2, 2>(c); }
#endif
#if PART(2)
PROP(plane_double_3, 200000) { raster<double, double, 2, 3>(c); }
PROP(solid_double_1, 40000) { raster<double, double, 3, 1>(c); }
#endif
#if PART(3)
PROP(solid_float_2, 30000) { raster<double, float, 3, 2>(c); }
PROP(four_double_1, 25000) { raster<double, double, 4, 1>(c); }
#endif
