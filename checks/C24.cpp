// C24: Perlin noise. Invariants of the value, and its high-order finite differences, over random points of random noise functions.
// thorough: 20
// rule: every case: a noise function and a point of it
// parts: 2
#include "pbt.h"
#include <geomc/function/PerlinNoise.h>
#include <geomc/random/MTRand.h>
using namespace geom;
template<class T, index_t N> struct Noise {
    typedef PerlinNoise<T, N> P; typedef typename P::point_t pt; typedef PointType<T, N> PT;
    static constexpr double eps = std::numeric_limits<T>::epsilon();
    static T at(pbt::Ctx& c, int far) { double lim = far == 0 ? 4 : far == 1 ? 300 : sizeof(T) == 4 ? 1000 : far == 2 ? 200000 : std::exp2(38); double f = c.i(0, 4095) / 4096.; switch (c.i(0, 5)) { case 0: f = 0; break; case 1: f = .5; break; case 2: f = c.b() ? 1 / 4096. : 4095 / 4096.; break; default: break; } return (T)(std::floor(c.range(-lim, lim)) + f); } // on a dyadic lattice, so that differences are exact
    static std::string show(const pt& p) { std::ostringstream o; o.precision(12); for (int i = 0; i < N; i++) o << PT::iterator(p)[i] << " "; return o.str(); }
    static void run(pbt::Ctx& c) {
        uint64_t seed = c.draw(1u << 20); MTRand r1(seed), r2(seed), r3(seed + 1 + c.draw(1000)); int warm = c.i(0, 3); for (int i = 0; i < warm; i++) { r1.rand<double>(); r2.rand<double>(); } P a(&r1), b(&r2), o(&r3); P copy = a; int far = c.i(0, sizeof(T) == 4 ? 2 : 3); LOG(c, "noise of seed " << seed << " and dimension " << N);
        // determinism and dependence on the seed
        int n = 24, same = 0; bool moving = false; pt first = pt(); for (int k = 0; k < n; k++) { pt p; for (int i = 0; i < N; i++) PT::iterator(p)[i] = at(c, far); T v = a.eval(p); REQUIRE(v == b.eval(p) && v == copy.eval(p) && v == a.eval(p), "two noise functions of one seed differ at " << show(p)); REQUIRE(std::abs((double)v) <= std::sqrt((double)N) / 2 + 64 * eps, "noise is " << (double)v << " at " << show(p));
            auto g = a.gradient(p), g2 = b.gradient(p); REQUIRE(g.first == g2.first, "gradient query of two noise functions of one seed"); for (int i = 0; i < N; i++) REQUIRE(PT::iterator(g.second)[i] == PT::iterator(g2.second)[i], "gradients of two noise functions of one seed differ at " << show(p)); REQUIRE(std::abs((double)(g.first - v)) <= 64 * eps, "value reported with the gradient is " << (double)g.first << " but evaluating gives " << (double)v << " at " << show(p)); pt l; for (int i = 0; i < N; i++) PT::iterator(l)[i] = std::floor(PT::iterator(p)[i]); pt gl = a.gradient(l).second, og = o.gradient(l).second; same += std::abs((double)(PT::iterator(gl)[0] - PT::iterator(og)[0])) < 1e-9; if (k == 0) first = gl; else moving |= PT::iterator(gl)[0] != PT::iterator(first)[0]; REQUIRE(std::abs((double)a.eval(l)) <= 16 * eps, "noise at the lattice point " << show(l) << " is " << (double)a.eval(l)); REQUIRE(std::abs((double)a.gradient(l).first) <= 16 * eps, "gradient query at a lattice point reports a value"); }
        REQUIRE(same < n / 2, "noise functions of different seeds have the same gradients at " << same << " of " << n << " points"); REQUIRE(moving || far == 0, "gradients are the same at every lattice point");
        // the gradient is the derivative: fourth-order differences
        for (int k = 0; k < 3; k++) {
            pt p; bool on = false; double h = sizeof(T) == 4 ? 1. / 64 : 1. / 1024; for (int i = 0; i < N; i++) { T x = at(c, sizeof(T) == 4 ? 0 : far); PT::iterator(p)[i] = x; } auto g = a.gradient(p); c.nontrivial();
            for (int i = 0; i < N; i++) { double x = PT::iterator(p)[i], f = x - std::floor(x); on = f < 2 * h || f > 1 - 2 * h; auto at2 = [&](double d) { pt q = p; PT::iterator(q)[i] = (T)(x + d); return (double)a.eval(q); }; double d = (8 * (at2(h) - at2(-h)) - (at2(2 * h) - at2(-2 * h))) / (12 * h); c.label("across a cell face", on); double tol = (on ? 200 * h * h : 3000 * h * h * h * h) + 16 * eps / h + 32 * eps; double got = PT::iterator(g.second)[i]; REQUIRE(std::abs(got - d) <= tol, "derivative along axis " << i << " at " << show(p) << " is reported as " << got << " but the values change at the rate " << d); }
        }
        // continuity of value and gradient along a fine walk
        { pt p, q; double h = sizeof(T) == 4 ? 1. / 4096 : std::exp2(-30); for (int i = 0; i < N; i++) { PT::iterator(p)[i] = at(c, sizeof(T) == 4 ? 0 : 1); PT::iterator(q)[i] = PT::iterator(p)[i] + (T)(c.si(2) * h); } double v = std::abs((double)(a.eval(p) - a.eval(q))), lim = N * 8 * 2 * h + 64 * eps; REQUIRE(v <= lim, "noise jumps by " << v << " between " << show(p) << "and a point next to it"); auto gp = a.gradient(p).second, gq = a.gradient(q).second; for (int i = 0; i < N; i++) { double d = std::abs((double)(PT::iterator(gp)[i] - PT::iterator(gq)[i])); REQUIRE(d <= N * 60 * 2 * h + 128 * eps, "gradient jumps by " << d << " between " << show(p) << "and a point next to it"); } }
    }
};
#if PART(0)
PROP(double_1, 10000) { Noise<double, 1>::run(c); }
PROP(double_2, 10000) { Noise<double, 2>::run(c); }
PROP(double_3, 10000) { Noise<double, 3>::run(c); }
PROP(double_4, 6000) { Noise<double, 4>::run(c); }
#endif
#if PART(1)
PROP(float_1, 6000) { Noise<float, 1>::run(c); }
PROP(float_2, 10000) { Noise<float, 2>::run(c); }
PROP(float_3, 10000) { Noise<float, 3>::run(c); }
PROP(default_generator, 600) { PerlinNoise<double, 2> a; PerlinNoise<double, 3> b; Vec<double, 2> p(c.range(-9, 9), c.range(-9, 9)); Vec<double, 3> q(p, c.range(-9, 9)); LOG(c, "noise of the shared generator"); REQUIRE(std::abs(a.eval(p)) <= .708 && a.eval(p) == a.eval(p) && std::abs(b.eval(q)) <= .867 && b.eval(q) == b.gradient(q).first, "noise of the shared generator"); REQUIRE(std::abs(a.eval(p.floor())) < 1e-12, "noise at a lattice point"); c.nontrivial(); }
#endif
