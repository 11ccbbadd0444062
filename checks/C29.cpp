// C29: samplers of regions. Containment for every bit source; uniformity by mapping samples to independent uniform coordinates and chi-square.
// parts: 2
// thorough: 20
// rule: every case: a region and a source of bits
#include "pbt.h"
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
using namespace geom;
static const double kPi = M_PI, kZ = 8.5;
static double chi(const std::vector<double>& got, double want) { double x = 0; for (double g : got) x += (g - want) * (g - want) / want; double d = got.size() - 1, t = std::cbrt(x / d); return (t - (1 - 2 / (9 * d))) / std::sqrt(2 / (9 * d)); }
// independent uniform coordinates: each uniform, each pair uniform
struct Uniform {
    int k = 0, n = 0; std::vector<std::vector<double>> u;
    void add(const std::vector<double>& x) { k = x.size(); n++; for (double d : x) REQUIRE(d == d, "sample is not a number"); u.push_back(x); }
    static int bin(double x, int B) { return std::min(B - 1, std::max(0, (int)std::floor(x * B))); }
    void check(const char* what) {
        for (int a = 0; a < k; a++) { const int B = 20; std::vector<double> h(B, 0); double m = 0; for (auto& x : u) { h[bin(x[a], B)]++; m += x[a]; } double z = chi(h, n / (double)B); REQUIRE(z < kZ, what << " is not uniform: coordinate " << a << " of " << n << " samples has mean " << m / n << " (z " << z << ")"); REQUIRE(std::abs(m / n - .5) * std::sqrt(12. * n) < kZ, what << " is not uniform: coordinate " << a << " of " << n << " samples has mean " << m / n); }
        for (int a = 0; a < k; a++) for (int b = 0; b < a; b++) { const int B = 6; std::vector<double> h(B * B, 0); for (auto& x : u) h[bin(x[a], B) * B + bin(x[b], B)]++; double z = chi(h, n / (double)(B * B)); REQUIRE(z < kZ, what << " is not uniform: coordinates " << b << " and " << a << " of " << n << " samples depend on each other (z " << z << ")"); }
    }
};
// uniform coordinates of a direction
static void sphere(std::vector<double> v, std::vector<double>& out) {
    while (v.size() > 2) { double r = 0; for (double x : v) r += x * x; double t = r > 0 ? v[0] / std::sqrt(r) : 0; t = std::min(1., std::max(-1., t)); int n = v.size(); out.push_back(n == 3 ? (t + 1) / 2 : n == 4 ? .5 + (std::asin(t) + t * std::sqrt(1 - t * t)) / kPi : .75 * (t - t * t * t / 3) + .5); v.erase(v.begin()); }
    out.push_back(.5 + std::atan2(v[1], v[0]) / (2 * kPi));
}
template<class T, index_t N> static std::vector<double> sv(const Vec<T, N>& v) { std::vector<double> r; for (int i = 0; i < N; i++) r.push_back(v[i]); return r; }
template<class T, index_t N> static double len(const Vec<T, N>& v) { long double s = 0; for (int i = 0; i < N; i++) s += (long double)v[i] * v[i]; return (double)std::sqrt(s); }
// awkward but eventually random bits
struct Bits : Random { pbt::Ctx& c; uint64_t more; int n = 0; int m; Bits(pbt::Ctx& c) : c(c), more(c.draw(~0ull)), m(c.i(1, 12)) {} void rseed(uint64_t) override {} uint32_t rand32() override { if (n++ > m) return pbt::splitmix(more) >> 32; switch (c.i(0, 3)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return ~(1u << c.i(0, 31)); } return c.draw(0xffffffffu); } };
template<class T> struct Samp {
    static constexpr double eps = std::numeric_limits<T>::epsilon();
    typedef Sampler<T> S;
    // run fn once with awkward bits, or check uniformity over many samples
    template<class F> static void drive(pbt::Ctx& c, const char* what, bool many, F one) {
        if (!many) { Bits b(c); S s(&b); LOG(c, what << " from awkward bits"); c.nontrivial(); for (int i = 0; i < 3; i++) one(s); return; }
        uint64_t seed = c.draw(~0ull); int g = c.i(0, 2); LOG(c, what << " from generator " << g << " seed " << seed); c.nontrivial(); LCRand l(seed); MTRand m(seed); XoshiroRand x(seed); S s(g == 0 ? (Random*)&l : g == 1 ? (Random*)&m : &x); Uniform u; const int n = 2500; for (int i = 0; i < n; i++) u.add(one(s)); u.check(what);
    }
    static T pos(pbt::Ctx& c) { return (T)(c.b() ? c.i(1, 5) : c.logpos(1e-3, 1e3)); }
    template<index_t N> static void ball(pbt::Ctx& c, bool many) {
        T R = pos(c), a = c.chance(1, 6) ? (T)0 : (T)(R * (c.b() ? c.range(0, 1) : 1 - c.logpos(1e-3, 1))); double t = 8 * N * eps; int k = c.i(0, 4); LOG(c, "dimension " << N << " radius " << R << " inner " << a);
        if (k == 0) drive(c, "unit vector", many, [&](S& s) { Vec<T, N> v = s.template unit<N>(); REQUIRE(std::abs(len(v) - 1) <= t, "unit vector " << v << " of length " << len(v)); std::vector<double> o; sphere(sv(v), o); return o; });
        if (k == 1) drive(c, "vector of given length", many, [&](S& s) { Vec<T, N> v = s.template unit<N>(R); REQUIRE(std::abs(len(v) - R) <= t * R, "vector " << v << " of length " << len(v) << " instead of " << R); std::vector<double> o; sphere(sv(v), o); return o; });
        if (k == 2) drive(c, "unit ball", many, [&](S& s) { Vec<T, N> v = N == 2 && R < 1 ? s.disk().template resized<N>() : s.template solidball<N>(); REQUIRE(len(v) <= 1 + t, "point " << v << " outside the unit ball"); std::vector<double> o{std::pow(len(v), N)}; sphere(sv(v), o); return o; });
        if (k == 3) drive(c, "ball", many, [&](S& s) { Vec<T, N> v = N == 2 && R < 1 ? s.disk(R).template resized<N>() : s.template solidball<N>(R); REQUIRE(len(v) <= R * (1 + t), "point " << v << " outside the ball of radius " << R); std::vector<double> o{std::pow(len(v) / R, N)}; sphere(sv(v), o); return o; });
        if (k == 4) drive(c, "shell", many, [&](S& s) { Vec<T, N> v = s.template shell<N>(a, R); double l = len(v); REQUIRE(l <= R * (1 + t) && l >= a - t * R * (1 + (a > 0 ? R / a : 0)), "point " << v << " at radius " << l << " outside the shell from " << a << " to " << R); double q = std::pow(a / (double)R, N); std::vector<double> o{(std::pow(l / R, N) - q) / (1 - q)}; sphere(sv(v), o); return o; });
    }
    template<index_t N> static void box(pbt::Ctx& c, bool many) {
        Vec<T, N> lo, hi; for (int i = 0; i < N; i++) { lo[i] = (T)c.real(20); hi[i] = lo[i] + pos(c); if (hi[i] - lo[i] < 1e-3 * std::abs(lo[i])) hi[i] = lo[i] + 1 + std::abs(lo[i]); } int k = c.i(0, 3); LOG(c, "box from " << lo << " to " << hi << " by form " << k);
        drive(c, "box", many, [&](S& s) { Vec<T, N> v, a = lo, b = hi; switch (k) { case 0: v = s.template box<N>(); a = Vec<T, N>((T)0); b = Vec<T, N>((T)1); break; case 1: v = s.template box<N>(lo, hi); break; case 2: v = s.template box<N>(Rect<T, N>(lo, hi)); break; default: if constexpr (N == 2) v = s.box(lo[0], lo[1], hi[0], hi[1]); else if constexpr (N == 3) v = s.box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); else v = s.template box<N>(lo, hi); } std::vector<double> o; for (int i = 0; i < N; i++) { double t = 4 * eps * (std::abs((double)a[i]) + std::abs((double)b[i])); REQUIRE(v[i] >= a[i] - t && v[i] <= b[i] + t, "point " << v << " outside the box from " << a << " to " << b); o.push_back(((double)v[i] - a[i]) / ((double)b[i] - a[i])); } return o; });
    }
    static Vec<T, 3> dir(pbt::Ctx& c) { Vec<T, 3> d; switch (c.i(0, 3)) { case 0: d[c.i(0, 2)] = c.b() ? -1 : 1; break; case 1: d = Vec<T, 3>((T)c.range(-1e-3, 1e-3), (T)c.range(-1e-3, 1e-3), c.b() ? -1 : 1); if (c.b()) d *= (T)c.i(1, 9); break; default: for (int i = 0; i < 3; i++) d[i] = (T)(c.b() ? c.si(4) : c.range(-3, 3)); if (d.mag2() < .01) d = Vec<T, 3>(0, 0, 1); } return d; }
    // coordinates about an axis: height along it, distance from it, azimuth about it
    static void about(const Vec<T, 3>& v, const Vec<T, 3>& axis, double& h, double& r, double& az) { double a[3], b[3], e[3], l = len(axis), q = 0, x = 0, y = 0; for (int i = 0; i < 3; i++) a[i] = axis[i] / l; int m = 0; for (int i = 1; i < 3; i++) if (std::abs(a[i]) < std::abs(a[m])) m = i; for (int i = 0; i < 3; i++) b[i] = (i == m) - a[i] * a[m]; for (double d : b) q += d * d; for (double& d : b) d /= std::sqrt(q); for (int i = 0; i < 3; i++) e[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]; h = 0; for (int i = 0; i < 3; i++) { h += v[i] * a[i]; x += v[i] * b[i]; y += v[i] * e[i]; } r = std::hypot(x, y); az = .5 + std::atan2(y, x) / (2 * kPi); }
    static void caps(pbt::Ctx& c, bool many) {
        T ang = (T)(c.chance(1, 6) ? kPi : c.b() ? c.range(.2, kPi) : c.logpos(.05, kPi)), R = pos(c), a = c.chance(1, 6) ? (T)0 : (T)(R * c.range(0, .99)); Vec<T, 3> d = dir(c); double t = 8 * std::sqrt(eps), min_h = std::cos((double)ang), te = 16 * eps; int k = c.i(0, 3); LOG(c, "angle " << ang << " about " << d << " radii " << a << " to " << R);
        auto cap = [&](const Vec<T, 3>& v, const Vec<T, 3>& axis, double tol) { double h, r, az; REQUIRE(std::abs(len(v) - 1) <= te, "cap sample " << v << " of length " << len(v)); about(v, axis, h, r, az); REQUIRE(h >= min_h - tol, "cap sample " << v << " at angle " << std::acos(h) << " from " << axis << ", more than " << ang); return std::vector<double>{(h - min_h) / (1 - min_h), az}; };
        if (k == 0) drive(c, "cap", many, [&](S& s) { return cap(s.cap(ang), Vec<T, 3>(0, 0, 1), te); });
        if (k == 1) drive(c, "cap about a direction", many, [&](S& s) { return cap(s.cap(d, ang), d, t); });
        if (k == 2) drive(c, "solid cap", many, [&](S& s) { Vec<T, 3> v = s.solidcap(d, ang, a, R); double l = len(v), h, r, az; REQUIRE(l <= R * (1 + te) && l >= a - te * R * (1 + (a > 0 ? R / a : 0)), "solid cap sample " << v << " at radius " << l << " not between " << a << " and " << R); about(v, d, h, r, az); h = l > 0 ? h / l : 1; REQUIRE(h >= min_h - t, "solid cap sample " << v << " at angle " << std::acos(h) << " from " << d << ", more than " << ang); double q = std::pow(a / (double)R, 3); return std::vector<double>{(h - min_h) / (1 - min_h), az, (std::pow(l / R, 3) - q) / (1 - q)}; });
        if (k == 3) drive(c, "oriented disk", many, [&](S& s) { Vec<T, 3> v = s.oriented_disk(d, R); double h, r, az; about(v, d, h, r, az); REQUIRE(r <= R * (1 + te) && std::abs(h) <= R * t, "oriented disk sample " << v << " is " << h << " from the plane and " << r << " from the axis of the disk of radius " << R << " about " << d); return std::vector<double>{r * r / ((double)R * R), az}; });
    }
    static void arcs(pbt::Ctx& c, bool many) {
        double lo = c.b() ? c.range(-kPi, kPi) : c.range(-12, 12), w = c.chance(1, 6) ? 2 * kPi : c.b() ? c.logpos(.05, 2 * kPi) : c.range(.5, 2 * kPi); T l = (T)lo, h = (T)(lo + w), R = pos(c), a = c.chance(1, 6) ? (T)0 : (T)(R * c.range(0, .99)); double te = 32 * eps, base = (double)l, wide = (double)h - (double)l; bool solid = c.b(); LOG(c, "arc from " << l << " to " << h << " radii " << a << " to " << R);
        drive(c, solid ? "solid arc" : "arc", many, [&](S& s) { Vec<T, 2> v = solid ? s.solidarc(l, h, a, R) : s.arc(l, h); double m = len(v), g = std::atan2((double)v.y, (double)v.x); if (solid) REQUIRE(m <= R * (1 + te) && m >= a - te * R * (1 + (a > 0 ? R / a : 0)), "solid arc sample " << v << " at radius " << m << " not between " << a << " and " << R); else REQUIRE(std::abs(m - 1) <= te, "arc sample " << v << " of length " << m); double e = te * 16, k = std::fmod(g - base, 2 * kPi); if (k < 0) k += 2 * kPi; if (k > wide + e && k > 2 * kPi - e) k = 0; REQUIRE(m == 0 || k <= wide + e, "arc sample " << v << " at angle " << g << " not between " << l << " and " << h); std::vector<double> o{k / wide}; if (solid) { double q = (double)a / R; q *= q; o.push_back((m * m / ((double)R * R) - q) / (1 - q)); } return o; });
    }
    static void any(pbt::Ctx& c, bool many) { switch (c.i(0, 8)) { case 0: return ball<2>(c, many); case 1: return ball<3>(c, many); case 2: return ball<4>(c, many); case 3: return ball<5>(c, many); case 4: return c.b() ? box<2>(c, many) : box<3>(c, many); case 5: return c.b() ? box<4>(c, many) : box<5>(c, many); case 6: case 7: return caps(c, many); default: return arcs(c, many); } }
};
#if PART(0)
PROP(double_uniform, 6000) { Samp<double>::any(c, true); }
PROP(double_inside, 400000) { Samp<double>::any(c, false); }
#endif
#if PART(1)
PROP(float_uniform, 6000) { Samp<float>::any(c, true); }
PROP(float_inside, 400000) { Samp<float>::any(c, false); }
PROP(default_generator, 2000) { uint64_t s = c.draw(~0ull); LOG(c, "default generator seeded " << s); c.nontrivial(); Sampler<double> d; REQUIRE(d.rng == getRandom(), "default generator"); LCRand* l = dynamic_cast<LCRand*>(getRandom()); (void)l; getRandom()->rseed(s); Vec<double, 3> a = d.unit<3>(), b = d.solidball<3>(2.); getRandom()->rseed(s); Sampler<double> e(getRandom()); REQUIRE((a == e.unit<3>() && b == e.solidball<3>(2.)), "samples are not repeated after reseeding"); }
#endif
