// C28: random generators. Oracles: the published algorithms, replayed streams, requested ranges, and chi-square tests of the documented distributions.
// parts: 3
// thorough: 20
// rule: draws preceded by others (reproducibility), or a bound above one (ranges)
#include "pbt.h"
#include <climits>
#include <geomc/linalg/Vec.h>
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
using namespace geom;
typedef unsigned long long ull; typedef long long ll;
// ---- reference algorithms
namespace ref {
struct LC { uint64_t s; uint32_t next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 32; } };
struct XS { uint64_t s[4]; static uint64_t rl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    XS(uint64_t seed) { for (auto& w : s) w = pbt::splitmix(seed); }
    uint64_t next() { uint64_t r = rl(s[0] + s[3], 23) + s[0], t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rl(s[3], 45); return r; } };
}
static uint64_t seed(pbt::Ctx& c) { switch (c.i(0, 3)) { case 0: return c.i(0, 20); case 1: return 1ull << c.i(0, 63); case 2: return c.draw(0xffffffffull); } return c.draw(~0ull); }
// ---- one draw of any kind, as a number of bits and a text
static const int kKinds = 21;
static bool near_range(double v, double lo, double hi, double eps) { double t = 4 * eps * (std::abs(lo) + std::abs(hi)) + 1e-44; return v >= std::min(lo, hi) - t && v <= std::max(lo, hi) + t; }
template<class I> static bool in_int(I v, I lo, I hi) { I a = std::min(lo, hi), b = std::max(lo, hi); return a == b ? v == a : v >= a && v < b; }
struct Args { int kind; ll a, b; double x, y; };
static ll wide(pbt::Ctx& c) { switch (c.i(0, 4)) { case 0: return c.si(5); case 1: return c.si(1000); case 2: return (ll)((1ull << c.i(0, 63)) + c.si(2)); case 3: return -(ll)(1ull << c.i(0, 62)) + c.si(2); } return (ll)c.draw(~0ull); }
static int narrow(pbt::Ctx& c) { switch (c.i(0, 4)) { case 0: return c.si(5); case 1: return c.si(1000); case 2: return (int)((1u << c.i(0, 31)) + (unsigned)c.si(2)); case 3: return (int)(0u - (1u << c.i(0, 31)) + (unsigned)c.si(2)); } return (int)c.draw(0xffffffffu); }
static double fl(pbt::Ctx& c) { switch (c.i(0, 3)) { case 0: return c.si(3); case 1: return c.range(-1, 1); case 2: return (c.b() ? -1 : 1) * c.logpos(1e-6, 1e6); } return c.range(-1000, 1000); }
static Args args(pbt::Ctx& c) { Args r; r.kind = c.i(0, kKinds - 1); bool w = r.kind == 10 || r.kind == 11 || r.kind == 12 || r.kind == 13 || r.kind == 16; r.a = w ? wide(c) : narrow(c); r.b = w ? wide(c) : narrow(c); r.x = (float)fl(c); r.y = (float)fl(c); return r; }
template<class R> static uint64_t bits(R& g, const Args& k) {
    switch (k.kind) {
        case 0: return g.template rand<bool>();
        case 1: return g.template rand<unsigned>(); case 2: return (unsigned)g.template rand<int>(); case 3: return g.template rand<unsigned long>(); case 4: return g.template rand<long>(); case 5: return g.template rand<ull>(); case 6: return g.template rand<ll>();
        case 7: { double d = g.template rand<float>(); REQUIRE(d >= 0 && d <= 1, "rand<float>() is " << d); uint64_t u; memcpy(&u, &d, 8); return u; }
        case 8: { double d = g.template rand<double>(); REQUIRE(d >= 0 && d <= 1, "rand<double>() is " << d); uint64_t u; memcpy(&u, &d, 8); return u; }
        case 9: { unsigned h = (unsigned)k.a, v = g.template rand<unsigned>(h); REQUIRE(h == 0 ? v == 0 : v < h, "rand<unsigned>(" << h << ") is " << v); return v; }
        case 10: { unsigned long h = k.a, v = g.template rand<unsigned long>(h); REQUIRE(h == 0 ? v == 0 : v < h, "rand<unsigned long>(" << h << ") is " << v); return v; }
        case 11: { ull h = k.a, v = g.template rand<ull>(h); REQUIRE(h == 0 ? v == 0 : v < h, "rand<unsigned long long>(" << h << ") is " << v); return v; }
        case 12: { ll h = k.a, v = g.template rand<ll>(h); REQUIRE(h == 0 ? v == 0 : h > 0 ? v >= 0 && v < h : v <= 0 && v > h, "rand<long long>(" << h << ") is " << v); return v; }
        case 13: { long h = k.a, v = g.template rand<long>(h); REQUIRE(h == 0 ? v == 0 : h > 0 ? v >= 0 && v < h : v <= 0 && v > h, "rand<long>(" << h << ") is " << v); return v; }
        case 14: { int h = (int)k.a, v = g.template rand<int>(h); REQUIRE(h == 0 ? v == 0 : h > 0 ? v >= 0 && v < h : v <= 0 && v > h, "rand<int>(" << h << ") is " << v); return (unsigned)v; }
        case 15: { int lo = (int)k.a, hi = (int)k.b, v = g.template rand<int>(lo, hi); REQUIRE(in_int(v, lo, hi), "rand<int>(" << lo << ", " << hi << ") is " << v); return (unsigned)v; }
        case 16: { ll v = g.template rand<ll>(k.a, k.b); REQUIRE(in_int(v, k.a, k.b), "rand<long long>(" << k.a << ", " << k.b << ") is " << v); return v; }
        case 17: { double v = g.template rand<float>((float)k.x); REQUIRE(near_range(v, 0, k.x, 0), "rand<float>(" << k.x << ") is " << v); uint64_t u; memcpy(&u, &v, 8); return u; }
        case 18: { double v = g.template rand<double>(k.x); REQUIRE(near_range(v, 0, k.x, 0), "rand<double>(" << k.x << ") is " << v); uint64_t u; memcpy(&u, &v, 8); return u; }
        case 19: { double v = g.template rand<float>((float)k.x, (float)k.y); REQUIRE(near_range(v, k.x, k.y, FLT_EPSILON), "rand<float>(" << k.x << ", " << k.y << ") is " << v); uint64_t u; memcpy(&u, &v, 8); return u; }
        case 20: { double v = g.template rand<double>(k.x, k.y); REQUIRE(near_range(v, k.x, k.y, DBL_EPSILON), "rand<double>(" << k.x << ", " << k.y << ") is " << v); uint64_t u; memcpy(&u, &v, 8); return u; }
    }
    return 0;
}
// chi-square with equal or given expected counts; as a normal deviate (Wilson-Hilferty)
static double chi(const std::vector<double>& got, const std::vector<double>& want) { double x = 0; int k = 0; for (size_t i = 0; i < got.size(); i++) { if (want[i] <= 0) { if (got[i] > 0) return 1e9; continue; } x += (got[i] - want[i]) * (got[i] - want[i]) / want[i]; k++; } if (k < 2) return 0; double d = k - 1, t = std::cbrt(x / d); return (t - (1 - 2 / (9 * d))) / std::sqrt(2 / (9 * d)); }
static const double kZ = 8.5;

#if PART(0)
// ---- published algorithms
PROP(lc_sequence, 180000) { uint64_t s = seed(c); LOG(c, "LCRand seed " << s); c.nontrivial(); LCRand g(s); ref::LC r{s}; int n = c.i(1, 60); for (int i = 0; i < n; i++) { if (c.chance(1, 10)) { s = seed(c); g.rseed(s); r.s = s; LOG(c, "reseed " << s); } if (c.b()) { uint32_t w = r.next(), v = g.rand32(); REQUIRE(v == w, "draw " << i << " is " << v << ", the generator gives " << w); } else { r.next(); uint64_t v = g.rand64(); REQUIRE(v == r.s, "64-bit draw " << i << " is " << v << ", the generator gives " << r.s); } } }
PROP(xoshiro_sequence, 180000) {
    uint64_t s = seed(c); LOG(c, "XoshiroRand seed " << s); c.nontrivial(); XoshiroRand g(s); ref::XS r(s); int n = c.i(1, 60);
    for (int i = 0; i < n; i++) {
        if (c.chance(1, 12)) { s = seed(c); g.rseed(s); r = ref::XS(s); LOG(c, "reseed " << s); }
        if (c.chance(1, 16)) { uint64_t e[4]; for (auto& w : e) w = c.draw(~0ull); LOG(c, "set the state to " << e[0] << " " << e[1] << " " << e[2] << " " << e[3]); const uint64_t* pe = e; if (c.b()) g.seed(pe); else g = XoshiroRand(pe); for (int j = 0; j < 4; j++) r.s[j] = e[j]; }
        if (c.chance(1, 16)) { uint64_t e[4]; int j = 0; for (auto& w : e) w = seed(c); g.seed([&]() { return e[j++ & 3]; }); REQUIRE(j == 4, "seeding took " << j << " words of entropy"); for (int q = 0; q < 4; q++) { uint64_t x = e[q]; r.s[q] = pbt::splitmix(x); } }
        uint64_t w = r.next(); if (c.b()) { uint32_t v = g.rand32(); REQUIRE(v == (uint32_t)(w >> 32), "draw " << i << " is " << v << ", xoshiro256++ gives " << (w >> 32)); } else { uint64_t v = g.rand64(); REQUIRE(v == w, "64-bit draw " << i << " is " << v << ", xoshiro256++ gives " << w); } }
}
PROP(mt_recurrence, 18000) {
    uint64_t s = seed(c); LOG(c, "MTRand seed " << s); c.nontrivial(); MTRand g(s); if (c.b()) { int k = c.i(0, 1500); for (int i = 0; i < k; i++) g.rand32(); g.rseed(s); LOG(c, "reseeded after " << k << " draws"); }
    std::vector<uint32_t> x; for (int i = 0; i < 2600; i++) x.push_back(g.rand32());
    for (int i = 0; i + 624 < 2600; i++) { uint32_t y = (x[i] & 0x80000000u) | (x[i + 1] & 0x7fffffffu), w = x[i + 397] ^ (y >> 1) ^ (y & 1 ? 0x9908B0DFu : 0); REQUIRE(x[i + 624] == w, "draw " << i + 624 << " is " << x[i + 624] << ", the Mersenne twister recurrence gives " << w); }
    int same = 0; for (int i = 1; i < 624; i++) same += x[i] == x[i - 1]; REQUIRE(same < 4, "the initial state repeats itself");
}
// ---- reproducibility of every mix of draws
template<class G> static void repro(pbt::Ctx& c) {
    uint64_t s = seed(c); LOG(c, "seed " << s); G a(s), b(seed(c)); int pre = c.b() ? 0 : c.i(0, sizeof(G) > 1000 ? 1300 : 40); for (int i = 0; i < pre; i++) if (c.b()) b.template rand<bool>(); else bits(b, args(c)); b.rseed(s); LOG(c, "the second generator was reseeded after " << pre << " other draws"); c.nontrivial(pre > 0);
    std::vector<Args> h; std::vector<uint64_t> out; int n = c.i(1, 50);
    for (int i = 0; i < n; i++) { Args k = args(c); if (c.chance(1, 3)) k.kind = 0; uint64_t x, y; Random& ra = a; x = c.b() ? bits(ra, k) : bits(a, k); y = bits(b, k); LOG(c, "draw kind " << k.kind << " gives " << x); REQUIRE(x == y, "draw " << i << " of kind " << k.kind << " gives " << x << " and " << y << " from generators with the same seed"); h.push_back(k); out.push_back(x); if (c.chance(1, 12)) { if (c.b()) { G d(a); b = d; } else { G d(seed(c)); d.template rand<bool>(); d = a; b = d; } LOG(c, "continue with a copy"); } }
    if (c.b()) { a.rseed(s); for (int i = 0; i < n; i++) REQUIRE(bits(a, h[i]) == out[i], "after reseeding, draw " << i << " of kind " << h[i].kind << " is not repeated"); } else { G d(s); for (int i = 0; i < n; i++) REQUIRE(bits(d, h[i]) == out[i], "from a new generator with the same seed, draw " << i << " of kind " << h[i].kind << " is not repeated"); }
    uint64_t s2 = c.b() ? s ^ (1ull << c.i(0, 63)) : seed(c); if (s2 != s) { G p(s), q(s2); int eq = 0; for (int i = 0; i < 12; i++) eq += p.rand32() == q.rand32(); REQUIRE(eq < 12, "seeds " << s << " and " << s2 << " give the same stream"); }
}
PROP(reproducible_lc, 180000) { repro<LCRand>(c); }
PROP(reproducible_xoshiro, 180000) { repro<XoshiroRand>(c); }
PROP(reproducible_mt, 36000) { repro<MTRand>(c); }
// unseeded generators differ; the default generator is one object
PROP(unseeded, 9000) { LOG(c, "two default-constructed generators"); c.nontrivial(); LCRand a, b; XoshiroRand p, q; MTRand m, n; int e[3] = {}; for (int i = 0; i < 12; i++) { e[0] += a.rand32() == b.rand32(); e[1] += p.rand32() == q.rand32(); e[2] += m.rand32() == n.rand32(); } for (int i = 0; i < 3; i++) REQUIRE(e[i] < 12, "two unseeded generators have the same stream"); REQUIRE(getRandom() && getRandom() == getRandom(), "default generator"); uint64_t s = seed(c); std::vector<Args> h; std::vector<uint64_t> o; for (int r = 0; r < 2; r++) { getRandom()->rseed(s); for (int i = 0; i < 8; i++) { if (!r) { h.push_back(args(c)); o.push_back(bits(*getRandom(), h[i])); } else REQUIRE(bits(*getRandom(), h[i]) == o[i], "reseeding the default generator does not repeat draw " << i); } } }
#endif

#if PART(1)
// ---- ranges for every source of bits
struct Bits : Random { pbt::Ctx& c; uint64_t more; int n = 0; Bits(pbt::Ctx& c) : c(c), more(c.draw(~0ull)) {} void rseed(uint64_t) override {} uint32_t rand32() override { if (n++ > 40 + 12 * 40) return pbt::splitmix(more) >> 32; switch (c.i(0, 5)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 1u << c.i(0, 31); case 3: return ~(1u << c.i(0, 31)); case 4: return c.draw(0x1ff); } return c.draw(0xffffffffu); } };
struct Constant : Random { uint32_t w; int n = 0; Constant(uint32_t w) : w(w) {} void rseed(uint64_t) override {} uint32_t rand32() override { return w; } };
PROP(ranges_any_bits, 900000) { Bits g(c); int n = c.i(1, 12); for (int i = 0; i < n; i++) { Args k = args(c); LOG(c, "draw kind " << k.kind << " arguments " << k.a << " " << k.b << " " << k.x << " " << k.y); bits(g, k); } c.nontrivial(); }
PROP(reals_constant_bits, 60000) { Constant g(c.b() ? 0xffffffffu * c.i(0, 1) : c.draw(0xffffffffu)); LOG(c, "every word is " << g.w); c.nontrivial(); for (int k : {0, 1, 2, 3, 4, 5, 6, 7, 8, 17, 18, 19, 20}) { Args a = args(c); a.kind = k; bits(g, a); } if (g.w == 0xffffffffu) { double d = g.rand<double>(), f = g.rand<float>(); REQUIRE(d > 1 - 1e-15 && f > 1 - 1e-7, "all bits set gives " << d << " and " << f); } if (g.w == 0) { double d = g.rand<double>(), f = g.rand<float>(); REQUIRE(d < 1e-300 && f < 1e-37, "no bits set gives " << d << " and " << f); } }
// every bit of a word reaches exactly one bit of an integer draw; booleans use every bit
struct Words : Random { std::vector<uint32_t> w; size_t n = 0; void rseed(uint64_t) override {} uint32_t rand32() override { return n < w.size() ? w[n++] : (n++, 0); } };
PROP(integers_use_every_bit, 60000) { Words g; for (int i = 0; i < 40; i++) g.w.push_back(0); c.nontrivial(); int k = c.i(1, 6); LOG(c, "draw kind " << k); Args a{k, 0, 0, 0, 0}; uint64_t seen = 0; int words = k <= 2 ? 1 : 2; g.n = 0; uint64_t zero = bits(g, a); for (int i = 0; i < 32 * words; i++) { for (auto& w : g.w) w = 0; g.w[i / 32] = 1u << (i % 32); g.n = 0; uint64_t v = bits(g, a); REQUIRE(v != zero, "bit " << i << " of the source does not affect the draw"); seen |= v ^ zero; } REQUIRE(seen == (words == 1 ? 0xffffffffull : ~0ull), "some bits of the draw never change: " << seen); }
PROP(booleans_use_every_bit, 60000) { Words g; uint32_t w = c.draw(0xffffffffu); g.w.push_back(w); LOG(c, "word " << w); c.nontrivial(); int ones = 0; for (int i = 0; i < 32; i++) ones += g.rand<bool>(); REQUIRE(ones == __builtin_popcount(w), "32 booleans from the word " << w << " are true " << ones << " times"); REQUIRE(g.n == 1, "32 booleans took " << g.n << " words"); }
#endif

#if PART(2)
// ---- distributions
template<class F> static void with(pbt::Ctx& c, F f) { uint64_t s = seed(c); switch (c.i(0, 2)) { case 0: { LCRand g(s); LOG(c, "LCRand seed " << s); f(g); break; } case 1: { MTRand g(s); LOG(c, "MTRand seed " << s); f(g); break; } default: { XoshiroRand g(s); LOG(c, "XoshiroRand seed " << s); f(g); } } }
// integers below a bound: equal-probability bins, cut also where a modulo bias would show
template<class I, class U, class D> static void below(pbt::Ctx& c, U m, D draw) {
    typedef unsigned __int128 W; W M = m; REQUIRE(M > 0, "range"); const int n = 4000; int B = m < 24 ? (int)m : c.i(2, 24); std::vector<W> cut; for (int i = 1; i < B; i++) cut.push_back(M * i / B); int digits = sizeof(U) * 8; W span = (W)1 << digits, rem = span % M; if (rem > 0 && m >= 24) cut.push_back(rem); std::sort(cut.begin(), cut.end()); cut.erase(std::unique(cut.begin(), cut.end()), cut.end()); cut.push_back(M);
    std::vector<double> got(cut.size(), 0), want; W p = 0; for (W e : cut) { want.push_back((double)(e - p) / (double)M * n); p = e; }
    // merge tiny bins
    std::vector<W> k2; std::vector<double> w2; double acc = 0; for (size_t i = 0; i < cut.size(); i++) { acc += want[i]; if (acc >= 20 || i + 1 == cut.size()) { if (acc < 20 && !w2.empty()) { w2.back() += acc; k2.back() = cut[i]; } else { w2.push_back(acc); k2.push_back(cut[i]); } acc = 0; } } got.assign(w2.size(), 0);
    std::vector<int> ones(digits, 0); for (int i = 0; i < n; i++) { U v = draw(); REQUIRE(v < m, "draw " << (ull)v << " from " << (ull)m << " values"); size_t q = std::upper_bound(k2.begin(), k2.end(), (W)v) - k2.begin(); got[q]++; for (int b = 0; b < digits; b++) ones[b] += (v >> b) & 1; }
    double z = chi(got, w2); std::ostringstream o; for (size_t i = 0; i < got.size(); i++) o << " " << got[i] << "/" << w2[i]; REQUIRE(z < kZ, n << " draws from " << (ull)m << " values are not uniform (z " << z << "):" << o.str());
    // low bits of wide ranges are fair
    for (int b = 0; b < digits && (M >> b) > 4000; b++) { double zb = (ones[b] - n / 2.) / std::sqrt(n / 4.); REQUIRE(std::abs(zb) < kZ, "bit " << b << " of " << n << " draws from " << (ull)m << " values is set " << ones[b] << " times"); }
}
static uint64_t bound(pbt::Ctx& c, int d) { uint64_t top = d == 64 ? ~0ull : (1ull << d) - 1; switch (c.i(0, 4)) { case 0: return c.i(1, 12); case 1: return c.i(1, 200); case 2: return std::max<uint64_t>(1, top - c.draw(top / 4)); case 3: return top / 2 + 1 + c.draw(top / 2 - 1); } return std::max<uint64_t>(1, c.draw(top) >> c.i(0, d - 2)); }
PROP(uniform_u32, 3600) { unsigned m = bound(c, 32); LOG(c, "bound " << m); c.nontrivial(m > 1); with(c, [&](auto& g) { below<unsigned>(c, m, [&]() { return g.template rand<unsigned>(m); }); }); }
PROP(uniform_i32, 3600) { int m = bound(c, 31); bool neg = c.b(); LOG(c, "bound " << (neg ? -m : m)); c.nontrivial(m > 1); with(c, [&](auto& g) { below<int>(c, (unsigned)m, [&]() { return (unsigned)(neg ? -g.template rand<int>(-m) : g.template rand<int>(m)); }); }); }
PROP(uniform_u64, 3600) { ull m = bound(c, 64); bool l = c.b(); LOG(c, "bound " << m); c.nontrivial(m > 1); with(c, [&](auto& g) { below<ull>(c, m, [&]() { return l ? (ull)g.template rand<unsigned long>(m) : g.template rand<ull>(m); }); }); }
PROP(uniform_i64, 3600) { ll m = bound(c, 63); bool neg = c.b(), l = c.b(); LOG(c, "bound " << (neg ? -m : m)); c.nontrivial(m > 1); with(c, [&](auto& g) { below<ll>(c, (ull)m, [&]() { ll h = neg ? -m : m, v = l ? (ll)g.template rand<long>(h) : g.template rand<ll>(h); return (ull)(neg ? -v : v); }); }); }
PROP(uniform_int_range, 7200) { unsigned m = bound(c, 32); int lo = (int)(INT_MIN + c.draw(0xffffffffu - m)), hi = (int)((unsigned)lo + m); if (c.b()) std::swap(lo, hi); LOG(c, "from " << lo << " to " << hi); c.nontrivial(m > 1); with(c, [&](auto& g) { below<int>(c, m, [&]() { return (unsigned)g.template rand<int>(lo, hi) - (unsigned)std::min(lo, hi); }); }); }
PROP(uniform_ll_range, 7200) { ull m = bound(c, 64); ll lo = (ll)((ull)LLONG_MIN + c.draw(~0ull - m)), hi = (ll)((ull)lo + m); if (c.b()) std::swap(lo, hi); LOG(c, "from " << lo << " to " << hi); c.nontrivial(m > 1); with(c, [&](auto& g) { below<ll>(c, m, [&]() { return (ull)g.template rand<ll>(lo, hi) - (ull)std::min(lo, hi); }); }); }
PROP(uniform_words, 3600) { int k = c.i(1, 6); LOG(c, "draw kind " << k); c.nontrivial(); with(c, [&](auto& g) { const int n = 4000; int d = k <= 2 ? 32 : 64; std::vector<int> ones(d, 0); std::vector<double> h(16, 0), w(16, n / 16.); for (int i = 0; i < n; i++) { uint64_t v = bits(g, Args{k, 0, 0, 0, 0}); for (int b = 0; b < d; b++) ones[b] += (v >> b) & 1; h[v >> (d - 4)]++; } for (int b = 0; b < d; b++) REQUIRE(std::abs(ones[b] - n / 2.) < kZ * std::sqrt(n / 4.), "bit " << b << " is set in " << ones[b] << " of " << n << " draws"); REQUIRE(chi(h, w) < kZ, "leading digits of full-range draws are not uniform"); }); }
PROP(fair_bits, 3600) { LOG(c, "booleans"); c.nontrivial(); with(c, [&](auto& g) { const int n = 16384; std::vector<double> h(16, 0), w(16, n / 4 / 16.); int ones = 0; for (int i = 0; i < n / 4; i++) { int k = 0; for (int j = 0; j < 4; j++) { bool b = g.template rand<bool>(); ones += b; k = k * 2 + b; } h[k]++; } REQUIRE(std::abs(ones - n / 2.) < kZ * std::sqrt(n / 4.), ones << " of " << n << " booleans are true"); REQUIRE(chi(h, w) < kZ, "runs of four booleans are not uniform"); }); }
template<class T, class G> static void reals(pbt::Ctx& c, G& g) {
    const int n = 6000, B = 20; constexpr int D = std::numeric_limits<T>::digits - 1; int how = c.i(0, 2); T a = 0, b = 1; if (how) { b = (T)fl(c); if (how == 2) a = (T)fl(c); if (std::abs((double)(b - a)) < 1e-3 * (1 + std::abs((double)a))) b = a + 1; } LOG(c, "reals between " << a << " and " << b << " by form " << how);
    std::vector<double> h(B, 0), w(B, n / (double)B), e(12, 0), ew(12, 0), ones(D, 0); double m1 = 0, prod = 0, prev = .5;
    for (int i = 0; i < n; i++) { T v = how == 0 ? g.template rand<T>() : how == 1 ? g.template rand<T>(b) : g.template rand<T>(a, b); double u = ((double)v - (double)a) / ((double)b - (double)a); REQUIRE(u >= -1e-4 && u <= 1 + 1e-4, "real " << v << " outside its range"); u = std::min(std::max(u, 0.), 1.); h[std::min(B - 1, (int)(u * B))]++; m1 += u; prod += (u - .5) * (prev - .5); prev = u; int q = 0; for (double t = u; q < 11 && t < .5; t *= 2) q++; e[q]++; if (how == 0) { int ex; double f = std::frexp((double)v, &ex) * 2 - 1; uint64_t mant = (uint64_t)std::ldexp(f, D); for (int k = 0; k < D; k++) ones[k] += (mant >> k) & 1; } }
    for (int q = 0; q < 12; q++) ew[q] = n * (q < 11 ? std::exp2(-q - 1) : std::exp2(-11)); e[9] += e[10] + e[11]; ew[9] += ew[10] + ew[11]; e.resize(10); ew.resize(10); e[8] += e[9]; ew[8] += ew[9]; e.pop_back(); ew.pop_back();
    double z = chi(h, w); REQUIRE(z < kZ, n << " reals between " << a << " and " << b << " are not uniform (z " << z << ")"); z = chi(e, ew); REQUIRE(z < 12, "small reals do not have the right frequency (z " << z << "): " << e[0] << " " << e[1] << " " << e[2] << " " << e[3] << " ..."); REQUIRE(std::abs(m1 / n - .5) < kZ / std::sqrt(12. * n), "mean of " << n << " reals is " << m1 / n << " of the range"); REQUIRE(std::abs(prod) < 9 * std::sqrt(n / 144.), "successive reals are correlated, " << prod);
    if (how == 0) for (int k = 0; k < D; k++) REQUIRE(std::abs(ones[k] - n / 2.) < (k > D - 6 ? 1e9 : 9 * std::sqrt(n / 4.)), "bit " << k << " of the mantissa is set in " << ones[k] << " of " << n << " draws");
}
PROP(uniform_float, 6000) { c.nontrivial(); with(c, [&](auto& g) { reals<float>(c, g); }); }
PROP(uniform_double, 6000) { c.nontrivial(); with(c, [&](auto& g) { reals<double>(c, g); }); }
// both ends of small integer ranges are reached
PROP(ends_reached, 24000) { int lo = narrow(c); lo = std::min(lo, INT_MAX - 20); int m = c.i(1, 12), hi = lo + m; LOG(c, "from " << lo << " to " << hi); c.nontrivial(); with(c, [&](auto& g) { std::vector<int> n(m, 0), p(m, 0), q(m, 0); for (int i = 0; i < 60 * m; i++) { n[g.template rand<int>(lo, hi) - lo]++; p[g.template rand<ll>(hi, lo) - lo]++; q[g.template rand<unsigned long>(m)]++; } for (int i = 0; i < m; i++) REQUIRE(n[i] && p[i] && q[i], "value " << lo + i << " is never drawn in " << 60 * m << " draws"); }); }
#endif
