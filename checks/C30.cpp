// C30: permute. Oracle: multiset of elements, all arrangements equally likely (chi-square over n! for small n, position x element for larger), repeatable.
// thorough: 20
// rule: more than one element
#include "pbt.h"
#include <geomc/random/LCRand.h>
#include <geomc/random/MTRand.h>
#include <geomc/random/Xorshiro.h>
#include <geomc/random/RandomTools.h>
using namespace geom;
static double chi(const std::vector<double>& got, double want) { double x = 0; for (double g : got) x += (g - want) * (g - want) / want; double d = got.size() - 1, t = std::cbrt(x / d); return d < 1 ? 0 : (t - (1 - 2 / (9 * d))) / std::sqrt(2 / (9 * d)); }
template<class F> static void with(pbt::Ctx& c, F f) { uint64_t s = c.draw(~0ull); switch (c.i(0, 2)) { case 0: { LCRand g(s); LOG(c, "LCRand seed " << s); f(g); break; } case 1: { MTRand g(s); LOG(c, "MTRand seed " << s); f(g); break; } default: { XoshiroRand g(s); LOG(c, "XoshiroRand seed " << s); f(g); } } }
struct Item { std::string s; int k; Item(int k = 0) : s(k % 7 + 20, 'a' + k % 26), k(k) {} bool operator==(const Item& o) const { return s == o.s && k == o.k; } bool operator<(const Item& o) const { return k < o.k; } };
template<class T, class G> static void both(pbt::Ctx& c, std::vector<T>& v, bool arr, G& g) { if (arr) permute(v.data(), v.size(), (Random&)g); else permute(v, (Random&)g); }
// arbitrary bits
struct Bits : Random { pbt::Ctx& c; uint64_t more; int n = 0; int m; Bits(pbt::Ctx& c) : c(c), more(c.draw(~0ull)), m(c.i(1, 30)) {} void rseed(uint64_t) override {} uint32_t rand32() override { if (n++ > m) return pbt::splitmix(more) >> 32; switch (c.i(0, 3)) { case 0: return 0; case 1: return 0xffffffffu; case 2: return 1u << c.i(0, 31); } return c.draw(0xffffffffu); } };
template<class T> static void keeps(pbt::Ctx& c) {
    int n = c.b() ? c.i(0, 8) : c.i(0, 200), guard = c.i(0, 3); bool arr = c.b(); std::vector<T> v; int kinds = c.b() ? 1 << 20 : c.i(1, 5); for (int i = 0; i < n; i++) v.push_back(T(c.i(0, kinds - 1))); std::vector<T> o = v; LOG(c, n << " elements, " << (arr ? "array" : "vector")); c.nontrivial(n > 1);
    if (c.b()) { Bits g(c); both(c, v, arr, g); } else with(c, [&](auto& g) { auto h = g; if (arr) { std::vector<T> big(n + 2 * guard, T(77)); for (int i = 0; i < n; i++) big[i + guard] = o[i]; permute(big.data() + guard, n, g); for (int i = 0; i < guard; i++) REQUIRE(big[i] == T(77) && big[n + guard + i] == T(77), "an element outside the array changed"); for (int i = 0; i < n; i++) v[i] = big[guard + i]; } else permute(v, g); std::vector<T> w = o; both(c, w, arr, h); REQUIRE(w == v, "the same generator state gives two different arrangements"); });
    REQUIRE((int)v.size() == n, "number of elements"); std::sort(v.begin(), v.end()); std::sort(o.begin(), o.end()); REQUIRE(v == o, "the elements of the sequence changed");
}
PROP(elements_int, 150000) { keeps<int>(c); }
PROP(elements_objects, 60000) { keeps<Item>(c); }
PROP(all_arrangements, 3000) {
    int n = c.i(2, 5), f = 1; for (int i = 2; i <= n; i++) f *= i; bool arr = c.b(); LOG(c, "arrangements of " << n << " in " << (arr ? "an array" : "a vector")); c.nontrivial();
    with(c, [&](auto& g) { std::vector<double> h(f, 0); int total = 30 * f + 1000; for (int t = 0; t < total; t++) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); both(c, v, arr, g); int code = 0; for (int i = 0; i < n; i++) { int less = 0; for (int j = i + 1; j < n; j++) less += v[j] < v[i]; code = code * (n - i) + less; } h[code]++; } double z = chi(h, total / (double)f); REQUIRE(z < 8.5, "arrangements of " << n << " elements are not equally likely (z " << z << "), from " << *std::min_element(h.begin(), h.end()) << " to " << *std::max_element(h.begin(), h.end()) << " of " << total); });
}
PROP(positions, 1500) {
    int n = c.i(6, 24); bool arr = c.b(); LOG(c, n << " elements in " << (arr ? "an array" : "a vector")); c.nontrivial();
    with(c, [&](auto& g) { std::vector<double> h(n * n, 0), p(n * n, 0); int total = 40 * n; for (int t = 0; t < total; t++) { std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); both(c, v, arr, g); for (int i = 0; i < n; i++) h[i * n + v[i]]++; for (int i = 0; i + 1 < n; i++) p[v[i] * n + v[i + 1]]++; }
        // rows and columns are both fixed sums: (n-1)^2 degrees of freedom; scale the counts accordingly
        for (auto* q : {&h, &p}) { bool pairs = q == &p; double want = pairs ? total / (double)n : 40., x = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (pairs && i == j) continue; x += ((*q)[i * n + j] - want) * ((*q)[i * n + j] - want) / want; } double d = pairs ? n * (n - 1) : (n - 1) * (n - 1) * (n / (n - 1.)), t = std::cbrt(x / d), z = (t - (1 - 2 / (9 * d))) / std::sqrt(2 / (9 * d)); REQUIRE(z < 9, (pairs ? "neighbours" : "positions") << " of " << n << " elements are not uniform (z " << z << ")"); } });
}
PROP(default_generator, 3000) { uint64_t s = c.draw(~0ull); int n = c.i(0, 30); LOG(c, n << " elements, default generator seeded " << s); c.nontrivial(n > 1); std::vector<int> v, w; for (int i = 0; i < n; i++) v.push_back(i); w = v; auto x = v, y = v; getRandom()->rseed(s); permute(v); permute(x.data(), x.size()); getRandom()->rseed(s); permute(w); permute(y.data(), y.size()); REQUIRE(v == w && x == y, "reseeding the default generator does not repeat the arrangement"); auto z = v; std::sort(z.begin(), z.end()); for (int i = 0; i < n; i++) REQUIRE(z[i] == i, "elements changed"); }
// long sequences: kept, and moved between eighths of the sequence as often as chance has it
PROP(long_sequences, 240) {
    int n = (int)c.big(8, 18); bool arr = c.b(); LOG(c, n << " elements in " << (arr ? "an array" : "a vector")); c.nontrivial(); c.label("more than 2^16", n > 65536);
    with(c, [&](auto& g) { std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i; both(c, v, arr, g); std::vector<char> seen(n, 0); for (int x : v) { REQUIRE(x >= 0 && x < n && !seen[x], "the elements of a sequence of " << n << " changed"); seen[x] = 1; }
        const int K = 8; std::vector<double> h(K * K, 0), len(K, 0); auto cell = [&](int i) { return (int)((int64_t)i * K / n); }; for (int i = 0; i < n; i++) { h[cell(i) * K + cell(v[i])]++; len[cell(i)]++; } double x = 0; for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { double w = len[i] * len[j] / n; x += (h[i * K + j] - w) * (h[i * K + j] - w) / w; } double d = (K - 1) * (K - 1), t = std::cbrt(x / d), z = (t - (1 - 2 / (9 * d))) / std::sqrt(2 / (9 * d)); REQUIRE(z < 9, "elements are not moved uniformly between the eighths of a sequence of " << n << " (z " << z << ")");
        int fixed = 0, next = 0; for (int i = 0; i < n; i++) { fixed += v[i] == i; next += i + 1 < n && v[i + 1] == v[i] + 1; } REQUIRE(fixed < 25 && next < 25, fixed << " of " << n << " elements stay in place, " << next << " keep their neighbour"); });
}
