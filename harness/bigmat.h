// bigmat.h: matrices with more than 128 or 256 rows, where a narrowed index or counter wraps.
#pragma once
#include "pbt.h"
namespace bigm {
struct Rng { uint64_t s; Rng(pbt::Ctx& c): s(c.draw(~0ull >> 1)) {} uint64_t u() { return pbt::splitmix(s); } double unit() { return (u() >> 11) * 0x1p-53; } double range(double a, double b) { return a + (b - a) * unit(); } int i(int lo, int hi) { return lo + (int)(u() % (uint64_t)(hi - lo + 1)); } };
static std::vector<int> perm(Rng& g, int n) { std::vector<int> q(n); for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[g.i(0, i)]); return q; }
// sizes around 128 and 256 (and a few others)
static int size(pbt::Ctx& c) { return c.chance(1, 3) ? (int)c.i(30, 300) : (int)c.pick({128, 256}) + (int)c.si(12); }
// rows x n, every row dominated by one entry, the dominating places permuted: condition below four
static std::vector<double> dominant(Rng& g, int n) { auto p = perm(g, n); std::vector<double> a(n * n); int kind = g.i(0, 2); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * n + j] = j == p[i] ? (g.i(0, 1) ? 1 : -1) * g.range(1, 1.5) : kind == 0 ? g.range(-1, 1) / (2 * n) : kind == 1 ? (g.i(0, n) == 0 ? g.range(-.1, .1) : 0) : 0; return a; }
typedef long double L;
static L absl(L x) { return x < 0 ? -x : x; }
// determinant by elimination in extended precision
static L det(std::vector<double> const& v, int n) { std::vector<L> a(v.begin(), v.end()); L d = 1; for (int k = 0; k < n; k++) { int p = k; for (int i = k + 1; i < n; i++) if (absl(a[i * n + k]) > absl(a[p * n + k])) p = i; if (a[p * n + k] == 0) return 0; if (p != k) { d = -d; for (int j = k; j < n; j++) std::swap(a[k * n + j], a[p * n + j]); } d *= a[k * n + k]; for (int i = k + 1; i < n; i++) { L f = a[i * n + k] / a[k * n + k]; if (f != 0) for (int j = k + 1; j < n; j++) a[i * n + j] -= f * a[k * n + j]; } } return d; }
}
