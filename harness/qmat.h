// qmat.h: reference linear algebra in quadruple precision and exact integers.
#pragma once
#include <vector>
#include <string>
#include <sstream>
typedef __float128 Q;
namespace ref {
static Q qabs(Q x) { return x < 0 ? -x : x; }
struct M { int n; std::vector<Q> v; M(int n): n(n), v(n * n) {} Q& at(int i, int j) { return v[i * n + j]; } Q at(int i, int j) const { return v[i * n + j]; } };
// Gauss-Jordan with full row pivoting; false if singular
static bool inverse(M a, M& x, Q& det) { int n = a.n; x = M(n); det = 1; for (int i = 0; i < n; i++) x.at(i, i) = 1; for (int k = 0; k < n; k++) { int p = k; for (int i = k + 1; i < n; i++) if (qabs(a.at(i, k)) > qabs(a.at(p, k))) p = i; if (a.at(p, k) == 0) { det = 0; return false; } if (p != k) { det = -det; for (int j = 0; j < n; j++) std::swap(a.at(k, j), a.at(p, j)), std::swap(x.at(k, j), x.at(p, j)); } Q d = a.at(k, k); det *= d; for (int j = 0; j < n; j++) a.at(k, j) /= d, x.at(k, j) /= d; for (int i = 0; i < n; i++) if (i != k) { Q f = a.at(i, k); if (f != 0) for (int j = 0; j < n; j++) a.at(i, j) -= f * a.at(k, j), x.at(i, j) -= f * x.at(k, j); } } return true; }
static Q norm(const M& a) { Q s = 0; for (int i = 0; i < a.n; i++) { Q r = 0; for (int j = 0; j < a.n; j++) r += qabs(a.at(i, j)); s = std::max(s, r); } return s; }
// permanent of |a| with row `si` and column `sj` left out (-1: none)
static double perm(const M& a, int si, int sj) { int n = a.n; std::vector<double> f(1 << n, 0); f[0] = 1; int row = 0; std::vector<int> rows; for (int i = 0; i < n; i++) if (i != si) rows.push_back(i); for (int mask = 0; mask < (1 << n); mask++) { if (f[mask] == 0) continue; row = __builtin_popcount(mask); if (row >= (int)rows.size()) continue; for (int j = 0; j < n; j++) if (j != sj && !(mask >> j & 1)) f[mask | 1 << j] += f[mask] * (double)qabs(a.at(rows[row], j)); } if (rows.empty()) return 1; double s = 0; for (int mask = 0; mask < (1 << n); mask++) if (__builtin_popcount(mask) == (int)rows.size()) s += f[mask]; return s; }
// how far a determinant of `a` computed with unit rounding error can be off, in units of the rounding error
static double spread(const M& a) { double mx = 0, s = perm(a, -1, -1); for (auto x : a.v) mx = std::max(mx, (double)qabs(x)); if (a.n > 1) for (int i = 0; i < a.n; i++) for (int j = 0; j < a.n; j++) s += mx * perm(a, i, j); return s; }
static __int128 exact(const std::vector<long>& m, int n) { std::vector<__int128> a(m.begin(), m.end()); __int128 prev = 1; int sign = 1; for (int k = 0; k + 1 < n; k++) { int p = k; while (p < n && a[p * n + k] == 0) p++; if (p == n) return 0; if (p != k) { sign = -sign; for (int j = 0; j < n; j++) std::swap(a[k * n + j], a[p * n + j]); } for (int i = k + 1; i < n; i++) for (int j = k + 1; j < n; j++) a[i * n + j] = (a[i * n + j] * a[k * n + k] - a[i * n + k] * a[k * n + j]) / prev; prev = a[k * n + k]; } return n == 0 ? 1 : sign * a[n * n - 1]; }
static std::string show(const M& a) { std::ostringstream s; s.precision(17); for (int i = 0; i < a.n; i++) { for (int j = 0; j < a.n; j++) s << (double)a.at(i, j) << " "; s << "; "; } return s.str(); }
}
