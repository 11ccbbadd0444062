// C16: LU decomposition. Oracle: multiply the factors back in quadruple precision and compare with the permuted input; parity by counting; systems checked by their residual.
// thorough: 20
// rule: more than one row and column
// parts: 2
#include "pbt.h"
#include "qmat.h"
#include "bigmat.h"
#include <geomc/linalg/Matrix.h>
using namespace geom;
// how a generated rectangular matrix is (or is not) deficient
struct Gen { int r, n; std::vector<double> v; bool regular, deficient; double& at(int i, int j) { return v[i * n + j]; } double at(int i, int j) const { return v[i * n + j]; } };
static std::string show(const Gen& g) { std::ostringstream s; s.precision(17); s << g.r << "x" << g.n << ": "; for (int i = 0; i < g.r; i++) { for (int j = 0; j < g.n; j++) s << g.at(i, j) << " "; s << "; "; } return s.str(); }
// equal, doubled or halved rows cancel exactly under either kind of pivoting
template<class T> Gen draw(pbt::Ctx& c, int r, int n) {
    Gen g{r, n, std::vector<double>(r * n), false, false}; int mode = c.i(0, 5); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) { double v; switch (mode) { case 0: v = c.si(9); break; case 1: v = c.i(-1, 1); break; case 2: v = c.range(-1, 1); break; case 3: v = c.real(10); break; case 4: v = c.range(-1, 1) * std::exp2(4 * (i % 3)); break; default: v = (i + 1) % r == j || c.chance(1, 4) ? c.range(-3, 3) : 0; } g.at(i, j) = (T)v; }
    int how = c.i(0, 8), a = c.i(0, r - 1), b = c.i(0, n - 1); if (how == 0) { for (int j = 0; j < n; j++) g.at(a, j) = 0; g.deficient = r <= n; } else if (how == 1) { for (int i = 0; i < r; i++) g.at(i, b) = 0; g.deficient = n <= r; }
    else if ((how == 2 || how == 3) && r > 1) { int o = (a + c.i(1, r - 1)) % r; double k = c.pick({1., -2., .5}); for (int j = 0; j < n; j++) g.at(o, j) = k * g.at(a, j); g.deficient = r <= n; }
    if (c.chance(1, 6)) { double k = std::exp2(std::is_same<T, float>::value ? c.i(-12, 12) : c.i(-60, 60)); for (auto& x : g.v) x *= k; } // a power of two changes no verdict
    if (!g.deficient && r == n) { ref::M m(n), x(n); for (int i = 0; i < n * n; i++) m.v[i] = g.v[i]; Q d; if (ref::inverse(m, x, d)) { double k = (double)(ref::norm(m) * ref::norm(x)); g.regular = k * 60 * n * (double)std::numeric_limits<T>::epsilon() * 16 < .1; } }
    return g;
}
template<class T, bool Row> T& elem(std::vector<T>& a, int r, int n, int i, int j) { return Row ? a[i * n + j] : a[j * r + i]; }
template<class T, bool Row> void decompose(pbt::Ctx& c, bool byRow) {
    int r = c.i(1, c.chance(1, 4) ? 10 : 5), n = c.chance(1, 2) ? r : c.i(1, 8); Gen g = draw<T>(c, r, n); LOG(c, (byRow ? "rows " : "columns ") << show(g)); double u = std::numeric_limits<T>::epsilon();
    std::vector<T> a(r * n); auto A = [&](int i, int j) -> T& { return elem<T,Row>(a, r, n, i, j); }; for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) A(i, j) = g.at(i, j);
    std::vector<index_t> p(byRow ? r : n, 77); bool odd = c.b(); index_t bad = byRow ? decomp_plu<T,Row>(a.data(), r, n, p.data(), &odd) : decomp_lup<T,Row>(a.data(), r, n, p.data(), &odd);
    // the permutation and its parity
    { std::vector<int> seen(p.size(), 0); for (auto x : p) { REQUIRE(x >= 0 && x < (index_t)p.size() && !seen[x], "the reported order is not a permutation"); seen[x] = 1; } int inv = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) inv ^= p[i] > p[j]; REQUIRE(odd == (inv == 1), "parity is reported as " << odd << " for an order of parity " << inv); }
    // factors
    int k = std::min(r, n); REQUIRE(bad >= 0 && bad <= k, "reported number of degenerate lines is " << bad); Q maxm = 0; for (auto x : g.v) maxm = std::max(maxm, ref::qabs((Q)x));
    if (byRow || bad == 0) for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) { Q s = 0, w = 0; for (int q = 0; q <= std::min(i, j) && q < k; q++) { Q l = q == i ? (Q)1 : (Q)A(i, q), uu = A(q, j); s += l * uu; w += ref::qabs(l * uu); } Q want = byRow ? g.at(p[i], j) : g.at(i, p[j]); REQUIRE(ref::qabs(s - want) <= 8 * u * (double)(w + maxm) * (k + 1), "product of the factors at " << i << "," << j << " is " << (double)s << " instead of " << (double)want); }
    // the chosen pivots keep the factors bounded
    for (int q = 0; q < k; q++) { if (byRow) for (int i = q + 1; i < r; i++) REQUIRE(std::abs(A(i, q)) <= 1 + 4 * u || bad, "multiplier at " << i << "," << q << " is " << A(i, q) << ": the pivot was not the largest entry"); else for (int j = q + 1; j < n; j++) REQUIRE(std::abs(A(q, j)) <= std::abs(A(q, q)) * (1 + 4 * u) || bad, "the pivot of line " << q << " was not the largest entry"); }
    if (g.regular) REQUIRE(bad == 0, "a regular matrix is reported to have " << bad << " degenerate lines"); if (g.deficient) REQUIRE(bad > 0, "a deficient matrix is reported as regular"); if (r != n && bad == 0 && byRow) for (int q = 0; q < k; q++) REQUIRE(A(q, q) != 0, "zero pivot not reported");
    // without the optional outputs
    { std::vector<T> o(r * n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) elem<T,Row>(o, r, n, i, j) = g.at(i, j); index_t bb = byRow ? decomp_plu<T,Row>(o.data(), r, n, nullptr, nullptr) : decomp_lup<T,Row>(o.data(), r, n, nullptr, nullptr); REQUIRE(bb == bad && o == a, "the decomposition depends on its optional outputs"); }
    { std::vector<T> o(r * n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) elem<T,Row>(o, r, n, i, j) = g.at(i, j); bool onlyParity = c.b(), q = c.b(); std::vector<index_t> po(p.size(), 77); index_t* pp = onlyParity ? nullptr : po.data(); bool* qq = onlyParity ? &q : nullptr; index_t bb = byRow ? decomp_plu<T,Row>(o.data(), r, n, pp, qq) : decomp_lup<T,Row>(o.data(), r, n, pp, qq); REQUIRE(bb == bad && o == a, "the decomposition depends on its optional outputs"); if (onlyParity) REQUIRE(q == odd, "parity is reported as " << q << " without the order, " << odd << " with it"); else REQUIRE(po == p, "the order depends on whether the parity is asked for"); }
    // solving through the decomposition
    if (byRow && r == n && bad == 0 && g.regular) {
        int m = c.i(1, 3), skip = c.chance(1, 3) ? c.i(0, n) : 0; std::vector<T> b(n * m), x(n * m, 3), y(n * m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) elem<T,Row>(b, n, m, i, j) = c.chance(1, 2) ? c.si(9) : c.real(10); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) elem<T,Row>(y, n, m, i, j) = elem<T,Row>(b, n, m, p[i], j); auto keep = b, keepa = a;
        backsolve_plu<T,Row>(a.data(), p.data(), n, m, x.data(), b.data(), skip); backsolve_lu<T,Row>(a.data(), n, m, y.data(), skip); REQUIRE(b == keep && a == keepa, "an input of the solve changed");
        ref::M mm(n), inv(n); Q d; for (int i = 0; i < n * n; i++) mm.v[i] = g.v[i]; ref::inverse(mm, inv, d); double kap = (double)(ref::norm(mm) * ref::norm(inv)); for (int j = 0; j < m; j++) { std::vector<Q> want(n); Q big = 0; for (int i = 0; i < n; i++) { want[i] = 0; for (int q = 0; q < n; q++) want[i] += inv.at(i, q) * elem<T,Row>(b, n, m, q, j); big = std::max(big, ref::qabs(want[i])); } for (int i = skip; i < n; i++) { T gx = elem<T,Row>(x, n, m, i, j), gy = elem<T,Row>(y, n, m, i, j); double tol = 60 * n * u * 16 * kap * (double)big; REQUIRE(ref::qabs(gx - want[i]) <= tol, "solution " << i << " of right-hand side " << j << " is " << gx << " instead of " << (double)want[i] << " (skipping " << skip << ")"); REQUIRE(ref::qabs(gy - want[i]) <= tol, "solution without a permutation: " << i << " of right-hand side " << j << " is " << gy << " instead of " << (double)want[i] << " (skipping " << skip << ")"); } }
        c.label("solved", true); }
    c.label("rectangular", r != n); c.label("deficient", g.deficient); c.label("regular", g.regular); c.nontrivial(r > 1 && n > 1);
}
#if PART(0)
PROP(row_pivots, 960000) { if (c.b()) decompose<double,true>(c, true); else decompose<double,false>(c, true); }
PROP(column_pivots, 720000) { if (c.b()) decompose<double,true>(c, false); else decompose<double,false>(c, false); }
#endif
#if PART(1)
// large matrices: the factors applied to a vector, against the permuted matrix applied to it
template<bool Row> void large(pbt::Ctx& c, bool byRow) {
    bigm::Rng g(c); int r = bigm::size(c), n = c.chance(1, 2) ? r : c.b() ? bigm::size(c) : (int)c.i(1, 12); if (c.chance(1, 4)) std::swap(r, n); std::vector<double> m(r * n); bool dom = r == n && c.b(); if (dom) m = bigm::dominant(g, n); else for (auto& x : m) x = g.range(-1, 1); LOG(c, (byRow ? "rows " : "columns ") << r << "x" << n << (dom ? ", dominant" : ", generic")); double u = 0x1p-52; std::vector<double> a(r * n); auto A = [&](int i, int j) -> double& { return elem<double,Row>(a, r, n, i, j); }; for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) A(i, j) = m[i * n + j];
    std::vector<index_t> p(byRow ? r : n, 77); bool odd = c.b(); index_t bad = byRow ? decomp_plu<double,Row>(a.data(), r, n, p.data(), &odd) : decomp_lup<double,Row>(a.data(), r, n, p.data(), &odd); REQUIRE(bad == 0, "a regular matrix is reported to have " << bad << " degenerate lines"); std::vector<char> seen(p.size(), 0); for (auto x : p) { REQUIRE(x >= 0 && x < (index_t)p.size() && !seen[x], "the reported order is not a permutation"); seen[x] = 1; } bool want = false; { std::vector<char> s(p.size(), 0); for (size_t i = 0; i < p.size(); i++) for (size_t j = i, k = 0; !s[j]; j = p[j], k++) { s[j] = 1; if (k) want = !want; } } REQUIRE(odd == want, "parity is reported as " << odd << " for an order of the other parity");
    int k = std::min(r, n); typedef bigm::L L; for (int q = 0; q < k; q++) { if (byRow) for (int i = q + 1; i < r; i++) REQUIRE(std::abs(A(i, q)) <= 1 + 4 * u, "multiplier at " << i << "," << q << " is " << A(i, q)); else for (int j = q + 1; j < n; j++) REQUIRE(std::abs(A(q, j)) <= std::abs(A(q, q)) * (1 + 4 * u), "the pivot of line " << q << " was not the largest entry"); }
    std::vector<double> x(n); for (auto& t : x) t = g.range(-1, 1); std::vector<L> ux(k), uw(k); for (int i = 0; i < k; i++) { L s = 0, w = 0; for (int j = i; j < n; j++) { L t = (L)A(i, j) * x[byRow ? j : j]; s += t; w += bigm::absl(t); } ux[i] = s; uw[i] = w; }
    for (int i = 0; i < r; i++) { L s = 0, w = 0, e = 0; for (int q = 0; q < k && q <= i; q++) { L l = q == i ? 1 : A(i, q); s += l * ux[q]; w += bigm::absl(l) * uw[q]; } for (int j = 0; j < n; j++) e += byRow ? (L)m[p[i] * n + j] * x[j] : (L)m[i * n + p[j]] * x[j]; REQUIRE(bigm::absl(s - e) <= 8 * u * (k + 2) * (double)w, "row " << i << " of the product of the factors, applied to a vector, is " << (double)s << " instead of " << (double)e << " (" << r << "x" << n << ")"); }
    if (byRow && r == n) { int cols = c.i(1, 2); std::vector<double> b(n * cols), y(n * cols); for (auto& t : b) t = g.range(-1, 1); auto keep = b; backsolve_plu<double,Row>(a.data(), p.data(), n, cols, y.data(), b.data(), 0); REQUIRE(b == keep, "an input of the solve changed"); for (int z = 0; z < cols; z++) { std::vector<L> yu(n); for (int i = 0; i < n; i++) { L w = 0; for (int j = i; j < n; j++) w += bigm::absl((L)A(i, j) * elem<double,Row>(y, n, cols, j, z)); yu[i] = w; } for (int i = 0; i < n; i++) { L w = 0, s = 0; for (int q = 0; q <= i; q++) w += (q == i ? 1 : bigm::absl(A(i, q))) * yu[q]; for (int j = 0; j < n; j++) s += (L)m[p[i] * n + j] * elem<double,Row>(y, n, cols, j, z); REQUIRE(bigm::absl(s - elem<double,Row>(b, n, cols, p[i], z)) <= 12 * u * (n + 2) * (double)w, "the solution of a system of " << n << " equations does not satisfy equation " << p[i]); } } }
    c.nontrivial(r > 128 || n > 128);
}
PROP(large_matrices, 1600) { bool row = c.chance(2, 3); if (c.b()) large<true>(c, row); else large<false>(c, row); }
PROP(single_precision, 480000) { bool r = c.chance(2, 3); if (c.b()) decompose<float,true>(c, r); else decompose<float,false>(c, r); }
#endif
