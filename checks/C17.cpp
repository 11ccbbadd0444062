// C17: linear systems. Oracle: the solution in quadruple precision, with an error bound from the system's own condition.
// thorough: 20
// rule: size above one, and the system is either exactly singular or clearly regular, so that a verdict is demanded
// parts: 2
#include "pbt.h"
#include "qmat.h"
#include "bigmat.h"
#include <geomc/linalg/Matrix.h>
using namespace geom;
struct Sys { ref::M a; bool singular, regular; ref::M inv; double tol; Sys(int n): a(n), singular(false), regular(false), inv(n), tol(0) {} };
// exactRows: equal, doubled and halved rows cancel exactly (elimination); otherwise only what closed forms meet exactly
template<class T> Sys draw(pbt::Ctx& c, int n, bool closed) {
    double scale = c.chance(1, 6) ? std::exp2(std::is_same<T, float>::value ? c.i(-8, 8) : c.i(-40, 40)) : 1; // a power of two changes no verdict
    Sys s(n); int mode = c.i(0, 5); bool integral = mode < 2; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double v; switch (mode) { case 0: v = c.si(9); break; case 1: v = c.i(-1, 1); break; case 2: v = c.range(-1, 1); break; case 3: v = (i == j ? 3 : 0) + c.range(-1, 1); break; case 4: v = (i + 1) % n == j ? c.range(1, 2) : c.chance(1, 3) ? c.range(-1, 1) : 0; break; default: v = c.real(10); } s.a.at(i, j) = (T)v; }
    if (c.chance(1, 4)) { s.singular = true; int a = c.i(0, n - 1), o = n > 1 ? (a + c.i(1, n - 1)) % n : a, how = n == 1 ? 0 : closed && !integral ? c.i(0, 1) : c.i(0, closed ? 4 : 2); double k = c.pick({1., -2., .5}); if (closed) k = c.pick({1., -2.}); for (int j = 0; j < n; j++) switch (how) { case 0: s.a.at(a, j) = 0; break; case 1: s.a.at(j, a) = 0; break; case 2: s.a.at(a, j) = k * s.a.at(o, j); break; case 3: s.a.at(j, a) = k * s.a.at(j, o); break; default: { Q t = 0; for (int i = 0; i < n; i++) if (i != a) t += s.a.at(i, j); s.a.at(a, j) = t; } } for (auto& x : s.a.v) x *= scale; return s; }
    for (auto& x : s.a.v) x *= scale;
    Q d; if (ref::inverse(s.a, s.inv, d)) { double k = (double)(ref::norm(s.a) * ref::norm(s.inv)), u = std::numeric_limits<T>::epsilon(); s.tol = 60 * n * u * (16 * k + (closed ? ref::spread(s.a) / (double)ref::qabs(d) * k : 0)); s.regular = s.tol < 0.05; }
    return s;
}
template<class T, class Get> void verify(const Sys& s, bool ok, const std::vector<std::vector<T>>& b, Get x, int skip, const char* what) {
    int n = s.a.n; if (s.singular) { REQUIRE(!ok, what << ": a solution of a singular system is reported: [" << ref::show(s.a) << "]"); return; } if (!s.regular) return; REQUIRE(ok, what << ": the regular system [" << ref::show(s.a) << "] is reported degenerate");
    for (size_t j = 0; j < b.size(); j++) { std::vector<Q> want(n, 0); Q big = 0; for (int i = 0; i < n; i++) { for (int q = 0; q < n; q++) want[i] += s.inv.at(i, q) * b[j][q]; big = std::max(big, ref::qabs(want[i])); } Q nb = 0; for (auto z : b[j]) nb = std::max(nb, ref::qabs((Q)z)); big = std::max(big, nb / ref::norm(s.a)); for (int i = skip; i < n; i++) REQUIRE(ref::qabs((Q)x(i, j) - want[i]) <= s.tol * big, what << ": unknown " << i << " for right-hand side " << j << " of " << b.size() << " is " << x(i, j) << " instead of " << (double)want[i] << " (skipping " << skip << ") in [" << ref::show(s.a) << "]"); }
}
template<class T> std::vector<std::vector<T>> rhs(pbt::Ctx& c, int n, int m) { std::vector<std::vector<T>> b(m, std::vector<T>(n)); for (auto& v : b) { int k = c.i(0, 2); for (int i = 0; i < n; i++) v[i] = k == 0 ? c.si(9) : k == 1 ? c.real(10) : 0; if (k == 2) v[c.i(0, n - 1)] = 1; } return b; }
template<class T, bool Row> void arrays(pbt::Ctx& c) {
    int n = c.i(1, c.chance(1, 4) ? 8 : 5), m = c.i(1, 4), skip = c.chance(1, 3) ? c.i(0, n) : 0; if (c.chance(1, 60)) n = 26; Sys s = draw<T>(c, n > 8 ? 3 : n, false); if (n > 8) { // beyond the inline buffer: the small system inside a permuted identity
        Sys big(n); int o = c.i(0, n - 3); for (int i = 0; i < n; i++) big.a.at(i, i) = 2; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) big.a.at(o + i, o + j) = s.a.at(i, j); for (int k = 0; k < 6; k++) { int x = c.i(0, n - 1), y = c.i(0, n - 1); for (int j = 0; j < n; j++) std::swap(big.a.at(x, j), big.a.at(y, j)); } big.singular = s.singular; if (!big.singular) { Q d; if (ref::inverse(big.a, big.inv, d)) { big.tol = 60 * n * std::numeric_limits<T>::epsilon() * 16 * (double)(ref::norm(big.a) * ref::norm(big.inv)); big.regular = big.tol < .05; } } s = big; }
    auto b = rhs<T>(c, n, m); LOG(c, "system [" << ref::show(s.a) << "] with " << m << " right-hand sides, skipping " << skip);
    std::vector<T> a(n * n), x(n * m); auto A = [&](int i, int j) -> T& { return Row ? a[i * n + j] : a[j * n + i]; }; auto X = [&](int i, int j) -> T& { return Row ? x[i * m + j] : x[j * n + i]; }; for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) A(i, j) = (T)s.a.at(i, j); for (int j = 0; j < m; j++) X(i, j) = b[j][i]; }
    bool ok = geom::linear_solve<T,Row>(a.data(), n, m, x.data(), skip); verify<T>(s, ok, b, X, skip, Row ? "row-major solve" : "column-major solve"); c.nontrivial(n > 1 && (s.singular || s.regular)); c.label("singular", s.singular); c.label("regular", s.regular); c.label("skip", skip > 0); c.label("several", m > 1);
}
template<class T, int N> void vectors(pbt::Ctx& c) {
    int m = c.i(1, 5), skip = c.chance(1, 3) ? c.i(0, N) : 0; Sys s = draw<T>(c, N, N < 5); auto b = rhs<T>(c, N, m); LOG(c, "bases as columns [" << ref::show(s.a) << "] with " << m << " right-hand sides, skipping " << skip); Vec<T,N> bases[N]; std::vector<Vec<T,N>> x(m + 2); for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) bases[j][i] = (T)s.a.at(i, j); for (int j = 0; j < m; j++) x[j + 1][i] = b[j][i]; x[0][i] = x[m + 1][i] = 5; }
    bool ok = geom::linear_solve<T,N>(bases, m, x.data() + 1, skip); verify<T>(s, ok, b, [&](int i, int j) { return x[j + 1][i]; }, skip, "solve over basis vectors"); for (int i = 0; i < N; i++) REQUIRE(x[0][i] == 5 && x[m + 1][i] == 5, "a vector outside the solved ones changed"); c.nontrivial(s.singular || s.regular); c.label("singular", s.singular); c.label("regular", s.regular);
}
#if PART(0)
PROP(row_major, 360000) { arrays<double,true>(c); }
PROP(column_major, 360000) { arrays<double,false>(c); }
PROP(single_precision, 120000) { if (c.b()) arrays<float,true>(c); else arrays<float,false>(c); }
#endif
#if PART(1)
// large systems with many right-hand sides: well-conditioned, checked by the residual; singular ones by a zero line or two proportional rows
template<bool Row> void large(pbt::Ctx& c) {
    bigm::Rng g(c); bool manyRhs = c.chance(1, 4); int n = manyRhs ? (int)c.i(1, 12) : bigm::size(c), m = manyRhs ? bigm::size(c) : (int)c.i(1, 2); auto v = bigm::dominant(g, n); bool sing = n > 1 && c.chance(1, 4); if (sing) { int a = g.i(0, n - 1), b = (a + g.i(1, n - 1)) % n; if (c.b()) for (int j = 0; j < n; j++) v[a * n + j] = 2 * v[b * n + j]; else if (c.b()) for (int j = 0; j < n; j++) v[a * n + j] = 0; else for (int j = 0; j < n; j++) v[j * n + a] = 0; }
    int skip = c.chance(1, 3) ? g.i(0, n) : 0; LOG(c, n << " equations, " << m << " right-hand sides, skipping " << skip << (sing ? ", singular" : "")); std::vector<double> a(n * n), x(n * m), b(n * m); auto X = [&](std::vector<double>& y, int i, int j) -> double& { return Row ? y[i * m + j] : y[j * n + i]; }; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (Row ? a[i * n + j] : a[j * n + i]) = v[i * n + j]; for (auto& t : x) t = g.range(-1, 1); b = x;
    bool ok = geom::linear_solve<double,Row>(a.data(), n, m, x.data(), skip); c.nontrivial(n > 128 || m > 128); if (sing) { REQUIRE(!ok, "a solution of a singular system of " << n << " equations is reported"); return; } REQUIRE(ok, "a regular system of " << n << " equations is reported degenerate");
    if (skip) { // the unknowns which were not left out agree with the full solution
        std::vector<double> a2(n * n), y = b; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (Row ? a2[i * n + j] : a2[j * n + i]) = v[i * n + j]; REQUIRE((geom::linear_solve<double,Row>(a2.data(), n, m, y.data(), 0)), "solve without omissions"); for (int i = skip; i < n; i++) for (int j = 0; j < m; j++) REQUIRE(std::abs(X(x, i, j) - X(y, i, j)) <= 1e-9, "unknown " << i << " of " << n << " for right-hand side " << j << " is " << X(x, i, j) << " when " << skip << " unknowns are left out, " << X(y, i, j) << " otherwise"); x = y; }
    for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) { bigm::L t = 0; for (int q = 0; q < n; q++) t += (bigm::L)v[i * n + q] * X(x, q, j); REQUIRE(bigm::absl(t - X(b, i, j)) <= 1e-9, "equation " << i << " of " << n << " for right-hand side " << j << " of " << m << ": the left side is " << (double)t << ", the right side " << X(b, i, j)); }
}
PROP(large_systems, 1200) { if (c.b()) large<true>(c); else large<false>(c); }
PROP(basis_vectors, 360000) { switch (c.i(0, 5)) { case 0: vectors<double,2>(c); break; case 1: vectors<double,3>(c); break; case 2: vectors<double,4>(c); break; case 3: vectors<double,5>(c); break; case 4: vectors<double,6>(c); break; default: vectors<double,7>(c); } }
PROP(basis_vectors_single, 90000) { switch (c.i(0, 2)) { case 0: vectors<float,3>(c); break; case 1: vectors<float,4>(c); break; default: vectors<float,5>(c); } }
// the two storage layouts, and a single right-hand side at a time, give the same unknowns
PROP(layouts_agree, 120000) { int n = c.i(2, 7), m = c.i(1, 4); Sys s = draw<double>(c, n, false); auto b = rhs<double>(c, n, m); LOG(c, "system [" << ref::show(s.a) << "]"); std::vector<double> ar(n * n), ac(n * n), xr(n * m), xc(n * m); for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) ar[i * n + j] = ac[j * n + i] = (double)s.a.at(i, j); for (int j = 0; j < m; j++) xr[i * m + j] = xc[j * n + i] = b[j][i]; } auto keep = ar; bool r = geom::linear_solve<double,true>(ar.data(), n, m, xr.data()), q = geom::linear_solve<double,false>(ac.data(), n, m, xc.data()); REQUIRE(r == q, "row-major solve reports " << r << ", column-major " << q); if (r && s.regular) for (int j = 0; j < m; j++) { std::vector<double> one(b[j]), a2 = keep; bool k = geom::linear_solve<double,true>(a2.data(), n, 1, one.data()); REQUIRE(k, "one right-hand side at a time fails"); double big = 0; for (auto z : one) big = std::max(big, std::abs(z)); for (int i = 0; i < n; i++) REQUIRE(std::abs(xr[i * m + j] - xc[j * n + i]) <= s.tol * big && std::abs(xr[i * m + j] - one[i]) <= s.tol * big, "unknown " << i << " of right-hand side " << j << ": row-major " << xr[i * m + j] << ", column-major " << xc[j * n + i] << ", alone " << one[i]); } c.nontrivial(s.regular); }
#endif
