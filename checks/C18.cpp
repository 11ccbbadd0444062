// C18: Cholesky factorisation. Oracle: the factor multiplied by its transpose in quadruple precision; definiteness known by construction (Gram matrices, chosen eigenvalues).
// thorough: 20
// rule: size above one, and clearly definite or clearly indefinite, so that a verdict is demanded
#include "pbt.h"
#include "qmat.h"
#include "bigmat.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/linalg/Cholesky.h>
using namespace geom;
struct Sym { ref::M a; bool definite, indefinite; double dim; Sym(int n): a(n), definite(false), indefinite(false) {} };
template<class T> Sym draw(pbt::Ctx& c, int n) {
    Sym s(n); double u = std::numeric_limits<T>::epsilon(); int kind = c.i(0, 6); std::vector<std::vector<double>> b(n, std::vector<double>(n));
    if (kind <= 3) { // orthogonal similarity of chosen eigenvalues, by Householder reflections
        std::vector<double> e(n); double lo = 1e300; bool bad = kind == 3; for (auto& x : e) x = kind == 0 ? c.i(1, 9) : c.logpos(kind == 1 ? .1 : 1e-3, 10); double mx = *std::max_element(e.begin(), e.end()); if (bad) { int k = c.i(1, n); for (int q = 0; q < k; q++) e[c.i(0, n - 1)] = -mx * c.logpos(1e-3, 1); } for (auto x : e) lo = std::min(lo, x); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[i][j] = i == j ? e[i] : 0;
        for (int k = c.i(0, n); k > 0; k--) { std::vector<double> v(n); double q = 0; for (auto& x : v) { x = c.range(-1, 1); q += x * x; } if (q < 1e-3) continue; auto o = b; for (int side = 0; side < 2; side++) { for (int j = 0; j < n; j++) { double d = 0; for (int i = 0; i < n; i++) d += v[i] * (side ? b[j][i] : b[i][j]); for (int i = 0; i < n; i++) (side ? b[j][i] : b[i][j]) -= 2 * d / q * v[i]; } } }
        s.definite = !bad && lo > 400 * n * n * u * mx; s.indefinite = bad && lo < -400 * n * n * u * mx; }
    else if (kind == 4) { std::vector<std::vector<double>> g(n, std::vector<double>(n)); for (auto& r : g) for (auto& x : r) x = c.si(3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { b[i][j] = i == j ? 1 : 0; for (int k = 0; k < n; k++) b[i][j] += g[i][k] * g[j][k]; } s.definite = true; } // eigenvalues at least one
    else if (kind == 6) { std::vector<std::vector<double>> g(n, std::vector<double>(n)); int z = c.b() ? n - 1 : c.i(0, n - 1); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) g[i][j] = i == j ? i == z ? 0 : std::ldexp(1, c.i(-1, 2)) : c.si(3); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k <= std::min(i, j); k++) b[i][j] += g[i][k] * g[j][k]; s.indefinite = true; c.label("pivot exactly zero"); } // singular, and every step up to the zero pivot is exact
    else { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) b[i][j] = b[j][i] = c.si(5) / 8.; for (int i = 0; i < n; i++) { double r = 0; for (int j = 0; j < n; j++) if (i != j) r += std::abs(b[i][j]); b[i][i] = r + c.i(1, 4); } s.definite = true; if (c.chance(1, 3)) { s.definite = false; int i = c.i(0, n - 1); b[i][i] = -c.i(1, 4); s.indefinite = true; } }
    double scale = c.chance(1, 6) ? std::exp2(std::is_same<T, float>::value ? 2 * c.i(-10, 10) : 2 * c.i(-45, 45)) : 1; // a power of four changes no verdict
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s.a.at(i, j) = (T)(b[std::max(i, j)][std::min(i, j)] * scale);
    return s;
}
template<class T, class Get> void verify(const Sym& s, bool ok, Get L, const char* what) {
    int n = s.a.n; double u = std::numeric_limits<T>::epsilon(); if (s.indefinite) { REQUIRE(!ok, what << ": the indefinite or singular matrix [" << ref::show(s.a) << "] is reported as decomposed"); return; } if (s.definite) REQUIRE(ok, what << ": the positive-definite matrix [" << ref::show(s.a) << "] is rejected"); if (!ok) return;
    for (int i = 0; i < n; i++) { REQUIRE(L(i, i) > 0, what << ": diagonal entry " << i << " of the factor is " << L(i, i)); for (int j = i + 1; j < n; j++) REQUIRE(L(i, j) == 0, what << ": entry " << i << "," << j << " of the factor is " << L(i, j) << ", not lower-triangular"); }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Q p = 0; for (int k = 0; k < n; k++) p += (Q)L(i, k) * L(j, k); double tol = 8 * (n + 2) * u * std::sqrt((double)ref::qabs(s.a.at(i, i)) * (double)ref::qabs(s.a.at(j, j))); REQUIRE(ref::qabs(p - s.a.at(i, j)) <= tol, what << ": the factor times its transpose has entry " << i << "," << j << " = " << (double)p << " instead of " << (double)s.a.at(i, j) << " for [" << ref::show(s.a) << "]"); }
}
template<class X> void matrix(X& m, const Sym& s, const char* what) { typedef typename X::elem_t T; int n = s.a.n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m.set(i, j, (T)s.a.at(i, j)); bool ok = cholesky(&m); verify<T>(s, ok, [&](int i, int j) { return m(i, j); }, what); }
template<class T> void one(pbt::Ctx& c) {
    int n = c.i(1, c.chance(1, 3) ? 10 : 4); Sym s = draw<T>(c, n); LOG(c, ref::show(s.a)); bool row = c.b(); std::vector<T> a(n * n + 2, 7); auto at = [&](int i, int j) -> T& { return a[1 + (row ? i * n + j : j * n + i)]; }; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) at(i, j) = (T)s.a.at(i, j); bool ok = row ? cholesky<T,true>(a.data() + 1, n) : cholesky<T,false>(a.data() + 1, n); verify<T>(s, ok, at, row ? "row-major array" : "column-major array"); REQUIRE(a[0] == 7 && a[n * n + 1] == 7, "memory outside the matrix changed");
    { SimpleMatrix<T,0,0> m(n, n); matrix(m, s, "dynamic matrix"); } { SimpleMatrix<T,0,0,COL_MAJOR> m(n, n); matrix(m, s, "column-major matrix"); } if (n == 1) { SimpleMatrix<T,1,1> m; matrix(m, s, "1x1 matrix"); } if (n == 2) { SimpleMatrix<T,2,2> m; matrix(m, s, "2x2 matrix"); } if (n == 3) { SimpleMatrix<T,3,3> m; matrix(m, s, "3x3 matrix"); SimpleMatrix<T,3,0> k(3, 3); matrix(k, s, "3x3 matrix"); } if (n == 4) { SimpleMatrix<T,4,4,COL_MAJOR> m; matrix(m, s, "4x4 matrix"); std::vector<T> buf(16); WrapperMatrix<T,4,4> w(buf.data()); matrix(w, s, "wrapped 4x4 matrix"); }
    c.nontrivial(n > 1 && (s.definite || s.indefinite)); c.label("definite", s.definite); c.label("indefinite", s.indefinite);
}
PROP(double_precision, 600000) { one<double>(c); }
PROP(single_precision, 300000) { one<float>(c); }
PROP(non_square, 10000) { int r = c.i(1, 5), n = c.i(1, 5); c.assume(r != n); SimpleMatrix<double,0,0> m(r, n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) m(i, j) = i == j ? 4 : 0; REQUIRE(!cholesky(&m), "a non-square matrix is reported as decomposed"); c.nontrivial(); }
// large matrices: L times its transpose for an integer banded (or arrow-shaped) L with a positive diagonal, which every step reproduces exactly
PROP(large, 1200) {
    bigm::Rng g(c); int n = bigm::size(c), band = (int)c.i(0, 4); bool dense = c.b(), row = c.b(); std::vector<int> l(n * n, 0); for (int i = 0; i < n; i++) { for (int j = 0; j < i; j++) if (i - j <= band || (dense && g.i(0, n / 6) == 0)) l[i * n + j] = g.i(-2, 2); l[i * n + i] = 1 << g.i(0, 2); } int bad = -1; if (c.chance(1, 3)) { bad = g.i(0, n - 1); if (c.b()) l[bad * n + bad] = 0; } LOG(c, n << "x" << n << " band " << band << " dense " << dense << " bad pivot " << bad);
    // rows of L are sparse: multiply by their non-zeros
    std::vector<std::vector<int>> nz(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) if (l[i * n + j]) nz[i].push_back(j); std::vector<double> s(n * n, 0), a(n * n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double t = 0; for (int k : nz[i]) t += l[i * n + k] * l[j * n + k]; s[i * n + j] = s[j * n + i] = t; } if (bad >= 0 && l[bad * n + bad] != 0) s[bad * n + bad] -= (l[bad * n + bad]) * l[bad * n + bad] + g.i(0, 3);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (row ? a[i * n + j] : a[j * n + i]) = s[i * n + j]; bool ok; if (c.b()) ok = row ? cholesky<double,true>(a.data(), n) : cholesky<double,false>(a.data(), n); else { SimpleMatrix<double,0,0> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = s[i * n + j]; ok = cholesky(&m); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (row ? a[i * n + j] : a[j * n + i]) = m(i, j); }
    c.nontrivial(n > 100); if (bad >= 0) { REQUIRE(!ok, "a " << n << "x" << n << " matrix which is not positive-definite is reported as decomposed"); return; } REQUIRE(ok, "a positive-definite " << n << "x" << n << " matrix is rejected");
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double got = row ? a[i * n + j] : a[j * n + i]; REQUIRE(got == (j <= i ? l[i * n + j] : 0), "entry " << i << "," << j << " of the factor of a " << n << "x" << n << " matrix is " << got << " instead of " << (j <= i ? l[i * n + j] : 0)); }
}
