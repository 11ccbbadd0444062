// C14: determinants and inverses. Oracle: exact integer determinants (fraction-free elimination in 128-bit integers) and an inverse computed in quadruple precision, with error bounds from the matrix's own condition.
// thorough: 20
// rule: size above one, and the matrix is either exactly singular or clearly regular, so that a verdict is demanded
// parts: 4
#include "pbt.h"
#include "qmat.h"
#include "bigmat.h"
#include <geomc/linalg/Matrix.h>
using namespace geom;
// a generated square matrix; `singular`: exactly singular in a way elimination meets exactly (equal, doubled or zero rows, zero columns) or, for small sizes, any integer dependency
template<class T> struct Gen { ref::M m; bool singular, integral, plain; Gen(int n): m(n), singular(false), integral(false), plain(true) {} };
// closed forms meet other dependencies exactly only over integers; elimination meets zero rows, zero columns and rank-one blocks of powers of two exactly in either layout
template<class T> Gen<T> drawUnscaled(pbt::Ctx& c, int n, bool allowSingular) {
    Gen<T> g(n); int mode = c.i(0, 6); int lim = std::is_same<T, float>::value ? 9 : 99; g.integral = mode <= 2;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double v; switch (mode) { case 0: v = c.si(lim); break; case 1: v = c.i(-1, 1); break; case 2: v = i == j ? c.i(1, 5) : c.chance(1, 3) ? c.si(2) : 0; break; case 3: v = c.real(10); break; case 4: v = (i == j ? 3.0 : 0) + c.range(-1, 1); break; case 5: v = c.range(-1, 1); break; default: v = c.range(-1, 1) * std::exp2(i % 3 * 4); } g.m.at(i, j) = (T)v; }
    if (mode == 2) for (int k = c.i(0, n); k > 0; k--) { int a = c.i(0, n - 1), b = c.i(0, n - 1); for (int j = 0; j < n; j++) std::swap(g.m.at(a, j), g.m.at(b, j)); }
    if (allowSingular && c.chance(1, 3)) { g.singular = true; int a = c.i(0, n - 1), b = n > 1 ? (a + c.i(1, n - 1)) % n : a; int how = n == 1 ? 0 : n > 4 ? c.pick({0, 1, 5}) : c.pick({0, 1, 5, g.integral ? 2 : 5, g.integral ? 3 : 1, g.integral ? 4 : 0}); g.plain = how < 2 || how > 4; if (how == 5) { int k = n <= 4 && !g.integral ? n : c.i(2, n); auto perm = [&] { std::vector<int> q(n); for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[c.i(0, i)]); return q; }; auto qr = perm(), qc = perm(); std::vector<double> u(n), w(n); for (int i = 0; i < n; i++) u[i] = std::exp2(c.i(0, 2)) * (c.b() ? 1 : -1), w[i] = std::exp2(c.i(0, 2)) * (c.b() ? 1 : -1); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i < k) != (j < k)) g.m.at(qr[i], qc[j]) = 0; else if (i < k) g.m.at(qr[i], qc[j]) = u[i] * w[j]; return g; }  for (int j = 0; j < n; j++) { switch (how) { case 0: g.m.at(a, j) = 0; break; case 1: g.m.at(j, a) = 0; break; case 2: g.m.at(a, j) = g.m.at(b, j); break; case 3: g.m.at(a, j) = -2 * g.m.at(b, j); break; default: { Q s = 0; for (int i = 0; i < n; i++) if (i != a) s += g.m.at(i, j) * (i % 2 ? 1 : -1); g.m.at(a, j) = s; } } } }
    return g;
}
// every magnitude alike: a power of two times the entries changes no verdict
template<class T> Gen<T> draw(pbt::Ctx& c, int n, bool allowSingular) { auto g = drawUnscaled<T>(c, n, allowSingular); if (c.chance(1, 6)) { int most = std::is_same<T, float>::value ? 8 : 40; double k = std::exp2(c.i(-most, most)); for (auto& x : g.m.v) x *= k; g.integral = g.integral && k == 1; c.label("scaled", k != 1); } return g; }
template<class X> void fill(X& x, const ref::M& m) { for (int i = 0; i < m.n; i++) for (int j = 0; j < m.n; j++) x.set(i, j, (typename X::elem_t)m.at(i, j)); }
template<class T> void checkDet(const Gen<T>& g, T got, const char* what) {
    double u = std::numeric_limits<T>::epsilon(); int n = g.m.n; Q want; if (g.integral) { std::vector<long> a; for (auto x : g.m.v) a.push_back((long)x); want = (Q)ref::exact(a, n); } else { ref::M x(n); ref::inverse(g.m, x, want); if (g.singular) want = 0; }
    double tol = 40 * n * u * ref::spread(g.m); REQUIRE(std::isfinite(got) && std::abs((double)((Q)got - want)) <= tol, what << " of [" << ref::show(g.m) << "] is " << got << " instead of " << (double)want << " (allowed error " << tol << ")");
}
template<class X> ref::M back(const X& x, int n) { ref::M r(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.at(i, j) = x(i, j); return r; }
template<class T> struct Inv { bool regular; ref::M x; double tol; Inv(const Gen<T>& g): regular(false), x(g.m.n) { Q d; if (g.singular || !ref::inverse(g.m, x, d)) return; double k = (double)(ref::norm(g.m) * ref::norm(x)), amp = k + ref::spread(g.m) / (double)ref::qabs(d), u = std::numeric_limits<T>::epsilon(); tol = 60 * g.m.n * u * amp; regular = tol < 0.05; } };
template<class T, class X> void checkInv(const Gen<T>& g, const Inv<T>& v, bool ok, const X& got, const char* what) {
    if (g.singular) { REQUIRE(!ok, what << ": the singular matrix [" << ref::show(g.m) << "] is reported as inverted"); return; } if (!v.regular) return;
    int n = g.m.n; REQUIRE(ok, what << ": the regular matrix [" << ref::show(g.m) << "] is reported as singular"); REQUIRE(got.rows() == n && got.cols() == n, what << ": dimensions"); Q big = 0; for (auto q : v.x.v) big = std::max(big, ref::qabs(q)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { Q e = (Q)got(i, j) - v.x.at(i, j); REQUIRE(std::isfinite((double)got(i, j)) && ref::qabs(e) <= v.tol * big, what << " of [" << ref::show(g.m) << "]: entry " << i << "," << j << " is " << got(i, j) << " instead of " << (double)v.x.at(i, j)); }
}
// everything that can be asked of a matrix with static size n
template<class T, index_t N, MatrixLayout L> void staticCase(pbt::Ctx& c) {
    auto g = draw<T>(c, N, true); LOG(c, ref::show(g.m)); SimpleMatrix<T,N,N,L> m; fill(m, g.m); checkDet<T>(g, det(m), "determinant"); Inv<T> v(g); bool ok = !c.b(); { auto x = inv(m, &ok); checkInv(g, v, ok, x, "inverse"); REQUIRE(back(m, N).v == g.m.v, "the operand changed"); }
    { SimpleMatrix<T,N,N,L> x; ok = inv(&x, m); checkInv(g, v, ok, x, "inverse into a matrix"); } { SimpleMatrix<T,N,N,L == ROW_MAJOR ? COL_MAJOR : ROW_MAJOR> x; ok = inv(&x, m); checkInv(g, v, ok, x, "inverse into the other layout"); } { SimpleMatrix<T,0,0> x(N, N); ok = inv(&x, m); checkInv(g, v, ok, x, "inverse into a dynamic matrix"); }
    { std::vector<T> buf(N * N); WrapperMatrix<T,N,N,COL_MAJOR> x(buf.data()); ok = inv(&x, m); checkInv(g, v, ok, x, "inverse into wrapped memory"); REQUIRE(back(m, N).v == g.m.v, "the operand changed"); }
    { SimpleMatrix<T,N,N,L> x(m); ok = inv(&x, x); checkInv(g, v, ok, x, "inverse onto itself"); if (ok && v.regular && !g.singular) { auto p = m * x; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) REQUIRE(std::abs((double)p(i, j) - (i == j)) <= v.tol * N * 2, "the matrix times its inverse has entry " << i << "," << j << " = " << p(i, j)); } }
    c.nontrivial(N > 1 && (g.singular || v.regular)); c.label("singular", g.singular); c.label("regular", v.regular);
}
template<class T, MatrixLayout L> void dynamicCase(pbt::Ctx& c) {
    int n = c.i(1, 8); auto g = draw<T>(c, n, true); LOG(c, ref::show(g.m)); SimpleMatrix<T,0,0,L> m(n, n); fill(m, g.m); checkDet<T>(g, det(m), "determinant"); REQUIRE(back(m, n).v == g.m.v, "the operand changed"); { SimpleMatrix<T,0,0,L> d(m); checkDet<T>(g, det_destructive(d.data_begin(), (index_t)n), "destructive determinant"); checkDet<T>(g, detNxN(m.data_begin(), (index_t)n), "determinant of an array"); }
    Inv<T> v(g); bool ok = !c.b(); { auto x = inv(m, &ok); checkInv(g, v, ok, x, "inverse"); REQUIRE(back(m, n).v == g.m.v, "the operand changed"); } { SimpleMatrix<T,0,0,ROW_MAJOR> x(n, n); ok = inv(&x, m); checkInv(g, v, ok, x, "inverse into a row-major matrix"); } { SimpleMatrix<T,0,0,COL_MAJOR> x(n, n); ok = inv(&x, m); checkInv(g, v, ok, x, "inverse into a column-major matrix"); }
    { ok = inv(&m, m); checkInv(g, v, ok, m, "inverse onto itself"); }
    if (n == 5) { SimpleMatrix<T,5,5> x; fill(m, g.m); ok = inv(&x, m); checkInv(g, v, ok, x, "inverse into a static matrix"); } if (n == 3) { SimpleMatrix<T,0,0,L> k(3, 3); fill(k, g.m); SimpleMatrix<T,3,3> x; ok = inv(&x, k); checkInv(g, v, ok, x, "inverse into a static matrix"); }
    // the array forms
    { std::vector<T> a(n * n), x(n * n, 7); for (int i = 0; i < n * n; i++) a[i] = (T)g.m.v[i]; auto keep = x; ok = n == 2 && (c.b() || !g.plain) ? inv2x2(x.data(), a.data()) : n == 3 && (c.b() || !g.plain) ? inv3x3(x.data(), a.data()) : n == 4 && (c.b() || !g.plain) ? inv4x4(x.data(), a.data()) : invNxN(x.data(), a.data(), (index_t)n); if (!ok) REQUIRE(x == keep, "a failed inversion changed its output"); WrapperMatrix<T,0,0> w(x.data(), n, n); checkInv(g, v, ok, w, "inverse of an array"); }
    c.nontrivial(n > 1 && (g.singular || v.regular)); c.label("singular", g.singular); c.label("regular", v.regular);
}
#if PART(0)
PROP(static_small, 45000) { switch (c.i(0, 5)) { case 0: staticCase<double,2,ROW_MAJOR>(c); break; case 1: staticCase<double,3,ROW_MAJOR>(c); break; case 2: staticCase<double,4,ROW_MAJOR>(c); break; case 3: staticCase<double,3,COL_MAJOR>(c); break; case 4: staticCase<double,4,COL_MAJOR>(c); break; default: staticCase<double,2,COL_MAJOR>(c); } }
#endif
#if PART(1)
PROP(static_larger, 40000) { switch (c.i(0, 3)) { case 0: staticCase<double,1,ROW_MAJOR>(c); break; case 1: staticCase<double,5,ROW_MAJOR>(c); break; case 2: staticCase<double,6,COL_MAJOR>(c); break; default: staticCase<double,8,ROW_MAJOR>(c); } }
PROP(static_float, 40000) { switch (c.i(0, 3)) { case 0: staticCase<float,2,ROW_MAJOR>(c); break; case 1: staticCase<float,3,COL_MAJOR>(c); break; case 2: staticCase<float,4,ROW_MAJOR>(c); break; default: staticCase<float,5,COL_MAJOR>(c); } }
#endif
#if PART(2)
// large matrices, well-conditioned or with a zero line or two proportional rows
template<MatrixLayout L> void large(pbt::Ctx& c) {
    bigm::Rng g(c); int n = bigm::size(c); auto v = bigm::dominant(g, n); bool sing = c.chance(1, 4); if (sing) { int a = g.i(0, n - 1); bool col = c.b(); for (int j = 0; j < n; j++) v[col ? j * n + a : a * n + j] = 0; } LOG(c, n << "x" << n << (sing ? ", singular" : "")); SimpleMatrix<double,0,0,L> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = v[i * n + j];
    auto same = [&] { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (m(i, j) != v[i * n + j]) return false; return true; };
    double d = det(m); REQUIRE(same(), "the operand changed"); if (sing) REQUIRE(d == 0, "the determinant of a singular " << n << "x" << n << " matrix is " << d); else { double w = (double)bigm::det(v, n); REQUIRE(std::abs(d - w) <= 1e-8 * std::abs(w), "the determinant of a " << n << "x" << n << " matrix is " << d << " instead of " << w); }
    c.nontrivial(n > 128); bool ok = !c.b(); SimpleMatrix<double,0,0,L> x(n, n); int way = c.i(0, 2); if (way == 0) x = inv(m, &ok); else if (way == 1) ok = inv(&x, m); else { x = m; ok = inv(&x, x); } REQUIRE(same(), "the operand changed"); if (sing) { REQUIRE(!ok, "a singular " << n << "x" << n << " matrix is reported as inverted"); return; } REQUIRE(ok, "a regular " << n << "x" << n << " matrix is reported as singular");
    for (int t = 0; t < 2; t++) { std::vector<double> z(n); std::vector<bigm::L> y(n); for (auto& q : z) q = g.range(-1, 1); for (int i = 0; i < n; i++) { y[i] = 0; for (int j = 0; j < n; j++) y[i] += (bigm::L)x(i, j) * z[j]; } for (int i = 0; i < n; i++) { bigm::L s = 0; for (int j = 0; j < n; j++) s += v[i * n + j] * y[j]; REQUIRE(bigm::absl(s - z[i]) <= 1e-9, "a " << n << "x" << n << " matrix times its inverse, applied to a vector, misses entry " << i << ": " << (double)s << " instead of " << z[i]); } }
}
PROP(large_matrices, 400) { if (c.b()) large<ROW_MAJOR>(c); else large<COL_MAJOR>(c); }
PROP(dynamic_size, 40000) { if (c.b()) dynamicCase<double,ROW_MAJOR>(c); else dynamicCase<double,COL_MAJOR>(c); }
PROP(dynamic_float, 20000) { dynamicCase<float,ROW_MAJOR>(c); }
#endif
#if PART(3)
// integer determinants are exact
PROP(integers, 60000) {
    int n = c.i(2, 4), lim = c.pick({3, 20, 100}); std::vector<long> a(n * n); for (auto& x : a) x = c.si(lim); long want = (long)ref::exact(a, n), got, got2 = want; LOG(c, "size " << n << " limit " << lim);
    std::vector<double> d(a.begin(), a.end()); double gd;
    if (n == 2) { got = det2x2(a.data()); got2 = det2x2(a[0], a[1], a[2], a[3]); gd = det2x2(d.data()); SimpleMatrix<long,2,2> m(a.data()); REQUIRE(det(m) == want, "integer matrix"); } else if (n == 3) { got = det3x3(a.data()); got2 = det3x3(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); gd = det3x3(d.data()); SimpleMatrix<long,3,3,COL_MAJOR> m(a.data()); REQUIRE(det(m) == want, "integer matrix"); } else { got = det4x4(a.data()); gd = det4x4(d.data()); SimpleMatrix<long,4,4> m(a.data()); REQUIRE(det(m) == want, "integer matrix"); }
    REQUIRE(got == want && got2 == want, "determinant of size " << n << " is " << got << "," << got2 << " instead of " << want); REQUIRE(gd == want, "determinant of integers held as reals is " << gd << " instead of " << want); c.nontrivial(want != 0); }
// the determinant of a product, a transpose, a scaled matrix
PROP(algebra, 20000) { int n = c.i(1, 6); auto a = draw<double>(c, n, false), b = draw<double>(c, n, false); SimpleMatrix<double,0,0> A(n, n), B(n, n); fill(A, a.m); fill(B, b.m); LOG(c, ref::show(a.m) << " and " << ref::show(b.m)); double da = det(A), db = det(B), dt = det(geom::transpose(A)); double e = 2.3e-16 * 100 * n, sa = ref::spread(a.m), sb = ref::spread(b.m); REQUIRE(std::abs(da - dt) <= e * sa, "determinant of the transpose is " << dt << " instead of " << da); SimpleMatrix<double,0,0> C = A * B; ref::M cm = back(C, n); double sc = ref::spread(cm); REQUIRE(std::abs(det(C) - da * db) <= e * (sc + sa * std::abs(db) + sb * std::abs(da) + e * sa * sb), "determinant of a product is " << det(C) << " instead of " << da * db); c.nontrivial(n > 1); }
PROP(diagonal, 20000) { int n = c.i(1, 7); DiagMatrix<double,0,0> m(n, n); DiagMatrix<double,4,4> s; double want = 1, ws = 1; bool sing = false, ss = false; for (int i = 0; i < n; i++) { double v = c.chance(1, 12) ? 0 : c.si(9); m.diagonal(i) = v; want *= v; sing |= v == 0; } for (int i = 0; i < 4; i++) { double v = c.chance(1, 12) ? 0 : c.logpos(.1, 10) * (c.b() ? 1 : -1); s.diagonal(i) = v; ws *= v; ss |= v == 0; } REQUIRE(det(m) == want, "determinant of a diagonal matrix is " << det(m) << " instead of " << want); REQUIRE(std::abs(det(s) - ws) <= 1e-14 * std::abs(ws), "determinant of a diagonal matrix");
    bool ok = sing; auto x = inv(m, &ok); REQUIRE(ok == !sing, "a diagonal matrix is reported as " << (ok ? "regular" : "singular")); if (ok) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) REQUIRE(std::abs(x(i, j) - (i == j ? 1 / m(i, i) : 0)) <= 1e-15, "inverse of a diagonal matrix at " << i << "," << j); SimpleMatrix<double,0,0> dn(n, n); ok = inv(&dn, m); REQUIRE(ok == !sing, "a diagonal matrix is reported as " << (ok ? "regular" : "singular")); if (ok) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) REQUIRE(dn(i, j) == x(i, j), "dense inverse of a diagonal matrix at " << i << "," << j);
    DiagMatrix<double,4,4> o = s; ok = inv(&o, o); REQUIRE(ok == !ss, "inverting a diagonal matrix onto itself reports " << ok); if (ok) for (int i = 0; i < 4; i++) REQUIRE(std::abs(o(i, i) * s(i, i) - 1) < 1e-14, "inverse of a diagonal matrix onto itself: entry " << i << " is " << o(i, i)); c.nontrivial(!sing); }
PROP(permutation, 10000) { int n = c.i(1, 12); PermutationMatrix<0> p(n); PermutationMatrix<5> s; std::vector<index_t> q(n); for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[c.i(0, i)]); int odd = 0; for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) odd ^= q[i] > q[j]; p.setRowSources(q.data()); REQUIRE(det(p) == (odd ? -1 : 1), "determinant of a permutation"); bool ok = false; auto x = inv(p, &ok); REQUIRE(ok, "a permutation is reported singular"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) REQUIRE(x(i, j) == p(j, i), "inverse of a permutation"); if (n == 5) { s.setRowSources(q.data()); REQUIRE(det(s) == (odd ? -1 : 1), "determinant of a static permutation"); } c.nontrivial(n > 2); }
PROP(rejected, 5000) { int r = c.i(1, 6), n = c.i(1, 6); c.assume(r != n); SimpleMatrix<double,0,0> m(r, n); for (auto& x : m) x = c.si(5); REQUIRE(det(m) == 0, "determinant of a non-square matrix"); int threw = 0; bool ok; try { inv(m, &ok); } catch (NonsquareMatrixException& e) { threw++; } try { SimpleMatrix<double,0,0> o(r, n); inv(&o, m); } catch (NonsquareMatrixException& e) { threw++; } try { SimpleMatrix<double,0,0> o(r, r), k(n, n); inv(&o, k); } catch (DimensionMismatchException& e) { threw++; } REQUIRE(threw == 3, "inverting matrices of unfit dimensions was rejected " << threw << " times of 3"); c.nontrivial(); }
#endif
