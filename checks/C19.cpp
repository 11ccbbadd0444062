// C19: orthogonal complements and bases. Oracle: perpendicularity, span and independence evaluated in quadruple precision.
// thorough: 20
// rule: fewer vectors than dimensions and more than one vector (where the case allows)
// parts: 2
#include "pbt.h"
#include "qmat.h"
#include <geomc/linalg/Orthogonal.h>
#include <geomc/linalg/Matrix.h>
using namespace geom;
template<class T, index_t N> Q qdot(const Vec<T,N>& a, const Vec<T,N>& b) { Q s = 0; for (int i = 0; i < N; i++) s += (Q)a[i] * b[i]; return s; }
template<class T, index_t N> Q qmag(const Vec<T,N>& a) { return std::sqrt((double)qdot(a, a)); }
// condition of the Gram matrix of the normalised vectors; infinite if dependent
template<class T, index_t N> double gram(const std::vector<Vec<T,N>>& v) { int n = v.size(); if (!n) return 1; ref::M g(n), x(n); Q d; for (auto& a : v) if (qdot(a, a) == 0) return 1e300; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g.at(i, j) = qdot(v[i], v[j]) / (qmag(v[i]) * qmag(v[j])); if (!ref::inverse(g, x, d) || d <= 0) return 1e300; return (double)(ref::norm(g) * ref::norm(x)); }
template<class T, index_t N> std::string show(const std::vector<Vec<T,N>>& v) { std::ostringstream s; s.precision(17); for (auto& a : v) s << a << " "; return s.str(); }
template<class T, index_t N> std::vector<Vec<T,N>> draw(pbt::Ctx& c, int n) {
    std::vector<Vec<T,N>> v(n); int mode = c.i(0, 4); std::vector<int> ax(N); for (int i = 0; i < N; i++) ax[i] = i; for (int i = N - 1; i > 0; i--) std::swap(ax[i], ax[c.i(0, i)]);
    for (int k = 0; k < n; k++) for (int i = 0; i < N; i++) switch (mode) { case 0: v[k][i] = c.range(-1, 1); break; case 1: v[k][i] = c.si(3); break; case 2: v[k][i] = i == ax[k] ? (c.b() ? 1 : -2) : 0; break; case 3: v[k][i] = i == ax[k] ? 2 : c.chance(1, 4) ? c.si(1) : 0; break; default: v[k][i] = i < c.i(0, 2) ? 0 : c.range(-2, 2); }
    if (c.chance(1, 4)) for (auto& a : v) a *= (T)c.pick({1e-9, 1e-3, 1., 16., 1e3, 1e6}); return v;
}
// exactly dependent sets: a zero vector, a repeated or scaled one
template<class T, index_t N> void spoil(pbt::Ctx& c, std::vector<Vec<T,N>>& v) { int n = v.size(), a = c.i(0, n - 1), b = n > 1 ? (a + c.i(1, n - 1)) % n : a; if (n == 1 || c.chance(1, 3)) v[a] = Vec<T,N>(); else v[a] = v[b] * (T)c.pick({1., -2., .5}); }
template<class T, index_t N> void perpendicular(pbt::Ctx& c) {
    double u = std::numeric_limits<T>::epsilon(); auto v = draw<T,N>(c, N - 1); bool dep = N > 3 && c.chance(1, 5); if (dep) spoil(c, v); LOG(c, show(v)); double k = gram(v); auto o = orthogonal<T>(v.data()); if (dep) { REQUIRE(qdot(o, o) == 0, "the vector orthogonal to dependent vectors " << show(v) << " is " << o << ", not zero"); c.nontrivial(); return; } if (k > 1e4) return;
    REQUIRE(qdot(o, o) > 0, "no vector orthogonal to the independent vectors " << show(v) << " is found: " << o); for (auto& a : v) REQUIRE(ref::qabs(qdot(o, a)) <= 200 * N * u * std::sqrt(k) * (double)(qmag(o) * qmag(a)), "vector " << o << " is not orthogonal to " << a);
    if (N == 2) REQUIRE((Q)v[0][0] * o[1] - (Q)v[0][1] * o[0] > 0, "the vector orthogonal to " << v[0] << " in the plane is not on its left: " << o); if constexpr (N == 3) { ref::M m(3), x(3); Q d; for (int j = 0; j < 3; j++) m.at(0, j) = v[0][j], m.at(1, j) = v[1][j], m.at(2, j) = o[j]; ref::inverse(m, x, d); REQUIRE(d > 0, "the vector orthogonal to two vectors is not right-handed: " << o); }
    c.nontrivial(N > 2);
}
template<class T, index_t N> void complement(pbt::Ctx& c) {
    double u = std::numeric_limits<T>::epsilon(); int n = c.i(1, N); auto v = draw<T,N>(c, n); bool dep = n < N - 1 && c.chance(1, 5); if (dep) spoil(c, v); LOG(c, show(v)); double k = gram(v); if (!dep && k > 1e4) return; bool alias = c.b(); std::vector<Vec<T,N>> buf(2 * N + 2, Vec<T,N>((T)7)); std::copy(v.begin(), v.end(), buf.begin() + 1); int at = alias ? c.i(1, n) : N + 1; at = std::min(at, (int)buf.size() - (int)(N - n)); auto was = buf; bool ok = nullspace(buf.data() + 1, n, buf.data() + at); std::vector<Vec<T,N>> x(buf.begin() + at, buf.begin() + at + (N - n)); for (int i = 0; i < (int)buf.size(); i++) if (i < at || i >= at + N - n) REQUIRE(buf[i] == was[i], "a vector outside the result changed");
    if (dep) { for (auto& a : x) REQUIRE(qdot(a, a) == 0, "the complement of dependent vectors " << show(v) << " holds " << a << ", not zero vectors"); c.nontrivial(); return; }
    REQUIRE(ok, "no complement of the independent vectors " << show(v) << " is found"); for (auto& o : x) for (auto& a : v) REQUIRE(qdot(o, o) > 0 && ref::qabs(qdot(o, a)) <= 200 * N * u * std::sqrt(k) * (double)(qmag(o) * qmag(a)), "complement vector " << o << " is not orthogonal to " << a << " among " << show(v)); double kx = gram(x); REQUIRE(kx < 1e3 * k * k + 1e3, "the complement of " << show(v) << " is not independent: " << show(x)); c.nontrivial(n < N);
}
template<class T, index_t N> void bases(pbt::Ctx& c) {
    double u = std::numeric_limits<T>::epsilon(); int n = N == 2 ? 2 : c.i(1, N); auto v = draw<T,N>(c, n); double k = gram(v); LOG(c, show(v)); if (k > 1e4) return; auto o = v, e = v; orthogonalize(o.data(), (index_t)n); orthonormalize(e.data(), (index_t)n); double tol = 100 * N * u * k;
    REQUIRE(o[0] == v[0], "the first vector changed from " << v[0] << " to " << o[0]);
    for (int i = 0; i < n; i++) { REQUIRE(qdot(o[i], o[i]) > 0, "vector " << i << " vanished"); REQUIRE(std::abs((double)qdot(e[i], e[i]) - 1) <= 20 * u, "vector " << i << " is not of unit length: " << e[i]); for (int j = 0; j < i; j++) { REQUIRE(ref::qabs(qdot(o[i], o[j])) <= tol * (double)(qmag(o[i]) * qmag(o[j])), "vectors " << i << " and " << j << " are not orthogonal: " << show(o)); REQUIRE(ref::qabs(qdot(e[i], e[j])) <= tol, "vectors " << i << " and " << j << " are not orthonormal: " << show(e)); }
        // the original vector lies in the span of the first i+1 results, which are its Gram-Schmidt residual when generic
        Vec<T,N> r = v[i]; std::vector<Q> q(N); for (int d = 0; d < N; d++) q[d] = v[i][d]; for (int j = 0; j <= i; j++) { Q t = 0; for (int d = 0; d < N; d++) t += (Q)v[i][d] * o[j][d]; t /= qdot(o[j], o[j]); for (int d = 0; d < N; d++) q[d] -= t * o[j][d]; } Q left = 0; for (auto z : q) left += z * z; REQUIRE(std::sqrt((double)left) <= tol * (double)qmag(v[i]), "the span of the first " << i + 1 << " vectors changed: " << show(v) << " to " << show(o)); }
    REQUIRE(ref::qabs(qdot(e[0], v[0]) - qmag(v[0])) <= 40 * u * (double)qmag(v[0]), "the first direction changed"); c.nontrivial(n > 1);
}
template<class T, index_t N> void projections(pbt::Ctx& c) {
    double u = std::numeric_limits<T>::epsilon(); int n = N == 2 ? c.i(1, 2) : c.i(0, N); auto v = draw<T,N>(c, n); double k = gram(v); Vec<T,N> x; for (int i = 0; i < N; i++) x[i] = c.chance(1, 3) ? c.si(3) : c.range(-2, 2); LOG(c, x << " onto " << show(v)); if (k > 1e4) return; double tol = 200 * N * u * k * (double)qmag(x);
    // the projection in quadruple precision, by the normal equations
    std::vector<Q> want(N, 0); if (n) { ref::M g(n), inv(n); Q d; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) g.at(i, j) = qdot(v[i], v[j]); ref::inverse(g, inv, d); for (int i = 0; i < n; i++) { Q t = 0; for (int j = 0; j < n; j++) t += inv.at(i, j) * qdot(v[j], x); for (int q = 0; q < N; q++) want[q] += t * v[i][q]; } }
    auto b = v; if (N != 2 || n == 2 || n == 1) { Vec<T,N> p; if (n == 0) p = project_to_subspace<T,N>(b.data(), x, 0); else p = project_to_subspace(b.data(), x, (index_t)n); for (int i = 0; i < N; i++) REQUIRE(ref::qabs(p[i] - want[i]) <= tol, "projection of " << x << " onto the span of " << show(v) << " is " << p << ", off in coordinate " << i << " (" << (double)want[i] << ")"); }
    auto o = v; if (n) orthogonalize(o.data(), (index_t)n); Vec<T,N> p = project_to_orthogonal_subspace<T,N>(o.data(), x, n); for (int i = 0; i < N; i++) REQUIRE(ref::qabs(p[i] - want[i]) <= tol, "projection of " << x << " onto the orthogonal vectors " << show(o) << " is " << p << ", off in coordinate " << i << " (" << (double)want[i] << ")");
    if (n > 0 && n < N) { std::vector<Vec<T,N>> w(N - n); nullspace(v.data(), n, w.data()); double kw = gram(w); Vec<T,N> r = project_to_subspace(w.data(), x, (index_t)(N - n)); for (int i = 0; i < N; i++) REQUIRE(ref::qabs((Q)r[i] + p[i] - x[i]) <= 200 * N * u * (double)qmag(x) * (kw + k), "projection and complement do not sum to " << x << ": " << p << " + " << r); }
    c.nontrivial(n > 0 && n < N);
}
#if PART(0)
PROP(orthogonal_vector, 480000) { switch (c.i(0, 6)) { case 0: perpendicular<double,2>(c); break; case 1: perpendicular<double,3>(c); break; case 2: perpendicular<double,4>(c); break; case 3: perpendicular<double,5>(c); break; case 4: perpendicular<double,6>(c); break; case 5: perpendicular<float,4>(c); break; default: perpendicular<float,3>(c); } }
PROP(null_space, 480000) { switch (c.i(0, 5)) { case 0: complement<double,2>(c); break; case 1: complement<double,3>(c); break; case 2: complement<double,4>(c); break; case 3: complement<double,5>(c); break; case 4: complement<double,6>(c); break; default: complement<float,4>(c); } }
#endif
#if PART(1)
PROP(orthogonalisation, 480000) { switch (c.i(0, 5)) { case 0: bases<double,2>(c); break; case 1: bases<double,3>(c); break; case 2: bases<double,4>(c); break; case 3: bases<double,5>(c); break; case 4: bases<double,6>(c); break; default: bases<float,4>(c); } }
PROP(projection, 360000) { switch (c.i(0, 4)) { case 0: projections<double,2>(c); break; case 1: projections<double,3>(c); break; case 2: projections<double,4>(c); break; case 3: projections<double,5>(c); break; default: projections<float,3>(c); } }
#endif
