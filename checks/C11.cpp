// C11: affine transforms. Oracle: homogeneous matrices and their inverses in long double, built from each constructor's definition.
// thorough: 20
// rule: the chain changes the transform (it is not the identity)
// parts: 2
#include "pbt.h"
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
typedef long double L;
namespace ref {
template<int N> struct M { L m[N][N] = {}; static M id() { M r; for (int i = 0; i < N; i++) r.m[i][i] = 1; return r; } L* operator[](int i) { return m[i]; } const L* operator[](int i) const { return m[i]; } };
template<int N> M<N> mm(const M<N>& a, const M<N>& b) { M<N> r; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++) r[i][j] += a[i][k] * b[k][j]; return r; }
template<int N> L nrm(const M<N>& a) { L r = 1; for (int i = 0; i < N; i++) { L s = 0; for (int j = 0; j < N; j++) s += std::fabs(a[i][j]); r = std::max(r, s); } return r; }
template<int N> M<N> inverse(M<N> a) { M<N> b = M<N>::id();
    for (int c = 0; c < N; c++) { int p = c; for (int r = c; r < N; r++) if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r; for (int k = 0; k < N; k++) std::swap(a[c][k], a[p][k]), std::swap(b[c][k], b[p][k]);
        L d = a[c][c]; for (int k = 0; k < N; k++) a[c][k] /= d, b[c][k] /= d; for (int r = 0; r < N; r++) if (r != c) { L f = a[r][c]; for (int k = 0; k < N; k++) a[r][k] -= f * a[c][k], b[r][k] -= f * b[c][k]; } } return b; }
template<int N> M<N> translate(const L* t) { M<N> r = M<N>::id(); for (int i = 0; i < N - 1; i++) r[i][N - 1] = t[i]; return r; }
// right-handed rotation about a 3D axis (not necessarily unit)
inline M<4> rot(L x, L y, L z, L t) { L n = std::sqrt(x * x + y * y + z * z); x /= n; y /= n; z /= n; L c = std::cos(t), s = std::sin(t), k = 1 - c; M<4> r = M<4>::id();
    L m[3][3] = {{c + k * x * x, k * x * y - s * z, k * x * z + s * y}, {k * x * y + s * z, c + k * y * y, k * y * z - s * x}, {k * x * z - s * y, k * y * z + s * x, c + k * z * z}}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = m[i][j]; return r; }
}
using ref::M; using ref::mm; using ref::nrm;
template<class T, int N> struct Elem { AffineTransform<T,N> x; M<N+1> m, i; std::string name; };
template<class T> T angle(pbt::Ctx& c) { switch (c.i(0, 4)) { case 0: return (T)(c.si(8) * M_PI / 4); case 1: return (T)c.range(-1e-3, 1e-3); default: return (T)c.range(-6.5, 6.5); } }
template<class T, int N> Vec<T,N> vec(pbt::Ctx& c, L m = 2) { Vec<T,N> v; int k = c.i(0, 4), z = c.i(0, N - 1); for (int i = 0; i < N; i++) v[i] = k == 0 ? (T)c.si(2) : (k == 1 && i != z) ? (T)0 : (T)c.range(-m, m); return v; }
template<class T, int N> Vec<T,N> nzvec(pbt::Ctx& c) { Vec<T,N> v = vec<T,N>(c); L s = 0; for (int i = 0; i < N; i++) s += (L)v[i] * v[i]; c.assume(s > 1e-4L); return v; }
template<class T> T nz(pbt::Ctx& c) { T k = (T)c.range(0.4, 2.5); return c.b() ? -k : k; }

template<class Mx, int N> void near(const Mx& got, const M<N>& want, L tol, const std::string& what) {
    for (int r = 0; r < N; r++) for (int k = 0; k < N; k++) REQUIRE(std::fabs((L)got(r, k) - want[r][k]) <= tol, what << ": entry " << r << "," << k << " is " << got(r, k) << " instead of " << (double)want[r][k] << " tolerance " << (double)tol);
}
template<class T, index_t N> void nearv(const Vec<T,N>& got, const L* want, L tol, const std::string& what) { for (int i = 0; i < N; i++) REQUIRE(std::fabs((L)got[i] - want[i]) <= tol, what << ": component " << i << " is " << got[i] << " instead of " << (double)want[i] << " tolerance " << (double)tol); }
// drop to the linear part
template<int N> void lin(const M<N+1>& m, const L* v, L* out, bool point, bool txp = false) { for (int i = 0; i < N; i++) { out[i] = point ? m[i][N] : 0; for (int j = 0; j < N; j++) out[i] += (txp ? m[j][i] : m[i][j]) * v[j]; } }

template<class T, int N> Elem<T,N> elem(pbt::Ctx& c) {
    Elem<T,N> e; const L ep = std::numeric_limits<T>::epsilon(); e.m = M<N+1>::id();
    int kinds = N == 2 ? 6 : N == 3 ? 13 : 4, k = c.i(0, kinds - 1); L tol = 64 * ep;
    if (k == 0) { Vec<T,N> t = vec<T,N>(c); e.name = "translation"; e.x = translation(t); for (int i = 0; i < N; i++) e.m[i][N] = t[i]; }
    else if (k == 1) { Vec<T,N> s; for (int i = 0; i < N; i++) { s[i] = nz<T>(c); e.m[i][i] = s[i]; } e.name = "scale"; e.x = scale(s); }
    else if (k == 2 || k == 3) { // diagonally dominant matrix, rows shuffled
        int perm[N]; for (int i = 0; i < N; i++) perm[i] = i; for (int i = N - 1; i > 0; i--) std::swap(perm[i], perm[c.i(0, i)]);
        SimpleMatrix<T,N,N> a; SimpleMatrix<T,N,N,COL_MAJOR> b; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { T v = i == j ? nz<T>(c) : (T)(c.range(-0.3, 0.3) / N); a(perm[i], j) = v; b(perm[i], j) = v; e.m[perm[i]][j] = v; }
        e.name = "transformation"; e.x = k == 2 ? transformation(a) : transformation(b); tol = 2000 * ep; }
    else if constexpr (N == 2) {
        if (k == 4) { T t = angle<T>(c); L cs = std::cos((L)t), sn = std::sin((L)t); e.m[0][0] = cs; e.m[0][1] = -sn; e.m[1][0] = sn; e.m[1][1] = cs; e.name = "rotation"; e.x = rotation(t); }
        else { T a = nz<T>(c), b = nz<T>(c); if (c.b()) { e.name = "scale(x,y)"; e.x = scale(a, b); e.m[0][0] = a; e.m[1][1] = b; } else { e.name = "translation(x,y)"; e.x = translation(a, b); e.m[0][2] = a; e.m[1][2] = b; } }
    } else if constexpr (N == 3) {
        T t = angle<T>(c); Vec<T,3> a = nzvec<T,3>(c);
        if (k == 4) { e.name = "axis rotation"; e.x = rotation(a, t); e.m = ref::rot(a.x, a.y, a.z, t); }
        else if (k == 5) { Vec<T,3> p = vec<T,3>(c); L f[3] = {(L)p.x, (L)p.y, (L)p.z}, g[3] = {-f[0], -f[1], -f[2]}; e.name = "rotation about a point"; e.x = rotation(a, p, t); e.m = mm(ref::translate<4>(f), mm(ref::rot(a.x, a.y, a.z, t), ref::translate<4>(g))); tol = 512 * ep; Vec<T,3> q = e.x * p; nearv(q, f, 256 * ep, "rotation about a point moves the point");
            SimpleMatrix<T,4,4> m1; rotmat(&m1, a.unit(), p, t); near(m1, e.m, tol, "rotation matrix about a point"); }
        else if (k == 6) { e.name = "rotation_x"; e.x = rotation_x(t); e.m = ref::rot(1, 0, 0, t); near(rotmat_x(t), M<3>{{{1, 0, 0}, {0, e.m[1][1], e.m[1][2]}, {0, e.m[2][1], e.m[2][2]}}}, tol, "rotmat_x"); }
        else if (k == 7) { e.name = "rotation_y"; e.x = rotation_y(t); e.m = ref::rot(0, 1, 0, t); near(rotmat_y(t), M<3>{{{e.m[0][0], 0, e.m[0][2]}, {0, 1, 0}, {e.m[2][0], 0, e.m[2][2]}}}, tol, "rotmat_y"); }
        else if (k == 8) { e.name = "rotation_z"; e.x = rotation_z(t); e.m = ref::rot(0, 0, 1, t); near(rotmat_z(t), M<3>{{{e.m[0][0], e.m[0][1], 0}, {e.m[1][0], e.m[1][1], 0}, {0, 0, 1}}}, tol, "rotmat_z"); }
        else if (k == 9) { Quat<T> q = Quat<T>::rotation_from_axis_angle(a, t); if (c.b()) q = Quat<T>(q * (T)c.range(0.5, 2)); e.name = "quaternion"; e.x = rotation(q); e.m = ref::rot(a.x, a.y, a.z, t); tol = 128 * ep; }
        else if (k == 10) { // direction alignment
            Vec<T,3> f = a.unit(), g = c.chance(1, 6) ? -f : c.chance(1, 8) ? f : nzvec<T,3>(c).unit(); bool anti = g == -f; L cs = 0 ; for (int i = 0; i < 3; i++) { cs += (L)f[i] * g[i]; } c.assume(anti || cs > -0.999L); c.label("opposite directions", anti);
            e.name = "direction_align"; e.x = direction_align(f, g); L tl = anti ? 64 * ep : 64 * ep * (1 + 1 / (1 + cs)), fg[3] = {(L)g.x, (L)g.y, (L)g.z}, det;
            SimpleMatrix<T,3,3> m3 = rotmat_direction_align(f, g), m3b; rotmat_direction_align(&m3b, f, g); M<3> q;
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { q[i][j] = e.x.mat(i, j); REQUIRE(std::fabs((L)m3(i, j) - e.x.mat(i, j)) <= tl && std::fabs((L)m3b(i, j) - e.x.mat(i, j)) <= tl, "alignment matrices differ between forms"); }
            nearv(e.x * f, fg, tl, "alignment does not carry the first direction to the second"); det = q[0][0] * (q[1][1] * q[2][2] - q[1][2] * q[2][1]) - q[0][1] * (q[1][0] * q[2][2] - q[1][2] * q[2][0]) + q[0][2] * (q[1][0] * q[2][1] - q[1][1] * q[2][0]); REQUIRE(std::fabs(det - 1) <= 16 * tl, "alignment is not a rotation, determinant " << (double)det);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { L s = 0; for (int l = 0; l < 3; l++) s += q[i][l] * q[j][l]; REQUIRE(std::fabs(s - (i == j)) <= 16 * tl, "alignment is not orthogonal"); }
            L ax[3] = {(L)f.y * g.z - (L)f.z * g.y, (L)f.z * g.x - (L)f.x * g.z, (L)f.x * g.y - (L)f.y * g.x}, sn = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]); if (!anti && sn > 1e-3L) near(e.x.mat, ref::rot(ax[0], ax[1], ax[2], std::atan2(sn, cs)), tl + 64 * ep / sn, "alignment is not the shortest rotation");
            // as built (judged above); afterwards treat it as exact
            for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) e.m[i][j] = e.x.mat(i, j); tol = 256 * tl; }
        else { T x = nz<T>(c), y = nz<T>(c), z = nz<T>(c); if (k == 11) { e.name = "scale(x,y,z)"; e.x = scale(x, y, z); e.m[0][0] = x; e.m[1][1] = y; e.m[2][2] = z; } else { e.name = "translation(x,y,z)"; e.x = translation(x, y, z); e.m[0][3] = x; e.m[1][3] = y; e.m[2][3] = z; } }
    }
    e.i = ref::inverse(e.m); near(e.x.mat, e.m, tol * nrm(e.m), e.name + ": matrix"); near(e.x.inv, e.i, tol * nrm(e.i) * nrm(e.i) * nrm(e.m), e.name + ": stored inverse"); LOG(c, e.name << " " << e.x.mat); return e;
}
template<class T, int N> void check(pbt::Ctx& c) {
    const L ep = std::numeric_limits<T>::epsilon(); AffineTransform<T,N> x; M<N+1> m = M<N+1>::id(), inv = m; L km = 1, ki = 1; int n = c.i(1, sizeof(T) == 4 ? 3 : 5); bool moved = false;
    { AffineTransform<T,N> one; near(one.mat, m, 0, "default transform"); near(one.inv, m, 0, "default transform's inverse"); }
    for (int s = 0; s < n; s++) {
        int op = c.i(0, km * ki < 1e4L ? 10 : 9); AffineTransform<T,N> before = x;
        if (op <= 7) { Elem<T,N> e = elem<T,N>(c); bool inverted = op >= 5; const M<N+1> &em = inverted ? e.i : e.m, &ei = inverted ? e.m : e.i; bool after = op != 1; if (after) { m = mm(em, m); inv = mm(inv, ei); } else { m = mm(m, em); inv = mm(ei, inv); } km *= 1 + nrm(em) ; ki *= 1 + nrm(ei); LOG(c, "op " << op);
            if (op == 0) x = e.x * x; else if (op == 1) x = x * e.x; else if (op == 2) x *= e.x; else if (op == 3) x = x.apply(e.x); else if (op == 4) { AffineTransform<T,N> y = e.x; y = y * x; x = y; } else if (op == 5) x = x / e.x; else if (op == 6) x /= e.x; else x = x.apply_inverse(e.x); moved = true; }
        else if (op == 10) { // combined with itself
            int how = c.i(0, 5); LOG(c, "combined with itself, way " << how); const AffineTransform<T,N>& same = x; if (how < 3) { m = mm(m, m); inv = mm(inv, inv); km *= 2 * km; ki *= 2 * ki; } else { m = inv = M<N+1>::id(); km = ki = 2 * km * ki; }
            if (how == 0) x *= same; else if (how == 1) x = x * same; else if (how == 2) x = x.apply(same); else if (how == 3) x /= same; else if (how == 4) x = x / same; else x = x.apply_inverse(same); }
        else if (op == 8) { x = x.inverse(); std::swap(m, inv); std::swap(km, ki); LOG(c, "inverse"); }
        else { LOG(c, "resize"); AffineTransform<T,N+1> w = x.template resized<N+1>(); M<N+2> wm = M<N+2>::id(), wi = wm; int id[N+1]; for (int i = 0; i < N; i++) id[i] = i; id[N] = N + 1; for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) wm[id[i]][id[j]] = m[i][j], wi[id[i]][id[j]] = inv[i][j]; L t = 4096 * ep * km * ki; near(w.mat, wm, t * km, "enlarged transform"); near(w.inv, wi, t * ki, "enlarged transform's inverse"); AffineTransform<T,N> y = w.template resized<N>(); REQUIRE(y == x && y.inv == x.inv, "enlarging then reducing changed the transform"); }
        L k = 4096 * ep * km * ki; near(x.mat, m, k * km, "matrix after a step"); near(x.inv, inv, k * ki, "stored inverse after a step"); if (op != 8) REQUIRE((before == x) == (before.mat == x.mat), "equality");
    }
    typedef Vec<T,N> V; V p = vec<T,N>(c, 3), d = nzvec<T,N>(c), t = vec<T,N>(c, 3); L P[N], D[N], Tn[N], o[N]; for (int i = 0; i < N; i++) P[i] = p[i], D[i] = d[i], Tn[i] = t[i];
    const L tm = 65536 * ep * km * ki * km, ti = 65536 * ep * km * ki * ki, tr = 65536 * ep * km * ki * std::max(km, ki); LOG(c, "point " << p << " direction " << d);
    lin<N>(m, P, o, true); nearv(x * p, o, tm, "applied point"); nearv(V(x.apply(p)), o, tm, "applied point"); lin<N>(inv, P, o, true); nearv(p / x, o, ti, "unapplied point"); nearv(V(x.apply_inverse(p)), o, ti, "unapplied point");
    lin<N>(m, D, o, false); nearv(V(x.apply_vector(d)), o, tm, "applied direction"); lin<N>(inv, D, o, false); nearv(V(x.apply_inverse_vector(d)), o, ti, "unapplied direction");
    lin<N>(inv, D, o, false, true); nearv(V(x.apply_normal(d)), o, ti, "applied normal"); lin<N>(m, D, o, false, true); nearv(V(x.apply_inverse_normal(d)), o, tm, "unapplied normal");
    nearv((x * p) / x, P, tr, "apply then unapply a point"); nearv(x * (p / x), P, tr, "unapply then apply a point"); nearv(V(x.apply_inverse_vector(x.apply_vector(d))), D, tr, "apply then unapply a direction"); nearv(V(x.apply_inverse_normal(x.apply_normal(d))), D, tr, "apply then unapply a normal"); nearv(x.inverse() * p, (lin<N>(inv, P, o, true), o), ti, "inverse transform of a point");
    { V n2 = x.apply_normal(d), t2 = x.apply_vector(t); L s = 0, w = 0; for (int i = 0; i < N; i++) s += (L)n2[i] * t2[i], w += D[i] * Tn[i]; REQUIRE(std::fabs(s - w) <= tr * 16, "normal and tangent: product " << (double)s << " instead of " << (double)w); }
    { Ray<T,N> r(p, d), q = x * r, b = q / x; lin<N>(m, P, o, true); nearv(q.origin, o, tm, "transformed ray's origin"); lin<N>(m, D, o, false); nearv(q.direction, o, tm, "transformed ray's direction"); nearv(b.origin, P, tr, "ray restored"); nearv(b.direction, D, tr, "ray's direction restored"); Ray<T,N> u = r / x; lin<N>(inv, P, o, true); nearv(u.origin, o, ti, "unapplied ray's origin"); lin<N>(inv, D, o, false); nearv(u.direction, o, ti, "unapplied ray's direction"); }
    { AffineTransform<double,N> w = (AffineTransform<double,N>)x; for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) REQUIRE(w.mat(i, j) == (double)x.mat(i, j) && w.inv(i, j) == (double)x.inv(i, j), "cast changes an entry"); SimpleMatrix<T,N,N> dm = x.direction_matrix(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) REQUIRE(dm(i, j) == x.mat(i, j), "direction matrix");
      AffineTransform<T,N> y = x; REQUIRE(y == x, "copy is not equal"); y.mat(c.i(0, N), c.i(0, N)) += 1; REQUIRE(!(y == x), "different transforms compare equal"); }
    c.nontrivial(moved); c.label("three or more steps", n >= 3);
}
#if PART(0)
PROP(d2, 150000) { check<double,2>(c); }
PROP(d3, 400000) { check<double,3>(c); }
PROP(f2, 30000) { check<float,2>(c); }
#endif
#if PART(1)
PROP(d4, 150000) { check<double,4>(c); }
PROP(d5, 80000) { check<double,5>(c); }
PROP(f3, 150000) { check<float,3>(c); }
#endif
