// C10: quaternions. Oracle: Rodrigues rotation and the scalar-vector product form in long double.
// thorough: 20
// rule: the rotation is by a clear angle about an axis that carries at least a tenth of the rotated vector off itself
#include "pbt.h"
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/AffineTransform.h>
using namespace geom;
typedef long double L;
namespace ref {
struct V3 { L x, y, z; };
static V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } static V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static V3 operator*(L k, V3 a) { return {k * a.x, k * a.y, k * a.z}; }
static L dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static L len(V3 a) { return std::sqrt(dot(a, a)); } static V3 crs(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static V3 rod(V3 v, V3 axis, L t) { V3 k = (1 / len(axis)) * axis; return std::cos(t) * v + std::sin(t) * crs(k, v) + (dot(k, v) * (1 - std::cos(t))) * k; }
struct Q4 { V3 v; L w; L n() const { return std::sqrt(dot(v, v) + w * w); } };
static Q4 qmul(Q4 a, Q4 b) { return {a.w * b.v + b.w * a.v + crs(a.v, b.v), a.w * b.w - dot(a.v, b.v)}; }
static Q4 sc(L k, Q4 a) { return {k * a.v, k * a.w}; }
static L dot(Q4 a, Q4 b) { return dot(a.v, b.v) + a.w * b.w; }
}
using ref::V3; using ref::Q4; using ref::len; using ref::crs; using ref::rod; using ref::qmul; using ref::sc;
static const L kPi = 3.14159265358979323846264338327950288L;
template<class T> V3 up(const Vec<T,3>& a) { return {(L)a.x, (L)a.y, (L)a.z}; }
template<class T> Q4 up(const Quat<T>& a) { return {{(L)a.x, (L)a.y, (L)a.z}, (L)a.w}; }
namespace ref { static std::ostream& operator<<(std::ostream& o, V3 a) { return o << "(" << (double)a.x << " " << (double)a.y << " " << (double)a.z << ")"; }
static std::ostream& operator<<(std::ostream& o, Q4 a) { return o << a.v << "|" << (double)a.w; } }
#define VN(got, want, tol, what) do { V3 g_ = up(got), w_ = (want); L d_ = len(g_ - w_); REQUIRE(d_ <= (L)(tol), what << ": " << g_ << " instead of " << w_ << ", off by " << (double)d_ << " tolerance " << (double)(tol)); } while (0)
#define QN(got, want, tol, what) do { Q4 g_ = up(got), w_ = (want); L d_ = Q4{g_.v - w_.v, g_.w - w_.w}.n(); REQUIRE(d_ <= (L)(tol), what << ": " << g_ << " instead of " << w_ << ", off by " << (double)d_ << " tolerance " << (double)(tol)); } while (0)
#define NEAR(got, want, tol, what) do { L g_ = (got), w_ = (want), t_ = (tol); REQUIRE(std::fabs(g_ - w_) <= t_, what << ": " << (double)g_ << " instead of " << (double)w_ << ", tolerance " << (double)t_); } while (0)

template<class T> T angle(pbt::Ctx& c) { switch (c.i(0, 4)) { case 0: return (T)(c.si(8) * M_PI / 4); case 1: return (T)c.range(-1e-3, 1e-3); default: return (T)c.range(-6.5, 6.5); } }
template<class T> Vec<T,3> vec(pbt::Ctx& c, L lo = 1e-4) {
    Vec<T,3> v; int kind = c.i(0, 4);
    for (int i = 0; i < 3; i++) v[i] = kind == 0 ? (T)c.si(2) : (T)c.range(-2, 2);
    if (kind == 1) { int k = c.i(0, 2); for (int i = 0; i < 3; i++) if (i != k) v[i] = 0; }
    c.assume(len(up(v)) > lo); return v;
}
template<class T> Quat<T> quat(pbt::Ctx& c) {   // any non-zero quaternion
    Quat<T> q; int kind = c.i(0, 4);
    for (int i = 0; i < 4; i++) q[i] = kind == 0 ? (T)c.si(2) : (T)c.range(-2, 2);
    if (kind == 1) { int k = c.i(0, 3); for (int i = 0; i < 4; i++) if (i != k) q[i] = 0; }
    c.assume(up(q).n() > 1e-3L); if (c.chance(1, 8)) { T k = (T)std::pow(10.L, -(L)c.i(1, 7)); if (c.b()) q *= k; else if (std::fabs(q.w) > .1) for (int i = 0; i < 3; i++) q[i] *= k; } return q; // also tiny ones, and tiny rotations
}
template<class T> void check(pbt::Ctx& c) {
    typedef Vec<T,3> V; typedef Quat<T> Q; const L e = std::numeric_limits<T>::epsilon(), se = std::sqrt(e);
    V axis = vec<T>(c), v = vec<T>(c); T t = angle<T>(c), t2 = angle<T>(c); V axis2 = vec<T>(c); Q a = quat<T>(c), b = quat<T>(c); L na = up(a).n(), nb = up(b).n(), lv = len(up(v));
    LOG(c, "axis=" << axis << " angle=" << t << " v=" << v << " a=" << a << " b=" << b);
    // rotation from axis and angle
    Q r = Q::rotation_from_axis_angle(axis, t), r2 = Q::rotation_from_axis_angle(axis2, t2);
    NEAR(r.mag(), 1, 8 * e, "norm of a rotation"); VN(r * v, rod(up(v), up(axis), t), 32 * e * lv, "rotation about an axis"); VN(v * r, rod(up(v), up(axis), -(L)t), 32 * e * lv, "inverse rotation");
    VN(r.conj() * v, rod(up(v), up(axis), -(L)t), 32 * e * lv, "rotation by the conjugate"); VN(std::conj(r) * (r * v), up(v), 64 * e * lv, "conjugate undoes the rotation"); VN((r * v) * r, up(v), 64 * e * lv, "inverse application undoes the rotation");
    NEAR((r * v).mag(), lv, 32 * e * lv, "length after rotation"); QN(Q::rotation_from_axis_angle(V(), t), (Q4{{0, 0, 0}, 1}), 0, "rotation about a zero axis"); QN(Q::identity(), (Q4{{0, 0, 0}, 1}), 0, "identity"); VN(Q::identity() * v, up(v), 4 * e * lv, "identity rotation");
    // product
    QN(a * b, qmul(up(a), up(b)), 8 * e * na * nb, "product"); QN(a.mult(b), qmul(up(a), up(b)), 8 * e * na * nb, "product"); QN(a.conj(), (Q4{-1.0L * up(a).v, up(a).w}), 0, "conjugate"); QN(a * Q::identity(), up(a), 0, "product with the identity");
    QN(a * a.conj(), (Q4{{0, 0, 0}, na * na}), 8 * e * na * na, "product with the conjugate"); VN((r2 * r) * v, rod(rod(up(v), up(axis), t), up(axis2), t2), 100 * e * lv, "product of rotations is not their composition");
    VN(a.imag(), up(a).v, 0, "imaginary part"); NEAR(a.real(), up(a).w, 0, "real part"); { Quat<double> d = a; NEAR(d.x, a.x, 0, "cast"); NEAR(d.w, a.w, 0, "cast"); }
    // conversions
    { Vec<T,4> aa = r.to_axis_angle_rotation(); L half = std::fabs(std::sin((L)t / 2)), tol = 64 * e + std::min(32 * e / std::max(half, se * 1e-3L), 16 * se); V ax = aa.template resized<3>(); NEAR(ax.mag(), 1, 8 * e, "axis of an axis-angle conversion is not unit");
      REQUIRE(aa.w >= 0 && (L)aa.w <= 2 * kPi * (1 + 2 * e), "angle " << aa.w << " of an axis-angle conversion"); VN(Q::rotation_from_axis_angle(ax, aa.w) * v, rod(up(v), up(axis), t), tol * lv, "axis-angle conversion describes another rotation");
      V av = r.to_angular_velocity(); L am = len(up(av)); VN(v, up(v), 0, ""); if (am > 0) { VN(Q::rotation_from_axis_angle(av, av.mag()) * v, rod(up(v), up(axis), t), 2 * tol * lv, "angular velocity describes another rotation"); REQUIRE(am <= 2 * kPi * (1 + 8 * e), "angular velocity too large"); } else NEAR(half, 0, 16 * se, "no angular velocity for a rotation");
      NEAR(Q::identity().to_angular_velocity().mag(), 0, 0, "angular velocity of the identity"); NEAR(Q::identity().to_axis_angle_rotation().w, 0, 0, "angle of the identity"); }
    { AffineTransform<T,3> x = rotation(a); Q u = a.unit(); VN(x * v, up(u * v), 64 * e * lv, "matrix of a quaternion rotates differently"); VN(v / x, up(v * u), 64 * e * lv, "inverse matrix of a quaternion rotates differently"); AffineTransform<T,3> y = rotation(axis, t); VN(y * v, up(r * v), 64 * e * lv, "matrix and quaternion of one axis and angle"); }
    // exponential, logarithm, powers
    { L im = len(up(a).v), k = std::exp((L)a.w); Q4 w = im > 0 ? Q4{(k * std::sin(im) / im) * up(a).v, k * std::cos(im)} : Q4{{0, 0, 0}, k}; QN(std::exp(a), w, 32 * e * k, "exponential"); QN(a.exp(), w, 32 * e * k, "exponential"); VN(std::exp(a).imag(), w.v, 32 * e * k * std::min(1.L, im), "imaginary part of the exponential");
      L s = im / na, tol = (64 * e + std::min(16 * e / std::max(s, se * 1e-3L), 16 * se)) * na; QN(std::exp(std::log(a)), up(a), tol, "exponential of the logarithm"); QN(a.log().exp(), up(a), tol, "exponential of the logarithm");
      L th = std::atan2(im, (L)a.w); if (im > 1e-3L * na) { Q4 lg{(th / im) * up(a).v, std::log(na)}; QN(std::log(a), lg, 64 * e * (1 + std::fabs(std::log(na))) + 16 * e / s, "logarithm"); }
      if (im < 3.1L && im > 1e-2L) QN(std::log(std::exp(a)), up(a), 64 * e * (1 + na) + 32 * e / std::fabs(std::sin(im)), "logarithm of the exponential");
      T p = (T)c.si(3); if (c.b()) p = (T)c.range(-2, 2); L kp = std::pow(na, (L)p); if (im > 1e-3L * na) { Q4 w2{(kp * std::sin(p * th) / im) * up(a).v, kp * std::cos(p * th)}; QN(std::pow(a, p), w2, 64 * e * kp * (1 + std::fabs((L)p) / s), "power"); }
      QN(std::pow(a, (T)2), qmul(up(a), up(a)), (64 * e + std::min(32 * e / std::max(s, se * 1e-3L), 32 * se)) * na * na, "square"); QN(std::pow(a, (T)1), up(a), tol, "first power"); }
    // shortest alignment of directions
    { V f = axis.unit(), g = c.chance(1, 8) ? -f : c.chance(1, 8) ? f : axis2.unit(); L cs = dot(up(f), up(g)); bool anti = up(g).x == -up(f).x && up(g).y == -up(f).y && up(g).z == -up(f).z; 
      if (anti || cs > -0.9999L) { Q q = Q::rotation_direction_align(f, g); L tol = anti ? 32 * e : 32 * e * (1 + 1 / (1 + cs)); NEAR(q.mag(), 1, 8 * e, "norm of an alignment"); VN(q * f, up(g), tol, "alignment does not carry the first direction to the second");
        if (!anti) { V3 ax = crs(up(f), up(g)); L sn = len(ax); if (sn > 1e-3L) VN(q * v, rod(up(v), ax, std::atan2(sn, cs)), (tol + 64 * e / sn) * lv, "alignment is not the shortest rotation"); } c.label("opposite directions", anti); } }
    // interpolation
    { Q p = a.unit(), q = c.chance(1, 8) ? p : c.chance(1, 8) ? (Q)-p : b.unit(); T s = (T)(c.chance(1, 4) ? c.i(0, 1) : c.range(0, 1)); Q4 P = sc(1 / up(p).n(), up(p)), R = sc(1 / up(q).n(), up(q)); L d = dot(P, R);
      if (std::fabs(d) > 1e-3L) { if (d < 0) { R = sc(-1, R); d = -d; } Q4 perp{R.v - d * P.v, R.w - d * P.w}; L sn = perp.n(), om = std::atan2(sn, d), tol = 48 * e + std::min(48 * e / std::max(sn, se * 1e-3L), 16 * se);
        Q got = p.slerp(q, s); NEAR(got.mag(), 1, 16 * e + (sn < 16 * se ? 4 * se : 16 * e / sn), "norm of an interpolated rotation"); Q4 w = sn > 0 ? Q4{std::cos(om * s) * P.v + (std::sin(om * s) / sn) * perp.v, std::cos(om * s) * P.w + std::sin(om * s) / sn * perp.w} : P; QN(got, w, tol, "interpolated rotation at " << s);
        QN(p.slerp(q, (T)0), P, 16 * e, "interpolation at 0"); QN(p.slerp(q, (T)1), R, tol, "interpolation at 1"); }
      Q h = p.rotation_scale(s); L im = len(P.v), w0 = std::atan2(im, P.w), tl = 48 * e + std::min(48 * e / std::max(im, se * 1e-3L), 16 * se); if (im > 16 * se) { QN(h, (Q4{(std::sin(w0 * s) / im) * P.v, std::cos(w0 * s)}), tl, "scaled rotation"); QN(p.rotation_scale((T)1), P, tl, "rotation scaled by 1"); } QN(p.rotation_scale((T)0), (Q4{{0, 0, 0}, 1}), 16 * e, "rotation scaled by 0"); }
    c.nontrivial(std::fabs(std::sin((L)t / 2)) > 1e-2L && len(up(a).v) > 0.1L * na); c.label("real quaternion", len(up(a).v) == 0); c.label("half turn or more", std::fabs((L)t) >= kPi);
}
PROP(doubles, 700000) { check<double>(c); }
PROP(floats, 700000)  { check<float>(c); }
