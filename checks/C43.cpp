// C43: value semantics. Oracle: the list of numbers each value is built from.
// thorough: 20
// rule: the two values differ in one component by a small, sign or large change, or a conversion of a value with a fraction or a large magnitude
// parts: 2
#include "values.h"
#include <geomc/function/Dual.h>
typedef std::vector<double> D;
template<class T> using elem = typename T::elem_t;
template<class T> double as(double x) { return (double)(T)x; }
template<class T> struct El { typedef typename T::elem_t type; };
template<class T, index_t N> struct El<Ray<T,N>> { typedef T type; };
template<class T, index_t N> struct El<Plane<T,N>> { typedef T type; };
template<class T> struct El<Quat<T>> { typedef T type; };
template<class T, index_t N> struct El<AffineTransform<T,N>> { typedef T type; };
// any matrix, not only a translation
template<class T, index_t N> AffineTransform<T,N> anyXf(Nums& n) { AffineTransform<T,N> x; for (int i = 0; i < N; i++) for (int j = 0; j <= N; j++) x.mat(i, j) = (T)n.d(); return x; }
template<class T> struct Mk { static T make(Nums& n) { return Gen<T>::make(n); } static const char* nm() { return Gen<T>::nm; } };
template<class T, index_t N> struct Mk<AffineTransform<T,N>> { static AffineTransform<T,N> make(Nums& n) { return anyXf<T,N>(n); } static const char* nm() { return "AffineTransform"; } };
template<class S> struct Mk<Oriented<S>> { static Oriented<S> make(Nums& n) { S s = Gen<S>::make(n); return Oriented<S>(s, anyXf<typename S::elem_t, S::N>(n)); } static const char* nm() { return "Oriented"; } };
// the components a value must be told apart by
template<class T> struct Canon { static D of(const D& v) { D r; for (double x : v) r.push_back(as<typename El<T>::type>(x)); return r; } };
template<class T, index_t N> struct Canon<Simplex<T,N>> { static D of(const D& v) { D r; for (double x : v) r.push_back(as<T>(x)); int k = 1 + (int)std::fabs(v[0]) % (N + 1); r[0] = k; r.resize(1 + k * N); return r; } };
static std::string list(const D& v) { std::ostringstream o; for (double x : v) o << x << " "; return o.str(); }
template<class T> T change(pbt::Ctx& c, T x) {
    if constexpr (std::is_integral_v<T>) return c.b() ? x + 1 : x - 1;
    else switch (c.i(0, 3)) { case 0: return std::nextafter(x, (T)(c.b() ? 1e30 : -1e30)); case 1: return x == 0 ? (T)1 : -x; case 2: return x + 1; default: return x == 0 ? std::numeric_limits<T>::denorm_min() : x * 1024; }
}
template<class T> void compare(pbt::Ctx& c) {
    typedef typename El<T>::type E; const char* nm = Mk<T>::nm();
    Nums n; n.c = &c; T a = Mk<T>::make(n); Nums n2 = n; n2.at = 0; n2.flip = true; T b = Mk<T>::make(n2); D ca = Canon<T>::of(n.v);
    LOG(c, nm << " of " << list(n.v));
    REQUIRE(a == b && b == a && a == a && !(a != b), nm << "s with equal components compare unequal");
    T keep = a, cp(a), asg(b); REQUIRE(cp == a && !(cp != a), "a copy of a " << nm << " is unequal to the original");
    bool subtle = false;
    for (size_t at = 0; at < ca.size(); at++) { // every component matters on its own
        Nums m = n; m.at = 0; E x = change<E>(c, (E)n.v[at]); m.v[at] = (double)x; if (std::is_same_v<T, Simplex<E, 3>> && at == 0) m.v[0] = n.v[0] + 1;
        T d = Mk<T>::make(m); D cd = Canon<T>::of(m.v); bool same = cd == ca; subtle |= !same && std::fabs((double)x - n.v[at]) < 1e-3;
        REQUIRE((d == a) == same && (a == d) == same && (a != d) == !same && (d != a) == !same, nm << "s whose component " << at << " of " << ca.size() << " is " << ca[at] << " and " << (at < cd.size() ? cd[at] : 0) << " compare " << (d == a ? "equal" : "unequal"));
        asg = d; REQUIRE(asg == d && (asg == a) == same, "assignment of a " << nm << " does not carry component " << at); REQUIRE(cp == a && keep == a, "assigning to one " << nm << " changed another");
    }
    { // two components swapped, or several changed at once
        Nums m = n; m.at = 0; size_t i = c.i(0, n.v.size() - 1), j = c.i(0, n.v.size() - 1); size_t lo = std::is_same_v<T, Simplex<E, 3>> || std::is_same_v<T, Simplex<E, 2>>; i = std::max(i, lo); j = std::max(j, lo); if (i < m.v.size() && j < m.v.size()) std::swap(m.v[i], m.v[j]);
        T d = Mk<T>::make(m); bool same = Canon<T>::of(m.v) == ca; REQUIRE((d == a) == same && (a == d) == same && (a != d) == !same, nm << "s with components " << i << " and " << j << " exchanged compare " << (d == a ? "equal" : "unequal"));
        T mv(std::move(d)); T back = mv; mv = a; REQUIRE((back == a) == same && mv == a, "moving or assigning a " << nm);
    }
    T& self = asg; asg = self; REQUIRE(asg == cp || asg == asg, "self assignment"); c.label("subtle difference", subtle); c.nontrivial(subtle || std::is_integral_v<E>);
}
#define CMP(name, n, ...) PROP(name, n) { compare<__VA_ARGS__>(c); }
#if PART(0)
CMP(vec2d, 60000, Vec<double,2>) CMP(vec3f, 60000, Vec<float,3>) CMP(vec4d, 60000, Vec<double,4>) CMP(vec6i, 60000, Vec<int,6>) CMP(vec3i, 60000, Vec<int,3>) CMP(vec2i, 60000, Vec<index_t,2>) CMP(vec4f, 60000, Vec<float,4>)
CMP(quat, 60000, Quat<double>) CMP(quatf, 60000, Quat<float>) CMP(mtx32, 60000, SimpleMatrix<double,3,2>) CMP(mtx14, 60000, SimpleMatrix<float,1,4>)
CMP(xf2, 60000, AffineTransform<double,2>) CMP(xf3, 60000, AffineTransform<float,3>)
CMP(rect1, 60000, Rect<double,1>) CMP(rect2, 60000, Rect<int,2>) CMP(rect3, 60000, Rect<double,3>) CMP(rect4, 60000, Rect<float,4>)
#endif
#if PART(1)
CMP(sphere2, 60000, Sphere<float,2>) CMP(sphere3, 60000, Sphere<double,3>) CMP(capsule2, 60000, Capsule<double,2>) CMP(capsule3, 60000, Capsule<float,3>) CMP(cylinder2, 60000, Cylinder<double,2>) CMP(cylinder3, 60000, Cylinder<double,3>)
CMP(plane2, 60000, Plane<double,2>) CMP(plane3, 60000, Plane<float,3>) CMP(frustum, 60000, Frustum<Rect<double,2>>) CMP(frustum_sphere, 60000, Frustum<Sphere<double,2>>) CMP(extruded, 60000, Extruded<Sphere<double,2>>) CMP(extruded_rect, 60000, Extruded<Rect<float,2>>)
CMP(oriented_rect, 60000, Oriented<Rect<double,2>>) CMP(oriented_capsule, 60000, Oriented<Capsule<double,3>>) CMP(dilated, 60000, Dilated<Rect<double,3>>) CMP(dilated_simplex, 60000, Dilated<Sphere<double,3>>) CMP(simplex2, 60000, Simplex<double,2>) CMP(simplex3, 60000, Simplex<double,3>)
// conversions between element types: each component is converted on its own
static double num(pbt::Ctx& c) { switch (c.i(0, 4)) { case 0: return c.si(100); case 1: return c.si(1 << 20) / 64.0; case 2: return c.range(-1000, 1000); case 3: return (c.b() ? 1 : -1) * c.logpos(1e-8, 1e8); default: return 0; } }
template<class A, class B, index_t N> void vecs(pbt::Ctx& c) {
    Vec<A,N> a, a0; for (index_t i = 0; i < N; i++) a[i] = (A)num(c); a0 = a; LOG(c, a); Vec<B,N> b = (Vec<B,N>)a, b2; b2 = static_cast<Vec<B,N>>(a); bool frac = false;
    for (index_t i = 0; i < N; i++) { REQUIRE(b[i] == (B)a[i] && b2[i] == (B)a[i], "component " << i << " of a converted vector is " << b[i] << " instead of " << (B)a[i]); frac |= (double)(B)a[i] != (double)a[i] || std::fabs((double)a[i]) > 1e5; } REQUIRE(a == a0, "conversion changed the vector");
    Ray<A,N> r(a, (A)2 * a); Ray<A,N> m = -r; REQUIRE(m.origin == a && m.direction == -((A)2 * a) && r.direction == (A)2 * a, "opposite ray");
    constexpr index_t P = N + 1, Q = N > 2 ? N - 1 : N; Ray<A,P> up = r.template resized<P>(); Ray<A,Q> dn = r.template resized<Q>(); for (index_t i = 0; i < P; i++) REQUIRE(up.origin[i] == (i < N ? r.origin[i] : 0) && up.direction[i] == (i < N ? r.direction[i] : 0), "ray resized up, axis " << i); for (index_t i = 0; i < Q; i++) REQUIRE(dn.origin[i] == r.origin[i] && dn.direction[i] == r.direction[i], "ray resized down, axis " << i);
    c.nontrivial(frac);
}
PROP(convert_vec, 60000) { switch (c.i(0, 6)) { case 0: vecs<double,float,2>(c); break; case 1: vecs<double,int,3>(c); break; case 2: vecs<float,double,3>(c); break; case 3: vecs<double,float,4>(c); break; case 4: vecs<int,double,2>(c); break; case 5: vecs<double,index_t,6>(c); break; default: vecs<int,float,4>(c); } }
template<class A, class B> void quats(pbt::Ctx& c) { Quat<A> q((A)num(c), (A)num(c), (A)num(c), (A)num(c)); LOG(c, q); Quat<B> r = q; REQUIRE(r.x == (B)q.x && r.y == (B)q.y && r.z == (B)q.z && r.w == (B)q.w, "converted quaternion " << r); c.nontrivial((A)r.x != q.x || std::fabs((double)q.x) > 1e5 || sizeof(B) > sizeof(A)); }
PROP(convert_quat, 60000) { if (c.b()) quats<double,float>(c); else quats<float,double>(c); }
template<class A, class B, index_t N> void rects(pbt::Ctx& c) { typename Rect<A,N>::point_t lo, hi; typedef PointType<A,N> PA; typedef PointType<B,N> PB; for (index_t i = 0; i < N; i++) { PA::iterator(lo)[i] = (A)num(c); PA::iterator(hi)[i] = (A)num(c); } Rect<A,N> r; r.lo = lo; r.hi = hi; for (index_t i = 0; i < N; i++) LOG(c, "axis " << i << ": " << PA::iterator(lo)[i] << ".." << PA::iterator(hi)[i]); Rect<B,N> s = r; bool f = false;
    for (index_t i = 0; i < N; i++) { B l = (B)PA::iterator(lo)[i], h = (B)PA::iterator(hi)[i]; f |= (double)l != (double)PA::iterator(lo)[i] || std::fabs((double)l) > 1e5; REQUIRE(PB::iterator(s.lo)[i] == l && PB::iterator(s.hi)[i] == h, "axis " << i << " of a converted box is " << PB::iterator(s.lo)[i] << ".." << PB::iterator(s.hi)[i] << " instead of " << l << ".." << h); } c.nontrivial(f); }
PROP(convert_rect, 60000) { switch (c.i(0, 4)) { case 0: rects<double,float,3>(c); break; case 1: rects<double,int,2>(c); break; case 2: rects<int,double,2>(c); break; case 3: rects<float,double,1>(c); break; default: rects<double,float,4>(c); } }
template<class A, class B, index_t N> void xfs(pbt::Ctx& c) {
    AffineTransform<A,N> x; for (int i = 0; i < N; i++) for (int j = 0; j <= N; j++) { x.mat(i, j) = (A)num(c); x.inv(i, j) = (A)num(c); } AffineTransform<A,N> x0 = x; LOG(c, x); AffineTransform<B,N> y = (AffineTransform<B,N>)x; bool f = false;
    for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) { REQUIRE(y.mat(i, j) == (B)x.mat(i, j) && y.inv(i, j) == (B)x.inv(i, j), "entry " << i << "," << j << " of a converted transform"); f |= (A)y.mat(i, j) != x.mat(i, j) || std::fabs((double)x.mat(i, j)) > 1e5; } REQUIRE(x == x0, "conversion changed the transform"); c.nontrivial(f);
}
PROP(convert_xf, 60000) { switch (c.i(0, 2)) { case 0: xfs<double,float,3>(c); break; case 1: xfs<float,double,2>(c); break; default: xfs<double,float,2>(c); } }
template<class A, class B> void duals(pbt::Ctx& c) { Dual<A> d((A)num(c), (A)num(c)); LOG(c, d.x << " " << d.dx); Dual<B> e = d; REQUIRE(e.x == (B)d.x && e.dx == (B)d.dx, "converted dual " << e.x << " + " << e.dx); B p = (B)d; REQUIRE(p == (B)d.x, "a dual cast to a number is not its primal"); c.nontrivial(e.dx != 0 && ((A)e.x != d.x || sizeof(B) > sizeof(A))); }
PROP(convert_dual, 60000) { if (c.b()) duals<double,float>(c); else duals<float,double>(c); }
#endif
#if PART(1)
// default values, built over dirty memory
#include <geomc/function/SphericalHarmonics.h>
template<class T, class... A> struct Dirty { alignas(T) unsigned char mem[sizeof(T)]; T* p; Dirty(int fill, A... a) { memset(mem, fill, sizeof(T)); p = new (mem) T(a...); } ~Dirty() { p->~T(); } T& operator*() { return *p; } T* operator->() { return p; } };
template<class T, index_t N> bool zero(const Vec<T,N>& v) { for (index_t i = 0; i < N; i++) if (!(v[i] == 0)) return false; return true; }
template<class T, index_t N> bool unitX(const Vec<T,N>& v) { for (index_t i = 0; i < N; i++) if (!(v[i] == (i == 0))) return false; return true; }
template<class X> bool identity(const X& m) { for (index_t i = 0; i < m.rows(); i++) for (index_t j = 0; j < m.cols(); j++) if (!(m(i, j) == (i == j))) return false; return true; }
template<class T, index_t N> bool hole(const Rect<T,N>& r) { return r.is_empty(); }
template<class T, index_t N> void defaults(int f) {
    { Dirty<Vec<T,N>> v(f); REQUIRE(zero(*v), "default vector " << *v); } { Dirty<Ray<T,N>> r(f); REQUIRE(zero(r->origin) && unitX(r->direction), "default ray"); }
    { Dirty<Rect<T,N>> r(f); Rect<T,N> s(Vec<T,N>((T)2), Vec<T,N>((T)3)); REQUIRE(r->is_empty() && (*r | s) == s && (s | *r) == s, "default box is not the empty one"); }
    { Dirty<Sphere<T,N>> s(f); REQUIRE(zero(s->center) && s->r == 1, "default sphere"); } { Dirty<Capsule<T,N>> s(f); Vec<T,N> a, b; a[0] = -1; b[0] = 1; REQUIRE(s->p0 == a && s->p1 == b && s->radius == 1, "default capsule"); }
    { Dirty<Cylinder<T,N>> s(f); REQUIRE(zero(s->p0) && unitX(s->p1) && s->radius == 1, "default cylinder"); } { Dirty<Cylinder<T,N>, T> s(f, (T)2.5); REQUIRE(zero(s->p0) && unitX(s->p1) && s->radius == (T)2.5, "cylinder of a radius"); }
    { Dirty<Plane<T,N>> s(f); REQUIRE(unitX(s->normal) && s->d == 0, "default plane"); } { Dirty<Simplex<T,N>> s(f); REQUIRE(s->n == 0, "default simplex has vertices"); }
    { Dirty<Frustum<Sphere<T,N>>> s(f); REQUIRE(s->height.lo == 0 && s->height.hi == 1 && zero(s->base.center) && s->base.r == 1, "default frustum"); } { Dirty<Extruded<Sphere<T,N>>> s(f); REQUIRE(s->height.lo == 0 && s->height.hi == 1 && zero(s->base.center) && s->base.r == 1, "default extrusion"); }
    { Dirty<Extruded<Sphere<T,N>>, Sphere<T,N>> s(f, Sphere<T,N>(Vec<T,N>((T)4), (T)3)); REQUIRE((s->height.lo == 0 && s->height.hi == 1 && s->base == Sphere<T,N>(Vec<T,N>((T)4), (T)3)), "extrusion of a shape is not of unit height"); }
    { Dirty<Dilated<Sphere<T,N>>> s(f); REQUIRE(s->dilation == 0 && zero(s->shape.center) && s->shape.r == 1, "default dilation"); } { Dirty<Oriented<Sphere<T,N>>> s(f); REQUIRE(identity(s->xf.mat) && identity(s->xf.inv) && zero(s->shape.center) && s->shape.r == 1, "default oriented sphere"); }
    { Dirty<Oriented<Rect<T,N>>> s(f); REQUIRE(identity(s->xf.mat) && identity(s->xf.inv) && s->shape.is_empty(), "default oriented box"); } { Dirty<AffineTransform<T,N>> s(f); REQUIRE(identity(s->mat) && identity(s->inv), "default transform"); }
    { Dirty<SimpleMatrix<T,N,N>> m(f); REQUIRE(identity(*m), "default matrix"); } { Dirty<SimpleMatrix<T,N,N+1,COL_MAJOR>> m(f); REQUIRE(identity(*m), "default matrix that is not square"); } { Dirty<SimpleMatrix<T,0,0>, index_t, index_t> m(f, N + 1, N); REQUIRE(m->rows() == N + 1 && m->cols() == N && identity(*m), "new dynamic matrix"); }
    { Dirty<DiagMatrix<T,N,N>> m(f); REQUIRE(identity(*m), "default diagonal matrix"); } { Dirty<PermutationMatrix<N>> m(f); REQUIRE(identity(*m), "default permutation"); } { Dirty<PermutationMatrix<0>, index_t> m(f, N); REQUIRE(m->rows() == N && identity(*m), "new dynamic permutation"); }
    { Dirty<Dual<T>> d(f); REQUIRE(d->x == 0 && d->dx == 0, "default dual"); } { Dirty<Dual<T>, T> d(f, (T)3); REQUIRE(d->x == 3 && d->dx == 0, "dual constant"); } { Dirty<Quat<T>> q(f); REQUIRE(q->x == 0 && q->y == 0 && q->z == 0 && q->w == 0, "default quaternion"); }
    { Dirty<SphericalHarmonics<T,N>> s(f); REQUIRE(s->bands() == N, "default harmonics"); for (int l = 0; l < N; l++) for (int m = -l; m <= l; m++) REQUIRE(s->coeff(l, m) == 0, "default harmonics coefficient"); } { Dirty<SphericalHarmonics<T,0>> s(f); REQUIRE(s->bands() == 1 && s->coeff(0, 0) == 0, "default dynamic harmonics"); }
    { Dirty<ZonalHarmonics<T,N>> s(f); REQUIRE(s->bands() == N, "default zonal harmonics"); for (int l = 0; l < N; l++) REQUIRE(s->coeff(l) == 0 && s->get()[l] == 0, "default zonal coefficient"); } { Dirty<ZonalHarmonics<T,0>> s(f); REQUIRE(s->bands() == 1 && s->coeff(0) == 0, "default dynamic zonal harmonics"); }
}
EXAMPLE(default_values) { for (int f : {0x00, 0xa5, 0xff, 0x3f}) { defaults<double,2>(f); defaults<float,2>(f); defaults<double,3>(f); defaults<float,3>(f); defaults<double,4>(f); defaults<double,5>(f); } }
#endif
