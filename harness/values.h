#pragma once
#include "pbt.h"
#include <geomc/linalg/Vec.h>
#include <geomc/linalg/Ray.h>
#include <geomc/linalg/Quaternion.h>
#include <geomc/linalg/AffineTransform.h>
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/Rect.h>
#include <geomc/shape/Sphere.h>
#include <geomc/shape/Capsule.h>
#include <geomc/shape/Cylinder.h>
#include <geomc/shape/Frustum.h>
#include <geomc/shape/Extruded.h>
#include <geomc/shape/Oriented.h>
#include <geomc/shape/Dilated.h>
#include <geomc/shape/Simplex.h>
#include <geomc/shape/Plane.h>
using namespace geom;
// ---- objects. A value is built from a list of numbers; mutating one number is one component change.
// Zeros get a random sign in the second copy, so -0 == +0 must hash alike.
struct Nums {
    std::vector<double> v; size_t at = 0; bool flip = false; pbt::Ctx* c;
    double d() { if (at == v.size()) v.push_back(val()); double x = v[at++]; return x == 0 && flip && c->b() ? -0.0 : x; }
    float f() { return (float)d(); }
    double val() { switch (c->i(0, 3)) { case 0: return 0; case 1: return c->si(3); case 2: return c->si(1000) * 0.125; default: return (float)c->range(-100, 100); } }
};
template<class T, index_t N> Vec<T,N> gv(Nums& n) { Vec<T,N> r; for (index_t i = 0; i < N; i++) r[i] = (T)n.d(); return r; }
template<class T> struct Gen;
template<class T, index_t N> struct Gen<Vec<T,N>>     { static constexpr const char* nm = "Vec"; static Vec<T,N> make(Nums& n) { return gv<T,N>(n); } };
template<class T, index_t N> struct Gen<Ray<T,N>>     { static constexpr const char* nm = "Ray"; static Ray<T,N> make(Nums& n) { auto a = gv<T,N>(n), b = gv<T,N>(n); return Ray<T,N>(a, b); } };
template<class T> struct Gen<Quat<T>>                 { static constexpr const char* nm = "Quat"; static Quat<T> make(Nums& n) { T x = n.d(), y = n.d(), z = n.d(), w = n.d(); return Quat<T>(x, y, z, w); } };
template<class T, index_t M, index_t N> struct Gen<SimpleMatrix<T,M,N>> { static constexpr const char* nm = "Matrix"; static SimpleMatrix<T,M,N> make(Nums& n) { SimpleMatrix<T,M,N> m; for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) m(i, j) = (T)n.d(); return m; } };
template<class T, index_t N> struct Gen<AffineTransform<T,N>> { static constexpr const char* nm = "AffineTransform"; static AffineTransform<T,N> make(Nums& n) {
    AffineTransform<T,N> x = translation(gv<T,N>(n)); return x; } };
template<class T, index_t N> struct Gen<Rect<T,N>>    { static constexpr const char* nm = "Rect"; static Rect<T,N> make(Nums& n) { Vec<T,N> a, b; typename Rect<T,N>::point_t lo, hi; 
    if constexpr (N == 1) { lo = (T)n.d(); hi = (T)n.d(); } else { lo = gv<T,N>(n); hi = gv<T,N>(n); } Rect<T,N> r; r.lo = lo; r.hi = hi; return r; } };
template<class T> struct Gen1 { };
template<class T, index_t N> struct Gen<Sphere<T,N>>  { static constexpr const char* nm = "Sphere"; static Sphere<T,N> make(Nums& n) { auto p = gv<T,N>(n); T r = n.d(); return Sphere<T,N>(p, r); } };
template<class T, index_t N> struct Gen<Capsule<T,N>> { static constexpr const char* nm = "Capsule"; static Capsule<T,N> make(Nums& n) { auto a = gv<T,N>(n), b = gv<T,N>(n); T r = n.d(); return Capsule<T,N>(a, b, r); } };
template<class T, index_t N> struct Gen<Cylinder<T,N>>{ static constexpr const char* nm = "Cylinder"; static Cylinder<T,N> make(Nums& n) { auto a = gv<T,N>(n), b = gv<T,N>(n); T r = n.d(); return Cylinder<T,N>(a, b, r); } };
template<class T, index_t N> struct Gen<Plane<T,N>>   { static constexpr const char* nm = "Plane"; static Plane<T,N> make(Nums& n) { Plane<T,N> p(Vec<T,N>((T)1), (T)0); p.normal = gv<T,N>(n); p.d = n.d(); return p; } };
template<class S> struct Gen<Frustum<S>>   { static constexpr const char* nm = "Frustum"; static Frustum<S> make(Nums& n) { S s = Gen<S>::make(n); Frustum<S> f; f.base = s; f.height = Gen<Rect<typename S::elem_t,1>>::make(n); return f; } };
template<class S> struct Gen<Extruded<S>>  { static constexpr const char* nm = "Extruded"; static Extruded<S> make(Nums& n) { S s = Gen<S>::make(n); Extruded<S> f; f.base = s; f.height = Gen<Rect<typename S::elem_t,1>>::make(n); return f; } };
template<class S> struct Gen<Oriented<S>>  { static constexpr const char* nm = "Oriented"; static Oriented<S> make(Nums& n) { S s = Gen<S>::make(n); auto x = Gen<AffineTransform<typename S::elem_t, S::N>>::make(n); return Oriented<S>(s, x); } };
template<class S> struct Gen<Dilated<S>>   { static constexpr const char* nm = "Dilated"; static Dilated<S> make(Nums& n) { S s = Gen<S>::make(n); return Dilated<S>(s, (typename S::elem_t)n.d()); } };
template<class T, index_t N> struct Gen<Simplex<T,N>> { static constexpr const char* nm = "Simplex"; static Simplex<T,N> make(Nums& n) {
    int k = 1 + (int)(std::fabs(n.d())) % (N + 1); Simplex<T,N> s; s.n = k; for (int i = 0; i < k; i++) s.pts[i] = gv<T,N>(n);
    for (int i = k; i <= N; i++) s.pts[i] = Vec<T,N>((T)n.c->si(5)); return s; } };   // garbage in unused vertices

