// C12: matrix arithmetic. Oracle: naive entry-by-entry definitions over integers, for every pair of operand kinds, layouts and destinations.
// thorough: 12
// rule: operands of different kinds, or a destination that overlaps a source, or a product differing from its operands
// parts: 6
// opt: -O0
#include "pbt.h"
#include <geomc/linalg/Matrix.h>
using namespace geom;
typedef long double L;
namespace ref {
struct M { int r = 0, c = 0; std::vector<L> v; M() {} M(int r, int c): r(r), c(c), v(r * c) {} L& at(int i, int j) { return v[i * c + j]; } L at(int i, int j) const { return v[i * c + j]; }
    bool operator==(const M& o) const { return r == o.r && c == o.c && v == o.v; } };
inline M prod(const M& a, const M& b) { M d(a.r, b.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < b.c; j++) for (int k = 0; k < a.c; k++) d.at(i, j) += a.at(i, k) * b.at(k, j); return d; }
inline M lin(const M& a, const M& b, L s) { M d = a; for (size_t i = 0; i < d.v.size(); i++) d.v[i] += s * b.v[i]; return d; }
inline M sc(const M& a, L s) { M d = a; for (auto& x : d.v) x *= s; return d; }
inline M tr(const M& a) { M d(a.c, a.r); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) d.at(j, i) = a.at(i, j); return d; }
inline std::string str(const M& m) { std::ostringstream o; o << m.r << "x" << m.c << " ["; for (int i = 0; i < m.r; i++) { for (int j = 0; j < m.c; j++) o << (j ? " " : "") << (double)m.at(i, j); o << (i + 1 < m.r ? "; " : ""); } o << "]"; return o.str(); }
template<class X> M of(const X& m) { M d((int)m.rows(), (int)m.cols()); for (int i = 0; i < d.r; i++) for (int j = 0; j < d.c; j++) d.at(i, j) = (L)m(i, j); return d; }
template<class T, index_t N> M col(const Vec<T,N>& v) { M d(N, 1); for (int i = 0; i < N; i++) d.v[i] = v[i]; return d; }
template<class T, index_t N> M row(const Vec<T,N>& v) { M d(1, N); for (int i = 0; i < N; i++) d.v[i] = v[i]; return d; }
}
[[gnu::noinline]] static void sameM(const ref::M& g, const ref::M& w, const char* what) { if (!(g == w)) FAILMSG(what << ": got " << ref::str(g) << " instead of " << ref::str(w)); }
template<class X> [[gnu::noinline]] void sameX(const X& g, const ref::M& w, const char* what) { sameM(ref::of(g), w, what); }
#define SAME(got, want, what) sameX(got, want, what)
#define SAMEV(got, want, what) sameM(got, want, what)
static int val(pbt::Ctx& c) { return (int)c.si(9); }

// ---- one operand of each kind ----
enum { SROW, SCOL, DROW, DCOL, SEMIR, SEMIC, WROW, WCOL, SHARED, DIAG, DDIAG, PERM, DPERM, NKIND };
static const char* kindname[] = {"static row-major", "static column-major", "dynamic row-major", "dynamic column-major", "rows static", "columns static, column-major", "wrapped", "wrapped dynamic column-major", "shared", "diagonal", "dynamic diagonal", "permutation", "dynamic permutation"};
constexpr bool dense(int k) { return k < DIAG; }
template<int K, int M, int N, class T> struct H;
template<class Mx, class T> void fillDense(pbt::Ctx& c, Mx& m, int r, int n) { for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) { T v = (T)val(c); if ((i + j) & 1) m(i, j) = v; else m.set(i, j, v); } }
#define DENSE(KIND, TYPE, INIT) template<int M, int N, class T> struct H<KIND,M,N,T> { typedef TYPE type; T buf[M * N]; type m; H(): m INIT {} H(pbt::Ctx& c): m INIT { fillDense<type, T>(c, m, M, N); } H(const H&) = delete; }
#define TY(...) __VA_ARGS__
DENSE(SROW, TY(SimpleMatrix<T,M,N>), ());
DENSE(SCOL, TY(SimpleMatrix<T,M,N,COL_MAJOR>), ());
DENSE(DROW, TY(SimpleMatrix<T,0,0>), (M, N));
DENSE(DCOL, TY(SimpleMatrix<T,0,0,COL_MAJOR>), (M, N));
DENSE(SEMIR, TY(SimpleMatrix<T,M,0>), (M, N));
DENSE(SEMIC, TY(SimpleMatrix<T,0,N,COL_MAJOR>), (M, N));
DENSE(WROW, TY(WrapperMatrix<T,M,N>), (buf));
DENSE(WCOL, TY(WrapperMatrix<T,0,0,COL_MAJOR>), (buf, M, N));
DENSE(SHARED, TY(SimpleMatrix<T,0,0,ROW_MAJOR,STORAGE_SHARED>), (M, N));
template<int M, int N, class T> struct H<DIAG,M,N,T> { typedef DiagMatrix<T,M,N> type; type m; H() {} H(pbt::Ctx& c) { for (T* p = m.diagonal_begin(); p != m.diagonal_end(); ++p) *p = (T)val(c); } };
template<int M, int N, class T> struct H<DDIAG,M,N,T> { typedef DiagMatrix<T,0,0> type; type m; H(): m(M, N) {} H(pbt::Ctx& c): m(M, N) { for (int i = 0; i < std::min(M, N); i++) m.diagonal(i) = (T)val(c); } };
template<class P> void fillPerm(pbt::Ctx& c, P& p, int n) { std::vector<index_t> q(n); for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[c.i(0, i)]); p.setRowSources(q.data()); }
template<int M, int N, class T> struct H<PERM,M,N,T> { typedef PermutationMatrix<M> type; type m; H() {} H(pbt::Ctx& c) { fillPerm(c, m, M); } };
template<int M, int N, class T> struct H<DPERM,M,N,T> { typedef PermutationMatrix<0> type; type m; H(): m(M) {} H(pbt::Ctx& c): m(M) { fillPerm(c, m, M); } };
constexpr bool exists(int k, int M, int N) { return k < PERM || M == N; }
// ref of a filled operand through its definition
template<int K, int M, int N, class T> ref::M refOf(const H<K,M,N,T>& h) { return ref::of(h.m); }

// run f(kind constant) for the runtime kind
constexpr int ALL = (1 << NKIND) - 1;
template<int M, int N, int MASK, class F> void onKind(int k, F&& f) {
    auto go = [&]<int... I>(std::integer_sequence<int, I...>) { (void)((I == k ? ([&] { if constexpr (exists(I, M, N) && (MASK >> I & 1)) f(std::integral_constant<int, I>()); }(), true) : false) || ...); };
    go(std::make_integer_sequence<int, NKIND>());
}
template<int M, int N, int MASK> int pickKind(pbt::Ctx& c) { std::vector<int> k; for (int i = 0; i < NKIND; i++) if (exists(i, M, N) && (MASK >> i & 1)) k.push_back(i); return c.pick(k); }
// two destination kinds per pair of operand kinds, so that all of them meet all others over the whole table
constexpr int destMask(int ka, int kb) { return 1 << (ka * 2 + kb) % DIAG | 1 << (ka + kb * 4 + 5) % DIAG; }
inline int pickDest(pbt::Ctx& c, int ka, int kb) { return c.b() ? (ka * 2 + kb) % DIAG : (ka + kb * 4 + 5) % DIAG; }

template<int M, int K, int N, class T, int MASK> void products(pbt::Ctx& c) {
    int ka = pickKind<M,K,MASK>(c), kb = pickKind<K,N,MASK>(c); LOG(c, kindname[ka] << " * " << kindname[kb]);
    onKind<M,K,MASK>(ka, [&](auto KA) { onKind<K,N,MASK>(kb, [&](auto KB) {
        H<KA,M,K,T> a(c); H<KB,K,N,T> b(c); ref::M ra = refOf<KA,M,K,T>(a), rb = refOf<KB,K,N,T>(b), want = ref::prod(ra, rb); LOG(c, ref::str(ra) << " * " << ref::str(rb));
        SAME(a.m * b.m, want, "a*b"); SAME(geom::mul(a.m, b.m), want, "mul(a,b)");
        int kd = pickDest(c, ka, kb); LOG(c, "into " << kindname[kd]);
        onKind<M,N,destMask(KA, KB)>(kd, [&](auto KD) { H<KD,M,N,T> d(c); auto& r = geom::mul(&d.m, a.m, b.m); REQUIRE(&r == &d.m, "mul does not return its destination"); SAME(d.m, want, "mul into a dense destination");
            if constexpr ((dense(KA) && dense(KB)) || (KA >= DIAG && KA <= DDIAG && KB >= DIAG && KB <= DDIAG)) { H<KD,M,N,T> e(c); ref::M before = ref::of(e.m); mul_acc(&e.m, a.m, b.m); SAME(e.m, ref::lin(before, want, 1), "mul_acc"); } });
        if constexpr (KA >= DIAG && KA <= DDIAG && KB >= DIAG && KB <= DDIAG) { H<DIAG,M,N,T> d(c); geom::mul(&d.m, a.m, b.m); SAME(d.m, want, "diagonal product into a diagonal"); H<DDIAG,M,N,T> e(c); geom::mul(&e.m, a.m, b.m); SAME(e.m, want, "diagonal product into a dynamic diagonal"); ref::M before = ref::of(d.m); mul_acc(&d.m, a.m, b.m); SAME(d.m, ref::lin(before, want, 1), "mul_acc of diagonals"); }
        if constexpr (KA >= PERM && KB >= PERM) { H<PERM,M,M,T> d(c); geom::mul(&d.m, a.m, b.m); SAME(d.m, want, "permutation product into a permutation"); H<DPERM,M,M,T> e(c); geom::mul(&e.m, a.m, b.m); SAME(e.m, want, "permutation product into a dynamic permutation"); }
        if constexpr (M == K && K == N) { // destination is an operand
            if constexpr (dense(KA)) { H<KA,M,K,T> x(c); ref::M rx = ref::of(x.m); geom::mul(&x.m, x.m, b.m); SAME(x.m, ref::prod(rx, rb), "mul(&x, x, b)"); if constexpr (dense(KB)) { ref::M ry = ref::of(x.m); geom::mul(&x.m, x.m, x.m); SAME(x.m, ref::prod(ry, ry), "mul(&x, x, x)"); ry = ref::of(x.m); mul_acc(&x.m, x.m, b.m); SAME(x.m, ref::lin(ry, ref::prod(ry, rb), 1), "mul_acc(&x, x, b)"); } }
            if constexpr (dense(KB)) { H<KB,M,K,T> x(c); ref::M rx = ref::of(x.m); geom::mul(&x.m, a.m, x.m); SAME(x.m, ref::prod(ra, rx), "mul(&x, a, x)"); }
            if constexpr (KA >= DIAG && KA <= DDIAG && KB >= DIAG && KB <= DDIAG) { H<KA,M,K,T> x(c); ref::M rx = ref::of(x.m); geom::mul(&x.m, x.m, b.m); SAME(x.m, ref::prod(rx, rb), "diagonal mul(&x, x, b)"); rx = ref::of(x.m); x.m *= b.m; SAME(x.m, ref::prod(rx, rb), "diagonal x *= b"); }
            if constexpr (KA >= PERM && KB >= PERM) { H<KA,M,K,T> x(c); ref::M rx = ref::of(x.m); geom::mul(&x.m, x.m, b.m); SAME(x.m, ref::prod(rx, rb), "permutation mul(&x, x, b)"); rx = ref::of(x.m); geom::mul(&x.m, b.m, x.m); SAME(x.m, ref::prod(rb, rx), "permutation mul(&x, b, x)"); }
            if constexpr (dense(KA) && (KB == DIAG || KB == DDIAG)) { H<KA,M,K,T> x(c); ref::M rx = ref::of(x.m); x.m *= b.m; SAME(x.m, ref::prod(rx, rb), "x *= diagonal"); }
        }
        if constexpr (K == N && M != K && dense(KA) && (KB == DIAG || KB == DDIAG)) { H<KA,M,K,T> x(c); ref::M rx = ref::of(x.m); x.m *= b.m; SAME(x.m, ref::prod(rx, rb), "x *= diagonal"); }
        // vectors
        if constexpr (K > 1 && M > 1) { Vec<T,K> v; Vec<T,M> u; for (int i = 0; i < K; i++) v[i] = (T)val(c); for (int i = 0; i < M; i++) u[i] = (T)val(c);
            ref::M wc = ref::prod(ra, ref::col(v)), wr = ref::prod(ref::row(u), ra);
            auto asCol = [](const auto& x) { if constexpr (requires { x.rows(); }) return ref::of(x); else return ref::col(x); }; auto asRow = [](const auto& x) { if constexpr (requires { x.rows(); }) return ref::of(x); else return ref::row(x); };
            SAMEV(asCol(a.m * v), wc, "matrix * vector"); SAMEV(asRow(u * a.m), wr, "vector * matrix");
            Vec<T,M> dv; geom::mul(&dv, a.m, v); SAMEV(ref::col(dv), wc, "mul(&vector, matrix, vector)"); Vec<T,K> du; geom::mul(&du, u, a.m); SAMEV(ref::row(du), wr, "mul(&vector, vector, matrix)");
            SimpleMatrix<T,0,0> dc(M, 1), dr(1, K); geom::mul(&dc, a.m, v); SAME(dc, wc, "mul(&column, matrix, vector)"); geom::mul(&dr, u, a.m); SAME(dr, wr, "mul(&row, vector, matrix)");
            if constexpr (KA < PERM) { Vec<T,M> e = u; mul_acc(&e, a.m, v); SAMEV(ref::col(e), ref::lin(ref::col(u), wc, 1), "mul_acc(&vector, matrix, vector)"); Vec<T,K> f = v; mul_acc(&f, u, a.m); SAMEV(ref::row(f), ref::lin(ref::row(v), wr, 1), "mul_acc(&vector, vector, matrix)"); SimpleMatrix<T,0,0> g(M, 1); fillDense<SimpleMatrix<T,0,0>, T>(c, g, M, 1); ref::M before = ref::of(g); mul_acc(&g, a.m, v); SAME(g, ref::lin(before, wc, 1), "mul_acc(&column, matrix, vector)"); }
            if constexpr (M == K) { Vec<T,M> x = v; geom::mul(&x, a.m, x); SAMEV(ref::col(x), wc, "mul(&v, m, v)"); x = u; geom::mul(&x, x, a.m); SAMEV(ref::row(x), wr, "mul(&v, v, m)"); } }
        SAME(a.m, ra, "left operand was changed"); SAME(b.m, rb, "right operand was changed"); bool nz = false; for (L x : want.v) nz |= x != 0; c.nontrivial(nz && ka != kb);
    }); });
}
template<int M, int N, class T, int MASK> void elementwise(pbt::Ctx& c) {
    int ka = pickKind<M,N,MASK>(c), kb = pickKind<M,N,MASK>(c); LOG(c, kindname[ka] << " + " << kindname[kb]);
    onKind<M,N,MASK>(ka, [&](auto KA) { onKind<M,N,MASK>(kb, [&](auto KB) {
        H<KA,M,N,T> a(c); H<KB,M,N,T> b(c); ref::M ra = ref::of(a.m), rb = ref::of(b.m), sum = ref::lin(ra, rb, 1), dif = ref::lin(ra, rb, -1); LOG(c, ref::str(ra) << " , " << ref::str(rb));
        SAME(a.m + b.m, sum, "a+b"); SAME(a.m - b.m, dif, "a-b"); SAME(add(a.m, b.m), sum, "add(a,b)"); SAME(sub(a.m, b.m), dif, "sub(a,b)");
        int kd = pickDest(c, ka, kb); T k = (T)val(c); LOG(c, "into " << kindname[kd] << " k=" << k);
        onKind<M,N,destMask(KA, KB)>(kd, [&](auto KD) { H<KD,M,N,T> d(c), e(c); add(&d.m, a.m, b.m); SAME(d.m, sum, "add into"); sub(&d.m, a.m, b.m); SAME(d.m, dif, "sub into");
            if constexpr (dense(KA)) { add(&d.m, d.m, a.m); SAME(d.m, ref::lin(dif, ra, 1), "add(&x, x, a)"); sub(&d.m, a.m, d.m); SAME(d.m, ref::lin(ra, ref::lin(dif, ra, 1), -1), "sub(&x, a, x)"); }
            if constexpr (KA < PERM) { scale(&e.m, k, a.m); SAME(e.m, ref::sc(ra, k), "scale into"); scale(&e.m, k, e.m); SAME(e.m, ref::sc(ra, k * k), "scale(&x, k, x)"); }
            mtxcopy(&e.m, b.m); SAME(e.m, rb, "mtxcopy"); mtxcopy(&e.m, e.m); SAME(e.m, rb, "mtxcopy onto itself");
            if constexpr (KD != WROW && KD != WCOL) { typename H<KD,M,N,T>::type copy(a.m); SAME(copy, ra, "constructed from another matrix"); H<KD,M,N,T> f(c); f.m = typename H<KD,M,N,T>::type(b.m); SAME(f.m, rb, "assigned from another matrix"); }
            H<KD,N,M,T> t(c); transpose(&t.m, a.m); SAME(t.m, ref::tr(ra), "transpose into");
            e.m *= k; SAME(e.m, ref::sc(rb, k), "x *= k");
            REQUIRE((d.m == a.m) == (ref::of(d.m) == ra) && (d.m != a.m) == !(ref::of(d.m) == ra), "comparison of unrelated matrices"); mtxcopy(&d.m, a.m); REQUIRE(d.m == a.m && a.m == d.m && !(d.m != a.m), "a copy does not compare equal to its source, kinds " << kindname[KD] << " and " << kindname[KA]);
            int i = c.i(0, M - 1), j = c.i(0, N - 1); d.m(i, j) += 1; REQUIRE(d.m != a.m && a.m != d.m && !(d.m == a.m), "matrices differing at " << i << "," << j << " compare equal, kinds " << kindname[KD] << " and " << kindname[KA]); });
        if constexpr (KA >= DIAG && KA <= DDIAG) { H<DIAG,M,N,T> d(c); H<DDIAG,M,N,T> e(c); scale(&d.m, k, a.m); SAME(d.m, ref::sc(ra, k), "scale into a diagonal"); scale(&e.m, k, a.m); SAME(e.m, ref::sc(ra, k), "scale into a dynamic diagonal"); scale(&e.m, k, e.m); SAME(e.m, ref::sc(ra, k * k), "scale(&x, k, x), diagonal"); mtxcopy(&e.m, a.m); SAME(e.m, ra, "mtxcopy into a diagonal"); mtxcopy(&d.m, a.m); SAME(d.m, ra, "mtxcopy into a diagonal");
            H<DIAG,N,M,T> td(c); H<DDIAG,N,M,T> te(c); transpose(&td.m, a.m); SAME(td.m, ref::tr(ra), "transpose into a diagonal"); transpose(&te.m, a.m); SAME(te.m, ref::tr(ra), "transpose into a dynamic diagonal");
            typename H<KA,M,N,T>::type cp(a.m); if (cp.diagonal_begin() != cp.diagonal_end()) { cp.diagonal(0) += 1; REQUIRE(cp != a.m && !(cp == a.m), "different diagonals compare equal"); SAME(a.m, ra, "copy of a diagonal aliases it"); }
            if constexpr (KB >= DIAG && KB <= DDIAG) { add(&d.m, a.m, b.m); SAME(d.m, sum, "add into a diagonal"); sub(&e.m, a.m, b.m); SAME(e.m, dif, "sub into a diagonal"); REQUIRE((a.m == b.m) == (ra == rb) && (a.m != b.m) == !(ra == rb), "comparison of diagonals"); } }
        if constexpr (KA < PERM) { SAME(k * a.m, ref::sc(ra, k), "k*a"); SAME(a.m * k, ref::sc(ra, k), "a*k"); SAME(scale(k, a.m), ref::sc(ra, k), "scale(k,a)"); }
        SAME(transpose(a.m), ref::tr(ra), "transpose(a)"); REQUIRE((a.m == b.m) == (ra == rb) && (a.m != b.m) == !(ra == rb), "comparison of " << ref::str(ra) << " and " << ref::str(rb));
        if constexpr (M == N && dense(KA)) { H<KA,M,N,T> x(c); ref::M rx = ref::of(x.m); transpose(&x.m, x.m); SAME(x.m, ref::tr(rx), "transpose in place"); auto v = x.m.as_transpose(); SAME(v, rx, "as_transpose"); add(&x.m, x.m, v); SAME(x.m, ref::lin(ref::tr(rx), rx, 1), "add(&x, x, transposed view of x)"); }
        if constexpr (dense(KA)) { typename H<KA,M,N,T>::type cp(a.m); SAME(cp, ra, "copy"); if constexpr (KA != WROW && KA != WCOL && KA != SHARED) { cp(0, 0) += 1; REQUIRE(cp != a.m, "a changed copy equals its source"); SAME(a.m, ra, "copy aliases its source"); } }
        SAME(a.m, ra, "left operand was changed"); SAME(b.m, rb, "right operand was changed"); c.nontrivial(!(ra == rb));
    }); });
}
constexpr int SOME1 = 1 << SROW | 1 << SCOL | 1 << DROW | 1 << WROW | 1 << DIAG | 1 << PERM, SOME2 = 1 << SROW | 1 << SEMIC | 1 << DCOL | 1 << DIAG | 1 << DDIAG, SOME3 = 1 << SEMIR | 1 << WCOL | 1 << SHARED | 1 << DIAG | 1 << DDIAG | 1 << PERM | 1 << DPERM, E1 = 0x1555, E2 = 0x1fff & ~E1;
#if PART(0)
PROP(products_343, 80000) { products<3,4,3,double,ALL>(c); }
#endif
#if PART(1)
PROP(products_333, 80000) { products<3,3,3,double,SOME1 | SOME3>(c); }
#endif
#if PART(2)
PROP(elementwise_33, 80000) { elementwise<3,3,double,SOME1 | SOME3>(c); }
#endif
#if PART(3)
PROP(products_222i, 40000) { products<2,2,2,int,SOME1>(c); }
PROP(elementwise_34, 60000) { elementwise<3,4,double,SOME2 | 1 << SCOL | 1 << WCOL | 1 << DROW>(c); }
#endif
#if PART(4)
PROP(products_425, 40000) { products<4,2,5,float,SOME2>(c); }
PROP(elementwise_42, 40000) { elementwise<4,2,int,SOME1>(c); }
PROP(products_244, 40000) { products<2,4,4,double,SOME3>(c); }
PROP(products_142, 20000) { products<1,4,2,double,SOME1>(c); }
#endif
#if PART(5)
// ---- fully dynamic sizes, mismatches, and destinations overlapping their sources in one buffer ----
template<MatrixLayout Ly> struct Dyn { typedef SimpleMatrix<double,0,0,Ly> type; };
// now and then a side longer than 128 or 256
static int dim(pbt::Ctx& c) { return c.chance(1, 250) ? (int)c.pick({128, 256}) + (int)c.si(4) : (int)c.i(1, 7); }
template<class A, class B, class D> void dyn(pbt::Ctx& c) {
    int m = dim(c), k = dim(c); if (m > 9 && k > 9) m = 3; int k2 = c.chance(1, 3) ? c.i(1, 7) : k, n = dim(c); if (n > 9 && k > 9) n = 2; int dm = c.chance(1, 3) ? c.i(1, 7) : m, dn = c.chance(1, 3) ? c.i(1, 7) : n; A a(m, k); B b(k2, n); D d(dm, dn); fillDense<A, double>(c, a, m, k); fillDense<B, double>(c, b, k2, n); fillDense<D, double>(c, d, dm, dn);
    ref::M ra = ref::of(a), rb = ref::of(b), rd = ref::of(d); bool inner = k == k2, fits = inner && dm == m && dn == n; LOG(c, m << "x" << k << " * " << k2 << "x" << n << " -> " << dm << "x" << dn); c.label("inner mismatch", !inner); c.label("destination mismatch", inner && !fits);
#define THROWS(expr, ok, what) do { bool _t = false; try { expr; } catch (const DimensionMismatchException&) { _t = true; } if (_t == (ok)) FAILMSG((what) << (_t ? " threw although dimensions match" : " did not report mismatched dimensions")); } while (0)
    THROWS(SAME(a * b, ref::prod(ra, rb), "a*b"), inner, "a*b"); THROWS(geom::mul(&d, a, b), fits, "mul into"); SAME(d, fits ? ref::prod(ra, rb) : rd, "destination of mul"); rd = ref::of(d); THROWS(mul_acc(&d, a, b), fits, "mul_acc"); SAME(d, fits ? ref::lin(rd, ref::prod(ra, rb), 1) : rd, "destination of mul_acc"); rd = ref::of(d);
    bool same = m == k2 && k == n, dfit = dm == m && dn == k; THROWS(SAME(a + b, ref::lin(ra, rb, 1), "a+b"), same, "a+b"); THROWS(SAME(a - b, ref::lin(ra, rb, -1), "a-b"), same, "a-b"); THROWS(add(&d, a, b), same && dfit, "add into"); SAME(d, same && dfit ? ref::lin(ra, rb, 1) : rd, "destination of add"); rd = ref::of(d); THROWS(sub(&d, a, b), same && dfit, "sub into"); SAME(d, same && dfit ? ref::lin(ra, rb, -1) : rd, "destination of sub"); rd = ref::of(d);
    THROWS(scale(&d, 3, a), dfit, "scale into"); SAME(d, dfit ? ref::sc(ra, 3) : rd, "destination of scale"); rd = ref::of(d); THROWS(mtxcopy(&d, a), dfit, "mtxcopy"); SAME(d, dfit ? ra : rd, "destination of mtxcopy"); rd = ref::of(d); bool tf = dm == k && dn == m; THROWS(transpose(&d, a), tf, "transpose into"); SAME(d, tf ? ref::tr(ra) : rd, "destination of transpose"); SAME(transpose(a), ref::tr(ra), "transpose");
    REQUIRE((a == b) == (ra == rb) && (a != b) == !(ra == rb), "comparison with possibly different dimensions"); SAME(3 * a, ref::sc(ra, 3), "3*a");
    { DiagMatrix<double,0,0> g(k2, n); for (int i = 0; i < std::min(k2, n); i++) g.diagonal(i) = val(c); ref::M rg = ref::of(g); THROWS(SAME(a * g, ref::prod(ra, rg), "a*diag"), inner, "a*diag"); THROWS(SAME(g * a, ref::prod(rg, ra), "diag*a"), n == m, "diag*a"); THROWS(SAME(a + g, ref::lin(ra, rg, 1), "a+diag"), same, "a+diag"); PermutationMatrix<0> p(k2); fillPerm(c, p, k2); ref::M rp = ref::of(p); THROWS(SAME(a * p, ref::prod(ra, rp), "a*perm"), inner, "a*perm"); THROWS(SAME(p * a, ref::prod(rp, ra), "perm*a"), k2 == m, "perm*a"); THROWS(SAME(p * g, ref::prod(rp, rg), "perm*diag"), true, "perm*diag"); THROWS(SAME(g * p, ref::prod(rg, rp), "diag*perm"), n == k2, "diag*perm"); PermutationMatrix<0> q(n); fillPerm(c, q, n); ref::M rq = ref::of(q); THROWS(SAME(p * q, ref::prod(rp, rq), "perm*perm"), n == k2, "perm*perm"); REQUIRE((p == q) == (rp == rq) && (p != q) == !(rp == rq), "comparison of permutations"); REQUIRE((a == p) == (ra == rp), "comparison with a permutation"); REQUIRE((g == a) == (rg == ra), "comparison with a diagonal"); { int hr = c.chance(2, 3) ? n : c.i(1, 8), hc = c.chance(2, 3) ? n : c.i(1, 8); DiagMatrix<double,0,0> h(hr, hc); for (int i = 0; i < std::min(hr, hc); i++) h.diagonal(i) = val(c); ref::M rh = ref::of(h), rb2 = ref::of(b); bool ok = hr == n && hc == n; LOG(c, "in place by a diagonal " << hr << "x" << hc); THROWS(b *= h, ok, "b *= diag"); SAME(b, ok ? ref::prod(rb2, rh) : rb2, "b *= diag"); rb = ref::of(b); }
      { A a2(a); bool ok = k == k2 && n == k2; THROWS(a2 *= g, ok, "a *= diag"); SAME(a2, ok ? ref::prod(ra, rg) : ra, "a *= diag"); } }
    // static against dynamic
    SimpleMatrix<double,3,4> s; fillDense<SimpleMatrix<double,3,4>, double>(c, s, 3, 4); ref::M rs = ref::of(s); THROWS(SAME(s * a, ref::prod(rs, ra), "static*a"), m == 4, "static*a"); THROWS(SAME(a * s, ref::prod(ra, rs), "a*static"), k == 3, "a*static"); THROWS(SAME(a + s, ref::lin(ra, rs, 1), "a+static"), m == 3 && k == 4, "a+static"); THROWS((geom::mul(&s, a, b)), inner && m == 3 && n == 4, "mul into static"); SAME(s, inner && m == 3 && n == 4 ? ref::prod(ra, rb) : rs, "destination static"); rs = ref::of(s);
    typedef SimpleMatrix<double,3,4> S34; THROWS(s = S34(a), m == 3 && k == 4, "static constructed from dynamic"); SAME(s, m == 3 && k == 4 ? ra : rs, "static assigned"); { Vec<double,3> v(1, 2, 3), w(7, 8, 9); THROWS(geom::mul(&w, a, v), k == 3 && m == 3, "mul(&vector, a, vector)"); SAMEV(ref::col(w), k == 3 && m == 3 ? ref::prod(ra, ref::col(v)) : ref::col(Vec<double,3>(7, 8, 9)), "destination vector"); Vec<double,3> x(7, 8, 9); THROWS(geom::mul(&x, v, a), k == 3 && m == 3, "mul(&vector, vector, a)"); THROWS(SAMEV(ref::of(a * v), ref::prod(ra, ref::col(v)), "a*v"), k == 3, "a*v"); THROWS(SAMEV(ref::of(v * a), ref::prod(ref::row(v), ra), "v*a"), m == 3, "v*a"); }
    SAME(a, ra, "left operand was changed"); c.nontrivial(inner || same || dfit);
}
#endif
#if PART(5)
template<MatrixLayout LA, MatrixLayout LB, MatrixLayout LD> void overlap(pbt::Ctx& c) {
    constexpr int S = 40; double buf[S]; ref::M mem(1, S); for (int i = 0; i < S; i++) mem.v[i] = buf[i] = val(c); int m = c.i(1, 4), k = c.i(1, 4), n = c.i(1, 4); int op = c.i(0, 6); if (op >= 2 && op <= 5) { k = op <= 3 ? k : m; n = k; if (op == 5 || op == 4) n = m; }
    auto off = [&](int len) { return (int)c.i(0, c.b() ? std::min(3, S - len) : S - len); };
    int ar = m, ac = k, br = k, bc = n, dr = m, dc = n; if (op == 2 || op == 3 || op == 6) { br = m; bc = k; dr = m; dc = k; } if (op == 4) { dr = k; dc = m; } if (op == 5) { dr = m; dc = k; }
    int oa = off(ar * ac), ob = off(br * bc), od = off(dr * dc); WrapperMatrix<double,0,0,LA> a(buf + oa, ar, ac); WrapperMatrix<double,0,0,LB> b(buf + ob, br, bc); WrapperMatrix<double,0,0,LD> d(buf + od, dr, dc); ref::M ra = ref::of(a), rb = ref::of(b), rd = ref::of(d), want; const char* name = "";
    bool oad = oa < od + dr * dc && od < oa + ar * ac, obd = ob < od + dr * dc && od < ob + br * bc; REQUIRE(mtx_aliases_storage(a, d) == oad && mtx_aliases_storage(d, b) == obd, "aliasing is reported as " << mtx_aliases_storage(a, d) << " for [" << oa << "," << oa + ar * ac << ") and [" << od << "," << od + dr * dc << ")");
    switch (op) { case 0: name = "mul"; geom::mul(&d, a, b); want = ref::prod(ra, rb); break; case 1: name = "mul_acc"; mul_acc(&d, a, b); want = ref::lin(rd, ref::prod(ra, rb), 1); break; case 2: name = "add"; add(&d, a, b); want = ref::lin(ra, rb, 1); break; case 3: name = "sub"; sub(&d, a, b); want = ref::lin(ra, rb, -1); break; case 4: name = "transpose"; transpose(&d, a); want = ref::tr(ra); break; case 5: name = "scale"; scale(&d, 3, a); want = ref::sc(ra, 3); break; default: name = "mtxcopy"; mtxcopy(&d, a); want = ra; }
    LOG(c, name << " a at " << oa << " " << ref::str(ra) << ", b at " << ob << " " << ref::str(rb) << ", destination at " << od << " " << dr << "x" << dc); SAME(d, want, (std::string(name) + " with overlapping storage").c_str()); for (int i = 0; i < S; i++) if (i < od || i >= od + dr * dc) REQUIRE(buf[i] == mem.v[i], name << " changed memory outside its destination at " << i); c.nontrivial(oad || obd);
}
PROP(dynamic_rr, 12000) { dyn<SimpleMatrix<double,0,0>, SimpleMatrix<double,0,0>, SimpleMatrix<double,0,0>>(c); }
PROP(dynamic_rc, 12000) { dyn<SimpleMatrix<double,0,0>, SimpleMatrix<double,0,0,COL_MAJOR>, SimpleMatrix<double,0,0,COL_MAJOR>>(c); }
PROP(dynamic_cc, 12000) { dyn<SimpleMatrix<double,0,0,COL_MAJOR>, SimpleMatrix<double,0,0,COL_MAJOR>, SimpleMatrix<double,0,0>>(c); }
// ---- operands and destinations behind run-time handles, which may share their storage ----
PROP(handles, 12000) {
    typedef SimpleMatrix<double,0,0> R; typedef SimpleMatrix<double,0,0,COL_MAJOR> C; int m = c.i(1, 5), k = c.b() ? m : c.i(1, 5), n = c.b() ? m : c.i(1, 5); R a(m, k); C b(k, n); R e(m, k), d(m, n); fillDense<R, double>(c, a, m, k); fillDense<C, double>(c, b, k, n); fillDense<R, double>(c, e, m, k); fillDense<R, double>(c, d, m, n);
    MatrixWrapper<R> wa(&a), we(&e), wd(&d); MatrixWrapper<C> wb(&b); MatrixHandle<double> &ha = wa, &hb = wb, &he = we, &hd = wd; ref::M ra = ref::of(a), rb = ref::of(b), re = ref::of(e), rd = ref::of(d), p = ref::prod(ra, rb); LOG(c, m << "x" << k << " * " << k << "x" << n); c.nontrivial(m > 1 && k > 1 && n > 1);
    SAME(ha * hb, p, "handle*handle"); SAME(ha * b, p, "handle*matrix"); SAME(a * hb, p, "matrix*handle"); SAME(transpose(ha), ref::tr(ra), "transpose of a handle"); SAME(ha + he, ref::lin(ra, re, 1), "handle+handle"); SAME(ha - e, ref::lin(ra, re, -1), "handle-matrix"); SAME(a + he, ref::lin(ra, re, 1), "matrix+handle"); REQUIRE((ha == he) == (ra == re) && (ha == a) && !(ha != a), "comparison of handles"); R copy(ha); SAME(copy, ra, "matrix constructed from a handle");
    bool into = c.b(); switch (c.i(0, 4)) {
    case 0: if (into) geom::mul(&hd, ha, hb); else geom::mul(&d, ha, b); SAME(d, p, "mul by handle"); break;
    case 1: if (into) add(&he, ha, he); else add(&e, ha, he); SAME(e, ref::lin(ra, re, 1), "add onto a source behind a handle"); break;
    case 2: if (into) sub(&he, ha, he); else sub(&he, a, e); SAME(e, ref::lin(ra, re, -1), "sub onto a source behind a handle"); break;
    case 3: if (into) mtxcopy(&he, ha); else mtxcopy(&e, ha); SAME(e, ra, "mtxcopy by handle"); break;
    default: if (k == m) { if (into) geom::mul(&he, he, ha); else geom::mul(&e, ha, he); SAME(e, (into ? ref::prod(re, ra) : ref::prod(ra, re)), "product onto a source behind a handle"); c.label("product onto a source"); } }
    if (c.chance(1, 4)) { if (c.b()) { hd.set_zero(); SAME(d, ref::M(m, n), "set_zero by handle"); } else { hd.set_identity(); ref::M id(m, n); for (int i = 0; i < std::min(m, n); i++) id.at(i, i) = 1; SAME(d, id, "set_identity by handle"); } REQUIRE(hd.rows() == m && hd.cols() == n, "dimensions of a handle"); }
    SAME(a, ra, "operand behind a handle was changed"); bool t = false; if (k != n + 1) { R z(n + 1, 2); MatrixWrapper<R> wz(&z); MatrixHandle<double>& hz = wz; try { auto q = ha * hz; } catch (const DimensionMismatchException&) { t = true; } REQUIRE(t, "mismatched handles were multiplied"); }
}
PROP(overlap_rrr, 40000) { overlap<ROW_MAJOR, ROW_MAJOR, ROW_MAJOR>(c); }
PROP(overlap_rcr, 20000) { overlap<ROW_MAJOR, COL_MAJOR, ROW_MAJOR>(c); }
PROP(overlap_crc, 20000) { overlap<COL_MAJOR, ROW_MAJOR, COL_MAJOR>(c); }
PROP(overlap_ccc, 20000) { overlap<COL_MAJOR, COL_MAJOR, COL_MAJOR>(c); }
PROP(overlap_rrc, 20000) { overlap<ROW_MAJOR, ROW_MAJOR, COL_MAJOR>(c); }
#endif
