// C13: rows, columns, regions and views. Oracle: a plain 2-D array; every accessor and iterator must address the entry (r,c) the array model names.
// thorough: 20
// rule: both dimensions exceed one (or the shape is not square where orders differ)
// parts: 4
// opt: -O0
#include "pbt.h"
#include <geomc/linalg/Matrix.h>
using namespace geom;
namespace ref { struct M { int r, c; std::vector<double> v; M(int r, int c): r(r), c(c), v(r * c) {} double& at(int i, int j) { return v[i * c + j]; } }; }
template<class X> void same(const X& m, ref::M& w, const char* what) { REQUIRE(m.rows() == w.r && m.cols() == w.c, what << ": dimensions " << m.rows() << "x" << m.cols() << " instead of " << w.r << "x" << w.c); for (int i = 0; i < w.r; i++) for (int j = 0; j < w.c; j++) REQUIRE(m(i, j) == w.at(i, j), what << ": entry " << i << "," << j << " of " << w.r << "x" << w.c << " is " << m(i, j) << " instead of " << w.at(i, j)); }

// every way of reading agrees with the model
template<class X> void reads(const X& m, ref::M& w) {
    same(m, w, "operator()"); int n = 0; for (auto it = m.begin(); it != m.end(); ++it, ++n) { REQUIRE(n < w.r * w.c, "body iteration passes the end"); REQUIRE(*it == w.v[n], "body iteration step " << n << " gives " << *it << " instead of " << w.v[n]); } REQUIRE(n == w.r * w.c && m.end() - m.begin() == n, "body iteration visits " << n << " of " << w.r * w.c << ", distance " << (m.end() - m.begin()));
    for (int i = 0; i < w.r; i++) { auto it = m.row(i); auto e = m.row(i) + w.c; REQUIRE(e - it == w.c, "row length"); for (int j = 0; j < w.c; j++, ++it) { REQUIRE(*it == w.at(i, j), "row(" << i << ") step " << j << " gives " << *it << " instead of " << w.at(i, j)); REQUIRE(m.row(i)[j] == w.at(i, j) && m[i][j] == w.at(i, j) && *(m.row(i) + j) == w.at(i, j), "subscripting row " << i << " at " << j); } }
    for (int j = 0; j < w.c; j++) { auto it = m.col(j); auto e = m.col(j) + w.r; REQUIRE(e - it == w.r, "column length"); for (int i = 0; i < w.r; i++, ++it) { REQUIRE(*it == w.at(i, j), "col(" << j << ") step " << i << " gives " << *it << " instead of " << w.at(i, j)); REQUIRE(m.col(j)[i] == w.at(i, j) && *(m.col(j) + i) == w.at(i, j), "subscripting column " << j << " at " << i); } }
}
static MatrixRegion region(pbt::Ctx& c, int R, int C) { int r0 = c.i(0, R - 1), c0 = c.i(0, C - 1), r1 = c.i(r0, R), c1 = c.i(c0, C); return MatrixRegion(Vec<index_t,2>(r0, c0), Vec<index_t,2>(r1, c1)); }
template<class X> void regions(pbt::Ctx& c, X& m, ref::M& w) {
    MatrixRegion g = region(c, w.r, w.c); LOG(c, "region " << g.lo << " to " << g.hi); int want = std::max<int>(0, (g.hi[0] - g.lo[0])) * std::max<int>(0, g.hi[1] - g.lo[1]), n = 0; int i = g.lo[0], j = g.lo[1]; auto e = m.region_end(g);
    for (auto it = m.region_begin(g); it != e; ++it, ++n) { REQUIRE(n < want, "region iteration passes the end of [" << g.lo << ", " << g.hi << ")"); REQUIRE(it.point() == (Vec<index_t,2>(i, j)), "region iteration step " << n << " is at " << it.point() << " instead of " << i << "," << j); double got = *it; REQUIRE(got == w.at(i, j), "region iteration at " << i << "," << j << " gives " << got << " instead of " << w.at(i, j)); if (++j == g.hi[1]) j = g.lo[1], i++; }
    REQUIRE(n == want, "region iteration visits " << n << " cells of " << want); if (want) { REQUIRE(e - m.region_begin(g) == want, "distance over a region is " << (e - m.region_begin(g)) << " instead of " << want); int a = c.i(0, want), b = c.i(0, want); auto x = m.region_begin(g) + a, y = m.region_begin(g); for (int k = 0; k < b; k++) ++y; REQUIRE(y - x == b - a && x + (b - a) == y && y - (b - a) == x && (x == y) == (a == b) && (x < y) == (a < b), "jumping inside a region from " << a << " to " << b); }
}
// random walk over an iterator whose positions 0..n map to values val(k)
template<class It, class F> void walk(pbt::Ctx& c, It begin, int n, F val, const char* what) {
    It it = begin; int k = 0, steps = c.i(1, 8); for (int s = 0; s < steps; s++) { int t = c.i(0, n), d = t - k; switch (c.i(0, 5)) { case 0: it += d; k = t; break; case 1: it -= -d; k = t; break; case 2: if (k < n) { ++it; k++; } break; case 3: if (k > 0) { --it; k--; } break; case 4: it = it + d; k = t; break; default: it = begin + t; k = t; }
        LOG(c, what << " at " << k); REQUIRE(it - begin == k && begin - it == -k, what << ": distance from the start is " << (it - begin) << " after moving to " << k); if (k < n) { REQUIRE(*it == val(k), what << ": position " << k << " gives " << *it << " instead of " << val(k)); int q = c.i(0, n - 1); REQUIRE(it[q - k] == val(q), what << ": subscript " << q - k << " from " << k); REQUIRE(*(it + (q - k)) == val(q) && *(it - (k - q)) == val(q), what << ": offset"); It o = begin + q; REQUIRE((o < it) == (q < k) && (o == it) == (q == k) && (o != it) == (q != k) && (o <= it) == (q <= k) && (o > it) == (q > k), what << ": comparison of positions " << q << " and " << k); } }
}
template<class X> void walks(pbt::Ctx& c, const X& m, ref::M& w, bool wholeCols) {
    walk(c, m.begin(), w.r * w.c, [&](int k) { return w.v[k]; }, "body iterator"); int i = c.i(0, w.r - 1), j = c.i(0, w.c - 1); walk(c, m.row(i), w.c, [&](int k) { return w.at(i, k); }, "row iterator"); walk(c, m.col(j), w.r, [&](int k) { return w.at(k, j); }, "column iterator");
    if (wholeCols) walk(c, m.col(0), w.r * w.c, [&](int k) { return w.at(k % w.r, k / w.r); }, "column iterator over the whole matrix");
}
// a history of writes through every route
template<class X> void writes(pbt::Ctx& c, X& m, ref::M& w) {
    int n = c.i(1, 10); for (int s = 0; s < n; s++) { int i = c.i(0, w.r - 1), j = c.i(0, w.c - 1), k = c.i(0, 9); double v = c.si(99); LOG(c, "write route " << k << " at " << i << "," << j << " value " << v); ref::M was = w;
        switch (k) { case 0: m(i, j) = v; w.at(i, j) = v; break; case 1: { double r = m.set(i, j, v); REQUIRE(r == v, "set returns " << r); w.at(i, j) = v; break; } case 2: m[i][j] = v; w.at(i, j) = v; break; case 3: *(m.row(i) + j) = v; w.at(i, j) = v; break; case 4: *(m.col(j) + i) = v; w.at(i, j) = v; break; case 5: *(m.begin() + (i * w.c + j)) = v; w.at(i, j) = v; break;
            case 6: { std::vector<double> src(w.r * w.c); for (auto& x : src) x = c.si(9); std::copy(src.begin(), src.end(), m.begin()); w.v = src; break; } case 7: { MatrixRegion g = region(c, w.r, w.c); double x = v; for (auto it = m.region_begin(g); it != m.region_end(g); ++it) *it = x++; x = v; for (int a = g.lo[0]; a < g.hi[0]; a++) for (int b = g.lo[1]; b < g.hi[1]; b++) w.at(a, b) = x++; break; }
            case 8: { std::vector<double> col(w.r); for (int a = 0; a < w.r; a++) col[a] = v + a, w.at(a, j) = v + a; std::copy(col.begin(), col.end(), m.col(j)); break; } default: if (c.b()) { m.set_identity(); for (int a = 0; a < w.r; a++) for (int b = 0; b < w.c; b++) w.at(a, b) = a == b; } else { m.set_zero(); for (auto& x : w.v) x = 0; } }
        same(m, w, "after a write"); }
}
template<class X> void denseCase(pbt::Ctx& c, X& m, int r, int n, bool fresh) {
    ref::M w(r, n); if (fresh) { for (int i = 0; i < std::min(r, n); i++) w.at(i, i) = 1; same(m, w, "new matrix"); } for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) { w.at(i, j) = c.si(99); m.set(i, j, w.at(i, j)); } reads(m, w); writes(c, m, w); const X& k = m; reads(k, w); regions(c, m, w); regions(c, k, w); walks(c, k, w, true); { X& mm = m; walk(c, mm.begin(), r * n, [&](int q) { return w.v[q]; }, "writeable body iterator"); }
    // transposed view
    auto t = m.as_transpose(); ref::M wt(n, r); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) wt.at(j, i) = w.at(i, j); same(t, wt, "transposed view"); int i = c.i(0, n - 1), j = c.i(0, r - 1); t(i, j) = 1234; w.at(j, i) = 1234; same(m, w, "written through the transposed view"); wt.at(i, j) = 1234; reads(t, wt);
    // the bare array in the stated layout
    const double* p = m.data_begin(); REQUIRE(m.data_end() - p == r * n, "data range"); for (int a = 0; a < r; a++) for (int b = 0; b < n; b++) REQUIRE(p[X::Layout == ROW_MAJOR ? a * n + b : b * r + a] == w.at(a, b), "bare array at " << a << "," << b);
    // a handle onto the matrix
    MatrixWrapper<X> wrap(&m); MatrixHandle<double>& h = wrap; same(h, w, "handle"); int hi = c.i(0, r - 1), hj = c.i(0, n - 1); if (c.b()) { h.set(hi, hj, 77); } else h(hi, hj) = 77; w.at(hi, hj) = 77; same(m, w, "written through a handle"); { int gi = c.i(0, r - 1), gj = c.i(0, n - 1); h(hi, hj) = h(gi, gj); w.at(hi, hj) = w.at(gi, gj); same(m, w, "entry copied through a handle"); auto self = h(gi, gj); self = self; same(m, w, "entry assigned to itself"); } { int q = 0; for (auto it = h.begin(); it != h.end(); ++it, ++q) { double x = *it; REQUIRE(x == w.v[q], "handle iteration"); } REQUIRE(q == r * n, "handle iteration count"); }
    c.nontrivial(r != n && r > 1 && n > 1);
}
#if PART(0)
PROP(dynamic_row_major, 60000) { int r = c.i(1, 8), n = c.i(1, 8); SimpleMatrix<double,0,0> m(r, n); denseCase(c, m, r, n, true); }
PROP(dynamic_col_major, 60000) { int r = c.i(1, 8), n = c.i(1, 8); SimpleMatrix<double,0,0,COL_MAJOR> m(r, n); denseCase(c, m, r, n, true); }
#endif
#if PART(1)
// shapes with a long side, and matrices with more than 2^16 entries
static std::pair<int,int> longShape(pbt::Ctx& c) { int r = (int)c.pick({128, 256, 300}) + (int)c.si(3), n = c.i(1, 4); return c.b() ? std::make_pair(r, n) : std::make_pair(n, r); }
PROP(long_side, 400) { auto [r, n] = longShape(c); if (c.b()) { SimpleMatrix<double,0,0> m(r, n); denseCase(c, m, r, n, true); } else { SimpleMatrix<double,0,0,COL_MAJOR> m(r, n); denseCase(c, m, r, n, true); } }
template<class X> void many(pbt::Ctx& c) {
    int r = c.i(200, 700), n = 66000 / r + (int)c.i(0, 40); X m(r, n); ref::M w(r, n); for (int i = 0; i < r * n; i++) w.v[i] = i * 7 % 65537 + .5; { int k = 0; for (auto it = m.begin(); it != m.end(); ++it) { REQUIRE(k < r * n, "body iteration passes the end"); *it = w.v[k++]; } REQUIRE(k == r * n, "body iteration visits " << k << " of " << r * n); } same(m, w, "large matrix"); LOG(c, r << "x" << n);
    for (int t = 0; t < 20; t++) { int i = c.i(0, r - 1), j = c.i(0, n - 1); REQUIRE(m.row(i)[j] == w.at(i, j) && m.col(j)[i] == w.at(i, j) && m[i][j] == w.at(i, j) && *(m.begin() + (i * n + j)) == w.at(i, j), "entry " << i << "," << j << " of " << r << "x" << n); REQUIRE(*(m.col(0) + (j * r + i)) == w.at(i, j), "column iteration over the whole matrix, step " << j * r + i); REQUIRE(m.data_begin()[X::Layout == ROW_MAJOR ? i * n + j : j * r + i] == w.at(i, j), "bare array"); m(i, j) = -i; w.at(i, j) = -i; }
    { int k = 0, i = c.i(0, r - 1), j = c.i(0, n - 1); for (auto it = m.col(j); k < r; ++it, ++k) REQUIRE(*it == w.at(k, j), "column " << j << " step " << k); k = 0; for (auto it = m.row(i); k < n; ++it, ++k) REQUIRE(*it == w.at(i, k), "row " << i << " step " << k); int q = 0; for (auto it = m.col(0); q < r * n; ++it, ++q) REQUIRE(*it == w.at(q % r, q / r), "column iteration over the whole matrix, step " << q); }
    walks(c, m, w, true); { auto t = m.as_transpose(); int i = c.i(0, n - 1), j = c.i(0, r - 1); REQUIRE(t.rows() == n && t.cols() == r && t(i, j) == w.at(j, i) && t.row(i)[j] == w.at(j, i), "transposed view"); } { MatrixRegion g(Vec<index_t,2>(c.i(0, 2), c.i(0, 2)), Vec<index_t,2>(r - c.i(0, 2), n - c.i(0, 2))); int k = 0, i = g.lo[0], j = g.lo[1], want = (g.hi[0] - g.lo[0]) * (g.hi[1] - g.lo[1]); auto e = m.region_end(g); for (auto it = m.region_begin(g); it != e; ++it, ++k) { REQUIRE(k < want, "region iteration passes the end"); REQUIRE(*it == w.at(i, j), "region iteration at " << i << "," << j); if (++j == g.hi[1]) j = g.lo[1], i++; } REQUIRE(k == want, "region iteration visits " << k << " of " << want); }
    same(m, w, "after writes"); c.nontrivial();
}
PROP(many_entries, 60) { if (c.b()) many<SimpleMatrix<double,0,0>>(c); else many<SimpleMatrix<double,0,0,COL_MAJOR>>(c); }
PROP(static_row_major, 36000) { SimpleMatrix<double,3,5> m; denseCase(c, m, 3, 5, true); SimpleMatrix<double,4,2> k; denseCase(c, k, 4, 2, true); }
PROP(static_col_major, 36000) { SimpleMatrix<double,3,5,COL_MAJOR> m; denseCase(c, m, 3, 5, true); SimpleMatrix<double,4,2,COL_MAJOR> k; denseCase(c, k, 4, 2, true); }
#endif
#if PART(2)
PROP(half_static, 36000) { int n = c.i(1, 7); if (c.b()) { SimpleMatrix<double,3,0> m(3, n); denseCase(c, m, 3, n, true); } else { SimpleMatrix<double,0,4,COL_MAJOR> m(n, 4); denseCase(c, m, n, 4, true); } }
PROP(wrapped, 60000) { std::vector<double> buf(80); for (auto& x : buf) x = c.si(99); std::vector<double> orig = buf; int r = c.i(1, 6), n = c.i(1, 6), o = c.i(0, 40); auto outside = [&] { for (int i = 0; i < 80; i++) if (i < o || i >= o + r * n) REQUIRE(buf[i] == orig[i], "a wrapped view changed memory outside itself"); };
    auto go = [&](auto& m, bool row) { ref::M w(r, n); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) w.at(i, j) = buf[o + (row ? i * n + j : j * r + i)]; same(m, w, "wrapped array"); denseCase(c, m, r, n, false); outside(); };
    switch (c.i(0, 3)) { case 0: { WrapperMatrix<double,0,0> m(buf.data() + o, r, n); go(m, true); break; } case 1: { WrapperMatrix<double,0,0,COL_MAJOR> m(buf.data() + o, r, n); go(m, false); break; } case 2: { n = 4; WrapperMatrix<double,0,4> m(buf.data() + o, r); go(m, true); break; } default: { r = 3; n = 4; WrapperMatrix<double,3,4,COL_MAJOR> m(buf.data() + o); go(m, false); } } }
#endif
#if PART(3)
PROP(construction, 90000) {
    double a[12]; for (auto& x : a) x = c.si(99); ref::M w(3, 4); for (int i = 0; i < 12; i++) w.v[i] = a[i];
    { SimpleMatrix<double,3,4> m({a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]}); same(m, w, "initialiser list"); SimpleMatrix<double,3,4> k(a); same(k, w, "array"); SimpleMatrix<double,0,0> d(a, 3, 4); same(d, w, "array with dimensions"); SimpleMatrix<double,0,4> e(a, 3, 4); same(e, w, "array with dimensions"); SimpleMatrix<double,0,0> f({a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]}, 3, 4); same(f, w, "initialiser list with dimensions"); typedef Vec<double,4> V; SimpleMatrix<double,3,4> g({V(a), V(a + 4), V(a + 8)}); same(g, w, "list of rows"); SimpleMatrix<double,0,4> h({V(a), V(a + 4), V(a + 8)}); same(h, w, "list of rows, dynamic");
      typedef Vec<double,3> U; ref::M wc(3, 4); for (int j = 0; j < 4; j++) for (int i = 0; i < 3; i++) wc.at(i, j) = a[j * 3 + i]; SimpleMatrix<double,3,4,COL_MAJOR> q({U(a), U(a + 3), U(a + 6), U(a + 9)}); same(q, wc, "list of columns"); same(m, w, "source"); }
    { SimpleMatrix<double,0,0,ROW_MAJOR,STORAGE_SHARED> m(3, 4); std::copy(a, a + 12, m.begin()); auto n = m; int i = c.i(0, 2), j = c.i(0, 3); n(i, j) = 555; w.at(i, j) = 555; same(m, w, "shared copy"); SimpleMatrix<double,0,0> u(m), v = u; v(i, j) = 7; same(u, w, "unique copy"); }
    c.nontrivial(); }
PROP(diagonal, 60000) {
    auto go = [&](auto& m, int r, int n) { ref::M w(r, n); for (int i = 0; i < std::min(r, n); i++) w.at(i, i) = 1; same(m, w, "new diagonal matrix"); REQUIRE(m.diagonal_end() - m.diagonal_begin() == std::min(r, n), "diagonal length"); for (int i = 0; i < std::min(r, n); i++) { double v = c.si(99); if (c.b()) m.diagonal(i) = v; else m.diagonal_begin()[i] = v; w.at(i, i) = v; } const auto& k = m; for (int i = 0; i < std::min(r, n); i++) REQUIRE(k.diagonal(i) == w.at(i, i) && k.diagonal_begin()[i] == w.at(i, i), "diagonal entry"); reads(k, w); regions(c, k, w); walks(c, k, w, false); if (c.b()) { m.set_zero(); for (auto& x : w.v) x = 0; } else { m.set_identity(); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) w.at(i, j) = i == j; } same(m, w, "reset diagonal matrix"); c.nontrivial(r > 1 && n > 1); };
    switch (c.i(0, 3)) { case 0: { int r = c.i(1, 7), n = c.i(1, 7); if (c.chance(1, 100)) { r += 255 * c.i(0, 1); n += 255 * c.i(0, 1); if (r > 9 && n > 9) (c.b() ? r : n) = 3 + c.i(0, 2) + 250 * c.i(0, 1); } DiagMatrix<double,0,0> m(r, n); go(m, r, n); break; } case 1: { DiagMatrix<double,3,5> m; go(m, 3, 5); break; } case 2: { DiagMatrix<double,4,2> m; go(m, 4, 2); break; } default: { double a[4]; for (auto& x : a) x = c.si(99); DiagMatrix<double,4,4> m(a); DiagMatrix<double,0,0> d(a, 4); ref::M w(4, 4); for (int i = 0; i < 4; i++) w.at(i, i) = a[i]; same(m, w, "from diagonal entries"); same(d, w, "from diagonal entries"); } } }
PROP(permutation, 60000) { int n = c.chance(1, 2000) ? c.i(250, 262) : c.i(1, 8); PermutationMatrix<0> p(n); std::vector<index_t> q(n); for (int i = 0; i < n; i++) q[i] = i; for (int i = n - 1; i > 0; i--) std::swap(q[i], q[c.i(0, i)]); p.setRowSources(q.data()); ref::M w(n, n); for (int i = 0; i < n; i++) w.at(i, q[i]) = 1; const auto& k = p; reads(k, w); regions(c, k, w); walks(c, k, w, false); PermutationMatrix<4> s; if (n == 4) { s.setRowSources(q.data()); const auto& ks = s; reads(ks, w); regions(c, ks, w); } c.nontrivial(n > 2); }
#endif
