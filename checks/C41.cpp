// C41: grid iteration. Oracle: nested loops over the region.
// thorough: 20
// rule: a region of several cells, with jumps, and either negative coordinates or unequal sides
#include "pbt.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/GridIterator.h>
using namespace geom;
template<class T, index_t N> struct Pt { typedef Vec<T,N> P; static T& at(P& p, int i) { return p[i]; } static std::vector<long> v(const P& p) { std::vector<long> r; for (int i = 0; i < N; i++) r.push_back((long)p[i]); return r; } };
template<class T> struct Pt<T,1> { typedef T P; static T& at(P& p, int) { return p; } static std::vector<long> v(const P& p) { return {(long)p}; } };
static std::string str(const std::vector<long>& v) { std::ostringstream o; for (long x : v) o << x << " "; return o.str(); }

template<class T, index_t N, ArrayOrder O> void check(pbt::Ctx& c) {
    typedef GridIterator<T,N,O> It; typedef Pt<T,N> F; typename F::P lo, hi, hx; long sz[N], vol = 1; bool neg = false, empty = false, eq = true; int kind = c.i(0, 5);
    for (int i = 0; i < N; i++) { long l = c.si(6); sz[i] = kind == 0 && c.chance(1, 3) ? c.i(-2, 0) : kind == 1 ? 1 : c.i(1, N == 1 ? 12 : N == 2 ? 6 : 4); F::at(lo, i) = (T)l; F::at(hi, i) = (T)(l + sz[i] - 1); F::at(hx, i) = (T)(l + sz[i]); if (sz[i] <= 0) empty = true; else vol *= sz[i]; neg |= l < 0; eq &= sz[i] == sz[0]; }
    if (empty) vol = 0;
    LOG(c, "lo " << str(F::v(lo)) << " hi (inclusive) " << str(F::v(hi)));
    std::vector<std::vector<long>> cells; // in the stated order
    for (long n = 0; n < vol; n++) { std::vector<long> p(N); long q = n; for (int k = 0; k < N; k++) { int i = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE ? k : N - 1 - k; p[i] = F::v(lo)[i] + q % sz[i]; q /= sz[i]; } cells.push_back(p); }
    Rect<T,N> rect(lo, hi); It first = c.b() ? It(rect) : It(lo, hx), b = first.begin(), e = first.end(); REQUIRE(first == b, "a new iterator is not at the first cell"); REQUIRE(It::order == O, "order");
    { long n = 0; for (It i = b; i != e; ++i, ++n) { REQUIRE(n < vol, "iteration runs past the region"); REQUIRE(F::v(*i) == cells[n], "cell " << n << " is " << str(F::v(*i)) << " instead of " << str(cells[n])); REQUIRE(i - b == n && e - i == vol - n && b - i == -n, "distance to cell " << n << ": " << (i - b) << ", " << (e - i)); } REQUIRE(n == vol, "iteration stopped after " << n << " of " << vol << " cells"); }
    REQUIRE(e - b == vol, "distance from begin to end " << (e - b)); if (empty) return;
    { It i = e; for (long n = vol - 1; n >= 0; n--) { --i; REQUIRE(F::v(*i) == cells[n], "backwards, cell " << n << " is " << str(F::v(*i)) << " instead of " << str(cells[n])); } REQUIRE(i == b, "stepping back from the end does not reach the beginning"); }
    It i = b; long at = 0; bool jumped = false;
    for (int s = c.i(1, 12); s > 0; s--) {
        long to = c.i(0, (int)vol); It old = i; int op = c.i(0, 6);
        if (op == 0) { if (at < vol) { It r = i++; REQUIRE(r == old, "postfix increment"); at++; } } else if (op == 1) { if (at > 0) { It r = i--; REQUIRE(r == old, "postfix decrement"); at--; } }
        else if (op == 2) { i += to - at; at = to; jumped = true; } else if (op == 3) { i -= at - to; at = to; jumped = true; } else if (op == 4) { i = i + (to - at); at = to; jumped = true; } else if (op == 5) { i = i - (at - to); at = to; jumped = true; }
        else { if (to < vol) { auto v = F::v(i[to - at]); REQUIRE(v == cells[to], "subscript " << to - at << " from cell " << at << " is " << str(v)); } }
        LOG(c, "op " << op << " now at " << at);
        if (at < vol) REQUIRE(F::v(*i) == cells[at], "at cell " << at << " after op " << op << ": " << str(F::v(*i)) << " instead of " << str(cells[at])); else REQUIRE(i == e, "jump to the end");
        REQUIRE(i - b == at && i - old == -(old - i), "distance after a jump"); if (i != old) { REQUIRE((i < old) == (i - old < 0) && (i > old) == (i - old > 0) && (i <= old) == (i - old < 0), "ordering of iterators"); }
        if constexpr (N > 1) if (at < vol) { typename F::P p = *i; It j(rect, p); REQUIRE(j == i && j - b == at, "iterator constructed at a point"); It k = i.begin(), l = i.end(); REQUIRE(k == b && l == e, "begin and end from an iterator in the middle"); }
    }
    c.nontrivial(vol > 1 && jumped && (neg || !eq)); c.label("negative corner", neg); c.label("single cell", vol == 1);
}
PROP(d1_first, 90000) { check<int, 1, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
PROP(d1_last, 90000)  { check<index_t, 1, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
PROP(d2_first, 90000) { check<index_t, 2, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
PROP(d2_last, 90000)  { check<int, 2, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
PROP(d3_first, 80000) { check<int, 3, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
PROP(d3_last, 80000)  { check<index_t, 3, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
PROP(d4_first, 100000) { check<int, 4, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
PROP(d5_last, 40000)  { check<int, 5, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
// regions of far more cells than the coordinate type can count
template<class T, index_t N, ArrayOrder O> void far(pbt::Ctx& c) {
    typedef GridIterator<T,N,O> It; typedef Pt<T,N> F; typename F::P lo, hi; long sz[N]; long vol = 1; bool neg = false; const long top = N == 1 ? 1000000000L : N == 2 ? 1000000000L : N == 3 ? 1900000L : N == 4 ? 40000L : 4000L;
    for (int i = 0; i < N; i++) { sz[i] = c.chance(1, 3) ? c.i(1, 9) : (long)c.logpos(1, (double)top); if (sz[i] < 1) sz[i] = 1; long l = c.chance(1, 4) ? 0 : c.chance(1, 2) ? -sz[i] / 2 : -(long)c.draw(1000000); F::at(lo, i) = (T)l; F::at(hi, i) = (T)(l + sz[i] - 1); vol *= sz[i]; neg |= l < 0; }
    LOG(c, "lo " << str(F::v(lo)) << " hi (inclusive) " << str(F::v(hi)) << " volume " << vol);
    auto cell = [&](long n) { std::vector<long> p(N); for (int k = 0; k < N; k++) { int i = O == ARRAYORDER_FIRST_DIM_CONSECUTIVE ? k : N - 1 - k; p[i] = F::v(lo)[i] + n % sz[i]; n /= sz[i]; } return p; };
    auto pick = [&]() -> long { switch (c.i(0, 3)) { case 0: return (long)c.draw(std::min(vol - 1, 9L)); case 1: return vol - 1 - (long)c.draw(std::min(vol - 1, 9L)); case 2: { long q = sz[O == ARRAYORDER_FIRST_DIM_CONSECUTIVE ? 0 : N - 1]; long r = (long)c.draw((uint64_t)(vol / q - 1)) * q + (c.b() ? 0 : q - 1); return std::min(r, vol - 1); } default: return (long)c.draw((uint64_t)vol - 1); } };
    Rect<T,N> rect(lo, hi); It b = It(rect).begin(), e = It(rect).end(); REQUIRE(e - b == vol && b - e == -vol, "distance from begin to end " << (e - b) << " of " << vol);
    It i = b; long at = 0;
    for (int s = c.i(1, 8); s > 0; s--) {
        long to = pick(); It old = i; int op = c.i(0, 5); long was = at;
        if (op == 0) { i += to - at; at = to; } else if (op == 1) { i -= at - to; at = to; } else if (op == 2) { i = i + (to - at); at = to; } else if (op == 3) { i = i - (at - to); at = to; } else if (op == 4 && at + 1 < vol) { ++i; at++; } else if (op == 5 && at > 0) { --i; at--; }
        REQUIRE(F::v(*i) == cell(at), "from cell " << was << " to cell " << at << " of " << vol << ": " << str(F::v(*i)) << " instead of " << str(cell(at)));
        REQUIRE(i - old == at - was && old - i == was - at, "distance between cells " << was << " and " << at << " is " << (i - old)); REQUIRE(i - b == at && e - i == vol - at, "distance of cell " << at << " from the ends: " << (i - b) << ", " << (e - i));
        REQUIRE((i == old) == (at == was) && (i < old) == (at < was) && (i > old) == (at > was), "ordering of cells " << was << " and " << at); long q = pick(); auto v = F::v(i[q - at]); REQUIRE(v == cell(q), "subscript " << q - at << " from cell " << at << " is " << str(v));
    }
    c.nontrivial(vol > (1L << 31)); c.label("more than 2^31 cells", vol > (1L << 31)); c.label("negative corner", neg);
}
PROP(far1, 60000) { far<index_t, 1, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
PROP(far2_first, 80000) { far<int, 2, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
PROP(far2_last, 80000) { far<int, 2, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
PROP(far3, 80000) { far<int, 3, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
PROP(far4, 80000) { far<index_t, 4, ARRAYORDER_LAST_DIM_CONSECUTIVE>(c); }
PROP(far5, 80000) { far<int, 5, ARRAYORDER_FIRST_DIM_CONSECUTIVE>(c); }
