// C42: the sparse bucket grid against a list of (point, id) pairs.
// thorough: 20
// rule: a history of more than eight insertions, erasures and queries
#include "pbt.h"
#include <geomc/linalg/Matrix.h>
#include <geomc/shape/BinLatticePartition.h>
#include <map>
#include <algorithm>
using namespace geom;
template<class T, index_t N> struct Grid {
    typedef Vec<T, N> P; typedef BinLatticePartition<T, N, int> G; struct Item { P p; int id; };
    pbt::Ctx& c; T cell; G g; std::vector<Item> m; int next = 0; bool lat; P home;
    Grid(pbt::Ctx& c, T cell) : c(c), cell(cell), g(cell), lat(c.b()) { if (c.chance(1, 4)) for (int i = 0; i < N; i++) home[i] = c.si(1000); }
    P point() { P p = home; for (int i = 0; i < N; i++) p[i] += lat ? (T)c.si(6) * cell / 2 : (T)c.range(-4, 4); if (!m.empty() && c.chance(1, 5)) p = m[c.i(0, (int)m.size() - 1)].p; return p; }
    long bin(T x) const { return (long)std::floor(x / cell); }
    static std::string str(const P& p) { std::ostringstream o; o << std::setprecision(17) << p; return o.str(); }
    int find(const P& p, int id) { for (size_t k = 0; k < m.size(); k++) if (m[k].id == id && m[k].p == p) return (int)k; return -1; }
    // a visited collection of items: every one stored, no one twice; returns which of the model's were seen
    template<class It> std::vector<bool> visit(It i, It e, const char* what) { std::vector<bool> seen(m.size()); for (size_t n = 0; !(i == e); ++i, ++n) { REQUIRE(n <= m.size(), what << " visits more items than there are"); int k = find(i->first, i->second); REQUIRE(k >= 0, what << " visits " << str(i->first) << ": " << i->second << ", which is not stored"); REQUIRE(!seen[k], what << " visits item " << i->second << " twice"); seen[k] = true; } return seen; }
    void check() { REQUIRE(g.size() == m.size(), "size " << g.size() << " instead of " << m.size()); auto seen = visit(g.begin(), g.end(), "iteration"); for (size_t k = 0; k < m.size(); k++) REQUIRE(seen[k], "iteration misses item " << m[k].id); }
    void region(typename G::region_iterator q, const P& lo, const P& hi, const std::string& what) {
        LOG(c, what); auto seen = visit(q, q.end(), "query"); int n = 0; for (size_t k = 0; k < m.size(); k++) { bool in = true, touch = true; for (int i = 0; i < N; i++) { in = in && m[k].p[i] >= lo[i] && m[k].p[i] <= hi[i]; touch = touch && bin(m[k].p[i]) >= bin(lo[i]) && bin(m[k].p[i]) <= bin(hi[i]); } n += in; if (in) REQUIRE(seen[k], what << ": misses " << str(m[k].p) << ": " << m[k].id); if (!touch) REQUIRE(!seen[k], what << ": visits " << str(m[k].p) << ": " << m[k].id << ", in a bin outside the region"); }
        c.label("query finds several", n > 1); auto again = visit(q.begin(), q.end(), "query started again"); REQUIRE(again == seen, what << ": visits other items when started again"); for (auto i = q; i != q.end(); ++i) { auto b = i.current_bin(); REQUIRE(b == g.binOf(i->first), "current bin " << b << " of item " << i->second << " at " << str(i->first)); }
        // items of one bin come together
        std::vector<typename G::bin_t> order; for (auto i = q; i != q.end(); i++) { auto b = i.current_bin(); if (order.empty() || !(order.back() == b)) { REQUIRE(std::find(order.begin(), order.end(), b) == order.end(), "bin " << b << " is visited twice"); order.push_back(b); } }
    }
    void run() {
        LOG(c, "cells of " << cell); int steps = c.i(1, 40); c.nontrivial(steps > 8);
        for (int s = 0; s < steps; s++) switch (c.i(0, 13)) {
            default: { P p = point(); int id = c.chance(1, 6) && next ? c.i(0, next - 1) : next++; if (find(p, id) >= 0) id = next++; LOG(c, "insert " << str(p) << ": " << id); g.insert(p, id); m.push_back({p, id}); auto b = g.binOf(p); for (int i = 0; i < N; i++) REQUIRE(b[i] == bin(p[i]), "point " << str(p) << " is in bin " << b); break; }
            case 6: case 7: case 8: { P p = point(); T r = lat ? (T)c.i(0, 6) * cell / 2 : (T)c.range(0, 3); if (!m.empty() && c.chance(1, 3)) { /* an item exactly on the rim */ P q = m[c.i(0, (int)m.size() - 1)].p; r = std::abs(p[0] - q[0]); if (!(r < 8 * cell && r < 8)) r = cell; } std::ostringstream o; o << "query around " << str(p) << " radius " << r; P lo = p, hi = p; for (int i = 0; i < N; i++) { lo[i] = p[i] - r; hi[i] = p[i] + r; } region(g.query(p, r), lo, hi, o.str()); break; }
            case 9: { P a = point(), b = point(); P lo = std::min(a, b), hi = std::max(a, b); R(lo, hi); break; }
            case 10: if (!m.empty()) { int k = c.i(0, (int)m.size() - 1); auto i = g.begin(); for (int t = 0; t < k; t++) ++i; int id = i->second, w = find(i->first, id); LOG(c, "erase " << id); REQUIRE(w >= 0, "unknown item " << id); if (c.chance(1, 3)) g.erase(i.base()); else g.erase(i); m.erase(m.begin() + w); } break;
            case 11: if (!m.empty()) { P p = m[c.i(0, (int)m.size() - 1)].p; auto q = g.query(p, cell / 4); REQUIRE(q != q.end(), "querying at a stored item finds nothing"); int id = q->second, w = find(q->first, id); LOG(c, "erase found " << id); REQUIRE(w >= 0, "unknown item " << id); g.erase((typename G::iterator)q); m.erase(m.begin() + w); } break;
            case 12: if (!m.empty()) { P p = m[c.i(0, (int)m.size() - 1)].p; auto q = g.query(p, cell / 4); REQUIRE(q != q.end(), "querying at a stored item finds nothing"); int w = find(q->first, q->second); REQUIRE(w >= 0, "unknown item " << q->second); q->second = m[w].id = next++; LOG(c, "item renamed to " << m[w].id); } break;
            case 13: if (c.chance(1, 5)) { g.clear(); m.clear(); LOG(c, "clear"); } else { int n = 0; for (auto i = g.binsBegin(); i != g.binsEnd(); ++i, ++n) { REQUIRE(i->first == g.binOf(i->second.first), "item " << i->second.second << " is stored under bin " << i->first); REQUIRE(find(i->second.first, i->second.second) >= 0, "unknown item"); } REQUIRE(n == (int)m.size(), "iteration over bins visits " << n << " items of " << m.size()); } break;
        }
        check();
    }
    void R(const P& lo, const P& hi) { std::ostringstream o; o << "query of the box " << str(lo) << " to " << str(hi); region(g.query(Rect<T, N>(lo, hi)), lo, hi, o.str()); check(); }
};
template<class T, index_t N> static void grid(pbt::Ctx& c) { T cell = c.chance(1, 2) ? (T)c.pick({.5, 1., 2., .25}) : (T)c.pick({.3, .7, 1.1, 3.}); Grid<T, N>(c, cell).run(); }
PROP(bucket_grid_2d, 12000) { grid<double, 2>(c); }
PROP(bucket_grid_3d, 6000) { grid<double, 3>(c); }
PROP(bucket_grid_2d_float, 8000) { grid<float, 2>(c); }
PROP(default_cells, 3000) { BinLatticePartition<double, 2, int> g; c.nontrivial(true); Vec<double, 2> p(c.range(-9, 9), c.range(-9, 9)); auto b = g.binOf(p); REQUIRE(b[0] == (index_t)std::floor(p[0]) && b[1] == (index_t)std::floor(p[1]), "point " << p << " is in bin " << b); REQUIRE(g.size() == 0 && g.begin() == g.end(), "a new grid is not empty"); auto q = g.query(p, 1); REQUIRE(q == q.end(), "a new grid has contents"); }
// many items, crowded into a few cells or spread over many
template<class T, index_t N> static void many(pbt::Ctx& c) {
    typedef Vec<T, N> P; typedef BinLatticePartition<T, N, int> G; T cell = (T)c.pick({.5, 1., 2.}); G g(cell); size_t n = c.big(6, 17); uint64_t seed = c.draw(~0ull >> 1); auto u = [&]() { return (pbt::splitmix(seed) >> 11) * 0x1p-53; }; double r = c.pick({.6, 3., 40.}); LOG(c, n << " items within " << r << ", cells of " << cell);
    std::vector<P> m(n); for (size_t k = 0; k < n; k++) { for (int i = 0; i < N; i++) m[k][i] = (T)(r * (2 * u() - 1)); g.insert(m[k], (int)k); } std::vector<bool> gone(n); size_t left = n;
    auto all = [&]() { REQUIRE(g.size() == left, "size " << g.size() << " instead of " << left); std::vector<bool> seen(n); size_t q = 0; for (auto i = g.begin(); i != g.end(); ++i, ++q) { int k = i->second; REQUIRE(k >= 0 && k < (int)n && i->first == m[k] && !seen[k] && !gone[k], "iteration visits item " << k << " which is not stored, or again"); seen[k] = true; } REQUIRE(q == left, "iteration visits " << q << " items of " << left); };
    auto bin = [&](T x) { return (long)std::floor(x / cell); };
    all(); for (int s = c.i(1, 4); s > 0; s--) { P a, b; for (int i = 0; i < N; i++) { a[i] = (T)(r * (2 * u() - 1)); b[i] = (T)(r * (2 * u() - 1)); if (a[i] > b[i]) std::swap(a[i], b[i]); } std::vector<bool> seen(n); for (auto q = g.query(Rect<T, N>(a, b)); q != q.end(); ++q) { int k = q->second; REQUIRE(k >= 0 && k < (int)n && q->first == m[k] && !gone[k] && !seen[k], "query visits item " << k << " which is not stored, or again"); seen[k] = true; } size_t found = 0;
        for (size_t k = 0; k < n; k++) if (!gone[k]) { bool in = true, touch = true; for (int i = 0; i < N; i++) { in = in && m[k][i] >= a[i] && m[k][i] <= b[i]; touch = touch && bin(m[k][i]) >= bin(a[i]) && bin(m[k][i]) <= bin(b[i]); } found += in; REQUIRE(!in || seen[k], "query misses item " << k << " of " << n); REQUIRE(touch || !seen[k], "query visits item " << k << " of a bin it does not touch"); } c.label("more than 256 found", found > 256);
        if (c.b()) { size_t cut = c.i(1, 40); auto i = g.begin(); while (cut-- && left) { int k = i->second; gone[k] = true; left--; g.erase(i); i = g.begin(); } } all(); }
    c.nontrivial(n > 256); c.label("more than 65536", n > 65536);
}
PROP(many_items_2d, 300) { many<double, 2>(c); }
PROP(many_items_3d_float, 200) { many<float, 3>(c); }
