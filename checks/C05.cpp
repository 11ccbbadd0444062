// C05: Tree queries.
// thorough: 20
// rule: at least two results, and some node or item of the tree is excluded by the tests
#include "pbt.h"
#include "treemodel.h"
using namespace geom;

struct Key { int a, b; };
static uint64_t mixh(uint64_t x) { x ^= x >> 31; x *= 0x7fb5d329728ea185ull; x ^= x >> 27; x *= 0x81dadef4bc2dd44dull; return x ^ (x >> 33); }

static void build(pbt::Ctx& c, TreePair& T, int nodes) {
    int n = c.i(0, nodes), shape = c.i(0, 2);
    MNode* last = T.m.get();
    for (int i = 1; i <= n; i++) {
        MNode* m = shape == 1 && c.b() ? last : shape == 2 && last->parent && c.b() ? last->parent : pick_node(c, T.m.get());
        Sub s = locate(*T.t, m); size_t pos = c.i(0, m->kids.size());
        Sub b = s.begin(); for (size_t k = 0; k < pos; k++) ++b;
        s.insert_child_node(b, i);
        auto nn = std::make_unique<MNode>(); nn->data = i; nn->parent = m; last = nn.get();
        m->kids.insert(m->kids.begin() + pos, std::move(nn));
    }
}
static void put_items(pbt::Ctx& c, TreePair& T) {
    std::vector<const MNode*> all{T.m.get()}; T.m->order(all);
    for (auto q : all) if (q->kids.empty()) { MNode* m = const_cast<MNode*>(q); int k = c.i(0, 3); Sub s = locate(*T.t, m); for (int i = 0; i < k; i++) { int v = c.i(0, 9); s.insert_item(v); m->items.push_back(v); } }
}
static void expect(const MNode* m, const std::function<bool(int)>& bound, const std::function<bool(int)>& test, std::vector<int>& out) {
    if (test(m->data)) out.push_back(m->data);
    if (!m->kids.empty() && bound(m->data)) for (auto& k : m->kids) expect(k.get(), bound, test, out);
}
PROP(query_nodes, 900000) {
    TreePair T; build(c, T, 16);
    std::set<int> bset, tset; int bd = c.i(0, 3), td = c.i(0, 3);
    for (int i = 0; i <= T.m->nodes(); i++) { if (c.i(0, 3) >= bd) bset.insert(i); if (c.i(0, 3) >= td) tset.insert(i); }
    auto bound = [&](const Sub& s, const int& key) { REQUIRE(key == 42, "key not passed to the bounding test"); return (bool)bset.count(*s); };
    auto test  = [&](const Sub& s, const int& key) { REQUIRE(key == 42, "key not passed to the node test"); return (bool)tset.count(*s); };
    MNode* m = pick_node(c, T.m.get()); Sub s = locate(*T.t, m);
    std::vector<int> want, got;
    expect(m, [&](int x) { return bset.count(x); }, [&](int x) { return tset.count(x); }, want);
    LOG(c, "tree of " << T.m->nodes() << " nodes, query under " << path_of(m) << " expecting " << want.size() << " nodes");
    int guard = 0;
    auto q = s.query(42, bound, test);
    for (; q != s.end(); ++q) { got.push_back(**q); REQUIRE(++guard < 1000, "query does not end"); }
    REQUIRE(q == s.end(), "query end comparison");
    auto w = s.query(42, bound, test), w2 = w; for (size_t i = 0; i < want.size(); i++) { REQUIRE(w == w2 && !(w != w2) && w != q && *w->operator->() == want[i] && (*w == s.end() || (w == *w && !(w != *w))), "result " << i << " of a copied query"); auto o = w++; REQUIRE(o == w2 && *(*o) == want[i] && o != w, "stepping a query"); ++w2; } REQUIRE(w == q && w2 == q, "queries over the same subtree end differently");
    if (!m->kids.empty()) { size_t at = c.i(0, m->kids.size() - 1); Sub from = s.begin(); for (size_t k = 0; k < at; k++) ++from; std::vector<int> rest; for (size_t k = at; k < m->kids.size(); k++) expect(m->kids[k].get(), [&](int x) { return bset.count(x); }, [&](int x) { return tset.count(x); }, rest); w = from; std::vector<int> seen; for (guard = 0; w != s.end(); ++w) { seen.push_back(**w); REQUIRE(++guard < 1000, "query does not end"); } REQUIRE(seen == rest, "query moved to child " << at << " of " << path_of(m) << " visited " << seen.size() << " nodes, expected " << rest.size()); w = s.end(); REQUIRE(w == s.end() && w == q, "query moved to the end"); }
    if (got != want) { std::ostringstream o; o << "query under " << path_of(m) << " visited"; for (int x : got) o << ' ' << x; o << ", expected"; for (int x : want) o << ' ' << x; FAILMSG(o.str()); }
    c.nontrivial(want.size() >= 2 && m->nodes() > (int)want.size()); c.label("some nodes rejected", m->nodes() > (int)want.size()); c.label("below the root", m->parent != nullptr);
}
// the way items are found: leaves whose enclosing nodes all admit the key
PROP(query_items, 500000) {
    TreePair T; build(c, T, 12); put_items(c, T);
    std::set<int> bset; for (int i = 0; i <= T.m->nodes(); i++) if (c.i(0, 3)) bset.insert(i);
    int key = c.i(0, 9);
    std::vector<int> want, got;
    std::function<void(const MNode*)> walk = [&](const MNode* m) { if (m->kids.empty()) { for (int i : m->items) if (i <= key) want.push_back(i); } else if (bset.count(m->data)) for (auto& k : m->kids) walk(k.get()); };
    walk(T.m.get());
    Sub s = T.t->root(); int guard = 0;
    auto bound = [&](const Sub& x, const int&) { return (bool)bset.count(*x); };
    auto q = s.query(key, bound, Sub::visit_all_leaf_nodes<int>);
    for (; q != s.end(); ++q) { for (auto i = q->items_begin(); i != q->items_end(); ++i) if (*i <= key) got.push_back(*i); REQUIRE(++guard < 1000, "query does not end"); }
    REQUIRE(got == want, "item query found " << got.size() << " items, expected " << want.size());
    // visiting everything visits every node once
    std::vector<int> all, seen; std::vector<const MNode*> ord{T.m.get()}; T.m->order(ord); for (auto x : ord) all.push_back(x->data);
    auto yes = [](const Sub&, const int&) { return true; };
    auto r = s.query(key, yes, Sub::visit_all_nodes<int>); guard = 0;
    for (; r != s.end(); ++r) { seen.push_back(**r); REQUIRE(++guard < 1000, "query does not end"); }
    std::sort(all.begin(), all.end()); std::sort(seen.begin(), seen.end());
    REQUIRE(all == seen, "unfiltered query visited " << seen.size() << " of " << all.size() << " nodes");
    c.nontrivial(want.size() >= 2 && T.m->nodes() >= 4);
}
// many nodes: wide and deep trees, tests that admit most, few or some
PROP(big_queries, 1500) {
    TreePair T; uint64_t seed = c.draw(~0ull >> 1); auto u = [&](uint64_t n) { return pbt::splitmix(seed) % n; }; int kind = c.i(0, 2); size_t n = kind == 1 ? (size_t)c.i(30, 400) : (size_t)c.big(5, 11); MNode* m = T.m.get(); Sub s = T.t->root(); MNode* top = m; Sub tops = s;
    for (size_t i = 1; i <= n; i++) { Sub r = s.insert_child_node((int)i); auto q = std::make_unique<MNode>(); q->data = (int)i; q->parent = m; MNode* p = q.get(); m->kids.push_back(std::move(q)); if (kind == 1 ? u(6) != 0 : u(200) == 0) { m = p; s = r; } else if (kind == 2 && u(20) == 0) { m = top; s = tops; } }
    int bd = c.i(0, 3), td = c.i(0, 3); uint64_t k1 = u(~0ull), k2 = u(~0ull); auto in = [](uint64_t k, int d, int x) { return d == 0 ? true : d == 1 ? mixh(k ^ x) % 200 != 0 : d == 2 ? mixh(k ^ x) % 8 != 0 : mixh(k ^ x) % 2 == 0; };
    std::vector<int> want, got; expect(T.m.get(), [&](int x) { return in(k1, bd, x); }, [&](int x) { return in(k2, td, x); }, want); LOG(c, "tree of " << n + 1 << " nodes, expecting " << want.size());
    auto bound = [&](const Sub& x, const int&) { return in(k1, bd, *x); }; auto test = [&](const Sub& x, const int&) { return in(k2, td, *x); }; Sub root = T.t->root(); auto q = root.query(42, bound, test); for (; q != root.end(); ++q) { got.push_back(**q); REQUIRE(got.size() <= n + 1, "query does not end"); }
    for (size_t i = 0; i < std::min(want.size(), got.size()); i++) REQUIRE(want[i] == got[i], "result " << i << " is " << got[i] << ", expected " << want[i]); REQUIRE(got.size() == want.size(), "query visited " << got.size() << " nodes, expected " << want.size()); c.nontrivial(n > 100 && want.size() > 2); c.label("more than 256 results", want.size() > 256);
}
