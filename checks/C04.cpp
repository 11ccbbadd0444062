// C04: Tree == model tree under every edit history.
// thorough: 20
// rule: at least one edit touched a node that is neither the root nor a leaf, in a history of at least five edits
#include "pbt.h"
#include "treemodel.h"
#include "bigmat.h"
using namespace geom;

static int cmp(int a, int b) { return a < b ? -1 : a > b; }
static std::set<int> g_allowed;   // nodes which the bounding test admits
bool may_contain(const int& node, const int&) { return g_allowed.count(node); }

static bool g_adv = true;
static void history(pbt::Ctx& c, int maxops, int maxnodes, bool copies) {
    TreePair T[2]; int next = 1, nextitem = 100;
    bool internal_edit = false, split_seen = false;
    int n = c.i(1, maxops);
    for (int s = 0; s < n; s++) {
        int k = copies ? c.i(0, 3) == 3 : 0; Tr& t = *T[k].t; MNode* root = T[k].m.get();
        MNode* m = pick_node(c, root); Sub sub = locate(t, m); std::string P = path_of(m);
        switch (c.i(0, 22)) {
            case 0: case 1: case 2: case 3: case 4: {
                if ((int)root->nodes() >= maxnodes) break;
                size_t pos = c.i(0, m->kids.size()); Sub before = sub.begin(); for (size_t i = 0; i < pos; i++) ++before;
                int v = next++; bool conv = pos == m->kids.size() && c.b();
                LOG(c, "#" << k << " insert child " << v << " under " << P << " at " << pos);
                Sub r = conv ? sub.insert_child_node(v) : sub.insert_child_node(before, v);
                auto nn = std::make_unique<MNode>(); nn->data = v; nn->parent = m;
                if (m->kids.empty()) nn->items.swap(m->items);
                m->kids.insert(m->kids.begin() + pos, std::move(nn));
                REQUIRE(*r == v && r.parent() == locate(t, m), "insert_child_node returned another node");
                break; }
            case 5: case 6: case 7: case 8: case 9: {
                int v = nextitem + (int)c.i(0, 20); nextitem++;
                if (!m->kids.empty()) {
                    LOG(c, "#" << k << " insert item under internal " << P << " (no effect)");
                    auto r = sub.insert_item(v); REQUIRE(r == sub.items_end(), "inserting an item under an internal node did not return items_end()"); break; }
                size_t pos = c.i(0, m->items.size()); auto it = sub.items_begin(); for (size_t i = 0; i < pos; i++) ++it;
                LOG(c, "#" << k << " insert item " << v << " in " << P << " at " << pos);
                auto r = pos == m->items.size() && c.b() ? sub.insert_item(v) : sub.insert_item(it, v);
                m->items.insert(m->items.begin() + pos, v); REQUIRE(*r == v, "insert_item returned another item");
                if (m->parent && m->parent->parent) internal_edit = true;
                break; }
            case 10: if (!m->kids.empty()) { size_t pos = c.i(0, m->kids.size() - 1); Sub ch = sub.begin(); for (size_t i = 0; i < pos; i++) ++ch;
                LOG(c, "#" << k << " erase child " << pos << " of " << P);
                bool ok = false; bool adv = pos + 1 < m->kids.size(); int nextdata = adv ? m->kids[pos + 1]->data : 0;
                Sub r = sub.erase(ch, &ok); m->kids.erase(m->kids.begin() + pos); REQUIRE(ok, "erase of a child reported failure");
                if (adv) REQUIRE(*r == nextdata, "erase did not return the following sibling");
                internal_edit = true; } break;
            case 11: { MNode* o = pick_node(c, root); if (o->parent == m || o->parent == nullptr) break; bool ok = true; LOG(c, "#" << k << " erase non-child (no effect)"); sub.erase(locate(t, o), &ok); REQUIRE(!ok, "erasing a node that is not a child reported success"); break; }
            case 12: if (c.chance(1, 3)) { LOG(c, "#" << k << " clear " << P); sub.clear(); m->kids.clear(); m->items.clear(); internal_edit = true; } break;
            case 13: if (c.chance(1, 2)) { LOG(c, "#" << k << " flatten " << P); sub.flatten(); std::vector<int> it; m->collect(it); m->kids.clear(); m->items = it; internal_edit = true; } break;
            case 14: case 15: {
                int piv = nextitem - (int)c.i(0, 25), v = next++;
                LOG(c, "#" << k << " split " << P << " at " << piv);
                bool can = m->parent && m->kids.empty() && m->items.size() >= 2;
                Sub r = sub.split(cmp, piv, v);
                if (!can) { REQUIRE(r == sub.end(), "split of an unsplittable node returned a node"); break; }
                REQUIRE(*r == v, "split returned another node"); split_seen = true;
                auto lo = std::make_unique<MNode>(); lo->data = v; lo->parent = m->parent;
                std::vector<int> hi;
                for (int x : m->items) (x < piv ? lo->items : hi).push_back(x);
                // the documentation fixes which items go where; sorted input stays sorted, otherwise the order is free
                auto adopt = [&](Sub q, std::vector<int>& want, const char* w) {
                    std::vector<int> got(q.items_begin(), q.items_end()), a = got, b = want;
                    bool sorted = std::is_sorted(m->items.begin(), m->items.end());
                    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
                    REQUIRE(a == b, "split put the wrong items in the " << w << " node");
                    (void)sorted; want = got; };
                REQUIRE(r.item_count() == (index_t)lo->items.size(), "split: low node has " << r.item_count() << " items, expected " << lo->items.size());
                adopt(r, lo->items, "low"); adopt(sub, hi, "high");
                m->items = hi; int ix = m->index(); m->parent->kids.insert(m->parent->kids.begin() + ix, std::move(lo));
                break; }
            case 16: { // find_parent from a random ancestor scope
                std::vector<int> items; root->collect(items); if (items.empty()) break;
                int w = c.i(0, items.size() - 1); auto it = t.root().items_begin(); for (int i = 0; i < w; i++) ++it;
                // the leaf holding item number w
                std::vector<const MNode*> leaves; std::vector<const MNode*> st{root};
                const MNode* owner = nullptr; int seen = 0;
                std::function<void(const MNode*)> walk = [&](const MNode* q) { if (owner) return; if (q->kids.empty()) { if (w < seen + (int)q->items.size()) { owner = q; return; } seen += q->items.size(); } for (auto& x : q->kids) walk(x.get()); };
                walk(root);
                bool inside = false; for (const MNode* q = owner; q; q = q->parent) inside |= q == m;
                LOG(c, "#" << k << " find_parent of item " << w << " under " << P);
                g_allowed.clear(); for (const MNode* q = owner; q; q = q->parent) g_allowed.insert(q->data);
                { std::vector<const MNode*> all{root}; root->order(all); for (auto q : all) if (c.b()) g_allowed.insert(q->data); }
                Sub r = sub.find_parent(it);
                if (inside) { REQUIRE(r == locate(t, owner), "find_parent found another node"); Sub r2 = sub.find_parent<may_contain>(it); REQUIRE(r2 == locate(t, owner), "bounded find_parent found another node"); }
                else { REQUIRE(r == sub.end(), "find_parent found an item outside the subtree"); Sub r2 = sub.find_parent<may_contain>(it); REQUIRE(r2 == sub.end(), "bounded find_parent found an item outside the subtree"); }
                break; }
            case 17: *sub = m->data = next++; LOG(c, "#" << k << " data of " << P << " = " << m->data); break;
            case 20: { // a run of children
                size_t len = c.i(0, 3); if ((int)(root->nodes() + len) > maxnodes) break;
                size_t pos = c.i(0, m->kids.size()); Sub before = sub.begin(); for (size_t i = 0; i < pos; i++) ++before; std::vector<int> v; for (size_t i = 0; i < len; i++) v.push_back(next++);
                bool conv = pos == m->kids.size() && c.b(), fwd = c.b(); std::list<int> w(v.begin(), v.end()); LOG(c, "#" << k << " insert " << len << " children under " << P << " at " << pos);
                Sub r = fwd ? (conv ? sub.insert_child_nodes(w.begin(), w.end()) : sub.insert_child_nodes(before, w.begin(), w.end())) : conv ? sub.insert_child_nodes(v.begin(), v.end()) : sub.insert_child_nodes(before, v.begin(), v.end());
                if (!len) { REQUIRE(r == sub.end(), "inserting no children did not return end()"); break; }
                std::vector<int> its; if (m->kids.empty()) its.swap(m->items);
                for (size_t i = 0; i < len; i++) { auto nn = std::make_unique<MNode>(); nn->data = v[i]; nn->parent = m; if (i == 0) nn->items.swap(its); m->kids.insert(m->kids.begin() + pos + i, std::move(nn)); }
                REQUIRE(*r == v[0] && r.parent() == locate(t, m), "insert_child_nodes did not return the first new node"); break; }
            case 21: { // a run of items
                size_t len = c.i(0, 4); std::vector<int> v; for (size_t i = 0; i < len; i++) v.push_back(nextitem++ + (int)c.i(0, 20)); index_t count = -1;
                size_t pos = c.i(0, m->kids.empty() ? m->items.size() : 0); auto it = sub.items_begin(); for (size_t i = 0; i < pos; i++) ++it; bool conv = m->kids.empty() && pos == m->items.size() && c.b();
                LOG(c, "#" << k << " insert " << len << " items in " << P << " at " << pos); auto r = conv ? sub.insert_items(v.begin(), v.end()) : sub.insert_items(it, v.begin(), v.end(), &count);
                if (!m->kids.empty() || !len) { REQUIRE(r == sub.items_end(), "an insertion without effect did not return items_end()"); break; }
                m->items.insert(m->items.begin() + pos, v.begin(), v.end()); REQUIRE(*r == v[0] && (conv || count == (index_t)len), "insert_items returned another item or count"); if (m->parent && m->parent->parent) internal_edit = true;
                break; }
            case 22: { // erase an item: ours, or that of another node
                MNode* o = c.chance(3, 4) ? m : pick_node(c, root); std::vector<int> its; o->collect(its); if (its.empty()) break; size_t pos = c.i(0, its.size() - 1); auto it = locate(t, o).items_begin(); for (size_t i = 0; i < pos; i++) ++it;
                bool ok = false, mine = m == o && m->kids.empty(); if (!mine && m->kids.empty()) for (MNode* q = m; q; q = q->parent) if (q == o) { o = nullptr; break; } if (!o) break;   // an ancestor's item may be ours
                LOG(c, "#" << k << " erase item " << pos << " of " << path_of(o) << " from " << P); bool flag = c.b(); auto r = flag || !mine ? sub.erase(it, &ok) : sub.erase(it);
                if (!mine) { REQUIRE(!ok && r == sub.items_end(), "erasing an item of another node reported success"); break; }
                REQUIRE(!flag || ok, "erase of an item reported failure"); m->items.erase(m->items.begin() + pos); if (pos < m->items.size()) REQUIRE(*r == m->items[pos], "erase did not return the next item"); else REQUIRE(r == sub.items_end(), "erase of the last item did not return items_end()");
                if (m->parent && m->parent->parent) internal_edit = true; break; }
            case 18: if (copies) { int o = 1 - k; LOG(c, "#" << o << " copy of #" << k); T[o].t.reset(new Tr(t)); T[o].m = root->clone(); } break;
            case 19: if (copies) { int way = c.i(0, 1);
                if (way == 0) { LOG(c, "#" << k << " move-constructed"); Tr* nt = new Tr(std::move(t)); T[k].t.reset(nt); }
                else { int cnt = c.i(0, 5); LOG(c, "#" << k << " constructed from " << cnt << " items"); std::vector<int> v; for (int i = 0; i < cnt; i++) v.push_back(nextitem++); T[k].t.reset(new Tr(v.begin(), v.end())); T[k].m.reset(new MNode()); T[k].m->items = v; *T[k].t->root() = 0; } } break;
        }
        for (int q = 0; q < (copies ? 2 : 1); q++) verify_tree(*T[q].t, T[q].m.get());
        if (copies) { bool e = T[0].m->equals(*T[1].m); REQUIRE((*T[0].t == *T[1].t) == e && (*T[0].t != *T[1].t) == !e, "tree equality, model says " << e); }
    }
    c.nontrivial(internal_edit && n >= 5); c.label("split", split_seen); c.label("edit below depth one", internal_edit);
}
PROP(small_history, 400000) { history(c, 14, 8, false); }
PROP(long_history, 120000) { history(c, 60, 24, false); }
PROP(copy_history, 200000) { history(c, 40, 16, true); }
// the same with many items, many children or many generations
PROP(big_tree, 1200) {
    TreePair T; bigm::Rng g(c); int kind = c.i(0, 3), next = 1; std::vector<MNode*> leaves; size_t n = kind == 0 ? c.big(6, 17) : kind == 2 ? (size_t)c.i(30, 400) : c.big(4, 11);
    auto child = [&](MNode* m, Sub s) { int v = next++; Sub r = s.insert_child_node(v); auto q = std::make_unique<MNode>(); q->data = v; q->parent = m; if (m->kids.empty()) q->items.swap(m->items); MNode* p = q.get(); m->kids.push_back(std::move(q)); REQUIRE(*r == v, "insert_child_node returned another node"); return std::make_pair(p, r); };
    auto item = [&](MNode* m, Sub s, size_t k) { for (size_t i = 0; i < k; i++) { int v = (int)(g.u() % 1000); auto r = s.insert_item(v); m->items.push_back(v); if (i % 64 == 0) REQUIRE(*r == v, "insert_item returned another item"); } };
    LOG(c, (kind == 0 ? "one leaf with items: " : kind == 1 ? "children of one node: " : kind == 2 ? "generations: " : "children holding items: ") << n);
    if (kind == 0) { std::vector<int> v(n); for (auto& x : v) x = (int)(g.u() % 1000); T.t.reset(new Tr(v.begin(), v.end())); *T.t->root() = 0; T.m->items = v; }
    else if (kind == 2) { MNode* m = T.m.get(); Sub s = T.t->root(); item(m, s, 3); for (size_t i = 0; i < n; i++) { auto [a, b] = child(m, s); if (g.u() % 4 == 0) { auto x = child(m, s); item(x.first, x.second, g.u() % 3); } m = a; s = b; } }
    else { MNode* m = T.m.get(); Sub s = T.t->root(); if (c.b()) { auto x = child(m, s); m = x.first; s = x.second; } for (size_t i = 0; i < n; i++) { auto x = child(m, s); if (kind == 3) item(x.first, x.second, 1 + g.u() % 3); } if (c.b()) { auto x = child(T.m.get(), T.t->root()); item(x.first, x.second, 2); } }
    verify_tree(*T.t, T.m.get());
    for (int s = c.i(0, 3); s > 0; s--) {
        MNode* m = pick_node(c, T.m.get()); Sub sub = locate(*T.t, m);
        switch (c.i(0, 5)) {
            case 0: if (m->kids.empty()) { size_t at = g.u() % (m->items.size() + 1); auto it = sub.items_begin(); for (size_t i = 0; i < at; i++) ++it; sub.insert_item(it, -5); m->items.insert(m->items.begin() + at, -5); LOG(c, "item at " << at); } break;
            case 1: child(m, sub); LOG(c, "child"); break;
            case 2: if (!m->kids.empty()) { size_t at = g.u() % m->kids.size(); Sub k = sub.begin(); for (size_t i = 0; i < at; i++) ++k; bool ok = false; sub.erase(k, &ok); REQUIRE(ok, "erase of a child reported failure"); m->kids.erase(m->kids.begin() + at); LOG(c, "erase child " << at); } break;
            case 3: { sub.flatten(); std::vector<int> it; m->collect(it); m->kids.clear(); m->items = it; LOG(c, "flatten"); break; }
            case 4: { T.t.reset(c.b() ? new Tr(*T.t) : new Tr(std::move(*T.t))); LOG(c, "copied or moved"); break; }
            case 5: if (m->parent && m->kids.empty() && m->items.size() > 1) { int piv = (int)(g.u() % 1000), v = next++; Sub r = sub.split(cmp, piv, v); REQUIRE(*r == v, "split returned another node"); auto lo = std::make_unique<MNode>(); lo->data = v; lo->parent = m->parent; std::vector<int> hi, l; for (int x : m->items) (x < piv ? l : hi).push_back(x);
                auto adopt = [&](Sub q, std::vector<int>& want) { std::vector<int> got(q.items_begin(), q.items_end()), a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); REQUIRE(a == b, "split put the wrong items in a node"); want = got; };
                adopt(r, l); adopt(sub, hi); lo->items = l; m->items = hi; int ix = m->index(); m->parent->kids.insert(m->parent->kids.begin() + ix, std::move(lo)); LOG(c, "split at " << piv); } break;
        }
        verify_tree(*T.t, T.m.get());
    }
    c.nontrivial(n > 200); c.label("more than 256", n > 256); c.label("more than 65536", n > 65536);
}
