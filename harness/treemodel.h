// Model tree and the mirror driver shared by C04 and C05.
#pragma once
#include "pbt.h"
#include <memory>
#include <list>
#include <vector>
#include <geomc/Tree.h>
struct MNode {
    int data = 0; MNode* parent = nullptr;
    std::vector<std::unique_ptr<MNode>> kids;
    std::vector<int> items;                  // leaves only
    int count() const { int n = items.size(); for (auto& k : kids) n += k->count(); return n; }
    int nodes() const { int n = 1; for (auto& k : kids) n += k->nodes(); return n; }
    void collect(std::vector<int>& out) const { for (int i : items) out.push_back(i); for (auto& k : kids) k->collect(out); }
    // sibling-contiguous order
    void order(std::vector<const MNode*>& out) const { for (auto& k : kids) out.push_back(k.get()); for (auto& k : kids) k->order(out); }
    std::unique_ptr<MNode> clone(MNode* p = nullptr) const {
        auto n = std::make_unique<MNode>(); n->data = data; n->items = items; n->parent = p;
        for (auto& k : kids) n->kids.push_back(k->clone(n.get())); return n;
    }
    bool equals(const MNode& o) const {
        if (data != o.data || items != o.items || kids.size() != o.kids.size()) return false;
        for (size_t i = 0; i < kids.size(); i++) if (!kids[i]->equals(*o.kids[i])) return false;
        return true;
    }
    int index() const { for (size_t i = 0; i < parent->kids.size(); i++) if (parent->kids[i].get() == this) return i; return -1; }
};
typedef geom::Tree<int, int> Tr;
typedef geom::Subtree<int, int> Sub;

inline MNode* pick_node(pbt::Ctx& c, MNode* root) {
    std::vector<const MNode*> all{root}; root->order(all);
    return const_cast<MNode*>(all[c.i(0, all.size() - 1)]);
}
inline Sub locate(Tr& t, const MNode* n) {
    std::vector<int> path; for (; n->parent; n = n->parent) path.push_back(n->index());
    Sub s = t.root();
    for (int i = (int)path.size() - 1; i >= 0; i--) { s = s.begin(); for (int k = 0; k < path[i]; k++) ++s; }
    return s;
}
inline std::string path_of(const MNode* n) { std::string s; for (; n->parent; n = n->parent) s = "/" + std::to_string(n->index()) + s; return s.empty() ? "/" : s; }

inline void verify_node(Tr& t, Sub s, const MNode* m) {
    REQUIRE(*s == m->data, "node " << path_of(m) << " data " << *s << ", model " << m->data);
    REQUIRE(s.node_count() == (index_t)m->kids.size(), "node " << path_of(m) << " has " << s.node_count() << " children, model " << m->kids.size());
    std::vector<int> items; m->collect(items);
    REQUIRE(s.item_count() == (index_t)items.size(), "node " << path_of(m) << " has " << s.item_count() << " items, model " << items.size());
    auto it = s.items_begin(); auto e = s.items_end();
    for (size_t i = 0; i < items.size(); i++, ++it) {
        REQUIRE(it != e, "node " << path_of(m) << ": item range ends after " << i << " of " << items.size());
        REQUIRE(*it == items[i], "node " << path_of(m) << ": item " << i << " is " << *it << ", model " << items[i]);
    }
    REQUIRE(it == e, "node " << path_of(m) << ": item range does not end after " << items.size() << " items");
    if (m->parent) REQUIRE(*s.parent() == m->parent->data && !s.is_root(), "parent of " << path_of(m));
    else REQUIRE(s.is_root() && s.parent() == t.end(), "root's parent");
    Sub k = s.begin(); size_t i = 0;
    if (!m->kids.empty()) {
        Sub f = s; +f; REQUIRE(f == k, "+node is not its first child");
        for (; i < m->kids.size(); i++, ++k) {
            REQUIRE(k != s.end(), "node " << path_of(m) << ": children end after " << i);
            Sub up = k; -up; REQUIRE(up == s, "-child is not its parent");
            verify_node(t, k, m->kids[i].get());
        }
    }
    REQUIRE(k == s.end(), "node " << path_of(m) << ": children do not end after " << m->kids.size());
    for (; i > 0; i--) { Sub was = k; Sub r = i % 2 ? k-- : --k; REQUIRE(r == (i % 2 ? was : k), "value of a step back"); REQUIRE(*k == m->kids[i - 1]->data, "node " << path_of(m) << ": child " << i - 1 << " reached backwards is " << *k); Sub n = k; Sub o = n++; REQUIRE(o == k && n == was, "stepping forward after stepping back"); REQUIRE(&*k.operator->() == &*k && &k.tree() == &t, "access through a node"); }
    if (!m->kids.empty()) REQUIRE(k == s.begin(), "node " << path_of(m) << ": stepping back from the end does not reach the first child");
    for (size_t j = items.size(); j > 0; j--) { --it; REQUIRE(*it == items[j - 1], "node " << path_of(m) << ": item " << j - 1 << " reached backwards is " << *it); }
    REQUIRE(it == s.items_begin(), "node " << path_of(m) << ": stepping back over the items does not reach the first");
}
inline void verify_tree(Tr& t, const MNode* m) {
    REQUIRE(t.size() == (size_t)m->nodes(), "tree size " << t.size() << ", model " << m->nodes());
    REQUIRE(t.item_count() == (size_t)m->count(), "tree item count " << t.item_count() << ", model " << m->count());
    verify_node(t, t.root(), m);
    std::vector<const MNode*> all{m}; m->order(all);
    Sub s = t.begin();
    for (size_t i = 0; i < all.size(); i++, ++s) { REQUIRE(s != t.end(), "global iteration ends early"); REQUIRE(*s == all[i]->data, "global order: node " << i << " is " << *s << ", model " << all[i]->data); }
    REQUIRE(s == t.end(), "global iteration does not end");
    for (size_t i = all.size(); i > 0; i--) { --s; REQUIRE(*s == all[i - 1]->data, "global order backwards: node " << i - 1 << " is " << *s); } REQUIRE(s == t.begin(), "global iteration backwards does not reach the root"); REQUIRE(t == t && !(t != t), "a tree differs from itself");
    REQUIRE(t.root().global_begin() == t.begin() && t.root().global_end() == t.end(), "global_begin/global_end");
}
struct TreePair {
    std::unique_ptr<Tr> t; std::unique_ptr<MNode> m;
    TreePair() : t(new Tr()), m(new MNode()) { *t->root() = 0; }
};
