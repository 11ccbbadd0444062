// C01: Deque == ideal sequence under every history.
// thorough: 25
// rule: the history wrapped around the ring, grew (or has 4+ inline places) and has at least six operations
// parts: 5
#include "pbt.h"
#include "tracked.h"
#include <deque>
#include <memory>
#include <geomc/Deque.h>
using namespace geom;
using trk::Elem; using trk::val; using trk::mk;

template<class T, index_t N>
struct Machine {
    typedef Deque<T, N> D;
    pbt::Ctx& c;
    std::unique_ptr<D> d[3];
    std::deque<int> m[3];
    int next = 1;
    bool saw_wrap = false, saw_grow = false;
    Machine(pbt::Ctx& c) : c(c) {}
    T fresh(int& v) { v = next++; return mk<T>::of(v); }

    void verify(int k) {
        D& q = *d[k]; const D& cq = q; auto& w = m[k];
        REQUIRE(q.size() == (index_t)w.size(), "size of #" << k << " is " << q.size() << ", model " << w.size());
        REQUIRE(q.capacity() >= q.size(), "capacity " << q.capacity() << " < size " << q.size());
        REQUIRE(q.capacity() >= N, "capacity below the static capacity");
        for (index_t i = 0; i < (index_t)w.size(); i++) {
            REQUIRE(val(q[i]) == w[i], "#" << k << "[" << i << "] is " << val(q[i]) << ", model " << w[i]);
            REQUIRE(val(cq[i]) == w[i], "const #" << k << "[" << i << "]");
        }
        if (!w.empty()) {
            REQUIRE(val(q.front()) == w.front() && val(cq.front()) == w.front(), "front of #" << k);
            REQUIRE(val(q.back()) == w.back() && val(cq.back()) == w.back(), "back of #" << k);
            // indexing wraps in both directions
            index_t n = w.size(), i = c.si(3 * n);
            index_t j = ((i % n) + n) % n;
            REQUIRE(val(q[i]) == w[j] && val(cq[i]) == w[j], "wrapped index " << i << " of size " << n);
        }
    }
    void verify_all() {
        size_t total = 0;
        for (int k = 0; k < 3; k++) { verify(k); total += m[k].size(); }
        if constexpr (std::is_same_v<T, Elem>) { TRK_OK(); REQUIRE(trk::live() == total, "live elements " << trk::live() << ", held " << total); }
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) {
            REQUIRE(((*d[a]) == (*d[b])) == (m[a] == m[b]), "== of #" << a << " and #" << b);
            REQUIRE(((*d[a]) != (*d[b])) == (m[a] != m[b]), "!= of #" << a << " and #" << b);
        }
    }
    void run(int maxops) {
        for (int k = 0; k < 3; k++) d[k].reset(new D());
        int n = c.i(1, maxops);
        int bias = c.i(0, 2); // mostly grow / balanced / mostly at one end
        for (int s = 0; s < n; s++) {
            int k = c.chance(1, 4) ? c.i(1, 2) : 0;
            D& q = *d[k]; auto& w = m[k];
            int op = c.i(0, 29);
            int v;
            index_t cap0 = q.capacity(), sz0 = q.size();
            const void* a0 = sz0 ? (const void*)&q[0] : nullptr;
            switch (op) {
                case 0: case 1: case 2: case 3: case 4: {
                    bool lv = c.b(); T e = fresh(v);
                    T& r = lv ? q.push_back(e) : q.push_back(std::move(e));
                    w.push_back(v); LOG(c, "#" << k << ".push_back(" << v << ")");
                    REQUIRE(val(r) == v && &r == &q[q.size() - 1], "push_back returned another element");
                    if (sz0 && sz0 < cap0) REQUIRE(a0 == (const void*)&q[0], "push_back relocated although there was capacity");
                    break; }
                case 5: case 6: case 7: case 8: {
                    bool lv = c.b(); T e = fresh(v);
                    T& r = lv ? q.push_front(e) : q.push_front(std::move(e));
                    w.push_front(v); LOG(c, "#" << k << ".push_front(" << v << ")");
                    REQUIRE(val(r) == v && &r == &q[0], "push_front returned another element");
                    if (sz0 && sz0 < cap0) REQUIRE(a0 == (const void*)&q[1], "push_front relocated although there was capacity");
                    break; }
                case 9: case 10: case 11: {
                    int times = bias == 0 ? 1 : c.i(1, 4);
                    while (times--) {
                        auto r = q.pop_front(); LOG(c, "#" << k << ".pop_front()");
                        REQUIRE(r.has_value() == !w.empty(), "pop_front emptiness");
                        if (r) { REQUIRE(val(*r) == w.front(), "pop_front gave " << val(*r) << ", model " << w.front()); w.pop_front(); saw_wrap = true; }
                    }
                    break; }
                case 12: case 13: case 14: {
                    int times = bias == 0 ? 1 : c.i(1, 4);
                    while (times--) {
                        auto r = q.pop_back(); LOG(c, "#" << k << ".pop_back()");
                        REQUIRE(r.has_value() == !w.empty(), "pop_back emptiness");
                        if (r) { REQUIRE(val(*r) == w.back(), "pop_back gave " << val(*r) << ", model " << w.back()); w.pop_back(); }
                    }
                    break; }
                case 15: case 16: if (!w.empty()) {
                    index_t n = w.size(), i = c.si(2 * n), j = ((i % n) + n) % n; int way = c.i(0, 2);
                    if (way == 0) { q[i] = fresh(v); w[j] = v; }
                    else if (way == 1) { q.front() = fresh(v); w.front() = v; }
                    else { q.back() = fresh(v); w.back() = v; }
                    LOG(c, "#" << k << " write way " << way << " [" << i << "] = " << v);
                    break; } break;
                case 17: if (c.chance(1, 2)) { q.clear(); w.clear(); LOG(c, "#" << k << ".clear()"); } break;
                case 18: { index_t r = c.i(0, 20); q.reserve(r); LOG(c, "#" << k << ".reserve(" << r << ")");
                    REQUIRE(q.capacity() >= r, "reserve(" << r << ") left capacity " << q.capacity());
                    REQUIRE(q.capacity() >= cap0, "reserve reduced the capacity");
                    break; }
                case 19: case 20: { int o = c.i(0, 2); if (o == k) break; d[k].reset(new D(*d[o])); m[k] = m[o]; LOG(c, "#" << k << " copy-constructed from #" << o); break; }
                case 21: case 22: { int o = c.i(0, 2); if (o == k) break; D* nd = new D(std::move(*d[o])); d[k].reset(nd); m[k] = m[o]; m[o].clear(); LOG(c, "#" << k << " move-constructed from #" << o);
                    REQUIRE(d[o]->size() == 0, "moved-from queue is not empty"); break; }
                case 23: { int o = c.i(0, 2); *d[k] = *d[o]; m[k] = m[o]; LOG(c, "#" << k << " = #" << o); break; }
                case 24: { int o = c.i(0, 2); if (o == k) break; *d[k] = std::move(*d[o]); m[k] = m[o]; m[o].clear(); LOG(c, "#" << k << " = move(#" << o << ")");
                    REQUIRE(d[o]->size() == 0, "moved-from queue is not empty"); break; }
                case 25: { int o = c.i(0, 2); if (o == k) break; std::swap(*d[k], *d[o]); std::swap(m[k], m[o]); LOG(c, "swap(#" << k << ", #" << o << ")"); break; }
                case 26: { int cnt = c.i(0, 12); m[k].clear(); { std::vector<T> src; for (int i = 0; i < cnt; i++) { src.push_back(fresh(v)); m[k].push_back(v); }
                    d[k].reset(new D(src.begin(), (index_t)cnt)); } LOG(c, "#" << k << " constructed from a range of " << cnt); break; }
                case 27: { index_t cp = c.i(0, 12); d[k].reset(new D(cp)); m[k].clear(); LOG(c, "#" << k << " constructed with capacity " << cp); REQUIRE(d[k]->capacity() >= cp, "capacity constructor"); break; }
                case 28: if (!w.empty()) { index_t i = c.i(0, w.size() - 1); bool front = c.b(), ro = c.b(); const D& cq = q; v = w[i]; LOG(c, "#" << k << (front ? ".push_front" : ".push_back") << " of its own element " << i);
                    if (front) { T& r = ro ? q.push_front(cq[i]) : q.push_front(q[i]); w.push_front(v); REQUIRE(&r == &q[0], "push_front returned another element"); } else { T& r = ro ? q.push_back(cq[i]) : q.push_back(q[i]); w.push_back(v); REQUIRE(&r == &q[q.size() - 1], "push_back returned another element"); } } break;
                case 29: { LOG(c, "#" << k << " move-assigned to itself"); D& same = q; q = std::move(same); if (q.size() == 0) w.clear(); break; } // may be emptied, or not
            }
            if (d[k]->capacity() > N) saw_grow = true;
            verify_all();
        }
        for (int k = 0; k < 3; k++) d[k].reset();
        if constexpr (std::is_same_v<T, Elem>) { TRK_OK(); REQUIRE(trk::live() == 0, "elements leaked: " << trk::live()); REQUIRE(trk::st().constructed == trk::st().destroyed, "construct/destroy imbalance"); }
        c.nontrivial(saw_wrap && (saw_grow || N >= 4) && n >= 6);
        c.label("grew to the heap", saw_grow); c.label("popped at the front", saw_wrap);
    }
};
template<class T, index_t N> void go(pbt::Ctx& c) { trk::reset(); { Machine<T, N> mc(c); mc.run(50); } trk::reset(); }
#if PART(0)
PROP(tracked_n0, 60000) { go<Elem, 0>(c); }
PROP(tracked_n1, 60000) { go<Elem, 1>(c); }
#endif
#if PART(1)
PROP(tracked_n2, 80000) { go<Elem, 2>(c); }
PROP(tracked_n3, 100000) { go<Elem, 3>(c); }
#endif
#if PART(2)
PROP(tracked_n5, 80000) { go<Elem, 5>(c); }
PROP(tracked_n8, 80000) { go<Elem, 8>(c); }
#endif
#if PART(3)
PROP(string_n4, 80000) { go<std::string, 4>(c); }
PROP(string_n0, 40000) { go<std::string, 0>(c); }
#endif
#if PART(4)
PROP(int_n4, 80000) { go<int, 4>(c); }
PROP(int_n16, 60000) { go<int, 16>(c); }
#endif
// Long queues: bulk operations at both ends, around the sizes where a narrowed counter or index wraps.
template<class T, index_t N> void bulk(pbt::Ctx& c, int maxexp) {
    typedef Deque<T, N> D; trk::reset();
    {
        std::unique_ptr<D> q(new D()); std::deque<int> w; int next = 1; int v = 0;
        auto probe = [&] {
            const D& cq = *q; REQUIRE(q->size() == (index_t)w.size(), "size " << q->size() << ", model " << w.size()); REQUIRE(q->capacity() >= q->size(), "capacity");
            index_t n = w.size(); if (n == 0) return;
            REQUIRE(val(q->front()) == w.front() && val(cq.back()) == w.back(), "front or back of " << n);
            for (int z = 0; z < 4; z++) { index_t i = c.i(0, n - 1); REQUIRE(val((*q)[i]) == w[i] && val(cq[i - n]) == w[i], "[" << i << "] of " << n << " is " << val((*q)[i]) << ", model " << w[i]); } };
        auto full = [&](D& x) { REQUIRE(x.size() == (index_t)w.size(), "size " << x.size() << ", model " << w.size()); for (size_t i = 0; i < w.size(); i++) REQUIRE(val(x[(index_t)i]) == w[i], "[" << i << "] of " << w.size() << " is " << val(x[(index_t)i]) << ", model " << w[i]); };
        int ops = c.i(1, 6); index_t cap = c.b() ? 0 : c.big(3, maxexp); if (cap) { q.reset(new D(cap)); REQUIRE(q->capacity() >= cap, "capacity constructor"); }
        LOG(c, "initial capacity " << cap);
        for (int s = 0; s < ops; s++) {
            index_t n = c.big(3, maxexp); int op = c.i(0, 8);
            LOG(c, "bulk op " << op << " n " << n << " at size " << w.size());
            if (w.size() > (4ull << maxexp)) op = 3;
            switch (op) {
                case 0: case 1: for (index_t i = 0; i < n; i++) { v = next++; q->push_back(mk<T>::of(v)); w.push_back(v); } break;
                case 2: for (index_t i = 0; i < n; i++) { v = next++; q->push_front(mk<T>::of(v)); w.push_front(v); } break;
                case 3: for (index_t i = 0; i < n; i++) { auto r = q->pop_front(); REQUIRE(r.has_value() == !w.empty(), "pop_front emptiness"); if (!r) break; REQUIRE(val(*r) == w.front(), "pop_front gave " << val(*r) << ", model " << w.front()); w.pop_front(); } break;
                case 4: for (index_t i = 0; i < n; i++) { auto r = q->pop_back(); REQUIRE(r.has_value() == !w.empty(), "pop_back emptiness"); if (!r) break; REQUIRE(val(*r) == w.back(), "pop_back gave " << val(*r) << ", model " << w.back()); w.pop_back(); } break;
                case 5: for (index_t i = 0; i < n && !w.empty(); i++) { v = next++; q->push_back(mk<T>::of(v)); w.push_back(v); auto r = q->pop_front(); REQUIRE(r && val(*r) == w.front(), "rotation"); w.pop_front(); } break;
                case 6: { std::unique_ptr<D> d(new D(*q)); full(*d); REQUIRE(*d == *q && !(*d != *q), "copy differs"); if (!w.empty()) { index_t i = c.i(0, w.size() - 1); T e = mk<T>::of(-1); std::swap((*d)[i], e); REQUIRE(*d != *q && !(*d == *q), "== misses a difference at " << i << " of " << w.size()); std::swap((*d)[i], e); } q = std::move(d); break; }
                case 7: { std::unique_ptr<D> d(new D()); if (c.b()) d->push_back(mk<T>::of(next++)); if (c.b()) { *d = std::move(*q); REQUIRE(q->size() == 0, "moved-from queue is not empty"); } else *d = *q; q = std::move(d); break; }
                case 8: if (c.b()) { q->reserve(n); REQUIRE(q->capacity() >= n, "reserve"); } else { std::vector<T> src; w.clear(); for (index_t i = 0; i < n; i++) { src.push_back(mk<T>::of(next)); w.push_back(next++); } q.reset(new D(src.begin(), n)); } break;
            }
            probe();
        }
        full(*q); c.nontrivial(w.size() > 100);
        c.label("longer than 2^8", w.size() > 256); c.label("longer than 2^16", w.size() > 65536);
        q.reset();
    }
    if constexpr (std::is_same_v<T, Elem>) { TRK_OK(); REQUIRE(trk::live() == 0, "elements leaked: " << trk::live()); }
    trk::reset();
}
#if PART(3)
PROP(bulk_string_n4, 1200) { bulk<std::string, 4>(c, 11); }
#endif
#if PART(4)
PROP(bulk_int_n0, 1000) { bulk<int, 0>(c, 17); }
PROP(bulk_int_n4, 1000) { bulk<int, 4>(c, 17); }
PROP(bulk_int_n300, 600) { bulk<int, 300>(c, 12); }
PROP(bulk_tracked_n2, 1200) { bulk<Elem, 2>(c, 10); }
#endif
