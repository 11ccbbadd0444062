// C02: SmallStorage == ideal vector under every history.
// thorough: 15
// rule: the history both grew onto the heap or beyond a capacity and shrank, with at least six operations
// parts: 5
#include "pbt.h"
#include "tracked.h"
#include <memory>
#include <initializer_list>
#include <geomc/Storage.h>
#include <geomc/SmallStorage.h>
using namespace geom;
using trk::Elem; using trk::val; using trk::mk;

template<class T, size_t N>
struct Machine {
    typedef SmallStorage<T, N> S;
    pbt::Ctx& c;
    std::unique_ptr<S> d[3];
    std::vector<int> m[3];
    int next = 1; bool grew = false, shrank = false;
    Machine(pbt::Ctx& c) : c(c) {}
    T fresh(int& v) { v = next++; return mk<T>::of(v); }
    void verify(int k) {
        S& q = *d[k]; const S& cq = q; auto& w = m[k];
        REQUIRE(q.size() == w.size(), "size of #" << k << " is " << q.size() << ", model " << w.size());
        REQUIRE(q.empty() == w.empty(), "empty()");
        REQUIRE(q.capacity() >= q.size() && q.capacity() >= N, "capacity " << q.capacity() << " size " << q.size());
        REQUIRE((size_t)(q.end() - q.begin()) == w.size() && (size_t)(cq.end() - cq.begin()) == w.size(), "iterator distance");
        REQUIRE(q.data() == q.begin() && cq.data() == cq.begin(), "data() is not the first element");
        for (size_t i = 0; i < w.size(); i++) {
            REQUIRE(val(q[i]) == w[i], "#" << k << "[" << i << "] is " << val(q[i]) << ", model " << w[i]);
            REQUIRE(val(cq[i]) == w[i] && val(q.begin()[i]) == w[i] && val(cq.begin()[i]) == w[i], "const access [" << i << "]");
        }
        if (!w.empty()) {
            REQUIRE(val(q.front()) == w.front() && val(cq.front()) == w.front(), "front of #" << k);
            REQUIRE(val(q.back()) == w.back() && val(cq.back()) == w.back(), "back of #" << k);
        }
        REQUIRE(S::static_capacity() == N, "static capacity");
    }
    void verify_all() {
        size_t total = 0;
        for (int k = 0; k < 3; k++) { verify(k); total += m[k].size(); }
        if constexpr (std::is_same_v<T, Elem>) { TRK_OK(); REQUIRE(trk::live() == total, "live elements " << trk::live() << ", held " << total); }
        for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++)
            REQUIRE(((*d[a]) == (*d[b])) == (m[a] == m[b]), "== of #" << a << " and #" << b);
    }
    void run(int maxops) {
        for (int k = 0; k < 3; k++) d[k].reset(new S());
        int n = c.i(1, maxops);
        for (int s = 0; s < n; s++) {
            int k = c.chance(1, 4) ? c.i(1, 2) : 0;
            S& q = *d[k]; auto& w = m[k]; int v;
            size_t cap0 = q.capacity(), sz0 = q.size(); const void* a0 = q.data();
            switch (c.i(0, 29)) {
                case 0: case 1: case 2: case 3: { T e = fresh(v); T& r = q.push_back(e); w.push_back(v); LOG(c, "#" << k << ".push_back(" << v << ")");
                    REQUIRE(&r == &q[q.size() - 1], "push_back returned another element");
                    if (sz0 < cap0) REQUIRE(q.data() == a0, "push_back relocated although there was capacity"); break; }
                case 4: case 5: case 6: { T e = fresh(v); T& r = q.emplace_back(std::move(e)); w.push_back(v); LOG(c, "#" << k << ".emplace_back(" << v << ")");
                    REQUIRE(&r == &q[q.size() - 1], "emplace_back returned another element");
                    if (sz0 < cap0) REQUIRE(q.data() == a0, "emplace_back relocated although there was capacity"); break; }
                case 7: case 8: case 9: case 10: { int times = c.i(1, 4); while (times--) { auto r = q.pop_back(); LOG(c, "#" << k << ".pop_back()");
                    REQUIRE(r.has_value() == !w.empty(), "pop_back emptiness");
                    if (r) { REQUIRE(val(*r) == w.back(), "pop_back gave " << val(*r)); w.pop_back(); shrank = true; } } break; }
                case 11: case 12: if (!w.empty()) { size_t i = c.i(0, w.size() - 1); q[i] = fresh(v); w[i] = v; LOG(c, "#" << k << "[" << i << "] = " << v); } break;
                case 13: q.clear(); w.clear(); LOG(c, "#" << k << ".clear()"); REQUIRE(q.capacity() == cap0, "clear changed the capacity"); break;
                case 14: { size_t r = c.i(0, 16); q.reserve(r); LOG(c, "#" << k << ".reserve(" << r << ")"); REQUIRE(q.capacity() >= r && q.capacity() >= cap0, "reserve(" << r << ") left capacity " << q.capacity()); break; }
                case 15: case 16: { size_t r = c.i(0, 14); T e = fresh(v); q.resize(r, e); w.resize(r, v); LOG(c, "#" << k << ".resize(" << r << ", " << v << ")"); break; }
                case 17: { size_t r = c.i(0, w.size()); q.resize(r); w.resize(r); LOG(c, "#" << k << ".resize(" << r << ")"); shrank = true; break; }
                case 18: case 19: { int o = c.i(0, 2); if (o == k) break; d[k].reset(new S(*d[o])); m[k] = m[o]; LOG(c, "#" << k << " copy-constructed from #" << o); break; }
                case 20: case 21: { int o = c.i(0, 2); if (o == k) break; S* nd = new S(std::move(*d[o])); d[k].reset(nd); m[k] = m[o]; m[o].clear(); LOG(c, "#" << k << " move-constructed from #" << o);
                    REQUIRE(d[o]->size() == 0, "moved-from array is not empty"); break; }
                case 22: case 23: { int o = c.i(0, 2); *d[k] = *d[o]; m[k] = m[o]; LOG(c, "#" << k << " = #" << o); break; }
                case 24: { int o = c.i(0, 2); if (o == k) break; *d[k] = std::move(*d[o]); m[k] = m[o]; m[o].clear(); LOG(c, "#" << k << " = move(#" << o << ")");
                    REQUIRE(d[o]->size() == 0, "moved-from array is not empty"); break; }
                case 25: { int o = c.i(0, 2); if (o == k) break; std::swap(*d[k], *d[o]); std::swap(m[k], m[o]); LOG(c, "swap(#" << k << ", #" << o << ")"); break; }
                case 26: { int cnt = c.i(0, 12), way = c.i(0, 1); m[k].clear(); LOG(c, "#" << k << " constructed with " << cnt << " items, way " << way);
                    if (way == 0) { std::vector<T> src; for (int i = 0; i < cnt; i++) { src.push_back(fresh(v)); m[k].push_back(v); } const T* p = src.data(); d[k].reset(new S(p, (size_t)cnt)); }
                    else { T e = fresh(v); m[k].assign(cnt, v); d[k].reset(new S(e, (size_t)cnt)); } break; }
                case 27: { int way = c.i(0, 3); m[k].clear(); LOG(c, "#" << k << " constructed, way " << way);
                    if (way == 0) { size_t cnt = c.i(0, 9); 
                        if constexpr (std::is_same_v<T, std::string>) { d[k].reset(new S()); } else { d[k].reset(new S(cnt)); m[k].assign(cnt, 0); } }
                    else { int a = next++, b = next++, e = next++, f = next++;
                        if (way == 1) { d[k].reset(new S({mk<T>::of(a), mk<T>::of(b), mk<T>::of(e)})); m[k] = {a, b, e}; }
                        else if (way == 2) { d[k].reset(new S({mk<T>::of(a), mk<T>::of(b), mk<T>::of(e), mk<T>::of(f), mk<T>::of(a)})); m[k] = {a, b, e, f, a}; }
                        else { d[k].reset(new S({mk<T>::of(a)})); m[k] = {a}; } }
                    break; }
                case 28: if (!w.empty()) { size_t i = c.i(0, w.size() - 1); int way = c.i(0, 2); const S& cq = q; v = w[i]; LOG(c, "#" << k << (way == 0 ? ".push_back" : way == 1 ? ".emplace_back" : ".resize") << " with its own element " << i);
                    if (way == 0) { T& r = q.push_back(c.b() ? cq[i] : q[i]); w.push_back(v); REQUIRE(&r == &q[q.size() - 1], "push_back returned another element"); } else if (way == 1) { T& r = q.emplace_back(cq[i]); w.push_back(v); REQUIRE(&r == &q[q.size() - 1], "emplace_back returned another element"); } else { size_t n2 = w.size() + c.i(0, 9); q.resize(n2, cq[i]); w.resize(n2, v); } } break;
                case 29: { LOG(c, "#" << k << " move-assigned to itself"); S& same = q; q = std::move(same); if (q.size() == 0) w.clear(); break; } // may be emptied, or not
            }
            if (d[k]->capacity() > N) grew = true;
            verify_all();
        }
        for (int k = 0; k < 3; k++) d[k].reset();
        if constexpr (std::is_same_v<T, Elem>) { TRK_OK(); REQUIRE(trk::live() == 0, "elements leaked: " << trk::live()); }
        c.nontrivial(grew && shrank && n >= 6); c.label("grew to the heap", grew); c.label("shrank", shrank);
    }
};
template<class T, size_t N> void go(pbt::Ctx& c) { trk::reset(); { Machine<T, N> mc(c); mc.run(50); } trk::reset(); }
#if PART(0)
PROP(tracked_n0, 60000) { go<Elem, 0>(c); }
PROP(tracked_n1, 60000) { go<Elem, 1>(c); }
#endif
#if PART(1)
PROP(tracked_n2, 60000) { go<Elem, 2>(c); }
PROP(tracked_n4, 100000) { go<Elem, 4>(c); }
#endif
#if PART(2)
PROP(tracked_n8, 60000) { go<Elem, 8>(c); }
PROP(string_n3, 60000) { go<std::string, 3>(c); }
#endif
#if PART(3)
PROP(int_n4, 60000) { go<int, 4>(c); }
PROP(int_n1, 60000) { go<int, 1>(c); }
#endif
#if PART(4)
PROP(string_n8, 60000) { go<std::string, 8>(c); }
#endif
// Long arrays: bulk operations around the sizes where a narrowed counter wraps.
template<class T, size_t N> void bulk(pbt::Ctx& c, int maxexp) {
    typedef SmallStorage<T, N> S; trk::reset();
    {
        std::unique_ptr<S> q(new S()); std::vector<int> w; int next = 1; int v = 0;
        auto full = [&](S& x) { const S& cx = x; REQUIRE(x.size() == w.size() && x.empty() == w.empty() && (size_t)(cx.end() - cx.begin()) == w.size(), "size " << x.size() << ", model " << w.size()); REQUIRE(x.capacity() >= x.size(), "capacity");
            for (size_t i = 0; i < w.size(); i++) REQUIRE(val(x[i]) == w[i], "[" << i << "] of " << w.size() << " is " << val(x[i]) << ", model " << w[i]);
            if (!w.empty()) REQUIRE(val(x.front()) == w.front() && val(cx.back()) == w.back() && &x.back() == &x[w.size() - 1], "front or back of " << w.size()); };
        int ops = c.i(1, 6);
        for (int s = 0; s < ops; s++) {
            size_t n = c.big(3, maxexp); int op = c.i(0, 8);
            if (w.size() > (4ull << maxexp)) op = 2;
            LOG(c, "bulk op " << op << " n " << n << " at size " << w.size());
            switch (op) {
                case 0: for (size_t i = 0; i < n; i++) { v = next++; q->push_back(mk<T>::of(v)); w.push_back(v); REQUIRE(q->size() == w.size(), "size " << q->size() << ", model " << w.size()); } break;
                case 1: for (size_t i = 0; i < n; i++) { v = next++; q->emplace_back(mk<T>::of(v)); w.push_back(v); } break;
                case 2: for (size_t i = 0; i < n; i++) { auto r = q->pop_back(); REQUIRE(r.has_value() == !w.empty(), "pop_back emptiness"); if (!r) break; REQUIRE(val(*r) == w.back(), "pop_back gave " << val(*r) << ", model " << w.back()); w.pop_back(); } break;
                case 3: { v = next++; q->resize(n, mk<T>::of(v)); w.resize(n, v); break; }
                case 4: { std::unique_ptr<S> d(new S(*q)); full(*d); REQUIRE(*d == *q, "copy differs"); if (!w.empty()) { size_t i = c.i(0, w.size() - 1); T e = mk<T>::of(-1); std::swap((*d)[i], e); REQUIRE(!(*d == *q), "== misses a difference at " << i << " of " << w.size()); std::swap((*d)[i], e); } q = std::move(d); break; }
                case 5: { std::unique_ptr<S> d(new S()); if (c.b()) d->push_back(mk<T>::of(next++)); if (c.b()) { *d = std::move(*q); REQUIRE(q->size() == 0, "moved-from array is not empty"); } else *d = *q; q = std::move(d); break; }
                case 6: q->reserve(n); REQUIRE(q->capacity() >= n, "reserve"); break;
                case 7: { std::vector<T> src; w.clear(); for (size_t i = 0; i < n; i++) { src.push_back(mk<T>::of(next)); w.push_back(next++); } const T* p = src.data(); q.reset(new S(p, n)); break; }
                case 8: if (c.b()) { size_t cap = q->capacity(); q->clear(); w.clear(); REQUIRE(q->capacity() == cap, "clear changed the capacity"); } else { v = next++; T e = mk<T>::of(v); q.reset(new S(e, n)); w.assign(n, v); } break;
            }
            full(*q);
        }
        c.nontrivial(w.size() > 100); c.label("longer than 2^8", w.size() > 256); c.label("longer than 2^16", w.size() > 65536);
        q.reset();
    }
    if constexpr (std::is_same_v<T, Elem>) { TRK_OK(); REQUIRE(trk::live() == 0, "elements leaked: " << trk::live()); }
    trk::reset();
}
#if PART(4)
PROP(bulk_string_n4, 1000) { bulk<std::string, 4>(c, 11); }
PROP(bulk_int_n0, 1000) { bulk<int, 0>(c, 17); }
PROP(bulk_int_n4, 1000) { bulk<int, 4>(c, 17); }
PROP(bulk_int_n300, 600) { bulk<int, 300>(c, 12); }
PROP(bulk_tracked_n2, 800) { bulk<Elem, 2>(c, 10); }
#endif
