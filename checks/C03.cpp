// C03: storage policies.
// thorough: 15
// rule: an object was copied (or moved/assigned) and one of the copies was written afterwards
// parts: 4
#include "pbt.h"
#include "tracked.h"
#include <memory>
#include <geomc/Storage.h>
using namespace geom;
using trk::Elem; using trk::val; using trk::mk;

// A model buffer: an array of values, aliased by every storage object that shares it.
typedef std::shared_ptr<std::vector<int>> Buf;
enum Kind { VALUE, SHARED, WRAPPED };

template<class St, Kind K, index_t N, class T>
struct Machine {
    pbt::Ctx& c; int next = 1;
    std::unique_ptr<St> d[3]; Buf m[3];
    std::vector<std::unique_ptr<std::vector<T>>> arena;   // caller-owned memory for wrapped storage
    bool copied = false, wrote_after = false; int maxexp = 0;
    Machine(pbt::Ctx& c) : c(c) {}
    void create(int k) {
        index_t n = N ? N : maxexp ? c.big(3, maxexp) : (index_t)c.i(0, 9);
        m[k] = std::make_shared<std::vector<int>>(n);
        if constexpr (K == WRAPPED) {
            arena.emplace_back(new std::vector<T>()); auto& a = *arena.back();
            for (index_t i = 0; i < n; i++) { (*m[k])[i] = next; a.push_back(mk<T>::of(next++)); }
            d[k].reset(new St(n, a.data()));
            REQUIRE(d[k]->get() == a.data(), "wrapped storage does not use the caller's memory");
        } else {
            bool fromsrc = c.b();
            if constexpr (std::is_constructible_v<St, index_t, const T*>) {
                if (fromsrc) {
                    std::vector<T> src; for (index_t i = 0; i < n; i++) { (*m[k])[i] = next; src.push_back(mk<T>::of(next++)); }
                    d[k].reset(new St(n, (const T*)src.data()));
                    LOG(c, "#" << k << " constructed from " << n << " values"); return;
                }
            }
            d[k].reset(new St(n));
            for (index_t i = 0; i < n; i++) { (*m[k])[i] = next; (*d[k])[i] = mk<T>::of(next++); }
        }
        LOG(c, "#" << k << " constructed with " << n << " values");
    }
    void verify() {
        for (int k = 0; k < 3; k++) {
            if (!d[k]) continue;
            const St& s = *d[k]; auto& w = *m[k];
            if constexpr (requires { s.size(); }) REQUIRE(s.size() == (index_t)w.size(), "size of #" << k << " is " << s.size() << ", model " << w.size());
            for (size_t i = 0; i < w.size(); i++) {
                REQUIRE(val((*d[k])[i]) == w[i], "#" << k << "[" << i << "] is " << val((*d[k])[i]) << ", model " << w[i]);
                REQUIRE(val(s.get()[i]) == w[i] && val(d[k]->get()[i]) == w[i] && val(s[i]) == w[i], "get()[" << i << "] of #" << k);
            }
            for (int j = 0; j < k; j++) if (d[j] && !w.empty() && !m[j]->empty())
                REQUIRE((d[j]->get() == d[k]->get()) == (m[j] == m[k]), "aliasing of #" << j << " and #" << k << ": storage " << (d[j]->get() == d[k]->get()) << ", expected " << (m[j] == m[k]));
        }
        if constexpr (std::is_same_v<T, Elem>) TRK_OK();
    }
    Buf copybuf(const Buf& b) { return K == VALUE ? std::make_shared<std::vector<int>>(*b) : b; }
    void run() {
        int n = c.i(1, maxexp ? 20 : 30);
        for (int s = 0; s < n; s++) {
            int k = c.i(0, 2), o = c.i(0, 2);
            switch (c.i(0, 9)) {
                case 0: case 1: create(k); break;
                case 2: case 3: if (d[k] && !m[k]->empty()) { size_t i = c.i(0, m[k]->size() - 1); int v = next++; int way = c.b();
                    if (way) (*d[k])[i] = mk<T>::of(v); else d[k]->get()[i] = mk<T>::of(v);
                    (*m[k])[i] = v; LOG(c, "#" << k << "[" << i << "] = " << v); if (copied) wrote_after = true; } break;
                case 4: case 5: if (d[o] && o != k) { d[k].reset(new St(*d[o])); m[k] = copybuf(m[o]); copied = true; LOG(c, "#" << k << " copy of #" << o); } break;
                case 6: if (d[o] && d[k]) { *d[k] = *d[o]; if (o != k) m[k] = copybuf(m[o]); copied = true; LOG(c, "#" << k << " = #" << o); } break;
                case 7: if (d[o] && o != k) { d[k].reset(new St(std::move(*d[o]))); m[k] = m[o]; d[o].reset(); m[o].reset(); LOG(c, "#" << k << " moved from #" << o); } break;
                case 8: if (d[o] && d[k] && o != k) { *d[k] = std::move(*d[o]); m[k] = m[o]; bool reuse = c.b(); LOG(c, "#" << k << " = move #" << o);
                    if (reuse && d[(3 - k - o)]) { *d[o] = *d[3 - k - o]; m[o] = copybuf(m[3 - k - o]); LOG(c, "#" << o << " (moved from) = #" << 3 - k - o); }
                    else { d[o].reset(); m[o].reset(); } } break;
                case 9: d[k].reset(); m[k].reset(); LOG(c, "#" << k << " destroyed"); break;
            }
            verify();
        }
        for (auto& p : d) p.reset();
        arena.clear();
        if constexpr (std::is_same_v<T, Elem>) { TRK_OK(); REQUIRE(trk::live() == 0, "leaked " << trk::live()); }
        c.nontrivial(copied && wrote_after); c.label("write after copy", wrote_after);
    }
};
template<class St, Kind K, index_t N, class T> void go(pbt::Ctx& c) { trk::reset(); { Machine<St, K, N, T> m(c); m.run(); } trk::reset(); }
template<class St, Kind K, class T> void big(pbt::Ctx& c, int maxexp) { trk::reset(); { Machine<St, K, 0, T> m(c); m.maxexp = maxexp; m.run(); } trk::reset(); }
#define Q 40000
#if PART(0)
PROP(storage_static, Q)      { go<Storage<Elem, 4>, VALUE, 4, Elem>(c); }
PROP(storage_dynamic, Q)     { go<Storage<Elem, 0>, SHARED, 0, Elem>(c); }
PROP(sized_static, Q)        { go<SizedStorage<int, 3>, VALUE, 3, int>(c); }
PROP(big_storage, 300 * 4)        { big<Storage<int, 0>, SHARED, int>(c, 16); }
PROP(big_sized, 300 * 4)          { big<SizedStorage<int, 0>, SHARED, int>(c, 16); }
PROP(big_sized_str, 600 * 4)      { big<SizedStorage<std::string, 0>, SHARED, std::string>(c, 10); }
PROP(sized_dynamic, Q)       { go<SizedStorage<Elem, 0>, SHARED, 0, Elem>(c); }
#endif
#if PART(1)
PROP(unique_static, Q)       { go<UniqueStorage<Elem, 5>, VALUE, 5, Elem>(c); }
PROP(unique_dynamic, 2 * Q)  { go<UniqueStorage<Elem, 0>, VALUE, 0, Elem>(c); }
PROP(big_unique, 300 * 4)        { big<UniqueStorage<int, 0>, VALUE, int>(c, 16); }
PROP(big_unique_trk, 600 * 4)    { big<UniqueStorage<Elem, 0>, VALUE, Elem>(c, 9); }
PROP(unique_dynamic_str, Q)  { go<UniqueStorage<std::string, 0>, VALUE, 0, std::string>(c); }
#endif
#if PART(2)
PROP(wrapped_static, Q)      { go<WrappedStorage<Elem, 4>, WRAPPED, 4, Elem>(c); }
PROP(big_wrapped, 300 * 4)       { big<WrappedStorage<int, 0>, WRAPPED, int>(c, 16); }
PROP(wrapped_dynamic, Q)     { go<WrappedStorage<Elem, 0>, WRAPPED, 0, Elem>(c); }
PROP(generic_shared, Q)      { go<GenericStorage<Elem, 0, STORAGE_SHARED>, SHARED, 0, Elem>(c); }
#endif
#if PART(3)
PROP(generic_unique, Q)      { go<GenericStorage<Elem, 0, STORAGE_UNIQUE>, VALUE, 0, Elem>(c); }
PROP(big_generic, 200 * 4)       { big<GenericStorage<int, 0, STORAGE_UNIQUE>, VALUE, int>(c, 16); big<GenericStorage<int, 0, STORAGE_SHARED>, SHARED, int>(c, 16); }
PROP(generic_unique_st, Q)   { go<GenericStorage<int, 6, STORAGE_UNIQUE>, VALUE, 6, int>(c); }
PROP(generic_shared_st, Q)   { go<GenericStorage<int, 6, STORAGE_SHARED>, VALUE, 6, int>(c); }
PROP(generic_wrapped, Q)     { go<GenericStorage<Elem, 0, STORAGE_WRAPPED>, WRAPPED, 0, Elem>(c); }
template<class St> void ilist(pbt::Ctx& c) {
    int a = c.i(0, 99), b = c.i(0, 99), d = c.i(0, 99);
    St s{{a, b, d}}; REQUIRE(s[0] == a && s[1] == b && s[2] == d, "initializer list contents"); 
    St t(s); t[1] = -1; REQUIRE(s[1] == b, "copy aliases its source"); c.nontrivial();
}
PROP(init_lists, 2000) { ilist<UniqueStorage<int, 0>>(c); ilist<UniqueStorage<int, 3>>(c); ilist<GenericStorage<int, 0, STORAGE_UNIQUE>>(c); ilist<GenericStorage<int, 3, STORAGE_UNIQUE>>(c); ilist<GenericStorage<int, 3, STORAGE_SHARED>>(c); }
#endif
