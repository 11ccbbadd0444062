// Tracked element type: every construction, destruction, copy and move is checked against a
// registry of live objects; reading a dead or moved-from element is an error.
#pragma once
#include "pbt.h"
#include <unordered_map>
namespace trk {
struct State { std::unordered_map<const void*, int> live; long constructed = 0, destroyed = 0; std::string error; };
inline State& st() { static State s; return s; }
inline void reset() { st() = State(); }
inline void err(const char* e) { if (st().error.empty()) st().error = e; }
enum { MOVED = -777777 };
struct Elem {
    int v; int* guard;               // guard: heap cell, so that leaks/double frees are visible to ASan too
    void born() { auto r = st().live.emplace(this, 1); if (!r.second) err("constructed an element over a live one"); st().constructed++; }
    void alive(const char* w) const { if (!st().live.count(this)) err(w); }
    Elem() : v(0), guard(new int(1)) { born(); }
    Elem(int x) : v(x), guard(new int(1)) { born(); }
    Elem(const Elem& o) : v(o.v), guard(new int(1)) { o.alive("copied from a dead element"); if (o.v == MOVED) err("copied from a moved-from element"); born(); }
    Elem(Elem&& o) : v(o.v), guard(new int(1)) { o.alive("moved from a dead element"); if (o.v == MOVED) err("moved from a moved-from element"); o.v = MOVED; born(); }
    Elem& operator=(const Elem& o) { alive("assigned to a dead element"); o.alive("assigned from a dead element"); if (o.v == MOVED && &o != this) err("assigned from a moved-from element"); v = o.v; return *this; }
    Elem& operator=(Elem&& o) { alive("assigned to a dead element"); o.alive("move-assigned from a dead element"); if (&o != this) { v = o.v; o.v = MOVED; } return *this; }
    ~Elem() { if (!st().live.erase(this)) err("destroyed an element that is not live"); else { delete guard; } st().destroyed++; }
    bool operator==(const Elem& o) const { alive("compared a dead element"); o.alive("compared a dead element"); return v == o.v; }
    bool operator!=(const Elem& o) const { return !(*this == o); }
    int get() const { alive("read a dead element"); return v; }
};
inline int val(const Elem& e) { return e.get(); }
inline int val(int e) { return e; }
inline int val(const std::string& s) { return atoi(s.c_str()); }
template<class T> struct mk { static T of(int v) { return T(v); } };
template<> struct mk<std::string> { static std::string of(int v) { return std::to_string(v) + "-a-tail-long-enough-for-the-heap"; } };
inline size_t live() { return st().live.size(); }
#define TRK_OK() REQUIRE(trk::st().error.empty(), trk::st().error)
}
