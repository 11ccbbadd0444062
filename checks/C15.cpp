// C15: permutation matrices. Oracle: a plain index vector and a dense zero-one matrix, both put through the same history; parity by counting inversions.
// thorough: 20
// rule: more than two indices and a history that moved something
// parts: 2
// opt: -O0
#include "pbt.h"
#include <geomc/linalg/Matrix.h>
using namespace geom;
namespace ref {
// s[i] = column of the 1 in row i
typedef std::vector<int> P;
static int sign(const P& s) { int inv = 0; for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) inv += s[i] > s[j]; return inv & 1 ? -1 : 1; }
static P inverse(const P& s) { P r(s.size()); for (size_t i = 0; i < s.size(); i++) r[s[i]] = i; return r; }
static P compose(const P& a, const P& b) { P r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = b[a[i]]; return r; } // matrix a*b
}
static std::vector<index_t> draw(pbt::Ctx& c, int n) { std::vector<index_t> q(n); for (int i = 0; i < n; i++) q[i] = i; int mode = c.i(0, 2); if (mode == 0) for (int i = n - 1; i > 0; i--) std::swap(q[i], q[c.i(0, i)]); else if (mode == 1) { for (int k = c.i(0, 3); k > 0; k--) std::swap(q[c.i(0, n - 1)], q[c.i(0, n - 1)]); } else { int r = c.i(0, n - 1); for (int i = 0; i < n; i++) q[i] = (i + r) % n; } return q; }
template<class X> void agree(pbt::Ctx& c, X& p, const ref::P& w, bool deep) {
    int n = w.size(); const X& k = p; ref::P inv = ref::inverse(w); REQUIRE(k.rows() == n && k.cols() == n, "dimensions");
    for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) REQUIRE(k(i, j) == (w[i] == j), "entry " << i << "," << j << " is " << k(i, j)); REQUIRE(k.getRowSources()[i] == w[i] && k.getColDestinations()[i] == w[i], "row source " << i << " is " << k.getRowSources()[i] << " instead of " << w[i]); REQUIRE(k.getColSources()[i] == inv[i] && k.getRowDestinations()[i] == inv[i], "column source " << i << " is " << k.getColSources()[i] << " instead of " << inv[i]); }
    if (deep) {
        int m = c.i(1, 4); SimpleMatrix<double,0,0> a(n, m), b(m, n); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) a(i, j) = c.si(99), b(j, i) = c.si(99);
        SimpleMatrix<double,0,0> pa(n, m), bp(m, n); geom::mul(&pa, k, a); geom::mul(&bp, b, k); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double va = pa(i, j), wa = a(w[i], j), vb = bp(j, w[i]), wb = b(j, i); REQUIRE(va == wa, "product from the left, entry " << i << "," << j << " is " << va << " instead of " << wa); REQUIRE(vb == wb, "product from the right, entry " << j << "," << w[i] << " is " << vb << " instead of " << wb); }
        int s = ref::sign(w); index_t got = p.sign(); REQUIRE(got == s, "sign is " << got << " instead of " << s); agree(c, p, w, false); REQUIRE(p.sign() == s, "sign asked twice");
    }
}
template<class X, class Make> void history(pbt::Ctx& c, int n, Make make) {
    X p = make(); ref::P w(n); for (int i = 0; i < n; i++) w[i] = i; agree(c, p, w, false); int steps = c.i(1, 14); bool moved = false;
    for (int s = 0; s < steps; s++) { int op = c.i(0, 16), a = c.i(0, n - 1), b = c.i(0, n - 1); auto q = draw(c, n); LOG(c, "op " << op << " a=" << a << " b=" << b << " q=" << [&] { std::string o; for (auto x : q) o += std::to_string(x) + " "; return o; }());
        auto set = [&](ref::P v) { w = v; }; ref::P qi(q.begin(), q.end());
        switch (op) {
            case 0: p.setRowSources(q.data()); set(qi); break; case 1: p.setColDestinations(q.data()); set(qi); break; case 2: p.setColSources(q.data()); set(ref::inverse(qi)); break; case 3: p.setRowDestinations(q.data()); set(ref::inverse(qi)); break;
            case 4: case 5: p.swap_rows(a, b); std::swap(w[a], w[b]); break; // rows of the result exchanged
            case 6: case 7: { p.swap_cols(a, b); for (auto& x : w) x = x == a ? b : x == b ? a : x; break; }
            case 8: p.transpose(); w = ref::inverse(w); break;
            case 9: { X t = geom::transpose(p); agree(c, t, ref::inverse(w), true); if (c.b()) { p = t; w = ref::inverse(w); } break; }
            case 10: { X o = make(); o.setRowSources(q.data()); if (c.b()) o.sign(); X r = p * o; agree(c, r, ref::compose(w, qi), true); agree(c, o, qi, false); if (c.b()) { p = r; w = ref::compose(w, qi); } break; }
            case 11: { X o = make(); o.setRowSources(q.data()); if (c.b()) geom::mul(&p, o, p), w = ref::compose(qi, w); else geom::mul(&p, p, o), w = ref::compose(w, qi); break; }
            case 12: { X t = p; if (c.b()) t.swap_rows(a, b); agree(c, p, w, true); if (c.b()) { X u = std::move(t); ref::P v = w; agree(c, u, [&] { ref::P z(n); for (int i = 0; i < n; i++) z[i] = u.getRowSources()[i]; return z; }(), true); } break; }
            case 13: { X v(p); bool e = c.b(); if (e) { SimpleMatrix<double,0,0> id(n, n), o(n, n); X t = geom::transpose(p); geom::mul(&o, p, t); REQUIRE(o == id, "a permutation times its transpose is not the identity"); X r = p * t; ref::P z(n); for (int i = 0; i < n; i++) z[i] = i; agree(c, r, z, true); } else { X o = make(); o.setRowSources(q.data()); REQUIRE((p == o) == (w == qi) && (p != o) == (w != qi), "equality of permutation matrices"); REQUIRE(p == v, "a copy equals its source"); } break; }
            case 14: { index_t g = p.sign(); REQUIRE(g == ref::sign(w), "sign is " << g << " instead of " << ref::sign(w)); break; }
            case 15: { if (c.chance(1, 4)) { p.set_identity(); for (int i = 0; i < n; i++) w[i] = i; } else { p.setRowSources(p.getRowSources()); } break; }
            default: { // conversion to dense and products of vectors
                SimpleMatrix<double,0,0> d(n, n); geom::mtxcopy(&d, p); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) REQUIRE(d(i, j) == (w[i] == j), "dense copy"); break; }
        }
        agree(c, p, w, c.chance(1, 3)); moved |= !std::is_sorted(w.begin(), w.end()); }
    agree(c, p, w, true); c.nontrivial(n > 2 && moved);
}
#if PART(0)
PROP(dynamic_history, 180000) { int n = c.i(1, 12); history<PermutationMatrix<0>>(c, n, [&] { return PermutationMatrix<0>(n); }); }
// every arrangement of up to five places under every swap
PROP(exhaustive_small, 40000) { int n = c.i(1, 6); ref::P w(n); std::vector<index_t> q(n); { std::vector<int> pool; for (int i = 0; i < n; i++) pool.push_back(i); for (int i = 0; i < n; i++) { int k = c.i(0, pool.size() - 1); q[i] = w[i] = pool[k]; pool.erase(pool.begin() + k); } } PermutationMatrix<0> p(n); p.setRowSources(q.data()); if (c.b()) p.sign(); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { auto r = p, s = p; ref::P wr = w, ws = w; r.swap_rows(a, b); std::swap(wr[a], wr[b]); s.swap_cols(a, b); for (auto& x : ws) x = x == a ? b : x == b ? a : x; agree(c, r, wr, false); agree(c, s, ws, false); REQUIRE(r.sign() == ref::sign(wr) && s.sign() == ref::sign(ws), "sign after a swap of " << a << " and " << b); } c.nontrivial(n > 2); }
#endif
#if PART(1)
// long permutations: more than 2^8 (matrices) and 2^16 (sequences) places
PROP(large_matrices, 40) { int n = (int)c.pick({128, 256}) + (int)c.si(4); history<PermutationMatrix<0>>(c, n, [&] { return PermutationMatrix<0>(n); }); }
PROP(long_sequences, 400) {
    int n = (int)c.big(4, 17), mode = c.i(0, 2); uint64_t s = c.draw(~0ull >> 1); std::vector<index_t> q(n); for (int i = 0; i < n; i++) q[i] = i; if (mode == 0) for (int i = n - 1; i > 0; i--) std::swap(q[i], q[pbt::splitmix(s) % (i + 1)]); else if (mode == 1) { int r = pbt::splitmix(s) % n; for (int i = 0; i < n; i++) q[i] = (i + r) % n; } else for (int k = c.i(0, 5); k > 0; k--) std::swap(q[pbt::splitmix(s) % n], q[pbt::splitmix(s) % n]);
    LOG(c, n << " places, mode " << mode); bool odd = false; { std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) for (index_t j = i, k = 0; !seen[j]; j = q[j], k++) { seen[j] = 1; if (k) odd = !odd; } }
    std::vector<int> v(n); for (int i = 0; i < n; i++) v[i] = i * 3 + 1; auto a = q; geom::permutation_apply(a.data(), (index_t)n, v.begin()); for (int i = 0; i < n; i++) { REQUIRE(v[i] == q[i] * 3 + 1, "applied permutation of " << n << ": place " << i << " holds " << v[i] << " instead of " << q[i] * 3 + 1); REQUIRE(a[i] == i, "the permutation is not reset to the identity: place " << i << " is " << a[i]); }
    a = q; index_t g = geom::permutation_sign(a.data(), (index_t)n); REQUIRE(g == (odd ? -1 : 1), "permutation_sign of " << n << " places gives " << g); for (int i = 0; i < n; i++) REQUIRE(a[i] == i, "the permutation is not reset to the identity: place " << i << " is " << a[i]); c.nontrivial(n > 100); c.label("more than 2^16", n > 65536); }
PROP(static_history, 90000) { switch (c.i(0, 3)) { case 0: history<PermutationMatrix<2>>(c, 2, [] { return PermutationMatrix<2>(); }); break; case 1: history<PermutationMatrix<3>>(c, 3, [] { return PermutationMatrix<3>(); }); break; case 2: history<PermutationMatrix<5>>(c, 5, [] { return PermutationMatrix<5>(); }); break; default: history<PermutationMatrix<8>>(c, 8, [] { return PermutationMatrix<8>(); }); } }
PROP(sequences, 100000) { int n = c.i(0, 12); auto q = draw(c, std::max(n, 1)); q.resize(n); if (n == 0) return; ref::P w(q.begin(), q.end()); std::vector<int> v(n); for (auto& x : v) x = c.si(999); auto o = v; auto a = q; geom::permutation_apply(a.data(), (index_t)n, v.begin()); for (int i = 0; i < n; i++) { REQUIRE(v[i] == o[q[i]], "applied permutation: place " << i << " holds " << v[i] << " instead of " << o[q[i]]); REQUIRE(a[i] == i, "the permutation is not reset to the identity: place " << i << " is " << a[i]); } a = q; index_t s = geom::permutation_sign(a.data(), (index_t)n); REQUIRE(s == ref::sign(w), "permutation_sign gives " << s); for (int i = 0; i < n; i++) REQUIRE(a[i] == i, "the permutation is not reset to the identity: place " << i << " is " << a[i]); c.nontrivial(n > 2); }
#endif
