// C06: hashing. Oracle: an independent SipHash-2-4; equality of objects.
// thorough: 20
// rule: the message is not empty / the object is compared with a changed or equal but differently stored copy
#include "pbt.h"
#include <bit>
#include "values.h"
#include <geomc/Hash.h>
using namespace geom;
typedef unsigned __int128 u128;

// ---- SipHash-2-4 written from the paper (state as array, message as padded words)
struct Sip {
    uint64_t v[4];
    static uint64_t rl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    void round() {
        v[0] += v[1]; v[2] += v[3]; v[1] = rl(v[1], 13); v[3] = rl(v[3], 16); v[1] ^= v[0]; v[3] ^= v[2]; v[0] = rl(v[0], 32);
        v[2] += v[1]; v[0] += v[3]; v[1] = rl(v[1], 17); v[3] = rl(v[3], 21); v[1] ^= v[2]; v[3] ^= v[0]; v[2] = rl(v[2], 32);
    }
    static std::pair<uint64_t, uint64_t> run(std::vector<uint8_t> m, uint64_t k0, uint64_t k1, bool wide) {
        Sip s{{k0 ^ 0x736f6d6570736575ull, k1 ^ 0x646f72616e646f6dull, k0 ^ 0x6c7967656e657261ull, k1 ^ 0x7465646279746573ull}};
        if (wide) s.v[1] ^= 0xee;
        uint8_t len = (uint8_t)m.size();
        while (m.size() % 8 != 7) m.push_back(0);
        m.push_back(len);
        for (size_t i = 0; i < m.size(); i += 8) {
            uint64_t w = 0; for (int b = 7; b >= 0; b--) w = w << 8 | m[i + b];
            s.v[3] ^= w; s.round(); s.round(); s.v[0] ^= w;
        }
        s.v[2] ^= wide ? 0xee : 0xff;
        for (int i = 0; i < 4; i++) s.round();
        uint64_t a = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3], b = 0;
        if (wide) { s.v[1] ^= 0xdd; for (int i = 0; i < 4; i++) s.round(); b = s.v[0] ^ s.v[1] ^ s.v[2] ^ s.v[3]; }
        return {a, b};
    }
};
static std::vector<uint8_t> message(pbt::Ctx& c) {
    if (c.chance(1, 400)) { std::vector<uint8_t> m(c.big(8, 17)); uint64_t s = c.draw(~0ull >> 1); for (auto& x : m) x = (uint8_t)pbt::splitmix(s); return m; }
    size_t n = c.chance(1, 8) ? c.i(0, 600) : c.i(0, 40);
    std::vector<uint8_t> m(n); int kind = c.i(0, 2);
    for (size_t i = 0; i < n; i++) m[i] = kind == 0 ? c.draw(255) : kind == 1 ? (uint8_t)(i * 7) : (c.draw(3) == 0 ? 0xff : 0);
    return m;
}
static uint64_t key(pbt::Ctx& c) { return c.chance(1, 4) ? c.draw(3) : c.draw(~0ull); }

EXAMPLE(published_vectors) {   // key 00..0f, messages 00,01,..: first entries of the published table
    static const uint64_t want[] = {0x726fdb47dd0e0e31ull, 0x74f839c593dc67fdull, 0x0d6c8009d9a94f5aull, 0x85676696d7fb7e2dull, 0xcf2794e0277187b7ull, 0x18765564cd99a68dull, 0xcbc9466e58fee3ceull, 0xab0200f58b01d137ull};
    uint8_t k[16]; for (int i = 0; i < 16; i++) k[i] = i;
    for (int n = 0; n < 8; n++) {
        uint8_t m[8]; for (int i = 0; i < n; i++) m[i] = i;
        uint64_t o; geom::detail::siphash(m, n, k, (uint8_t*)&o, 8);
        REQUIRE(o == want[n], "published vector " << n << " gives " << std::hex << o);
        REQUIRE(Sip::run(std::vector<uint8_t>(m, m + n), 0x0706050403020100ull, 0x0f0e0d0c0b0a0908ull, false).first == want[n], "reference implementation");
    }
}
PROP(siphash_any_message, 1500000) {
    auto m = message(c); uint64_t k[2] = {key(c), key(c)};
    LOG(c, m.size() << " bytes, key " << k[0] << " " << k[1]);
    size_t off = c.i(0, 7); std::vector<uint8_t> buf(off); buf.insert(buf.end(), m.begin(), m.end());
    std::unique_ptr<uint8_t[]> in(new uint8_t[buf.size() + 1]); std::copy(buf.begin(), buf.end(), in.get() + 1);     // exact end: reads past the message are caught
    const uint8_t* p = in.get() + 1 + off;
    uint8_t o8[9], o16[17]; memset(o8, 0x5a, 9); memset(o16, 0x5a, 17);
    geom::detail::siphash(p, m.size(), k, o8, 8); geom::detail::siphash(p, m.size(), k, o16, 16);
    auto a = Sip::run(m, k[0], k[1], false), b = Sip::run(m, k[0], k[1], true);
    uint64_t r, r2[2]; memcpy(&r, o8, 8); memcpy(r2, o16, 16);
    REQUIRE(r == a.first, "64 bit SipHash of " << m.size() << " bytes"); REQUIRE(o8[8] == 0x5a && o16[16] == 0x5a, "wrote past the output");
    REQUIRE(r2[0] == b.first && r2[1] == b.second, "128 bit SipHash of " << m.size() << " bytes");
    u128 nonce = (u128)k[1] << 64 | k[0];
    u128 h = geom::hash_bytes<u128>(nonce, p, m.size());
    REQUIRE((uint64_t)(h >> 64) == b.first && (uint64_t)h == b.second, "hash_bytes with a 128 bit hash is not the keyed hash of the bytes");
    if (!m.empty()) {
        auto q = m; size_t at = c.i(0, m.size() - 1); q[at] ^= 1 << c.i(0, 7);
        REQUIRE((geom::hash_bytes<u128>(nonce, q.data(), q.size()) != h), "changing byte " << at << " of " << m.size() << " left the 128 bit hash");
        REQUIRE((geom::hash_bytes<size_t>(7, q.data(), q.size()) != geom::hash_bytes<size_t>(7, m.data(), m.size())), "changing byte " << at << " of " << m.size() << " left the hash");
    }
    c.nontrivial(m.size() >= 1); c.label("multi block", m.size() >= 8); c.label("more than 65536 bytes", m.size() > 65536); c.label("tail", m.size() % 8 != 0);
}

// ---- objects
template<class T> bool eq(const T& a, const T& b) { return a == b; }
template<class T, index_t N> bool eq(const Ray<T,N>& a, const Ray<T,N>& b) { return a.origin == b.origin && a.direction == b.direction; }
template<class T> void object(pbt::Ctx& c) {
    Nums n; n.c = &c;
    T a = Gen<T>::make(n); Nums n2 = n; n2.at = 0; n2.flip = true;
    T b = Gen<T>::make(n2);
    LOG(c, Gen<T>::nm << " of " << n.v.size() << " numbers");
    REQUIRE(eq(a, b), Gen<T>::nm << " copies built from equal numbers compare unequal");
    size_t h = std::hash<T>{}(a);
    REQUIRE(h == std::hash<T>{}(b), "equal " << Gen<T>::nm << "s hash differently");
    REQUIRE((h == geom::hash<T, size_t>(a)), "std::hash and geom::hash disagree on " << Gen<T>::nm);
    REQUIRE((geom::hash<T, uint32_t>(a) == geom::hash<T, uint32_t>(b)), "equal " << Gen<T>::nm << "s have different 32 bit hashes");
    REQUIRE((geom::hash<T, uint16_t>(a) == geom::hash<T, uint16_t>(b)), "equal " << Gen<T>::nm << "s have different 16 bit hashes");
    T cp = a; REQUIRE(std::hash<T>{}(cp) == h, "a copy of a " << Gen<T>::nm << " hashes differently");
    // one component changed
    Nums n3 = n; n3.at = 0; size_t at = c.i(0, n.v.size() - 1);
    double old = n3.v[at]; n3.v[at] = c.b() ? old + 1 : -old - 3; 
    T d = Gen<T>::make(n3);
    if (eq(d, a)) { c.label("component without effect"); return; }
    REQUIRE(std::hash<T>{}(d) != h, Gen<T>::nm << "s that differ only in number " << at << " of " << n.v.size() << " (" << old << " / " << n3.v[at] << ") hash alike");
    REQUIRE((geom::hash<T, uint32_t>(d) != geom::hash<T, uint32_t>(a)) || (geom::hash<T, uint16_t>(d) != geom::hash<T, uint16_t>(a)) || std::hash<T>{}(d) != h, "");
    bool zero = false; for (double x : n.v) zero |= x == 0;
    c.label("has a zero", zero); c.nontrivial();
}
PROP(vec, 600000)      { switch (c.i(0, 6)) { case 6: object<Vec<double,24>>(c); break; case 0: object<Vec<double,2>>(c); break; case 1: object<Vec<double,3>>(c); break; case 2: object<Vec<float,4>>(c); break; case 3: object<Vec<double,5>>(c); break; case 4: object<Vec<int,3>>(c); break; default: object<Vec<float,2>>(c); } }
// matrices and buffers whose size is only known at run time
PROP(long_matrix, 60000) {
    int r = c.i(1, 9), k = c.i(1, 9); SimpleMatrix<double,0,0> a(r, k), b(r, k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) { double x = c.si(4) * .5; a(i, j) = x; b(i, j) = x == 0 && c.b() ? -0. : x; } LOG(c, "a dynamic matrix of " << r << "x" << k); typedef SimpleMatrix<double,0,0> M; c.nontrivial(r * k > 1);
    REQUIRE(a == b && std::hash<M>{}(a) == std::hash<M>{}(b) && (geom::hash<M, uint32_t>(a) == geom::hash<M, uint32_t>(b)), "equal matrices hash differently"); int i = c.i(0, r - 1), j = c.i(0, k - 1); b(i, j) += 1; REQUIRE(std::hash<M>{}(a) != std::hash<M>{}(b), "matrices that differ only at " << i << "," << j << " hash alike");
    std::vector<double> v(a.data_begin(), a.data_begin() + r * k), w = v; uint64_t nonce = c.draw(~0ull); REQUIRE((geom::hash_array<double, uint64_t>(nonce, v.data(), v.size()) == geom::hash_array<double, uint64_t>(nonce, w.data(), w.size())), "equal arrays hash differently"); size_t at = c.i(0, r * k - 1); w[at] -= 1; REQUIRE((geom::hash_array<double, uint64_t>(nonce, v.data(), v.size()) != geom::hash_array<double, uint64_t>(nonce, w.data(), w.size())), "arrays that differ only at " << at << " hash alike");
}
PROP(huge_matrix, 1500) {
    int r = c.big(1, 9), k = c.big(1, 9); uint64_t s = c.draw(~0ull >> 1); typedef SimpleMatrix<double,0,0> M; M a(r, k), b(r, k); for (int i = 0; i < r; i++) for (int j = 0; j < k; j++) a(i, j) = b(i, j) = (int)(pbt::splitmix(s) % 9) - 4; LOG(c, "a dynamic matrix of " << r << "x" << k); c.nontrivial(r * k > 256); c.label("more than 65536 entries", r * k > 65536);
    REQUIRE(a == b && std::hash<M>{}(a) == std::hash<M>{}(b) && (geom::hash<M, uint32_t>(a) == geom::hash<M, uint32_t>(b)), "equal matrices hash differently"); int i = c.i(0, r - 1), j = c.i(0, k - 1); b(i, j) += 1; REQUIRE(std::hash<M>{}(a) != std::hash<M>{}(b), "matrices that differ only at " << i << "," << j << " hash alike");
    b(i, j) -= 1; size_t n = r * k, at = c.i(0, n - 1); uint64_t nonce = c.draw(~0ull); auto h = [&](const M& m) { return geom::hash_array<double, uint64_t>(nonce, m.data_begin(), n); }; REQUIRE(h(a) == h(b), "equal arrays hash differently"); b.data_begin()[at] += 1; REQUIRE(h(a) != h(b), "arrays that differ only at " << at << " hash alike"); REQUIRE((geom::hash_array<double, uint64_t>(nonce, a.data_begin(), at) != h(a)), "an array hashes like its first " << at << " elements");
}
PROP(ray, 300000)      { if (c.b()) object<Ray<double,3>>(c); else object<Ray<float,2>>(c); }
PROP(quat, 300000)      { object<Quat<double>>(c); }
PROP(matrix, 300000)    { switch (c.i(0, 4)) { case 2: object<SimpleMatrix<double,5,4>>(c); break; case 3: object<SimpleMatrix<float,7,6>>(c); break; case 0: object<SimpleMatrix<double,3,2>>(c); break; case 1: object<SimpleMatrix<double,1,4>>(c); break; default: object<SimpleMatrix<float,3,3>>(c); } }
PROP(transform, 300000) { if (c.b()) object<AffineTransform<double,2>>(c); else object<AffineTransform<double,3>>(c); }
PROP(rect, 400000)      { switch (c.i(0, 2)) { case 0: object<Rect<double,3>>(c); break; case 1: object<Rect<int,2>>(c); break; default: object<Rect<double,1>>(c); } }
PROP(sphere, 300000)    { if (c.b()) object<Sphere<double,3>>(c); else object<Sphere<float,2>>(c); }
PROP(capsule, 300000)   { object<Capsule<double,3>>(c); }
PROP(cylinder, 300000)  { object<Cylinder<double,3>>(c); }
PROP(plane, 300000)     { object<Plane<double,3>>(c); }
PROP(frustum, 300000)   { object<Frustum<Rect<double,2>>>(c); }
PROP(extruded, 300000)  { object<Extruded<Sphere<double,2>>>(c); }
PROP(oriented, 300000)  { object<Oriented<Rect<double,2>>>(c); }
PROP(dilated, 300000)   { object<Dilated<Rect<double,3>>>(c); }
PROP(simplex, 400000)   { if (c.b()) object<Simplex<double,3>>(c); else object<Simplex<double,2>>(c); }
