// C21: dual numbers. Every operation of a random chain is compared with its analytic value and derivative in extended precision.
// thorough: 20
// rule: more than three operations, or a derivative that is neither zero nor negligible
// parts: 3
#include "pbt.h"
#include <geomc/function/Dual.h>
#include <geomc/linalg/Vec.h>
using namespace geom;
typedef long double L; typedef DiscontinuityPolicy DP;
namespace ref { struct V { L x, dx, sx, sd; }; } // value, derivative, and the sizes of their terms
static L la(L x) { return x < 0 ? -x : x; }
static bool fine(L x) { return x == 0 || (la(x) > 1e-8L && la(x) < 1e8L); }
template<class T> T num(pbt::Ctx& c) { switch (c.i(0, 4)) { case 0: case 1: return c.si(4); case 2: return (T)(c.si(8) * .5); case 3: return (T)c.range(-2, 2); default: return (T)c.real(5); } }
template<class D> D fresh(pbt::Ctx& c) { typedef decltype(D().x) T; return c.chance(1, 5) ? D(num<T>(c)) : D(num<T>(c), num<T>(c)); }
static std::string showL(L x) { std::ostringstream o; o << x; return o.str(); }
template<class D> std::string show(const D& d) { return "(" + showL(d.x) + ", " + showL(d.dx) + ")"; }
template<class D> void close(const D& r, ref::V w, const char* op, const std::string& in) {
    typedef decltype(D().x) T; L e = std::numeric_limits<T>::epsilon(); REQUIRE(la(r.x - w.x) <= 8 * e * (la(w.x) + w.sx), op << " of " << in << " has value " << (double)r.x << " instead of " << (double)w.x); REQUIRE(la(r.dx - w.dx) <= 32 * e * (la(w.dx) + w.sd), op << " of " << in << " has derivative " << (double)r.dx << " instead of " << (double)w.dx);
}
// one-sided derivatives l and r at a kink
template<class D, DP P> bool kink(const D& got, L l, L r) {
    L e = 4 * std::numeric_limits<decltype(D().x)>::epsilon() * (la(l) + la(r)); if (P == DP::NaN) return std::isnan(got.dx) || (l == r && got.dx == l); if (l == r) return got.dx == l;
    return P == DP::Left ? got.dx == l : P == DP::Right ? got.dx == r : P == DP::Average ? la(got.dx - (l + r) / 2) <= e : std::isinf(got.dx) && (got.dx > 0) == (r > l);
}
enum Op { ADD, SUB, MUL, DIV, IADD, ISUB, IMUL, IDIV, ADDS, SADD, SUBS, SSUB, MULS, SMUL, DIVS, SDIV, IADDS, ISUBS, IMULS, IDIVS, NEG, INC, SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, EXP, LOG_, POW, POWS, SPOW, SQRT, ABS, CEIL, FLOOR, MIN, MAX, FMA, MADD, SOP, DOP, OPS };
template<class T, DP P, class S> void step(pbt::Ctx& c, Dual<T, P>* st, int& fresh_results) {
    typedef Dual<T, P> D; int ia = c.i(0, 3), ib = c.i(0, 3), ic = c.i(0, 3), id = c.i(0, 3); const D a = st[ia], b = st[ib], k = st[ic], d = st[id]; S s = (S)(std::is_integral<S>::value ? c.si(5) : num<double>(c)); int op = c.i(0, OPS - 1); D r = a; ref::V w = {0, 0, 0, 0}; const char* name = "?"; std::string in = show(a) + " " + show(b); L ax = a.x, ad = a.dx, bx = b.x, bd = b.dx, sx = (L)s; bool kinked = false; L kl = 0, kr = 0, kx = 0;
    auto sd = [&](L u, L v) { w.dx = u + v; w.sd = la(u) + la(v); }; auto f = [&](L v, L dv) { w.x = v; w.dx = dv; }; std::string ins = show(a) + " and the scalar " + showL((L)s);
    if (op == ADD || op == IADD) { name = "sum"; if (op == ADD) r = a + b; else { st[ia] = a; D& t = st[ia]; t += st[ib]; r = t; } w.x = ax + bx; sd(ad, bd); }
    else if (op == SUB || op == ISUB) { name = "difference"; if (op == SUB) r = a - b; else { D& t = st[ia]; t -= st[ib]; r = t; } w.x = ax - bx; sd(ad, -bd); }
    else if (op == MUL || op == IMUL) { name = op == MUL ? "product" : "in-place product"; if (op == MUL) r = a * b; else { D& t = st[ia]; t *= st[ib]; r = t; } w.x = ax * bx; sd(ax * bd, ad * bx); }
    else if (op == DIV || op == IDIV) { if (bx == 0) return; name = op == DIV ? "quotient" : "in-place quotient"; if (op == DIV) r = a / b; else { D& t = st[ia]; t /= st[ib]; r = t; } w.x = ax / bx; sd(ad / bx, -ax * bd / (bx * bx)); }
    else if (op >= ADDS && op <= IDIVS) { name = "mixed arithmetic"; in = ins; D t = a;
        switch (op) { case ADDS: name = "dual + scalar"; r = a + s; f(ax + sx, ad); break; case SADD: name = "scalar + dual"; r = s + a; f(ax + sx, ad); break; case SUBS: name = "dual - scalar"; r = a - s; f(ax - sx, ad); break; case SSUB: name = "scalar - dual"; r = s - a; f(sx - ax, -ad); break; case MULS: name = "dual * scalar"; r = a * s; f(ax * sx, ad * sx); break; case SMUL: name = "scalar * dual"; r = s * a; f(ax * sx, ad * sx); break;
            case DIVS: if (sx == 0) return; name = "dual / scalar"; r = a / s; f(ax / sx, ad / sx); break; case SDIV: if (ax == 0) return; name = "scalar / dual"; r = s / a; f(sx / ax, -sx * ad / (ax * ax)); break; case IADDS: name = "dual += scalar"; t += s; r = t; f(ax + sx, ad); break; case ISUBS: name = "dual -= scalar"; t -= s; r = t; f(ax - sx, ad); break; case IMULS: name = "dual *= scalar"; t *= s; r = t; f(ax * sx, ad * sx); break; case IDIVS: if (sx == 0) return; name = "dual /= scalar"; t /= s; r = t; f(ax / sx, ad / sx); break; } w.sx = la(w.x) + la(sx) + la(ax); if (op >= MULS && op <= SDIV) w.sx = 0; }
    else switch (op) {
        case NEG: name = "negation"; r = -a; f(-ax, -ad); break;
        case INC: { name = "increment"; D t = a; int m = c.i(0, 3); D u = m == 0 ? ++t : m == 1 ? t++ : m == 2 ? --t : t--; r = t; f(ax + (m < 2 ? 1 : -1), ad); w.sx = la(ax); REQUIRE(m % 2 ? u.x == a.x && u.dx == a.dx : u.x == t.x && u.dx == t.dx, "result of increment"); break; }
        case SIN: name = "sin"; r = std::sin(a); f(std::sin(ax), ad * std::cos(ax)); break;
        case COS: name = "cos"; r = std::cos(a); f(std::cos(ax), -ad * std::sin(ax)); break;
        case TAN: name = "tan"; r = std::tan(a); f(std::tan(ax), ad / (std::cos(ax) * std::cos(ax))); break;
        case ASIN: case ACOS: { if (la(ax) >= 1) return; name = op == ASIN ? "asin" : "acos"; r = op == ASIN ? std::asin(a) : std::acos(a); L q = ad / std::sqrt((1 - ax) * (1 + ax)); f(op == ASIN ? std::asin(ax) : std::acos(ax), op == ASIN ? q : -q); w.sd = la(q) / (1 - ax * ax); break; }
        case ATAN: name = "atan"; r = std::atan(a); f(std::atan(ax), ad / (1 + ax * ax)); break;
        case ATAN2: { L q = ax * ax + bx * bx; if (q == 0) return; name = "atan2"; r = std::atan2(a, b); w.x = std::atan2(ax, bx); sd(bx * ad / q, -ax * bd / q); break; }
        case EXP: if (la(ax) > 15) return; name = "exp"; r = std::exp(a); f(std::exp(ax), ad * std::exp(ax)); break;
        case LOG_: if (ax <= 0) return; name = "log"; r = std::log(a); f(std::log(ax), ad / ax); break;
        case POW: { if (ax <= 0 || la(std::log(ax) * bx) > 15) return; name = "pow"; r = std::pow(a, b); w.x = std::pow(ax, bx); sd(ad * bx * std::pow(ax, bx - 1), bd * std::log(ax) * w.x); break; }
        case POWS: { bool whole = sx == std::floor(sx); if ((ax < 0 && !whole) || (ax == 0 && sx < 1) || (ax != 0 && la(std::log(la(ax)) * sx) > 15)) return; in = ins; name = "pow to a scalar"; r = std::pow(a, s); f(std::pow(ax, sx), sx == 0 ? 0 : ad * sx * std::pow(ax, sx - 1)); w.sd = 2 * la(w.dx); break; }
        case SPOW: if (sx <= 0 || la(std::log(sx) * ax) > 15) return; in = ins; name = "scalar pow"; r = std::pow(s, a); f(std::pow(sx, ax), ad * std::log(sx) * std::pow(sx, ax)); if (std::is_same<S, float>::value && sizeof(T) > 4) w.sd = la(w.dx) * 1e8L; break; // the logarithm is taken in the precision of the scalar
        case SQRT: if (ax <= 0) return; name = "sqrt"; r = std::sqrt(a); f(std::sqrt(ax), ad / (2 * std::sqrt(ax))); break;
        case ABS: name = "abs"; r = std::abs(a); kx = la(ax); if (ax == 0) { kinked = true; kl = -ad; kr = ad; if (ad < 0 && P != DP::NaN && P != DP::Average) { REQUIRE(P == DP::Inf ? std::isinf(r.dx) : la(r.dx) == -ad, "abs at zero has derivative " << (double)r.dx << " for an incoming derivative " << (double)ad); return; } } else f(kx, ax < 0 ? -ad : ad); break;
        case CEIL: case FLOOR: { name = op == CEIL ? "ceil" : "floor"; r = op == CEIL ? std::ceil(a) : std::floor(a); L v = op == CEIL ? std::ceil(ax) : std::floor(ax); f(v, 0); if (v == ax && (P == DP::NaN || P == DP::Inf)) { REQUIRE(r.x == v, name << " of " << in << " has value " << (double)r.x); if (ad != 0) { REQUIRE(P == DP::NaN ? std::isnan(r.dx) : std::isinf(r.dx) && (r.dx > 0) == (ad > 0), name << " of " << in << " at the jump has derivative " << (double)r.dx); c.label("kink"); } return; } break; }
        case MIN: case MAX: name = op == MIN ? "min" : "max"; r = op == MIN ? std::min(a, b) : std::max(a, b); kx = op == MIN ? std::min(ax, bx) : std::max(ax, bx); if (ax == bx) { kinked = true; bool lo = op == MAX; kl = lo ? std::min(ad, bd) : std::max(ad, bd); kr = lo ? std::max(ad, bd) : std::min(ad, bd); } else f(kx, (op == MIN) == (ax < bx) ? ad : bd); break;
        case FMA: case MADD: name = "multiply-add"; in += " " + show(k); r = op == FMA ? std::fma(a, b, k) : multiply_add(a, b, k); w = {ax * bx + k.x, ax * bd + ad * bx + k.dx, la(ax * bx) + la(k.x), la(ax * bd) + la(ad * bx) + la(k.dx)}; break;
        default: { L g = op == SOP ? 1 : -1; name = op == SOP ? "sum of products" : "difference of products"; in += " " + show(k) + " " + show(d); r = op == SOP ? sum_of_products(a, b, k, d) : diff_of_products(a, b, k, d); L kx2 = k.x, kd = k.dx, dx = d.x, dd = d.dx; w = {ax * bx + g * kx2 * dx, ax * bd + ad * bx + g * (kx2 * dd + kd * dx), la(ax * bx) + la(kx2 * dx), la(ax * bd) + la(ad * bx) + la(kx2 * dd) + la(kd * dx)}; }
    }
    LOG(c, name << " of " << in);
    if (kinked) { REQUIRE(r.x == kx, name << " of " << in << " has value " << (double)r.x); REQUIRE((kink<D, P>(r, kl, kr)), name << " of " << in << " at the kink has derivative " << (double)r.dx << ", the one-sided derivatives are " << (double)kl << " and " << (double)kr); c.label("kink"); if (!std::isfinite(r.dx)) return; } else close(r, w, name, in);
    if (!fine(r.x) || !fine(r.dx)) r = fresh<D>(c), fresh_results++; st[c.i(0, 3)] = r;
}
template<class T, DP P> void chain(pbt::Ctx& c) {
    typedef Dual<T, P> D; D st[4]; for (auto& d : st) { REQUIRE(d.x == 0 && d.dx == 0, "default dual is " << show(d)); d = fresh<D>(c); } int n = c.i(1, 12), fr = 0; for (int i = 0; i < n; i++) { for (auto& d : st) if (!fine(d.x) || !fine(d.dx)) d = fresh<D>(c); switch (c.i(0, 3)) { case 0: step<T, P, int>(c, st, fr); break; case 1: step<T, P, float>(c, st, fr); break; default: step<T, P, double>(c, st, fr); } }
    const D a = st[0], b = st[1]; REQUIRE((a == b) == (a.x == b.x) && (a != b) == (a.x != b.x) && (a < b) == (a.x < b.x) && (a > b) == (a.x > b.x) && (a <= b) == (a.x <= b.x) && (a >= b) == (a.x >= b.x), "comparison of " << show(a) << " and " << show(b)); REQUIRE((T)a == a.x && (int)(T)a == (int)a, "conversion to a plain number");
    Dual<T, DP::Left> q(a); Dual<T, DP::NaN> q2(a); REQUIRE(q.x == a.x && q.dx == a.dx && q2.x == a.x && q2.dx == a.dx, "changing the policy of " << show(a) << " gives " << show(q)); if constexpr (P == DP::Right) { Dual<float> g = a; Dual<double> h = a; REQUIRE(g.x == (float)a.x && g.dx == (float)a.dx && h.x == a.x && h.dx == a.dx, "changing the precision"); }
    REQUIRE(std::isfinite(a) && !std::isnan(a) && !std::isinf(a), "finite"); D nn(a.x, NAN), ii(INFINITY, a.dx); REQUIRE(std::isnan(nn) && !std::isfinite(nn) && std::isinf(ii) && !std::isfinite(ii), "not finite"); D t(a); t = (T)3; REQUIRE(t.x == 3 && t.dx == 0, "assigning a constant gives " << show(t)); D t2((T)2); REQUIRE(t2.x == 2 && t2.dx == 0, "a constant"); REQUIRE((geom::hash<D, size_t>(a)) == (geom::hash<D, size_t>(D(a.x, a.dx))), "hash");
    c.nontrivial(n > 3);
}
#if PART(0)
PROP(chain_right, 400000) { chain<double, DP::Right>(c); }
PROP(chain_float, 200000) { chain<float, DP::Right>(c); }
PROP(chain_nan, 200000) { chain<double, DP::NaN>(c); }
#endif
#if PART(1)
PROP(chain_left, 400000) { chain<double, DP::Left>(c); }
PROP(chain_average, 400000) { chain<double, DP::Average>(c); }
PROP(chain_inf, 200000) { chain<float, DP::Inf>(c); }
#endif
#if PART(2)
// whole expressions written once for any number type: value as with plain numbers, derivative as the slope of a fine secant in extended precision
template<class N> N horner(const std::vector<int>& co, N x) { N r(co[0]); for (size_t i = 1; i < co.size(); i++) r = r * x + co[i]; return r; }
PROP(polynomials, 200000) { std::vector<int> co(c.i(1, 7)); for (auto& k : co) k = c.si(9); int x = c.si(6), dx = c.si(4); LOG(c, "polynomial of degree " << co.size() - 1 << " at " << x); Dual<double> d = horner(co, Dual<double>(x, dx)); double v = 0, dv = 0; for (size_t i = 0; i < co.size(); i++) { dv = dv * x + v; v = v * x + co[i]; } REQUIRE(d.x == v && d.dx == dv * dx, "polynomial has value and derivative " << show(d) << " instead of " << v << " " << dv * dx); c.nontrivial(co.size() > 2 && dx != 0); }
template<class N, class S> N expression(const std::vector<int>& e, N x, S half) {
    N s[3] = {x, x * half + 1, N(half) - x}; using std::sin; using std::cos; using std::exp; using std::atan; using std::sqrt; using std::log; using std::pow;
    for (size_t i = 0; i + 2 < e.size(); i += 3) { N &a = s[e[i + 1] % 3], b = s[e[i + 2] % 3]; switch (e[i] % 11) { case 0: a = a + b; break; case 1: a = a - b * half; break; case 2: a = sin(a) * b; break; case 3: a = a / (b * b + 2); break; case 4: a = exp(-(a * a)); break; case 5: a = sqrt(a * a + 1); break; case 6: a = log(b * b + 1) + a; break; case 7: a = atan(a + b); break; case 8: a = pow(a * a + 1, cos(b)); break; case 9: a = 1 / (a * a + 1) - b; break; default: a = multiply_add(cos(a), b, s[0]); } }
    return s[0] + s[1] + s[2];
}
PROP(expressions, 200000) {
    std::vector<int> e(3 * c.i(1, 6)); for (auto& k : e) k = c.i(0, 65); L x = c.range(-2, 2); x = (double)x; LOG(c, "expression of " << e.size() / 3 << " steps at " << (double)x); Dual<double> d = expression<Dual<double>, double>(e, Dual<double>((double)x, 1), .5); L v = expression<L, L>(e, x, .5L); if (la(v) > 1e6L) { c.assume(false); return; }
    auto slope = [&](L h) { return (expression<L, L>(e, x + h, .5L) - expression<L, L>(e, x - h, .5L)) / (2 * h); }; L h = 1e-5L, s1 = slope(h), s2 = slope(h / 2), s = (4 * s2 - s1) / 3, err = la(s2 - s1) + 1e-8L * (1 + la(s) + la(v)); if (err > 1e-3L * (1 + la(s))) { c.assume(false); return; } c.nontrivial(e.size() > 3 && la(s) > 1e-3L);
    REQUIRE(la(d.x - v) <= 1e-9L * (1 + la(v)) + la(s) * 1e-9L, "value " << d.x << " instead of " << (double)v); REQUIRE(la(d.dx - s) <= 10 * err + 1e-6L * la(s), "derivative " << d.dx << " instead of about " << (double)s);
}
PROP(vectors, 200000) { typedef Dual<double> D; Vec<D, 3> v, w; double x[6], y[6]; for (int i = 0; i < 6; i++) { x[i] = c.si(9); y[i] = c.si(9); (i < 3 ? v : w)[i % 3] = D(x[i], y[i]); } LOG(c, "vectors of duals " << x[0] << " " << x[1] << " " << x[2]); D d = v.dot(w); double a = 0, b = 0; for (int i = 0; i < 3; i++) a += x[i] * x[i + 3], b += x[i] * y[i + 3] + y[i] * x[i + 3]; REQUIRE(d.x == a && d.dx == b, "dot product " << show(d) << " instead of " << a << " " << b); Vec<D, 3> k = v ^ w; for (int i = 0; i < 3; i++) { int p = (i + 1) % 3, q = (i + 2) % 3; REQUIRE(k[i].x == x[p] * x[q + 3] - x[q] * x[p + 3] && k[i].dx == x[p] * y[q + 3] + y[p] * x[q + 3] - x[q] * y[p + 3] - y[q] * x[p + 3], "cross product component " << i << " " << show(k[i])); } D m = geom::mix(D(.5, 1), v[0], w[0]); REQUIRE(m.x == (x[0] + x[3]) / 2 && m.dx == (y[0] + y[3]) / 2 + x[3] - x[0], "mixture " << show(m)); c.nontrivial(); }
#endif
