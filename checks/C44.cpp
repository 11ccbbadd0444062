// C44: printed values. Oracle: the list of components, read back from the text.
// thorough: 20
// rule: at least two components, no two alike
#include "values.h"
#include <geomc/function/Dual.h>
typedef std::vector<double> D;
static double num(pbt::Ctx& c) { switch (c.i(0, 6)) { case 0: return c.si(100); case 1: return c.si(1 << 20) / 64.0; case 2: return c.range(-1000, 1000); case 3: return (c.b() ? 1 : -1) * c.logpos(1e-8, 1e8); case 4: return c.si(3); case 5: return (c.b() ? 1 : -1) * std::pow(10.0, c.range(-37, 37)); default: return c.si(1000000000); } }
template<class T> T val(pbt::Ctx& c) { double x = num(c); return std::is_integral_v<T> ? (T)std::max(-2e9, std::min(2e9, x)) : (T)x; }
static bool distinct(const D& v) { if (v.size() < 2) return false; for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < i; j++) if (v[i] == v[j]) return false; return true; }
// the numbers in a text; two numbers have something other than a digit or a sign between them
static bool isnum(const std::string& s, size_t i) { return std::isdigit((unsigned char)s[i]) || ((s[i] == '-' || s[i] == '+' || s[i] == '.') && i + 1 < s.size() && (std::isdigit((unsigned char)s[i + 1]) || s[i + 1] == '.')); }
static D numbers(const std::string& s) { D r; for (size_t i = 0; i < s.size();) { if (!isnum(s, i)) { i++; continue; } const char* b = s.c_str() + i; char* e; r.push_back(strtod(b, &e)); i += std::max<size_t>(1, e - b); if (i < s.size() && isnum(s, i)) r.push_back(std::nan("")); /* run together */ } return r; }
static std::string list(const D& v) { std::ostringstream o; for (double x : v) o << x << " "; return o.str(); }
// rel: the relative error of what the format keeps
static void same(const std::string& text, const D& want, double rel, const char* what) {
    D got = numbers(text); REQUIRE(got.size() == want.size(), what << " of " << want.size() << " components prints " << got.size() << " numbers: " << text);
    for (size_t i = 0; i < got.size(); i++) { REQUIRE(!std::isnan(got[i]), what << " prints numbers without a separator: " << text); REQUIRE(std::fabs(got[i] - want[i]) <= rel * std::fabs(want[i]), what << ": component " << i << " of " << list(want) << "is printed as " << got[i] << " in " << text); }
}
template<class V> std::string print(pbt::Ctx& c, const V& v, int digits) { std::ostringstream o; o << std::setprecision(digits); o << "before;"; std::ostream& r = (o << v); REQUIRE(&r == &o, "printing does not return the stream"); o << ";after"; std::string s = o.str(); REQUIRE(s.size() >= 13 && s.substr(0, 7) == "before;" && s.substr(s.size() - 6) == ";after", "text around the value is lost: " << s); LOG(c, s); return s; }
template<class T> double prec(int digits) { return std::is_integral_v<T> ? 0 : 2 * std::pow(10.0, -std::min(digits, sizeof(T) == 4 ? 9 : 17) + 1) / 2 + 1e-15; }
template<class T, index_t N> void linear(pbt::Ctx& c) {
    int dg = c.i(4, 17); D w; Vec<T,N> v, u; for (index_t i = 0; i < N; i++) { v[i] = val<T>(c); w.push_back((double)v[i]); } same(print(c, v, dg), w, prec<T>(dg), "a vector");
    D r = w; for (index_t i = 0; i < N; i++) { u[i] = val<T>(c); r.push_back((double)u[i]); } Ray<T,N> ray(v, u); same(print(c, ray, dg), r, prec<T>(dg), "a ray"); c.nontrivial(distinct(r));
}
PROP(vectors_rays, 40000) { switch (c.i(0, 8)) { case 0: linear<double,2>(c); break; case 1: linear<double,3>(c); break; case 2: linear<float,4>(c); break; case 3: linear<int,3>(c); break; case 4: linear<index_t,2>(c); break; case 5: linear<double,6>(c); break; case 6: linear<float,2>(c); break; case 7: linear<float,3>(c); break; default: linear<double,4>(c); } }
template<class T> void quatdual(pbt::Ctx& c) {
    int dg = c.i(4, 17); D w; T x[4]; for (T& y : x) { y = (T)num(c); w.push_back((double)y); } Quat<T> q(x[0], x[1], x[2], x[3]); same(print(c, q, dg), w, prec<T>(dg), "a quaternion");
    Dual<T> d(x[0], x[1]); same(print(c, d, dg), {w[0], w[1]}, prec<T>(dg), "a dual number"); c.nontrivial(distinct(w));
}
PROP(quaternions_duals, 40000) { if (c.b()) quatdual<double>(c); else quatdual<float>(c); }
// rows on lines of their own; entries to the five digits the format keeps
template<class M> void lines(pbt::Ctx& c, const M& m, const std::vector<D>& rows, const char* what) {
    std::string s = print(c, m, c.i(4, 17)); std::vector<D> got; std::istringstream in(s); std::string l; while (std::getline(in, l)) { D n = numbers(l); if (!n.empty()) got.push_back(n); }
    REQUIRE(got.size() == rows.size(), what << " of " << rows.size() << " rows prints " << got.size() << " lines of numbers: " << s);
    for (auto& g : got) for (double x : g) REQUIRE(!std::isnan(x), what << " prints numbers without a separator: " << s);
    for (size_t i = 0; i < rows.size(); i++) { REQUIRE(got[i].size() == rows[i].size(), what << ": row " << i << " of " << rows[i].size() << " entries prints " << got[i].size() << ": " << s); for (size_t j = 0; j < rows[i].size(); j++) REQUIRE(std::fabs(got[i][j] - rows[i][j]) <= 1.01e-4 * std::fabs(rows[i][j]), what << ": entry " << i << "," << j << " is " << rows[i][j] << ", printed as " << got[i][j] << ": " << s); }
}
template<class M> void fill(pbt::Ctx& c, M& m, std::vector<D>& rows, D& all) { typedef typename M::elem_t T; for (index_t i = 0; i < m.rows(); i++) { rows.push_back({}); for (index_t j = 0; j < m.cols(); j++) { m(i, j) = (T)num(c); rows.back().push_back((double)m(i, j)); all.push_back((double)m(i, j)); } } }
template<class M> void dense(pbt::Ctx& c, M m, const char* what) { std::vector<D> rows; D all; fill(c, m, rows, all); lines(c, m, rows, what); c.nontrivial(distinct(all)); }
PROP(dense_matrices, 40000) { index_t a = c.i(1, 6), b = c.i(1, 6); switch (c.i(0, 6)) { case 0: dense(c, SimpleMatrix<double,2,3>(), "matrix"); break; case 1: dense(c, SimpleMatrix<float,3,2,COL_MAJOR>(), "column-major matrix"); break; case 2: dense(c, SimpleMatrix<double,0,0>(a, b), "dynamic matrix"); break; case 3: dense(c, SimpleMatrix<double,0,0,COL_MAJOR>(a, b), "dynamic column-major matrix"); break; case 4: dense(c, SimpleMatrix<double,4,1>(), "column"); break; case 5: dense(c, SimpleMatrix<double,1,4>(), "row"); break; default: dense(c, SimpleMatrix<float,0,0>(a, b), "dynamic matrix"); } }
PROP(integer_matrices, 20000) { SimpleMatrix<index_t,0,0> m(c.i(1, 4), c.i(1, 4)); SimpleMatrix<double,0,0> d(c.i(1, 4), c.i(1, 4)); bool wide = c.b(); std::vector<D> rows; D all; if (wide) { for (index_t i = 0; i < m.rows(); i++) { rows.push_back({}); for (index_t j = 0; j < m.cols(); j++) { m(i, j) = (index_t)(c.b() ? 1 : -1) * (index_t)c.logpos(1, 4e15); rows.back().push_back((double)m(i, j)); all.push_back((double)m(i, j)); } } lines(c, m, rows, "integer matrix"); }
    else { for (index_t i = 0; i < d.rows(); i++) { rows.push_back({}); for (index_t j = 0; j < d.cols(); j++) { d(i, j) = (c.b() ? 1 : -1) * std::pow(10.0, c.range(-290, 290)); rows.back().push_back(d(i, j)); all.push_back(d(i, j)); } } lines(c, d, rows, "matrix of very large or small numbers"); } c.nontrivial(distinct(all)); }
template<class M> void diag(pbt::Ctx& c, M m) { std::vector<D> rows; D all; for (index_t i = 0; i < std::min(m.rows(), m.cols()); i++) { m.diagonal(i) = num(c); all.push_back(m.diagonal(i)); } for (index_t i = 0; i < m.rows(); i++) { rows.push_back(D(m.cols())); if (i < m.cols()) rows[i][i] = all[i]; } lines(c, m, rows, "diagonal matrix"); c.nontrivial(distinct(all)); }
template<index_t N> void perm(pbt::Ctx& c, index_t n) { index_t p[8]; for (index_t i = 0; i < n; i++) p[i] = i; for (index_t i = n - 1; i > 0; i--) std::swap(p[i], p[c.i(0, i)]); PermutationMatrix<N> m(n); m.setRowSources(p); std::vector<D> rows; bool moved = false; for (index_t i = 0; i < n; i++) { rows.push_back(D(n)); rows[i][p[i]] = 1; moved |= p[i] != i; } lines(c, m, rows, "permutation matrix"); c.nontrivial(moved); }
PROP(special_matrices, 40000) { switch (c.i(0, 4)) { case 0: diag(c, DiagMatrix<double,3,3>()); break; case 1: diag(c, DiagMatrix<double,2,4>()); break; case 2: { index_t a = c.i(1, 6), b = c.i(1, 6); diag(c, DiagMatrix<double,0,0>(a, b)); break; } case 3: perm<4>(c, 4); break; default: perm<0>(c, c.i(1, 7)); } }
template<class T, index_t N> void xf(pbt::Ctx& c) { AffineTransform<T,N> x; std::vector<D> rows; D all; fill(c, x.mat, rows, all); for (int i = 0; i <= N; i++) for (int j = 0; j <= N; j++) x.inv(i, j) = (T)num(c); lines(c, x, rows, "transform"); c.nontrivial(distinct(all)); }
PROP(transforms, 20000) { switch (c.i(0, 2)) { case 0: xf<double,2>(c); break; case 1: xf<double,3>(c); break; default: xf<float,3>(c); } }
