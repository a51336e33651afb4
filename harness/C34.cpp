// C34: printed vectors and matrices
// SV: {"entry":"vectors","quick":[[0],[1],[3],[5],[2],[4],[8],[9],[17]],"thorough":[[8]],"bound":"this many entries of any value, double, float, complex and whole numbers"}
// SV: {"entry":"dense","quick":[[1,1],[1,3],[3,1],[2,3],[3,3],[4,2],[5,1],[6,2],[2,6],[1,7],[9,1],[1,12],[5,5]],"thorough":[[5,6]],"bound":"matrix shape, entries of any value; two objects in the same stream"}
// SV: {"entry":"fixed","quick":[[]],"bound":"fixed shapes 1x1, 2x3, 3x2, entries of any value"}
// SV: {"entry":"sparse","quick":[[1,1],[2,2],[2,3],[3,2]],"thorough":[[3,3],[4,2],[5,1],[6,2],[2,6],[1,7]],"bound":"matrix shape, all patterns, stored entries of any value, filled in either order, one entry erased or overwritten"}
// SV: {"entry":"made","quick":[[2],[3]],"thorough":[[4]],"bound":"size; results of transposing, resizing, products and sums, entries of any value"}
#ifdef SV_SYMBOLIC
#include "shim_stream.h"
#else
#include <sstream>
#include <cmath>
#endif
#include "common.h"
#include "OutputStream.h"
#include "matrix/FixedMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/SparseMatrix.h"
using namespace NS;
static void number(const std::string& t, double want)
{
	const char* msg = "values are those of the object";
#ifdef SV_SYMBOLIC
	if (!t.empty() && t[0] == '\x01')
	{
		size_t i = 0;
		for (size_t k = 1; k < t.size(); ++k) i = 10 * i + (size_t)(t[k] - '0');
		sv::check(i < std::sv_numbers().size(), msg);
		sv::eq(std::sv_numbers()[i], want, msg);
		return;
	}
	sv::check(!t.empty(), msg);
	sv::eq(std::strtod(t.c_str(), nullptr), want, msg);
#else
	char* e;
	double v = std::strtod(t.c_str(), &e);
	sv::check(!t.empty() && !*e, msg);
	// printed with six significant digits
	sv::check(std::fabs(v - want) <= 1e-5 * std::fabs(want), msg);
#endif
}
struct Scan
{
	std::string s;
	size_t p;
	explicit Scan(const std::string& t) : s(t), p(0) {}
	static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
	void skip() { while (p < s.size() && space(s[p])) ++p; }
	void is(char c) { skip(); sv::check(p < s.size() && s[p] == c, "brackets and separators are in place"); ++p; }
	std::string word()
	{
		skip();
		std::string r;
		while (p < s.size() && !space(s[p]) && s[p] != '(' && s[p] != ')' && s[p] != ',' && s[p] != ';' && s[p] != '|' && s[p] != ']' && s[p] != '[') r += s[p++];
		return r;
	}
	void value(double v) { number(word(), v); }
	void value(float v) { number(word(), v); }
	void value(int v) { number(word(), v); }
	void value(const cd& v) { is('('); number(word(), v.real()); is(','); number(word(), v.imag()); is(')'); }
	void index(size_t v)
	{
		std::string t = word();
		size_t n = 0;
		sv::check(!t.empty() && t.size() < 6, "positions are printed");
		for (char c : t) { sv::check(c >= '0' && c <= '9', "positions are printed"); n = 10 * n + (size_t)(c - '0'); }
		sv::check(n == v, "positions are printed");
	}
	// entries end where a blank, a separator or the closing bracket follows
	void apart() { sv::check(p < s.size() && (space(s[p]) || s[p] == '|' || s[p] == ']'), "entries are apart"); }
	void end() { skip(); sv::check(p == s.size(), "nothing else is printed"); }
	template<class T> void full(const Ref<T>& r)
	{
		is('[');
		for (size_t i = 0; i < r.r; ++i)
		{
			if (i) is('|');
			for (size_t j = 0; j < r.c; ++j) { value(r(i, j)); apart(); }
		}
		is(']');
	}
	template<class T> void list(const std::vector<T>& v)
	{
		is('[');
		for (const T& x : v) { value(x); apart(); }
		is(']');
	}
	template<class T> void stored(const Ref<T>& r)
	{
		is('[');
		for (size_t i = 0; i < r.r; ++i)
			for (size_t j = 0; j < r.c; ++j)
				if (r(i, j) != T(0))
				{
					is('(');
					index(i);
					is(',');
					index(j);
					is(';');
					value(r(i, j));
					is(')');
				}
		is(']');
	}
};
template<class T> T make(size_t) { return sym<T>(); }
template<> int make<int>(size_t i) { return (int)(i + 1) * (int)(1 + sv::choice(2)) * (i % 2 ? -7 : 11); }
template<class T> void vec(size_t n)
{
	std::vector<T> v(n);
	DynamicVector<T> d(n);
	for (size_t i = 0; i < n; ++i) { v[i] = make<T>(i); d[i] = v[i]; }
	std::ostringstream o;
	std::ostream& r = o << d;
	sv::check(&r == &o, "the stream is handed on");
	const DynamicVector<T> c(d);
	r << c;
	Scan s(o.str());
	s.list(v);
	s.list(v);
	s.end();
	for (size_t i = 0; i < n; ++i) sv::check(d[i] == v[i], "the vector is left alone");
}
SV_ENTRY(vectors)
{
	size_t n = (size_t)sv::param(0);
	switch (sv::choice(4))
	{
	case 0: vec<double>(n); break;
	case 1: vec<float>(n); break;
	case 2: vec<cd>(n); break;
	default: if (n <= 5) vec<int>(n);
	}
	FixedVector<double, 3> f;
	std::vector<double> v(3);
	for (size_t i = 0; i < 3; ++i) f[i] = v[i] = sym<double>();
	std::ostringstream o;
	o << f;
	Scan s(o.str());
	s.list(v);
	s.end();
	sv::reach("end");
}
template<class T> void den(size_t r, size_t c)
{
	Ref<T> a = symRef<T>(r, c), t(c, r);
	DenseMatrix<T> m(r, c);
	load(m, a);
	for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) t(j, i) = a(i, j);
	const DenseMatrix<T> u = m.transpose();
	std::ostringstream o;
	o << m << u;
	Scan s(o.str());
	s.full(a);
	s.full(t);
	s.end();
	same(m, a, "the matrix is left alone");
}
SV_ENTRY(dense)
{
	size_t r = (size_t)sv::param(0), c = (size_t)sv::param(1);
	switch (sv::choice(3))
	{
	case 0: den<double>(r, c); break;
	case 1: den<float>(r, c); break;
	default: den<cd>(r, c);
	}
	sv::reach("end");
}
template<class T, Dimension R, Dimension C> void fix()
{
	Ref<T> a = symRef<T>(R, C);
	FixedMatrix<T, R, C> m;
	load(m, a);
	std::ostringstream o;
	o << m;
	Scan s(o.str());
	s.full(a);
	s.end();
	same(m, a, "the matrix is left alone");
}
SV_ENTRY(fixed)
{
	fix<double, 1, 1>();
	fix<double, 2, 3>();
	fix<cd, 3, 2>();
	fix<float, 1, 4>();
	sv::reach("end");
}
template<class T> void spa(size_t r, size_t c)
{
	Ref<T> a(r, c);
	SparseMatrix<T> m(r, c);
	bool back = sv::choice(2);
	for (size_t k = 0; k < r * c; ++k)
	{
		size_t x = back ? r * c - 1 - k : k;
		if (!sv::choice(2)) continue;
		a.v[x] = sym<T>();
		sv::assume(a.v[x] != T(0));
		m.set(x / c, x % c, a.v[x]);
	}
	size_t x = sv::choice(r * c), i = x / c, j = x % c;
	switch (sv::choice(3))
	{
	case 0: break;
	case 1: m.set(i, j, T(0)); a(i, j) = T(0); break;
	default: a(i, j) = sym<T>(); m.set(i, j, a(i, j));
	}
	std::ostringstream o;
	o << m;
	const SparseMatrix<T> d(m);
	o << d;
	Scan s(o.str());
	s.stored(a);
	s.stored(a);
	s.end();
	same(m, a, "the matrix is left alone");
	consistent(m, "the matrix is left alone");
}
SV_ENTRY(sparse)
{
	size_t r = (size_t)sv::param(0), c = (size_t)sv::param(1);
	if (r * c <= 4 && sv::choice(2)) spa<cd>(r, c);
	else spa<double>(r, c);
	sv::reach("end");
}
SV_ENTRY(made)
{
	size_t n = (size_t)sv::param(0);
	Ref<double> a(n, n), b(n, n);
	SparseMatrix<double> m(n, n), k(n, n);
	DenseMatrix<double> d(n, n), e(n, n);
	for (size_t i = 0; i < n; ++i)
	{
		size_t j = (i + 1) % n;
		a(i, j) = sym<double>();
		b(i, i) = sym<double>();
		sv::assume(a(i, j) > 1);
		sv::assume(b(i, i) < -1);
		m.set(i, j, a(i, j));
		k.set(i, i, b(i, i));
		d.set(i, j, a(i, j));
		e.set(i, i, b(i, i));
	}
	std::ostringstream o;
	Ref<double> w(n, n);
	switch (sv::choice(5))
	{
	case 0:
		o << m.transpose() << d.transpose();
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) w(j, i) = a(i, j);
		break;
	case 1:
		o << m.mul(k) << d.mul(e);
		w = mulRef(a, b);
		break;
	case 2:
		o << (m + k) << (d + e);
		for (size_t i = 0; i < n * n; ++i) w.v[i] = a.v[i] + b.v[i];
		break;
	case 3:
		m.resize(n + 1, n - 1);
		d.resize(n + 1, n - 1);
		w = Ref<double>(n + 1, n - 1);
		for (size_t i = 0; i < n; ++i) for (size_t j = 0; j + 1 < n; ++j) w(i, j) = a(i, j);
		o << m << d;
		break;
	default:
		m *= 0;
		d *= 0;
		o << m << d;
	}
	Scan s(o.str());
	s.stored(w);
	s.full(w);
	s.end();
	sv::reach("end");
}
