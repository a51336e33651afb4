// C07: vector algebra
// SV: {"entry":"dynamic","quick":[[0],[1],[2],[3],[4],[5],[6],[7],[8],[9],[10],[11],[13],[15],[16],[17],[19],[31],[33],[64]],"thorough":[[100]],"bound":"size, all real values"}
// SV: {"entry":"fixed","quick":[[2],[3],[4]],"bound":"size, all real values"}
// SV: {"entry":"complex_vec","quick":[[1],[2],[3],[4],[5],[7],[8],[17]],"thorough":[[40]],"bound":"size, all complex values"}
// SV: {"entry":"float_vec","quick":[[3]],"bound":"size, float elements"}
// SV: {"entry":"compare","quick":[[0],[1],[3],[5],[9],[2],[4],[7]],"thorough":[[12]],"bound":"size, all pairs of values"}
// SV: {"entry":"norm","quick":[[1],[2],[3]],"bound":"size, all real values except the zero vector"}
// SV: {"entry":"content","quick":[[3],[5],[8],[4],[6],[7]],"thorough":[[12]],"bound":"size, all values and ranges (has)"}
// SV: {"entry":"parts","quick":[[1],[4],[6],[7],[8],[9]],"bound":"size; all index ranges, all values; dynamic and fixed"}
#include "common.h"
#include "Vector.h"
using namespace NS;
template<class V> static void elem(V A, V B)
{
	typedef typename V::value_type T;
	size_t n = A.size();
	std::vector<T> a(n), b(n), e(n);
	for (size_t i = 0; i < n; ++i)
	{
		A.set(i, a[i] = sym<T>("a"));
		B.set(i, b[i] = sym<T>("b"));
	}
	T f = sym<T>("f");
	V C;
#define ALL(expr, name) \
	for (size_t i = 0; i < n; ++i) e[i] = (expr); \
	sameVec(C, e, name); \
	sameVec(A, a, name ": left operand unchanged"); \
	sameVec(B, b, name ": right operand unchanged")
	C = A + B; ALL(a[i] + b[i], "v + v");
	C = A - B; ALL(a[i] - b[i], "v - v");
	C = A * B; ALL(mulx(a[i], b[i]), "v * v");
	C = A + f; ALL(a[i] + f, "v + f");
	C = f + A; ALL(f + a[i], "f + v");
	C = A - f; ALL(a[i] - f, "v - f");
	C = f - A; ALL(f - a[i], "f - v");
	C = -A; ALL(-a[i], "-v");
	C = A * f; ALL(mulx(a[i], f), "v * f");
	C = f * A; ALL(mulx(f, a[i]), "f * v");
	V* q;
#define CMP(st, expr, name) \
	C = A; q = &(st); \
	sv::check(q == &C, name " yields its left operand"); ALL(expr, name)
	CMP(C += B, a[i] + b[i], "v += v");
	CMP(C -= B, a[i] - b[i], "v -= v");
	CMP(C *= B, mulx(a[i], b[i]), "v *= v");
	CMP(C += f, a[i] + f, "v += f");
	CMP(C -= f, a[i] - f, "v -= f");
	CMP(C *= f, mulx(a[i], f), "v *= f");
	CMP(C += C, a[i] + a[i], "v += itself");
	CMP(C -= C, T(0), "v -= itself");
	CMP(C *= C, mulx(a[i], a[i]), "v *= itself");
	for (size_t k = 0; k < n; ++k)
	{
		CMP(C += C[k], a[i] + a[k], "v += own element");
		CMP(C -= C[k], a[i] - a[k], "v -= own element");
		CMP(C *= C[k], mulx(a[i], a[k]), "v *= own element");
		C = A; C = C + C[k]; ALL(a[i] + a[k], "v + own element");
		C = A; C = C[k] - C; ALL(a[k] - a[i], "own element - v");
		C = A; C = C * C[k]; ALL(mulx(a[i], a[k]), "v * own element");
		C = A; C.fill(C[k]); ALL(a[k], "fill with own element");
	}
	T d(0), s(0);
	for (size_t i = 0; i < n; ++i)
	{
		d += mulx(a[i], b[i]);
		s += mulx(a[i], a[i]);
	}
	ceq(A.dot(B), d, "dot product");
	ceq(B.dot(A), d, "dot product is symmetric");
	ceq(A.magSqr(), s, "magSqr is the dot product with itself");
	sameVec(A, a, "dot changes nothing");
	for (size_t i = 0; i < n; ++i)
	{
		ceq(A[i], a[i], "operator[]");
		ceq(A.at(i), a[i], "at");
	}
	size_t k = 0;
	for (auto it = A.begin(); it != A.end(); ++it, ++k) ceq(*it, a[k], "iteration in order");
	sv::check(k == n, "iteration visits every element");
}
template<class V> static void divs(V A, V B)
{
	typedef typename V::value_type T;
	size_t n = A.size();
	std::vector<T> a(n), b(n), e(n);
	T f = sym<T>("f");
	sv::assume(f != T(0));
	for (size_t i = 0; i < n; ++i)
	{
		A.set(i, a[i] = sym<T>("a"));
		B.set(i, b[i] = sym<T>("b"));
		sv::assume(a[i] != T(0));
		sv::assume(b[i] != T(0));
	}
	V C = A / B, *q;
	// quotients are checked by multiplying back
	for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), b[i]), a[i], "v / v");
	sameVec(A, a, "v / v: left operand unchanged");
	sameVec(B, b, "v / v: right operand unchanged");
	C = A / f;
	for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), f), a[i], "v / f");
	C = f / A;
	for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), a[i]), f, "f / v");
	sameVec(A, a, "f / v: operand unchanged");
	C = A; q = &(C /= B);
	sv::check(q == &C, "v /= v yields its left operand");
	for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), b[i]), a[i], "v /= v");
	C = A; q = &(C /= f);
	sv::check(q == &C, "v /= f yields its left operand");
	for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), f), a[i], "v /= f");
	C = A; C /= C;
	for (size_t i = 0; i < n; ++i) ceq(C.at(i), T(1), "v /= itself");
	for (size_t k = 0; k < n; ++k)
	{
		C = A; C /= C[k];
		for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), a[k]), a[i], "v /= own element");
		C = A; C = C / C[k];
		for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), a[k]), a[i], "v / own element");
	}
	C = A; C.do_reciprocal();
	for (size_t i = 0; i < n; ++i) ceq(mulx(C.at(i), a[i]), T(1), "reciprocal");
	sameVec(B, b, "right operand unchanged");
}
SV_ENTRY(dynamic)
{
	size_t n = sv::param(0);
	elem(DynamicVector<double>(n), DynamicVector<double>(n));
	divs(DynamicVector<double>(n), DynamicVector<double>(n));
	double x = sv::real(), y = sv::real(), z = sv::real();
	DynamicVector<double> L = {x, y, z};
	sameVec(L, std::vector<double>{x, y, z}, "initializer list");
	sv::reach("end");
}
SV_ENTRY(float_vec)
{
	size_t n = sv::param(0);
	elem(DynamicVector<float>(n), DynamicVector<float>(n));
	divs(DynamicVector<float>(n), DynamicVector<float>(n));
	sv::reach("end");
}
template<Dimension N> static void fx()
{
	elem(FixedVector<double, N>(), FixedVector<double, N>());
	divs(FixedVector<double, N>(), FixedVector<double, N>());
	double x = sv::real(), y = sv::real();
	FixedVector<double, N> L = {x, y};
	std::vector<double> e(N, 0);
	e[0] = x; e[1] = y;
	sameVec(L, e, "initializer list");
	sv::reach("end");
}
SV_ENTRY(fixed)
{
	switch (sv::param(0))
	{
	case 2: fx<2>(); break;
	case 3: fx<3>(); break;
	case 4: fx<4>(); break;
	}
}
SV_ENTRY(complex_vec)
{
	size_t n = sv::param(0);
	elem(DynamicVector<cd>(n), DynamicVector<cd>(n));
	elem(FixedVector<cd, 2>(), FixedVector<cd, 2>());
	sv::reach("end");
}
SV_ENTRY(compare)
{
	size_t n = sv::param(0);
	DynamicVector<double> A(n), B(n), D(n + 1);
	bool eq = true;
	for (size_t i = 0; i < n; ++i)
	{
		double x = sv::real("a"), y = sv::real("b");
		A.set(i, x);
		B.set(i, y);
		D.set(i, x);
		if (x != y) eq = false;
	}
	sv::check((A == B) == eq, "equality is elementwise equality");
	sv::check((A != B) == !eq, "inequality is the negation");
	sv::check(A == A, "a vector equals itself");
	bool r = false;
	try { r = (A == D); }
	catch (const NSException&) {}
	sv::check(!r, "vectors of different sizes are never equal");
	FixedVector<double, 2> F, G;
	double x = sv::real(), y = sv::real(), z = sv::real(), w = sv::real();
	F.set(0, x); F.set(1, y); G.set(0, z); G.set(1, w);
	sv::check((F == G) == (x == z && y == w), "fixed equality is elementwise equality");
	sv::check((F != G) == !(x == z && y == w), "fixed inequality is the negation");
	sv::reach("end");
}
SV_ENTRY(norm)
{
	size_t n = sv::param(0);
	DynamicVector<double> A(n);
	FixedVector<double, 3> F;
	double s = 0;
	for (size_t i = 0; i < n; ++i)
	{
		double x = sv::real("a");
		A.set(i, x);
		F.set(i, x);
		s += x * x;
	}
	sv::assume(s > 0);
	double m = A.mag();
	sv::check(m >= 0, "magnitude is not negative");
	sv::eq(m * m, s, "magnitude is the root of the squared magnitude");
	double m2 = F.mag();
	sv::check(m2 >= 0, "fixed magnitude is not negative");
	sv::eq(m2 * m2, s, "fixed magnitude is the root of the squared magnitude");
	DynamicVector<double> N = A.normalized();
	double t = 0;
	for (size_t i = 0; i < n; ++i)
	{
		sv::eq(N.at(i) * m, A.at(i), "normalized has the direction of the vector");
		t += N.at(i) * N.at(i);
	}
	sv::eq(t, 1, "normalized has unit length");
	FixedVector<double, 3> G = F.normalized();
	for (size_t i = 0; i < 3; ++i) sv::eq(G.at(i) * m2, F.at(i), "fixed normalized has the direction of the vector");
	sv::reach("end");
}
SV_ENTRY(content)
{
	size_t n = sv::param(0);
	DynamicVector<double> A(n);
	for (size_t i = 0; i < n; ++i) A.set(i, sv::real("a"));
	double v = sv::real("v");
	size_t s = sv::choice(n + 1, "start"), e = sv::choice(n + 2, "end");
	bool r = false;
	for (size_t i = s; i < e && i < n; ++i)
		if (A.at(i) == v) r = true;
	sv::check(A.has(s, e, v) == r, "has is true exactly when the range contains the value");
	sv::reach("end");
}
template<size_t K> static void parts()
{
	size_t n = sv::param(0);
	DynamicVector<double> A(n);
	FixedVector<double, K> F;
	std::vector<double> a(n), f(K, 0);
	for (size_t i = 0; i < n; ++i)
	{
		A.set(i, a[i] = sv::real("a"));
		F.set(i, f[i] = a[i]);
	}
	size_t i = sv::choice(n, "index"), s = sv::choice(n, "start"), e = s + 1 + sv::choice(n + 1, "length");
	sameVec(A.left(i), std::vector<double>(a.begin(), a.begin() + i + 1), "leading part");
	sameVec(A.right(i), std::vector<double>(a.begin() + i, a.end()), "trailing part");
	sameVec(A.mid(s, e), std::vector<double>(a.begin() + s, a.begin() + (e < n ? e : n)), "middle part");
	sameVec(A, a, "vector unchanged");
	FixedVector<double, K> L = F.left(i), R = F.right(i), M = F.mid(s, e);
	for (size_t k = 0; k < K; ++k)
	{
		sv::eq(L.at(k), k <= i ? f[k] : 0, "leading part of a fixed vector");
		sv::eq(R.at(k), k + i < K ? f[k + i] : 0, "trailing part of a fixed vector");
		sv::eq(M.at(k), k + s < e && k + s < K ? f[k + s] : 0, "middle part of a fixed vector");
	}
	sv::reach("end");
}
SV_ENTRY(parts) { if (sv::param(0) <= 4) parts<4>(); else parts<9>(); }
