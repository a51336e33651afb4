// C08: reductions and content queries
// SV: {"entry":"vec","quick":[[1],[2],[3],[4],[5]],"thorough":[[6]],"bound":"size; all real values and signs; dynamic and fixed"}
// SV: {"entry":"dense","quick":[[1,1],[2,2],[1,3],[3,1]],"thorough":[[2,3],[3,2]],"bound":"rows, columns; all real values and signs"}
// SV: {"entry":"fixed","quick":[[]],"bound":"fixed 2x2"}
// SV: {"entry":"sparse","quick":[[1,1],[2,2],[1,3],[3,1]],"thorough":[[2,3],[3,2]],"bound":"rows, columns; all patterns, values and signs; missing entries count as zero"}
// SV: {"entry":"nonfinite","quick":[[1],[3],[5]],"thorough":[[7]],"bound":"length; NaN, +Inf, -Inf, zero or any value at every position; vectors, dense, sparse, fixed"}
// SV: {"entry":"nonfinite_complex","quick":[[2]],"bound":"complex vectors and matrices of 2 elements"}
// SV: {"entry":"ieee","mode":"fp","quick":[[2],[3]],"bound":"bit-precise doubles, all bit patterns; queries, min, max"}
// SV: {"entry":"ieee_float","mode":"fp","quick":[[2]],"bound":"bit-precise floats, all bit patterns; queries, min, max"}
// SV: {"entry":"fill","quick":[[1],[4]],"bound":"fill and reciprocal"}
// SV: {"entry":"large","quick":[[0,7],[1,3,3],[1,2,5],[2,3,4,3],[2,4,3,2]],"thorough":[[0,9],[0,17],[1,3,4],[1,1,11],[2,4,4,4],[2,3,5,3],[2,5,3,2]],"bound":"vector / dense / sparse with its size; two symbolic entries of any value and sign at any two positions among fixed ones"}
// SV: {"entry":"longer","quick":[[7],[8],[16],[17],[33]],"thorough":[[65]],"bound":"length; vectors, rows and columns (dense, sparse) of fixed values but for one entry of any value and sign at any position"}
#include "common.h"
#include "matrix/Matrix.h"
using namespace NS;
// doubles are bounded; the reals they are read as are not
static void range(double x) { sv::assume(x <= 1e300 && x >= -1e300); }
template<class M> static void agg(const M& m, const std::vector<double>& v)
{
	double s = 0;
	for (double x : v) s += x;
	sv::eq(m.sum(), s, "sum");
	sv::eq(m.avg() * (double)v.size(), s, "average");
	double mx = m.max(), mn = m.min();
	bool hx = false, hn = false;
	for (double x : v)
	{
		sv::check(x <= mx, "no element exceeds the maximum");
		sv::check(mn <= x, "no element is below the minimum");
		if (x == mx) hx = true;
		if (x == mn) hn = true;
	}
	sv::check(hx, "the maximum is an element");
	sv::check(hn, "the minimum is an element");
}
SV_ENTRY(vec)
{
	size_t n = sv::param(0);
	DynamicVector<double> A(n);
	std::vector<double> a(n);
	bool z = false;
	for (size_t i = 0; i < n; ++i)
	{
		A.set(i, a[i] = sv::real("a"));
		range(a[i]);
		if (a[i] == 0) z = true;
	}
	agg(A, a);
	sv::check(A.hasZero() == z, "hasZero");
	sv::check(!A.hasNaN() && !A.hasInf(), "finite elements");
	sameVec(A, a, "queries change nothing");
	if (n == 3)
	{
		FixedVector<double, 3> F;
		for (size_t i = 0; i < n; ++i) F.set(i, a[i]);
		agg(F, a);
		sv::check(F.hasZero() == z, "fixed hasZero");
	}
	sv::reach("end");
}
template<class M> static void mat(M A, size_t r, size_t c)
{
	Ref<double> a = symRef<double>(r, c, "a");
	for (double x : a.v) range(x);
	load(A, a);
	bool z = false, nz = false;
	for (double x : a.v)
		if (x == 0) z = true; else nz = true;
	agg(A, a.v);
	sv::check(A.has_zero() == z, "has_zero");
	sv::check(A.empty() == !nz, "empty iff all elements are zero");
	sv::check(!A.has_nan() && !A.has_inf(), "finite elements");
	same(A, a, "queries change nothing");
	sv::reach("end");
}
SV_ENTRY(large)
{
	size_t what = sv::param(0), r = what ? sv::param(1) : 1, c = what ? sv::param(2) : sv::param(1), n = r * c;
	Ref<double> a(r, c);
	bool up = sv::choice(2, "sign");
	for (size_t k = 0; k < n; ++k)
		if (what != 2 || pattern(sv::param(3), k / c, k % c, r, c)) a.v[k] = (up ? 1 : -1) * (double)(2 + (5 * k) % n);
	size_t p = sv::choice(n, "position"), q = sv::choice(n, "position");
	if (q < p) sv::stop();
	a.v[p] = sv::real("a");
	a.v[q] = sv::real("a");
	range(a.v[p]);
	range(a.v[q]);
	bool z = false, nz = false;
	for (double x : a.v) if (x == 0) z = true; else nz = true;
	if (!what)
	{
		DynamicVector<double> A(n);
		for (size_t i = 0; i < n; ++i) A.set(i, a.v[i]);
		agg(A, a.v);
		sv::check(A.hasZero() == z && !A.hasNaN() && !A.hasInf(), "vector queries");
	}
	else if (what == 1)
	{
		DenseMatrix<double> A(r, c);
		load(A, a);
		agg(A, a.v);
		sv::check(A.has_zero() == z && A.empty() == !nz && !A.has_nan() && !A.has_inf(), "dense matrix queries");
	}
	else
	{
		SparseMatrix<double> A(r, c);
		load(A, a);
		agg(A, a.v);
		sv::check(A.has_zero() == z && A.empty() == !nz && !A.has_nan() && !A.has_inf(), "sparse matrix queries");
	}
	sv::reach("end");
}
SV_ENTRY(longer)
{
	size_t n = sv::param(0), w = sv::choice(4, "what"), p = sv::choice(n, "position");
	Ref<double> a(1, n), b(n, 1);
	for (size_t k = 0; k < n; ++k) a.v[k] = (double)((5 * k + 2) % n) - (double)(n / 2) - 0.5;
	a.v[p] = sv::real("a");
	range(a.v[p]);
	b.v = a.v;
	bool z = a.v[p] == 0;
	if (w == 0)
	{
		DynamicVector<double> A(n);
		for (size_t i = 0; i < n; ++i) A.set(i, a.v[i]);
		agg(A, a.v);
		sv::check(A.hasZero() == z && !A.hasNaN() && !A.hasInf(), "vector queries");
	}
	else if (w == 1)
	{
		DenseMatrix<double> A(1, n);
		load(A, a);
		agg(A, a.v);
		sv::check(A.has_zero() == z && !A.empty() && !A.has_nan() && !A.has_inf(), "dense row queries");
	}
	else if (w == 2)
	{
		DenseMatrix<double> A(n, 1);
		load(A, b);
		agg(A, b.v);
		sv::check(A.has_zero() == z && !A.empty() && !A.has_nan() && !A.has_inf(), "dense column queries");
	}
	else
	{
		SparseMatrix<double> A(n, 1);
		load(A, b);
		agg(A, b.v);
		sv::check(A.has_zero() == z && !A.empty() && !A.has_nan() && !A.has_inf(), "sparse column queries");
	}
	sv::reach("end");
}
SV_ENTRY(dense) { mat(DenseMatrix<double>(sv::param(0), sv::param(1)), sv::param(0), sv::param(1)); }
SV_ENTRY(fixed) { mat(FixedMatrix<double, 2, 2>(), 2, 2); }
SV_ENTRY(sparse) { mat(SparseMatrix<double>(sv::param(0), sv::param(1)), sv::param(0), sv::param(1)); }
static double pick(bool& nan, bool& inf, bool& zero)
{
	double v = 0;
	switch (sv::choice(5, "kind"))
	{
	case 0: v = sv::real("a"); sv::assume(v != 0); break;
	case 1: v = 0; zero = true; break;
	case 2: v = std::numeric_limits<double>::quiet_NaN(); nan = true; break;
	case 3: v = std::numeric_limits<double>::infinity(); inf = true; break;
	case 4: v = -std::numeric_limits<double>::infinity(); inf = true; break;
	}
	return v;
}
SV_ENTRY(nonfinite)
{
	size_t n = sv::param(0);
	DynamicVector<double> A(n);
	DenseMatrix<double> D(1, n);
	SparseMatrix<double> S(n, 1);
	FixedVector<double, 5> F;
	FixedMatrix<double, 5, 1> G;
	for (size_t i = 0; i < 5; ++i) { F.set(i, 1); G.set(i, 0, 1); }
	bool nan = false, inf = false, zero = false;
	for (size_t i = 0; i < n; ++i)
	{
		double v = pick(nan, inf, zero);
		A.set(i, v);
		D.set(0, i, v);
		S.set(i, 0, v);
		F.set(i, v);
		G.set(i, 0, v);
	}
	sv::check(A.hasNaN() == nan && A.hasInf() == inf && A.hasZero() == zero, "vector queries");
	sv::check(D.has_nan() == nan && D.has_inf() == inf && D.has_zero() == zero, "dense matrix queries");
	sv::check(S.has_nan() == nan && S.has_inf() == inf && S.has_zero() == zero, "sparse matrix queries");
	sv::check(F.hasNaN() == nan && F.hasInf() == inf && F.hasZero() == zero, "fixed vector queries");
	sv::check(G.has_nan() == nan && G.has_inf() == inf && G.has_zero() == zero, "fixed matrix queries");
	sv::reach("end");
}
SV_ENTRY(nonfinite_complex)
{
	size_t n = sv::param(0);
	DynamicVector<cd> A(n);
	DenseMatrix<cd> D(1, n);
	SparseMatrix<cd> S(n, 1);
	bool nan = false, inf = false, zero = false;
	for (size_t i = 0; i < n; ++i)
	{
		bool z1 = false, z2 = false;
		double re = pick(nan, inf, z1), im = pick(nan, inf, z2);
		if (z1 && z2) zero = true;
		A.set(i, cd(re, im));
		D.set(0, i, cd(re, im));
		S.set(i, 0, cd(re, im));
	}
	sv::check(A.hasNaN() == nan && A.hasInf() == inf && A.hasZero() == zero, "complex vector queries");
	sv::check(D.has_nan() == nan && D.has_inf() == inf && D.has_zero() == zero, "complex dense queries");
	sv::check(S.has_nan() == nan && S.has_inf() == inf && S.has_zero() == zero, "complex sparse queries");
	sv::reach("end");
}
template<class T> static void ieeeT(size_t n, T (*in)(const char*))
{
	DynamicVector<T> A(n);
	DenseMatrix<T> D(n, 1);
	bool nan = false, inf = false, zero = false;
	for (size_t i = 0; i < n; ++i)
	{
		T v = in("a");
		A.set(i, v);
		D.set(i, 0, v);
		if (v != v) nan = true;
		if (v == std::numeric_limits<T>::infinity() || v == -std::numeric_limits<T>::infinity()) inf = true;
		if (v == 0) zero = true;
	}
	sv::check(A.hasNaN() == nan && A.hasInf() == inf && A.hasZero() == zero, "vector queries");
	sv::check(D.has_nan() == nan && D.has_inf() == inf && D.has_zero() == zero, "matrix queries");
	if (!nan && !inf)
	{
		T mx = A.max(), mn = A.min(), dx = D.max(), dn = D.min();
		bool hx = false, hn = false;
		for (size_t i = 0; i < n; ++i)
		{
			T v = A.at(i);
			sv::check(v <= mx && v <= dx, "no element exceeds the maximum");
			sv::check(mn <= v && dn <= v, "no element is below the minimum");
			if (v == mx) hx = true;
			if (v == mn) hn = true;
		}
		sv::check(hx && hn, "extremes are elements");
		sv::check(mx == dx && mn == dn, "vector and matrix agree");
	}
	sv::reach("end");
}
SV_ENTRY(ieee) { ieeeT<double>(sv::param(0), sv_real_); }
SV_ENTRY(ieee_float) { ieeeT<float>(sv::param(0), sv_f32_); }
SV_ENTRY(fill)
{
	size_t n = sv::param(0);
	DynamicVector<double> A(n);
	std::vector<double> a(n);
	for (size_t i = 0; i < n; ++i)
	{
		A.set(i, a[i] = sv::real("a"));
		sv::assume(a[i] != 0);
	}
	A.do_reciprocal();
	for (size_t i = 0; i < n; ++i) sv::eq(A.at(i) * a[i], 1, "reciprocal of every element");
	double f = sv::real("f");
	A.fill(f);
	sameVec(A, std::vector<double>(n, f), "fill sets every element");
	FixedVector<cd, 2> C;
	cd z(sv::real(), sv::real());
	C.fill(z);
	sameVec(C, std::vector<cd>(2, z), "fill sets every complex element");
	sv::reach("end");
}
