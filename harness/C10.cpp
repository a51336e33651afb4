// C10: structural predicates
// SV: {"entry":"dense","quick":[[1,1],[2,2],[3,3]],"bound":"size, all real entries"}
// SV: {"entry":"sparse","quick":[[1,1],[2,2]],"bound":"size, all real entries and fill patterns"}
// SV: {"entry":"fixed","quick":[[]],"bound":"fixed 1x1, 2x2, 3x3, all real entries; non-square fixed"}
// SV: {"entry":"cplx","quick":[[0,1],[1,1],[2,1],[0,2],[1,2],[2,2]],"bound":"dense/sparse/fixed, size, all complex entries"}
// SV: {"entry":"mirror","quick":[[0,3,0],[1,3,0],[2,3,0],[0,3,1],[2,3,1],[0,4,0],[0,4,1]],"thorough":[[1,3,1],[0,5,0],[0,5,1]],"bound":"dense/sparse/fixed, size, real/complex; symmetric, hermitian, skew-symmetric, skew-hermitian, all entries","timeout":400}
// SV: {"entry":"block","quick":[[0,3,0],[1,3,0],[2,3,0],[0,3,1],[1,3,1],[2,3,1],[0,4,0],[2,4,0],[0,4,1],[1,4,1],[2,4,1]],"thorough":[[1,4,0],[0,5,1],[0,5,0]],"bound":"dense/sparse/fixed, size, real/complex; real: every arrangement of one symbolic 2x2 block and one symbolic entry in each other row; complex: every arrangement of one symbolic entry in each row","timeout":500}
// SV: {"entry":"rect","quick":[[]],"bound":"all non-square shapes up to 3x3"}
// SV: {"entry":"large","quick":[[0,5,0],[1,5,0],[2,5,0],[0,4,1],[1,4,1],[0,7,0]],"thorough":[[1,7,0],[0,6,1],[1,6,1]],"bound":"dense/sparse/fixed, size, real/complex; symmetric, skew, signed permutation and projection matrices with one entry of any value anywhere","timeout":500}
#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixCheck.h"
using namespace NS;
template<class T> static bool isId(const Ref<T>& m)
{
	for (size_t i = 0; i < m.r; ++i)
		for (size_t j = 0; j < m.c; ++j)
			if (m(i, j) != (i == j ? T(1) : T(0))) return false;
	return true;
}
template<class T> static Ref<T> tr(const Ref<T>& m, bool conj, T f)
{
	Ref<T> t(m.c, m.r);
	for (size_t i = 0; i < m.r; ++i)
		for (size_t j = 0; j < m.c; ++j) t(j, i) = mulx(f, conj ? cj(m(i, j)) : m(i, j));
	return t;
}
template<class T> static bool eqR(const Ref<T>& a, const Ref<T>& b)
{
	for (size_t i = 0; i < a.v.size(); ++i)
		if (a.v[i] != b.v[i]) return false;
	return true;
}
template<class M, class T> static void one(M A, const Ref<T>& a, int kind)
{
	load(A, a);
	const T one(1), minus(-1);
	switch (kind)
	{
	case 0: { bool r = Check::matrixIsSymmetric(A); sv::check(r == eqR(a, tr(a, false, one)), "symmetric"); break; }
	case 1: { bool r = Check::matrixIsHermitian(A); sv::check(r == eqR(a, tr(a, true, one)), "hermitian"); break; }
	case 2: { bool r = Check::matrixIsSkewSymmetric(A); sv::check(r == eqR(a, tr(a, false, minus)), "skew-symmetric"); break; }
	case 3: { bool r = Check::matrixIsSkewHermitian(A); sv::check(r == eqR(a, tr(a, true, minus)), "skew-hermitian"); break; }
	case 4: { bool r = Check::matrixIsOrthogonal(A); sv::check(r == isId(mulRef(a, tr(a, false, one))), "orthogonal"); break; }
	case 5: { bool r = Check::matrixIsUnitary(A); sv::check(r == isId(mulRef(a, tr(a, true, one))), "unitary"); break; }
	case 6: { bool r = Check::matrixIsProjection(A); sv::check(r == eqR(mulRef(a, a), a), "projection"); break; }
	}
	same(A, a, "queries change nothing");
	sv::reach("end");
}
// one predicate per path, so that their case distinctions do not multiply
template<class M> static void all(M A, size_t n, int kinds = 7)
{
	one(A, symRef<typename M::value_type>(n, n, "a"), sv::choice(kinds, "predicate"));
}
// larger matrices: a symbolic 2x2 block, one symbolic entry in every other row, all columns permuted
static void axis(double) {}
static void axis(const cd& z) { sv::assume((z.real() == 0) | (z.imag() == 0)); }
template<class T> static void blockT(size_t kind, size_t n, bool block)
{
	Ref<T> a(n, n);
	std::vector<size_t> col;
	for (size_t i = 0; i < n; ++i) col.push_back(i);
	for (size_t i = 0; i + 1 < n; ++i) std::swap(col[i], col[i + sv::choice(n - i, "column")]);
	size_t p = n, q = n;
	if (block)
	{
		p = sv::choice(n, "block"), q = sv::choice(n, "block");
		if (p >= q) sv::stop();
	}
	for (size_t i = 0; i < n; ++i)
	{
		a(i, col[i]) = sym<T>("a");
		if (i == p) a(i, col[q]) = sym<T>("a");
		if (i == q) a(i, col[p]) = sym<T>("a");
	}
	// real and imaginary units are exact in the replay, other unit numbers need not be
	if (!block && sv::choice(2, "axis") == 0)
		for (const T& z : a.v) axis(z);
	int what = sv::choice(7, "predicate");
	switch (kind)
	{
	case 0: one(DenseMatrix<T>(n, n), a, what); break;
	case 1: one(SparseMatrix<T>(n, n), a, what); break;
	case 2: if (n == 3) one(FixedMatrix<T, 3, 3>(), a, what); else one(FixedMatrix<T, 4, 4>(), a, what); break;
	}
}
template<class T> static T whole(double, double);
template<> double whole<double>(double a, double) { return a; }
template<> cd whole<cd>(double a, double b) { return cd(a, b); }
template<class T> static void largeT(size_t kind, size_t n)
{
	Ref<T> a(n, n);
	size_t base = sv::choice(5, "base");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			double v = (double)((i * j + i + j) % 5) - 1;
			if (base == 0) a(i, j) = whole<T>(v, v);
			if (base == 1) a(i, j) = whole<T>(v, i < j ? v : i > j ? -v : 0);
			if (base == 2) a(i, j) = i < j ? whole<T>(v, v) : i > j ? whole<T>(-v, v) : whole<T>(0, v);
			if (base == 3) a(i, j) = (i + 2) % n == j ? i % 2 ? T(-1) : whole<T>(1, 0) : T(0);
			if (base == 4) a(i, j) = i == j && i % 2 == 0 ? T(1) : i % 2 == 0 && j == i + 1 ? T(3) : T(0);
		}
	size_t p = sv::choice(n * n, "position");
	a.v[p] = sym<T>("a");
	int what = sv::choice(7, "predicate");
	if ((what < 4) != (base < 3)) sv::stop();
	switch (kind)
	{
	case 0: one(DenseMatrix<T>(n, n), a, what); break;
	case 1: one(SparseMatrix<T>(n, n), a, what); break;
	case 2: one(FixedMatrix<T, 5, 5>(), a, what); break;
	}
}
SV_ENTRY(large)
{
	if (sv::param(2)) largeT<cd>(sv::param(0), sv::param(1));
	else largeT<double>(sv::param(0), sv::param(1));
}
SV_ENTRY(block)
{
	if (sv::param(2)) blockT<cd>(sv::param(0), sv::param(1), false);
	else blockT<double>(sv::param(0), sv::param(1), true);
}
SV_ENTRY(dense) { all(DenseMatrix<double>(sv::param(0), sv::param(0)), sv::param(0)); }
SV_ENTRY(sparse) { all(SparseMatrix<double>(sv::param(0), sv::param(0)), sv::param(0)); }
SV_ENTRY(fixed)
{
	switch (sv::choice(4))
	{
	case 0: all(FixedMatrix<double, 1, 1>(), 1); break;
	case 1: all(FixedMatrix<double, 2, 2>(), 2); break;
	case 2: all(FixedMatrix<double, 3, 3>(), 3); break;
	case 3:
	{
		FixedMatrix<double, 2, 3> A;
		Ref<double> a = symRef<double>(2, 3, "a");
		load(A, a);
		sv::check(!Check::matrixIsOrthogonal(A) && !Check::matrixIsUnitary(A), "non-square fixed matrices are not orthogonal");
		sv::reach("end");
	}
	}
}
SV_ENTRY(cplx)
{
	size_t n = sv::param(1);
	switch (sv::param(0))
	{
	case 0: all(DenseMatrix<cd>(n, n), n); break;
	case 1: all(SparseMatrix<cd>(n, n), n); break;
	case 2: if (n == 1) all(FixedMatrix<cd, 1, 1>(), 1); else all(FixedMatrix<cd, 2, 2>(), 2); break;
	}
}
template<class T> static void mirrorT(size_t kind, size_t n)
{
	switch (kind)
	{
	case 0: all(DenseMatrix<T>(n, n), n, 4); break;
	case 1: all(SparseMatrix<T>(n, n), n, 4); break;
	case 2: all(FixedMatrix<T, 3, 3>(), 3, 4); break;
	}
}
SV_ENTRY(mirror)
{
	if (sv::param(2)) mirrorT<cd>(sv::param(0), sv::param(1));
	else mirrorT<double>(sv::param(0), sv::param(1));
}
template<class M> static void none(M A)
{
	Ref<double> a = symRef<double>(A.rows(), A.columns(), "a");
	load(A, a);
	sv::check(!Check::matrixIsSymmetric(A), "non-square is not symmetric");
	sv::check(!Check::matrixIsHermitian(A), "non-square is not hermitian");
	sv::check(!Check::matrixIsSkewSymmetric(A), "non-square is not skew-symmetric");
	sv::check(!Check::matrixIsSkewHermitian(A), "non-square is not skew-hermitian");
	sv::check(!Check::matrixIsOrthogonal(A), "non-square is not orthogonal");
	sv::check(!Check::matrixIsUnitary(A), "non-square is not unitary");
	sv::check(!Check::matrixIsProjection(A), "non-square is not a projection");
	same(A, a, "queries change nothing");
}
SV_ENTRY(rect)
{
	size_t r = 1 + sv::choice(3), c = 1 + sv::choice(3);
	if (r == c) sv::stop();
	none(DenseMatrix<double>(r, c));
	SparseMatrix<double> S(r, c);
	if (sv::choice(2)) none(S); else { none(SparseMatrix<double>(r, c)); }
	sv::reach("end");
}
