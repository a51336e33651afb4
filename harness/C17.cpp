// C17: Cholesky factorisation
// SV: {"entry":"dense","quick":[[1],[2],[3]],"bound":"size; all real symmetric matrices (size 2 and below: all real matrices)","timeout":600}
// SV: {"entry":"sparse","quick":[[1],[2],[3]],"bound":"size; all real symmetric matrices and patterns","timeout":600}
// SV: {"entry":"fixed","quick":[[]],"bound":"fixed 1x1, 2x2"}
// SV: {"entry":"cplx","quick":[[0],[1]],"bound":"dense/sparse 2x2 complex hermitian, all entries"}
// SV: {"entry":"cplx3","quick":[[]],"bound":"3x3 complex hermitian dense, two free sub-diagonal entries, fixed dominant diagonal"}
// SV: {"entry":"four","quick":[[]],"bound":"4x4 symmetric dense and sparse, one free sub-diagonal per column around a dominant diagonal"}
// SV: {"entry":"gram","quick":[[4,0,0],[6,0,0],[8,0,0],[3,1,0],[4,1,0],[4,0,1],[6,0,1],[4,2,0],[3,2,1],[3,1,1]],"thorough":[[10,0,0]],"bound":"size, dense/sparse/fixed, real/complex; G G* for any lower triangular G with a fixed positive diagonal (sparse: non-zero or absent entries); any one pivot made zero or negative","timeout":800}
// SV: {"entry":"shapes","quick":[[]],"bound":"all shapes up to 3x3 of input and output"}
#define NS_ALLOW_CHECKS
#include "common.h"
#include "matrix/Matrix.h"
#include "LU.h"
using namespace NS;
static double re(double x) { return x; }
static double re(const cd& x) { return x.real(); }
static double im(double) { return 0; }
static double im(const cd& x) { return x.imag(); }
// leading principal minors of a hermitian matrix (size up to 3) are positive
template<class T> static bool posdef(const Ref<T>& a)
{
	if (!(re(a(0, 0)) > 0)) return false;
	if (a.r == 1) return true;
	double m2 = re(a(0, 0)) * re(a(1, 1)) - re(mulx(a(1, 0), cj(a(1, 0))));
	if (!(m2 > 0)) return false;
	if (a.r == 2) return true;
	T d = mulx(a(0, 0), mulx(a(1, 1), a(2, 2)) - mulx(a(1, 2), a(2, 1))) - mulx(a(0, 1), mulx(a(1, 0), a(2, 2)) - mulx(a(1, 2), a(2, 0))) + mulx(a(0, 2), mulx(a(1, 0), a(2, 1)) - mulx(a(1, 1), a(2, 0)));
	return re(d) > 0;
}
template<class T> static bool hermitian(const Ref<T>& a)
{
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j <= i; ++j)
			if (a(i, j) != cj(a(j, i))) return false;
	return true;
}
template<class M, class T> static void factor(const M& L, const Ref<T>& a)
{
	size_t n = a.r;
	sv::check(L.rows() == n && L.columns() == n, "shape of the factor");
	for (size_t i = 0; i < n; ++i)
	{
		sv::check(re(L.at(i, i)) > 0, "positive diagonal");
		sv::eq(im(L.at(i, i)), 0, "real diagonal");
		for (size_t j = i + 1; j < n; ++j) ceq(L.at(i, j), T(0), "lower triangular");
	}
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j <= i; ++j)
		{
			T s(0);
			for (size_t k = 0; k < n; ++k) s += mulx(L.at(i, k), cj(L.at(j, k)));
			ceq(s, a(i, j), "L L* = A");
		}
}
// known: the input is positive definite by construction
template<class M, class T> static void run(M A, M L, const Ref<T>& a, bool known = false)
{
	size_t n = a.r;
	load(A, a);
	if (sv::choice(2, "dirty"))
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) L.set(i, j, T(3.0 + i + 2 * j));
	int thrown = 0;
	try { LU::serial::cholesky(A, L); }
	catch (const NotPositiveDefiniteException&) { thrown = 1; }
	catch (const NotHermitianException&) { thrown = 2; }
	same(A, a, "matrix unchanged");
	if (known) sv::check(thrown == 0, "positive definite matrices have a factor");
	else if (!hermitian(a)) sv::check(thrown == 2, "not hermitian");
	else if (!posdef(a)) sv::check(thrown == 1, "not positive definite");
	else sv::check(thrown == 0, "positive definite matrices have a factor");
	if (thrown) sv::reach("rejected");
	else
	{
		factor(L, a);
		sv::reach("end");
	}
}
static Ref<double> symmetric(size_t n)
{
	Ref<double> a(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j <= i; ++j) a(i, j) = a(j, i) = sv::real("a");
	return a;
}
static Ref<double> input(size_t n) { return n < 3 ? symRef<double>(n, n, "a") : symmetric(n); }
SV_ENTRY(dense) { size_t n = sv::param(0); run(DenseMatrix<double>(n, n), DenseMatrix<double>(n, n), input(n)); }
SV_ENTRY(sparse) { size_t n = sv::param(0); run(SparseMatrix<double>(n, n), SparseMatrix<double>(n, n), input(n)); }
SV_ENTRY(fixed)
{
	if (sv::choice(2)) run(FixedMatrix<double, 1, 1>(), FixedMatrix<double, 1, 1>(), input(1));
	else run(FixedMatrix<double, 2, 2>(), FixedMatrix<double, 2, 2>(), input(2));
}
static Ref<cd> hermit(size_t n, double diag)
{
	Ref<cd> a(n, n);
	for (size_t i = 0; i < n; ++i)
	{
		for (size_t j = 0; j < i; ++j) { a(i, j) = sym<cd>("a"); a(j, i) = cj(a(i, j)); }
		a(i, i) = cd(diag > 0 ? diag + i : sv::real("d"), 0);
	}
	return a;
}
SV_ENTRY(cplx)
{
	if (sv::param(0)) run(SparseMatrix<cd>(2, 2), SparseMatrix<cd>(2, 2), hermit(2, 0));
	else run(DenseMatrix<cd>(2, 2), DenseMatrix<cd>(2, 2), hermit(2, 0));
}
SV_ENTRY(cplx3)
{
	Ref<cd> a = hermit(3, 4);
	a(2, 0) = cd(0.5, 1); a(0, 2) = cd(0.5, -1);
	for (const cd& x : a.v) sv::assume(x.imag() <= 1 && x.imag() >= -1);
	for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < i; ++j) sv::assume(a(i, j).real() <= 1 && a(i, j).real() >= -1);
	run(DenseMatrix<cd>(3, 3), DenseMatrix<cd>(3, 3), a, true);
}
SV_ENTRY(four)
{
	Ref<double> a(4, 4);
	for (size_t i = 0; i < 4; ++i)
	{
		a(i, i) = 4 + i;
		if (i) { double x = sv::real("a"); sv::assume(x <= 1 && x >= -1); a(i, i - 1) = a(i - 1, i) = x; }
	}
	a(3, 0) = a(0, 3) = 1;
	if (sv::choice(2)) run(DenseMatrix<double>(4, 4), DenseMatrix<double>(4, 4), a, true);
	else run(SparseMatrix<double>(4, 4), SparseMatrix<double>(4, 4), a, true);
}
template<class M> static void shp()
{
	size_t r = 1 + sv::choice(3), c = 1 + sv::choice(3), lr = 1 + sv::choice(3), lc = 1 + sv::choice(3);
	M A(r, c), L(lr, lc);
	for (size_t i = 0; i < r && i < c; ++i) A.set(i, i, 1);
	int t = 0;
	try { LU::serial::cholesky(A, L); }
	catch (const NotSquareException&) { t = 1; }
	catch (const InvalidOutputMatrixException&) { t = 2; }
	sv::check(t == (r != c ? 1 : lr != r || lc != c ? 2 : 0), "shapes are checked");
	sv::reach("end");
}
SV_ENTRY(shapes) { if (sv::choice(2)) shp<DenseMatrix<double>>(); else shp<SparseMatrix<double>>(); }

template<class M, class T> static void gram(M A, M L, size_t n, bool sparse)
{
	Ref<T> g(n, n), a(n, n);
	for (size_t i = 0; i < n; ++i)
	{
		g(i, i) = T(1.0 + (i * 3) % 4);
		for (size_t j = 0; j < i; ++j)
			if (!sparse || sv::choice(2, "present")) g(i, j) = sym<T>("g");
	}
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
			for (size_t k = 0; k < n; ++k) a(i, j) += mulx(g(i, k), cj(g(j, k)));
	// pivot k becomes zero or negative
	size_t k = sv::choice(n + 1, "broken");
	if (k < n)
	{
		double t = sv::real("t"), q = re(g(k, k)) * re(g(k, k));
		sv::assume(t >= q);
		a(k, k) -= T(t);
	}
	load(A, a);
	int thrown = 0;
	try { LU::serial::cholesky(A, L); }
	catch (const NotPositiveDefiniteException&) { thrown = 1; }
	catch (const NSException&) { thrown = 2; }
	same(A, a, "matrix unchanged");
	if (k < n) { sv::check(thrown == 1, "not positive definite"); return; }
	sv::check(!thrown, "positive definite matrices have a factor");
	same(L, g, "the factor of G G* is G");
	sv::reach("end");
}
template<class T> static void gramT(size_t kind, size_t n)
{
	if (kind == 0) { DenseMatrix<T> A(n, n); gram<DenseMatrix<T>, T>(A, A, n, false); }
	else if (kind == 1) { SparseMatrix<T> A(n, n); gram<SparseMatrix<T>, T>(A, A, n, true); }
	else if (n == 3) { FixedMatrix<T, 3, 3> A; gram<FixedMatrix<T, 3, 3>, T>(A, A, n, false); }
	else { FixedMatrix<T, 4, 4> A; gram<FixedMatrix<T, 4, 4>, T>(A, A, n, false); }
}
SV_ENTRY(gram)
{
	if (sv::param(2)) gramT<cd>(sv::param(1), sv::param(0));
	else gramT<double>(sv::param(1), sv::param(0));
}
