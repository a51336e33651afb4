// C20: conjugate gradients
// SV: {"entry":"cg2","quick":[[0,0],[0,1],[1,0],[1,1]],"bound":"dense/sparse, zero/any start vector; all symmetric positive definite 2x2 systems","timeout":800}
// SV: {"entry":"cg3","quick":[[0],[1]],"bound":"dense/sparse; fixed 3x3 systems with one free sub-diagonal, all right-hand sides","timeout":800}
// SV: {"entry":"pcg2","quick":[[0,0],[0,1],[1,0],[1,1]],"bound":"dense/sparse, zero/any start vector; all symmetric positive definite 2x2 systems and preconditioners","timeout":800}
// SV: {"entry":"pcg3","quick":[[0],[1]],"bound":"dense/sparse 3x3 system with fixed matrices, all right-hand sides; general and Jacobi preconditioner","timeout":800}
// SV: {"entry":"line","quick":[[4,0,0],[4,1,0],[4,0,1],[4,1,1],[4,0,2],[4,1,2],[6,0,0],[6,1,0],[6,0,1],[6,1,1],[6,0,2],[5,0,0],[7,0,0],[7,1,0]],"thorough":[[8,0,0],[8,1,1],[10,0,0]],"bound":"size, dense/sparse, plain / preconditioned / Jacobi preconditioned; fixed systems, all right-hand sides on a line","timeout":800}
// SV: {"entry":"limits","quick":[[]],"bound":"0 to 3 steps, any tolerance, plain and preconditioned 2x2 systems, all right-hand sides and start vectors"}
// SV: {"entry":"precond","quick":[[]],"bound":"Jacobi preconditioner of all dense and sparse 2x2 matrices, complex 2x2"}
// SV: {"entry":"shapes","quick":[[]],"bound":"all shapes up to 2x2 of all arguments, not hermitian 2x2 matrices"}
// SV: {"entry":"solved","quick":[[]],"bound":"all symmetric positive definite 2x2 systems, solution as start vector, plain and preconditioned"}
#define NS_ALLOW_CHECKS
#include "common.h"
#include "matrix/Matrix.h"
#include "CG.h"
using namespace NS;
template<class M> static DynamicVector<double> call(bool pre, const M& A, const DynamicVector<double>& b, const M& C, const DynamicVector<double>& x0, size_t it, double eps, size_t* st)
{
	if (pre) return CG::serial::pcg(A, b, C, x0, it, eps, st);
	return CG::serial::cg(A, b, x0, it, eps, st);
}
static Ref<double> spd2()
{
	Ref<double> a(2, 2);
	a(0, 0) = sv::real("a"); a(1, 1) = sv::real("c"); a(0, 1) = a(1, 0) = sv::real("b");
	sv::assume(a(0, 0) > 0 && a(1, 1) > 0);
	sv::assume(a(0, 0) * a(1, 1) - a(0, 1) * a(0, 1) > 0);
	return a;
}
template<class M> static void run(bool pre, M A, M C, const Ref<double>& a, const Ref<double>& c, bool start)
{
	size_t n = a.r;
	load(A, a);
	load(C, c);
	DynamicVector<double> b(n), x(n);
	// every right-hand side is written as A x0 + r
	for (size_t i = 0; i < n; ++i) x.set(i, start ? sv::real("x") : 0);
	for (size_t i = 0; i < n; ++i)
	{
		double s = sv::real("r");
		for (size_t j = 0; j < n; ++j) s += a(i, j) * x.at(j);
		b.set(i, s);
	}
	size_t st = 99;
	DynamicVector<double> r = call(pre, A, b, C, x, n, 0, &st);
	sv::check(st <= n, "number of steps");
	for (size_t i = 0; i < n; ++i)
	{
		double s = 0;
		for (size_t j = 0; j < n; ++j) s += a(i, j) * r.at(j);
		sv::eq(s, b.at(i), "exact solution");
	}
	sv::reach("end");
}
static Ref<double> id(size_t n) { Ref<double> c(n, n); for (size_t i = 0; i < n; ++i) c(i, i) = 1; return c; }
SV_ENTRY(cg2)
{
	if (sv::param(0)) run(false, SparseMatrix<double>(2, 2), SparseMatrix<double>(2, 2), spd2(), id(2), sv::param(1));
	else run(false, DenseMatrix<double>(2, 2), DenseMatrix<double>(2, 2), spd2(), id(2), sv::param(1));
}
static Ref<double> a3(double x)
{
	Ref<double> a(3, 3);
	a(0, 0) = 3; a(1, 1) = 4; a(2, 2) = 5;
	a(2, 1) = a(1, 2) = 1;
	a(0, 2) = a(2, 0) = -1;
	a(1, 0) = a(0, 1) = x;
	return a;
}
SV_ENTRY(cg3)
{
	if (sv::param(0)) run(false, SparseMatrix<double>(3, 3), SparseMatrix<double>(3, 3), a3(0.5), id(3), false);
	else run(false, DenseMatrix<double>(3, 3), DenseMatrix<double>(3, 3), a3(0.5), id(3), false);
}
SV_ENTRY(pcg2)
{
	Ref<double> a = spd2(), c = spd2();
	if (sv::param(0)) run(true, SparseMatrix<double>(2, 2), SparseMatrix<double>(2, 2), a, c, sv::param(1));
	else run(true, DenseMatrix<double>(2, 2), DenseMatrix<double>(2, 2), a, c, sv::param(1));
}
SV_ENTRY(pcg3)
{
	Ref<double> a = a3(0.5), c(3, 3);
	bool jac = sv::choice(2);
	c(0, 0) = 2; c(1, 1) = 1; c(2, 2) = 3; c(0, 1) = c(1, 0) = 1; c(1, 2) = c(2, 1) = -0.5;
	SparseMatrix<double> C(3, 3), A(3, 3);
	if (jac)
	{
		load(A, a);
		CG::serial::jacobi(A, C);
		for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < 3; ++j) c(i, j) = C.at(i, j);
	}
	if (sv::param(0)) run(true, SparseMatrix<double>(3, 3), SparseMatrix<double>(3, 3), a, c, false);
	else run(true, DenseMatrix<double>(3, 3), DenseMatrix<double>(3, 3), a, c, false);
}
SV_ENTRY(limits)
{
	DenseMatrix<double> A = {{4, 1}, {1, 3}}, C = {{2, 1}, {1, 1}};
	DynamicVector<double> x(2), b(2);
	double r0[2];
	for (size_t i = 0; i < 2; ++i) { x.set(i, sv::real("x")); r0[i] = sv::real("r"); }
	b.set(0, 4 * x.at(0) + x.at(1) + r0[0]);
	b.set(1, x.at(0) + 3 * x.at(1) + r0[1]);
	size_t st = 99, lim = sv::choice(4);
	double eps = sv::real("eps");
	sv::assume(eps >= 0);
	bool pre = sv::choice(2);
	DynamicVector<double> keepx = x, keepb = b;
	DynamicVector<double> r = call(pre, A, b, C, x, lim, eps, &st);
	sv::check(st <= lim, "step limit");
	sv::eq(x.at(0), keepx.at(0), "start vector unchanged"); sv::eq(x.at(1), keepx.at(1), "start vector unchanged");
	sv::eq(b.at(0), keepb.at(0), "right-hand side unchanged"); sv::eq(b.at(1), keepb.at(1), "right-hand side unchanged");
	double d0 = 4 * r.at(0) + r.at(1) - b.at(0), d1 = r.at(0) + 3 * r.at(1) - b.at(1);
	if (st < lim) sv::check(d0 * d0 + d1 * d1 <= eps * eps, "stopped early only within the tolerance");
	if (st == 0) { sv::eq(r.at(0), x.at(0), "no step"); sv::eq(r.at(1), x.at(1), "no step"); }
	if (st >= 2) { sv::eq(d0, 0, "exact after two steps"); sv::eq(d1, 0, "exact after two steps"); }
	if (lim == 1) { DynamicVector<double> q = call(pre, A, b, C, x, lim, eps, nullptr); sv::eq(q.at(0), r.at(0), "without statistic"); sv::eq(q.at(1), r.at(1), "without statistic"); }
	if (st == 1 && !pre)
	{
		// first step: exact line search along the residual
		double g0 = 4 * r0[0] + r0[1], g1 = r0[0] + 3 * r0[1], al = (r0[0] * r0[0] + r0[1] * r0[1]) / (r0[0] * g0 + r0[1] * g1);
		sv::eq(r.at(0), x.at(0) + al * r0[0], "first step is steepest descent");
		sv::eq(r.at(1), x.at(1) + al * r0[1], "first step is steepest descent");
	}
	sv::reach("end");
}
template<class M> static void prec()
{
	M A(2, 2), C(2, 2);
	Ref<double> a = symRef<double>(2, 2, "a"), w(2, 2);
	load(A, a);
	for (size_t i = 0; i < 2; ++i) sv::assume(a(i, i) == 0 || a(i, i) > 1e-9 || a(i, i) < -1e-9);
	bool zero = a(0, 0) == 0 || a(1, 1) == 0, thrown = false;
	try { CG::serial::jacobi(A, C); }
	catch (const SingularException&) { thrown = true; }
	sv::check(thrown == zero, "a zero on the diagonal is reported");
	if (thrown) return;
	for (size_t i = 0; i < 2; ++i)
		for (size_t j = 0; j < 2; ++j)
			if (i == j) sv::eq(C.at(i, i) * a(i, i), 1, "inverse diagonal");
			else sv::eq(C.at(i, j), 0, "diagonal");
	same(A, a, "matrix unchanged");
	sv::reach("end");
}
SV_ENTRY(precond)
{
	switch (sv::choice(3))
	{
	case 0: prec<DenseMatrix<double>>(); break;
	case 1: prec<SparseMatrix<double>>(); break;
	case 2:
	{
		DenseMatrix<cd> A(2, 2), C(2, 2);
		cd a = sym<cd>("a");
		sv::assume(a.real() > 1 || a.imag() > 1);
		A.set(0, 0, a); A.set(1, 1, cd(0, 2)); A.set(0, 1, cd(1, 1));
		CG::serial::jacobi(A, C);
		ceq(mulx(C.at(0, 0), a), cd(1), "complex inverse diagonal");
		ceq(C.at(1, 1), cd(0, -0.5), "complex inverse diagonal");
		ceq(C.at(0, 1), cd(0), "complex diagonal");
		break;
	}
	}
}
SV_ENTRY(shapes)
{
	size_t s[6];
	for (int i = 0; i < 4; ++i) s[i] = 1 + sv::choice(2);
	s[4] = 1 + sv::choice(2); s[5] = 1 + sv::choice(2);
	DenseMatrix<double> A(s[0], s[1]), C(s[2], s[3]);
	for (size_t i = 0; i < s[0] && i < s[1]; ++i) A.set(i, i, 2);
	for (size_t i = 0; i < s[2] && i < s[3]; ++i) C.set(i, i, 2);
	bool herm = true;
	if (s[0] == 2 && s[1] == 2)
	{
		double x = sv::real("a"), y = sv::real("a");
		sv::assume(x > -1 && x < 1 && y > -1 && y < 1);
		A.set(1, 0, x); A.set(0, 1, y);
		herm = x == y;
	}
	DynamicVector<double> b(s[4]), x(s[5]);
	b.fill(1);
	bool pre = sv::choice(2);
	int t = 0;
	try { call(pre, A, b, C, x, 1, 0, nullptr); }
	catch (const NotSquareException&) { t = 1; }
	catch (const MatrixSizeMismatchException&) { t = 2; }
	catch (const NotHermitianException&) { t = 3; }
	catch (const NSException&) { t = 4; }
	if (s[0] != s[1] || (pre && s[2] != s[3])) sv::check(t == 1, "shapes are checked");
	else if (pre && s[0] != s[2]) sv::check(t == 2, "shapes are checked");
	else if (!herm) sv::check(t == 3, "hermitian matrix required");
	else sv::check(t == (s[4] != s[0] || s[5] != s[0] ? 4 : 0), "vector sizes are checked");
	sv::reach("end");
}
SV_ENTRY(solved)
{
	Ref<double> a = spd2();
	DenseMatrix<double> A(2, 2), C(2, 2);
	load(A, a);
	load(C, id(2));
	DynamicVector<double> x(2), b(2);
	for (size_t i = 0; i < 2; ++i) x.set(i, sv::real("x"));
	for (size_t i = 0; i < 2; ++i) b.set(i, a(i, 0) * x.at(0) + a(i, 1) * x.at(1));
	size_t st = 99;
	DynamicVector<double> r = call(sv::choice(2), A, b, C, x, 1 + sv::choice(3), 0, &st);
	sv::check(st == 0, "no step needed");
	sv::eq(r.at(0), x.at(0), "solution returned");
	sv::eq(r.at(1), x.at(1), "solution returned");
	sv::reach("end");
}

// right-hand sides on a line u + t v, so that larger systems stay within reach
template<class M> static void lineRun(M A, M C, size_t n, int pre)
{
	Ref<double> a(n, n), c(n, n);
	for (size_t i = 0; i < n; ++i)
	{
		a(i, i) = 3 + i;
		c(i, i) = pre == 1 ? 2 + (i % 2) : 1;
		if (i + 1 < n)
		{
			a(i, i + 1) = a(i + 1, i) = i % 2 ? -1 : 1;
			if (pre == 1) c(i, i + 1) = c(i + 1, i) = 0.5;
		}
	}
	load(A, a);
	load(C, c);
	if (pre == 2) CG::serial::jacobi(A, C);
	double t = sv::real("t");
	DynamicVector<double> b(n), x(n);
	size_t k = sv::choice(n, "direction");
	for (size_t i = 0; i < n; ++i) b.set(i, i == k ? t : 1.0 + i);
	size_t st = 99;
	DynamicVector<double> r = call(pre != 0, A, b, C, x, n, 0, &st);
	sv::check(st <= n, "number of steps");
	for (size_t i = 0; i < n; ++i)
	{
		double s = 0;
		for (size_t j = 0; j < n; ++j) s += a(i, j) * r.at(j);
		sv::eq(s, b.at(i), "exact solution");
	}
	sv::reach("end");
}
SV_ENTRY(line)
{
	size_t n = sv::param(0);
	if (sv::param(1)) lineRun(SparseMatrix<double>(n, n), SparseMatrix<double>(n, n), n, sv::param(2));
	else lineRun(DenseMatrix<double>(n, n), DenseMatrix<double>(n, n), n, sv::param(2));
}
