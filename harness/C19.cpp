// C19: Jacobi and successive over-relaxation
// SV: {"entry":"dense","quick":[[0,1,2],[1,1,2],[0,2,1],[1,2,1],[0,3,1],[1,3,1],[0,2,2],[1,2,2],[0,4,1],[1,4,1]],"thorough":[[0,2,3],[1,2,3],[0,3,2],[1,3,2],[0,5,1],[1,5,1]],"bound":"method, size, sweeps; all matrices, right-hand sides, start vectors, weights and tolerances","timeout":800}
// SV: {"entry":"sparse","quick":[[0,2,1],[1,2,1],[0,3,1],[1,3,1]],"thorough":[[0,2,2],[1,2,2]],"bound":"method, size, sweeps; all matrices and patterns, right-hand sides, start vectors, weights and tolerances","timeout":800}
// SV: {"entry":"sweeps","quick":[[0,2,3],[1,2,3],[0,3,2],[1,3,2],[0,2,5],[1,2,5],[0,3,4],[1,3,4]],"thorough":[[0,2,10],[1,2,10],[0,3,6],[1,3,6]],"bound":"method, size, sweeps; fixed regular matrix, all right-hand sides, start vectors, weights and tolerances; dense and sparse","timeout":800}
// SV: {"entry":"solved","quick":[[0,2],[1,2],[0,3],[1,3]],"bound":"method, size; all matrices with non-zero diagonal, all solutions as start vector","thorough":[[0,4],[1,4]]}
// SV: {"entry":"types","quick":[[0],[1]],"bound":"method; complex dense 2x2 with fixed matrix and all vectors, fixed matrix and vector types"}
// SV: {"entry":"limits","quick":[[0],[1]],"bound":"method; no sweeps, missing statistic, all shapes up to 3x3"}
#include "common.h"
#include "matrix/Matrix.h"
#include "Iterative.h"
using namespace NS;
template<class M, class V> static V call(int meth, const M& A, const V& b, const V& x0, double w, size_t it, double eps, size_t* st)
{
	if (meth == 0) return Iterative::serial::jacobi(A, b, x0, it, eps, st);
	return Iterative::serial::sor(A, b, x0, w, it, eps, st);
}
// textbook sweep
static std::vector<double> sweep(int meth, const Ref<double>& a, const std::vector<double>& b, const std::vector<double>& x, double w)
{
	size_t n = a.r;
	std::vector<double> y(n);
	for (size_t i = 0; i < n; ++i)
	{
		double s = b[i];
		for (size_t j = 0; j < n; ++j)
			if (j != i) s -= a(i, j) * (meth == 1 && j < i ? y[j] : x[j]);
		s /= a(i, i);
		y[i] = meth == 0 ? s : (1 - w) * x[i] + w * s;
	}
	return y;
}
template<class M, class V> static void run(int meth, M A, V B, V X, const Ref<double>& a, size_t its)
{
	size_t n = a.r;
	double w = meth == 1 ? sv::real("w") : 1, eps = sv::real("eps");
	sv::assume(eps >= 0);
	load(A, a);
	std::vector<double> b(n), x(n);
	for (size_t i = 0; i < n; ++i) { B.set(i, b[i] = sv::real("b")); X.set(i, x[i] = sv::real("x")); }
	bool zero = false;
	for (size_t i = 0; i < n && !zero; ++i) if (a(i, i) == 0) zero = true;
	size_t st = 99;
	bool thrown = false;
	V R = X;
	try { R = call(meth, A, B, X, w, its, eps, &st); }
	catch (const MatrixHasZeroInDiagException&) { thrown = true; }
	sv::check(thrown == zero, "a zero on the diagonal is reported");
	same(A, a, "matrix unchanged");
	sameVec(B, b, "right-hand side unchanged");
	sameVec(X, x, "start vector unchanged");
	if (thrown) { sv::reach("zero"); return; }
	size_t done = 0;
	while (done < its)
	{
		std::vector<double> y = sweep(meth, a, b, x, w);
		++done;
		double d = 0;
		for (size_t i = 0; i < n; ++i) d += (y[i] - x[i]) * (y[i] - x[i]);
		x = y;
		if (d <= eps * eps) { sv::reach("stopped"); break; }
	}
	sv::check(st == done, "number of sweeps");
	sameVec(R, x, "textbook sweeps");
	sv::reach("end");
}
SV_ENTRY(dense)
{
	size_t n = sv::param(1);
	run(sv::param(0), DenseMatrix<double>(n, n), DynamicVector<double>(n), DynamicVector<double>(n), symRef<double>(n, n, "a"), sv::param(2));
}
SV_ENTRY(sparse)
{
	size_t n = sv::param(1);
	run(sv::param(0), SparseMatrix<double>(n, n), DynamicVector<double>(n), DynamicVector<double>(n), symRef<double>(n, n, "a"), sv::param(2));
}
SV_ENTRY(sweeps)
{
	size_t n = sv::param(1);
	static const double v[9] = {4, 1, -1, 2, 5, 1, 0, -1, 3};
	Ref<double> a(n, n);
	for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = v[i * 3 + j];
	if (sv::choice(2)) run(sv::param(0), DenseMatrix<double>(n, n), DynamicVector<double>(n), DynamicVector<double>(n), a, sv::param(2));
	else run(sv::param(0), SparseMatrix<double>(n, n), DynamicVector<double>(n), DynamicVector<double>(n), a, sv::param(2));
}
SV_ENTRY(solved)
{
	int meth = sv::param(0);
	size_t n = sv::param(1), st = 0;
	DenseMatrix<double> A(n, n);
	DynamicVector<double> B(n), X(n);
	Ref<double> a = symRef<double>(n, n, "a");
	std::vector<double> x(n);
	for (size_t i = 0; i < n; ++i) { sv::assume(a(i, i) != 0); X.set(i, x[i] = sv::real("x")); }
	load(A, a);
	for (size_t i = 0; i < n; ++i)
	{
		double s = 0;
		for (size_t j = 0; j < n; ++j) s += a(i, j) * x[j];
		B.set(i, s);
	}
	DynamicVector<double> R = call(meth, A, B, X, sv::real("w"), 5, 0, &st);
	sv::check(st == 1, "a solution is recognised in one sweep");
	sameVec(R, x, "a solution is returned unchanged");
	sv::reach("end");
}
SV_ENTRY(types)
{
	int meth = sv::param(0);
	size_t st = 0;
	if (sv::choice(2))
	{
		DenseMatrix<cd> A = {{cd(4, 1), cd(1, -1)}, {cd(0, 2), cd(3, 0)}};
		DynamicVector<cd> B(2), X(2);
		for (size_t i = 0; i < 2; ++i) { B.set(i, sym<cd>("b")); X.set(i, sym<cd>("x")); }
		// a tolerance above the change cannot occur: run one sweep
		DynamicVector<cd> R = call(meth, A, B, X, 0.5, 1, 0, &st);
		cd y0 = R.at(0), y1 = R.at(1), x0 = X.at(0), x1 = X.at(1);
		if (meth == 1) { y0 = (y0 - x0 * 0.5) * 2.0; y1 = (y1 - x1 * 0.5) * 2.0; }
		ceq(mulx(A.at(0, 0), y0), B.at(0) - mulx(A.at(0, 1), x1), "complex sweep");
		ceq(mulx(A.at(1, 1), y1), B.at(1) - mulx(A.at(1, 0), meth == 1 ? R.at(0) : x0), "complex sweep");
		sv::check(st == 1, "number of sweeps");
		double eps = sv::real("eps"), d = std::norm(R.at(0) - x0) + std::norm(R.at(1) - x1);
		sv::assume(eps >= 0);
		DynamicVector<cd> Q = call(meth, A, B, X, 0.5, 2, eps, &st);
		if (d <= eps * eps)
		{
			sv::check(st == 1, "complex change within the tolerance stops");
			ceq(Q.at(0), R.at(0), "complex sweep");
			ceq(Q.at(1), R.at(1), "complex sweep");
		}
		else sv::check(st == 2, "complex change above the tolerance does not stop");
	}
	else
	{
		Ref<double> a(2, 2);
		a(0, 0) = 4; a(0, 1) = sv::real("a"); a(1, 0) = -1; a(1, 1) = 3;
		run(meth, FixedMatrix<double, 2, 2>(), FixedVector<double, 2>(), FixedVector<double, 2>(), a, 1);
	}
	sv::reach("end");
}
SV_ENTRY(limits)
{
	int meth = sv::param(0);
	if (sv::choice(2))
	{
		DenseMatrix<double> A = {{4, 1}, {2, 3}};
		DynamicVector<double> B(2), X(2);
		for (size_t i = 0; i < 2; ++i) { B.set(i, sv::real("b")); X.set(i, sv::real("x")); }
		size_t st = 7;
		DynamicVector<double> R = call(meth, A, B, X, 1, 0, 0, &st);
		sv::check(st == 0, "no sweep requested");
		sv::eq(R.at(0), X.at(0), "start vector returned");
		sv::eq(R.at(1), X.at(1), "start vector returned");
		R = call(meth, A, B, X, 1, 1, 0, nullptr);
		sv::eq(R.at(0), (B.at(0) - X.at(1)) / 4, "sweep without statistic");
	}
	else
	{
		size_t r = 1 + sv::choice(3), c = 1 + sv::choice(3), n = 1 + sv::choice(3), m = 1 + sv::choice(3);
		SparseMatrix<double> A(r, c);
		for (size_t i = 0; i < r && i < c; ++i) A.set(i, i, 2);
		DynamicVector<double> B(n), X(m);
		int t = 0;
		try { call(meth, A, B, X, 1, 1, 0, nullptr); }
		catch (const NotSquareException&) { t = 1; }
		catch (const MatrixVectorMismatchException&) { t = 2; }
		sv::check(t == (r != c ? 1 : n != r || m != r ? 2 : 0), "shapes are checked");
	}
	sv::reach("end");
}
