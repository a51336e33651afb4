// C16: triangular and factored solves
// SV: {"entry":"dense","quick":[[1],[2],[3],[4],[5],[6],[8],[7]],"thorough":[[10]],"bound":"size; all factor entries and right-hand sides"}
// SV: {"entry":"sparse","quick":[[1],[2],[3]],"thorough":[[4]],"bound":"size; all factor entries, patterns and right-hand sides"}
// SV: {"entry":"fixed","quick":[[]],"bound":"fixed 2x2, 3x3, 4x4 and 6x6, fixed vectors"}
// SV: {"entry":"wide","quick":[[5,0],[7,0],[5,1],[7,1]],"thorough":[[8,0],[9,1]],"bound":"size, full/empty; sparse factors with all (or only the diagonal) entries and any one row, column or diagonal of a factor emptied (or filled), all non-zero values up to 1 (diagonal of U: from 1 to 3) and all right-hand sides"}
// SV: {"entry":"plu","quick":[[4,0,3,0],[5,0,4,0],[4,1,0,0],[4,2,3,0],[4,0,1,1],[3,1,0,1]],"thorough":[[5,1,0,0],[6,0,1,0]],"bound":"size, dense/sparse/fixed, symbolic sub-diagonals of L and corners of U (0: one entry each), real/complex; every row order of L U for unit lower L with entries up to one half and upper U with fixed diagonal and any entries above; all right-hand sides; LU and solve","timeout":800}
// SV: {"entry":"cplx","quick":[[2]],"bound":"2x2 complex dense and sparse"}
// SV: {"entry":"general","quick":[[2],[3]],"bound":"lower factors with any regular diagonal"}
// SV: {"entry":"wholesys","quick":[[2],[3]],"bound":"size; all right-hand sides and regular matrices (size 3: four free entries), dense and sparse; full LU and solve","timeout":500}
#include "common.h"
#include "matrix/Matrix.h"
#include "LU.h"
using namespace NS;
static const double EPS = std::numeric_limits<double>::epsilon();
static double ab(double x) { return x < 0 ? -x : x; }
static Ref<double> low(size_t n, bool unit)
{
	Ref<double> l(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j <= i; ++j)
			if (i == j && unit) l(i, j) = 1;
			else
			{
				l(i, j) = sv::real("l");
				if (i == j) sv::assume(l(i, j) > EPS || l(i, j) < -EPS || l(i, j) == 0);
			}
	return l;
}
static Ref<double> up(size_t n)
{
	Ref<double> u(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = i; j < n; ++j)
		{
			u(i, j) = sv::real("u");
			if (i == j) sv::assume(u(i, j) > EPS || u(i, j) < -EPS || u(i, j) == 0);
		}
	return u;
}
template<class M, class V> static void run(M L, M U, V B, bool unit)
{
	size_t n = B.size();
	Ref<double> l = low(n, unit), u = up(n);
	load(L, l);
	load(U, u);
	std::vector<double> b(n);
	for (size_t i = 0; i < n; ++i) B.set(i, b[i] = sv::real("b"));
	bool sing = false;
	for (size_t i = 0; i < n; ++i) if (u(i, i) == 0 || l(i, i) == 0) sing = true;
	bool thrown = false;
	V x = B;
	try { x = LU::serial::solve_lu(L, U, B); }
	catch (const SingularException&) { thrown = true; }
	sv::check(thrown == sing, "factors with a zero on the diagonal are reported, others are not");
	same(L, l, "L unchanged");
	same(U, u, "U unchanged");
	sameVec(B, b, "right-hand side unchanged");
	if (thrown) { sv::reach("singular"); return; }
	sv::check(x.size() == n, "size of the solution");
	for (size_t i = 0; i < n; ++i)
	{
		double s = 0;
		for (size_t k = 0; k <= i; ++k)
		{
			double t = 0;
			for (size_t j = k; j < n; ++j) t += u(k, j) * x.at(j);
			s += l(i, k) * t;
		}
		sv::eq(s, b[i], "L (U x) = b");
	}
	sv::reach("end");
}
SV_ENTRY(dense) { size_t n = sv::param(0); run(DenseMatrix<double>(n, n), DenseMatrix<double>(n, n), DynamicVector<double>(n), true); }
SV_ENTRY(sparse) { size_t n = sv::param(0); run(SparseMatrix<double>(n, n), SparseMatrix<double>(n, n), DynamicVector<double>(n), true); }
SV_ENTRY(general)
{
	size_t n = sv::param(0);
	if (sv::choice(2)) run(DenseMatrix<double>(n, n), DenseMatrix<double>(n, n), DynamicVector<double>(n), false);
	else run(SparseMatrix<double>(n, n), SparseMatrix<double>(n, n), DynamicVector<double>(n), false);
}
SV_ENTRY(fixed)
{
	switch (sv::choice(4))
	{
	case 0: run(FixedMatrix<double, 2, 2>(), FixedMatrix<double, 2, 2>(), FixedVector<double, 2>(), true); break;
	case 1: run(FixedMatrix<double, 3, 3>(), FixedMatrix<double, 3, 3>(), FixedVector<double, 3>(), true); break;
	case 2: run(FixedMatrix<double, 4, 4>(), FixedMatrix<double, 4, 4>(), FixedVector<double, 4>(), true); break;
	case 3: run(FixedMatrix<double, 6, 6>(), FixedMatrix<double, 6, 6>(), FixedVector<double, 6>(), true); break;
	}
}
template<class M> static void cx(M L, M U)
{
	Ref<cd> l(2, 2), u(2, 2);
	l(0, 0) = l(1, 1) = 1;
	l(1, 0) = sym<cd>("l");
	u(0, 0) = sym<cd>("u"); u(0, 1) = sym<cd>("u"); u(1, 1) = sym<cd>("u");
	sv::assume(u(0, 0).real() > 1 || u(0, 0).imag() > 1);
	sv::assume(u(1, 1).real() < -1 || u(1, 1).imag() > 1);
	load(L, l);
	load(U, u);
	DynamicVector<cd> b(2);
	b.set(0, sym<cd>("b"));
	b.set(1, sym<cd>("b"));
	DynamicVector<cd> x = LU::serial::solve_lu(L, U, b);
	cd y0 = mulx(u(0, 0), x.at(0)) + mulx(u(0, 1), x.at(1)), y1 = mulx(u(1, 1), x.at(1));
	ceq(y0, b.at(0), "complex L (U x) = b");
	ceq(mulx(l(1, 0), y0) + y1, b.at(1), "complex L (U x) = b");
	sv::reach("end");
}
SV_ENTRY(cplx)
{
	if (sv::choice(2)) cx(DenseMatrix<cd>(2, 2), DenseMatrix<cd>(2, 2));
	else cx(SparseMatrix<cd>(2, 2), SparseMatrix<cd>(2, 2));
}
template<class M> static void sys(M A, const Ref<double>& a)
{
	size_t n = a.r;
	M L = A, U = A, P = A;
	load(A, a);
	DynamicVector<double> B(n), x(n);
	std::vector<double> b(n);
	for (size_t i = 0; i < n; ++i) B.set(i, b[i] = sv::real("b"));
	bool thrown = false;
	try
	{
		LU::serial::doolittle(A, L, U, P);
		x = LU::serial::solve_lu(L, U, P.mul(B));
	}
	catch (const SingularException&) { thrown = true; }
	sv::check(!thrown, "regular systems are solved");
	for (size_t i = 0; i < n; ++i)
	{
		double s = 0;
		for (size_t j = 0; j < n; ++j) s += a(i, j) * x.at(j);
		sv::eq(s, b[i], "A x = b");
	}
	same(A, a, "matrix unchanged");
	sameVec(B, b, "right-hand side unchanged");
	sv::reach("end");
}
SV_ENTRY(wholesys)
{
	size_t n = sv::param(0);
	Ref<double> a = symRef<double>(n, n, "a");
	if (n == 3)
	{
		static const double b[9] = {2, 1, -1, 4, 3, 1, -2, 5, 2};
		for (size_t i = 0; i < 9; ++i) if (i % 2) a.v[i] = b[i];
	}
	for (double x : a.v) sv::assume(x <= 100 && x >= -100);
	double d = n == 2 ? a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0)
		: a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) + a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0));
	sv::assume(d > 1e-5 || d < -1e-5);
	if (sv::choice(2)) sys(DenseMatrix<double>(n, n), a);
	else sys(SparseMatrix<double>(n, n), a);
}

// position of the chosen line (row, column or diagonal) of a triangular factor
static bool line(size_t what, size_t at, size_t i, size_t j)
{
	return what == 0 ? i == at : what == 1 ? j == at : (i > j ? i - j : j - i) == at;
}
static double bounded(const char* n)
{
	double v = sv::real(n);
	sv::assume(v != 0);
	sv::assume(v <= 1);
	sv::assume(v >= -1);
	return v;
}
SV_ENTRY(wide)
{
	size_t n = sv::param(0);
	bool empty = sv::param(1);
	size_t wl = sv::choice(3, "line"), al = sv::choice(n, "at"), wu = sv::choice(3, "line"), au = sv::choice(n, "at");
	if (wl + al && wu + au) sv::stop();
	Ref<double> l(n, n), u(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			if (i == j) l(i, j) = 1;
			else if (i > j && line(wl, al, i, j) == empty) { l(i, j) = bounded("l"); }
			if (i == j || (i < j && line(wu, au, i, j) == empty)) u(i, j) = bounded("u");
			if (i == j) u(i, j) = 2 + u(i, j);
		}
	SparseMatrix<double> L(n, n), U(n, n);
	load(L, l);
	load(U, u);
	DynamicVector<double> B(n);
	std::vector<double> b(n);
	for (size_t i = 0; i < n; ++i) B.set(i, b[i] = sv::real("b"));
	DynamicVector<double> x = LU::serial::solve_lu(L, U, B);
	for (size_t i = 0; i < n; ++i)
	{
		double s = 0;
		for (size_t k = 0; k <= i; ++k)
		{
			double t = 0;
			for (size_t j = k; j < n; ++j) t += u(k, j) * x.at(j);
			s += l(i, k) * t;
		}
		sv::eq(s, b[i], "L (U x) = b");
	}
	same(L, l, "L unchanged");
	same(U, u, "U unchanged");
	sv::reach("end");
}
template<class M, class T, class V> static void plu(M A, M L, M U, M P, size_t n, V B)
{
	double d = 0;
	Ref<T> a = pluInput<T>(n, sv::param(2), d);
	load(A, a);
	V x = B;
	std::vector<T> b(n);
	for (size_t i = 0; i < n; ++i) B.set(i, b[i] = sym<T>("b"));
	LU::serial::doolittle(A, L, U, P);
	x = LU::serial::solve_lu(L, U, P.mul(B));
	for (size_t i = 0; i < n; ++i)
	{
		T s(0);
		for (size_t j = 0; j < n; ++j) s += mulx(a(i, j), x.at(j));
		ceq(s, b[i], "A x = b");
	}
	sv::reach("end");
}
template<class T> static void pluT(size_t kind, size_t n)
{
	if (kind == 0) { DenseMatrix<T> A(n, n); plu<DenseMatrix<T>, T>(A, A, A, A, n, DynamicVector<T>(n)); }
	else if (kind == 1) { SparseMatrix<T> A(n, n); plu<SparseMatrix<T>, T>(A, A, A, A, n, DynamicVector<T>(n)); }
	else { FixedMatrix<T, 4, 4> A; plu<FixedMatrix<T, 4, 4>, T>(A, A, A, A, n, FixedVector<T, 4>()); }
}
SV_ENTRY(plu)
{
	if (sv::param(3)) pluT<cd>(sv::param(1), sv::param(0));
	else pluT<double>(sv::param(1), sv::param(0));
}
