// C15: determinant and inverse
// SV: {"entry":"det_dense","quick":[[1],[2],[3]],"bound":"size; all real entries; pivot columns zero or above the tolerance"}
// SV: {"entry":"det_sparse","quick":[[1],[2]],"bound":"size; all real entries and patterns","timeout":3000}
// SV: {"entry":"det_sparse3","quick":[[]],"bound":"3x3 patterns with up to 6 free entries"}
// SV: {"entry":"det_fixed","quick":[[1],[2],[3]],"bound":"size; all real entries"}
// SV: {"entry":"det_perm","quick":[[3],[4]],"thorough":[[5]],"bound":"size; all signed permutation-like matrices: one symbolic entry per row, every arrangement"}
// SV: {"entry":"plu","quick":[[4,0,3],[5,0,4],[4,1,0],[4,2,3],[5,2,4]],"thorough":[[5,1,0],[6,0,1]],"bound":"size, dense/sparse/fixed, symbolic sub-diagonals of L and corners of U (0: one entry each); every row order of L U for unit lower L with entries below one half and upper U with fixed diagonal and any entries above; determinant and inverse","timeout":800}
// SV: {"entry":"det_cplx","quick":[[2]],"bound":"2x2 complex dense and sparse"}
// SV: {"entry":"inv_dense","quick":[[1],[2],[3]],"bound":"size; all real entries (size 3: four free entries)"}
// SV: {"entry":"inv_sparse","quick":[[1],[2],[3]],"bound":"size; all real entries and patterns (size 3: four free entries, zero or not)"}
// SV: {"entry":"inv_lu","quick":[[1,0],[2,0],[3,0],[4,1],[4,2],[4,4],[5,3]],"thorough":[[5,1],[5,2]],"bound":"size, pattern (0 full, 1 bidiagonal, 2 last row and column, 3 first row and column, 4 everything outside the diagonal fixed); unit lower and upper factors with any values in the pattern, singular ones included, dense and sparse"}
// SV: {"entry":"inv_cplx","quick":[[2]],"bound":"2x2 complex dense","timeout":300}
#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOperations.h"
using namespace NS;
static const double EPS = std::numeric_limits<double>::epsilon();
static double ab(double x) { return x < 0 ? -x : x; }
template<class T> static T leibniz(const Ref<T>& a)
{
	if (a.r == 1) return a.v[0];
	T s(0);
	for (size_t k = 0; k < a.c; ++k)
	{
		Ref<T> m(a.r - 1, a.c - 1);
		for (size_t i = 1; i < a.r; ++i)
			for (size_t j = 0, p = 0; j < a.c; ++j)
				if (j != k) m(i - 1, p++) = a(i, j);
		T t = mulx(a(0, k), leibniz(m));
		if (k % 2) s -= t; else s += t;
	}
	return s;
}
// The elimination treats pivots up to the machine epsilon as zero: leave out matrices with pivots of that size
static void noTiny(const Ref<double>& a)
{
	size_t n = a.r;
	double mx = 0;
	for (size_t i = 0; i < n; ++i) { double v = ab(a(i, 0)); if (v > mx) mx = v; }
	sv::assume(mx == 0 || mx > EPS);
	if (n == 3 && mx != 0)
		for (size_t p = 0; p < n; ++p)
			if (ab(a(p, 0)) == mx)
			{
				double m2 = 0;
				for (size_t i = 0; i < n; ++i)
					if (i != p) { double v = ab(a(i, 1) - a(i, 0) * a(p, 1) / a(p, 0)); if (v > m2) m2 = v; }
				sv::assume(m2 == 0 || m2 > EPS);
			}
}
template<class M> static void det(M A, Ref<double> a)
{
	load(A, a);
	noTiny(a);
	sv::eq(Operations::determinant(A), leibniz(a), "determinant");
	same(A, a, "matrix unchanged");
	sv::reach("end");
}
SV_ENTRY(det_dense) { size_t n = sv::param(0); det(DenseMatrix<double>(n, n), symRef<double>(n, n, "a")); }
SV_ENTRY(det_sparse) { size_t n = sv::param(0); det(SparseMatrix<double>(n, n), symRef<double>(n, n, "a")); }
SV_ENTRY(det_sparse3)
{
	static const char pat[][10] = {"110011101", "011110101", "001110011", "010101110", "101010111", "111100010", "100110011", "001010100"};
	const char* p = pat[sv::choice(8, "pattern")];
	Ref<double> a(3, 3);
	for (size_t i = 0; i < 9; ++i)
		if (p[i] == '1') a.v[i] = sv::real("a");
	det(SparseMatrix<double>(3, 3), a);
}
SV_ENTRY(det_fixed)
{
	size_t n = sv::param(0);
	Ref<double> a = symRef<double>(n, n, "a");
	if (n == 1) det(FixedMatrix<double, 1, 1>(), a);
	if (n == 2) det(FixedMatrix<double, 2, 2>(), a);
	if (n == 3) det(FixedMatrix<double, 3, 3>(), a);
}
SV_ENTRY(det_perm)
{
	size_t n = sv::param(0);
	Ref<double> a(n, n);
	std::vector<size_t> left;
	for (size_t i = 0; i < n; ++i) left.push_back(i);
	double prod = 1;
	for (size_t i = 0; i < n; ++i)
	{
		size_t k = sv::choice(left.size(), "permutation");
		double v = sv::real("a");
		sv::assume(v > EPS || v < -EPS || v == 0);
		a(i, left[k]) = v;
		left.erase(left.begin() + k);
	}
	DenseMatrix<double> D(n, n);
	SparseMatrix<double> S(n, n);
	load(D, a);
	load(S, a);
	double d = leibniz(a);
	sv::eq(Operations::determinant(D), d, "dense determinant with row exchanges");
	sv::eq(Operations::determinant(S), d, "sparse determinant with row exchanges");
	sv::reach("end");
}
SV_ENTRY(det_cplx)
{
	size_t n = sv::param(0);
	DenseMatrix<cd> D(n, n);
	SparseMatrix<cd> S(n, n);
	Ref<cd> a = symRef<cd>(n, n, "a");
	double m = 0;
	for (size_t i = 0; i < n; ++i)
	{
		double s = a(i, 0).real() * a(i, 0).real() + a(i, 0).imag() * a(i, 0).imag();
		if (s > m) m = s;
	}
	sv::assume(m == 0 || m > EPS * EPS);
	load(D, a);
	load(S, a);
	cd d = leibniz(a);
	ceq(Operations::determinant(D), d, "complex determinant");
	ceq(Operations::determinant(S), d, "complex sparse determinant");
	sv::reach("end");
}
template<class M, class T> static void inverse(M A, const Ref<T>& a)
{
	size_t n = a.r;
	load(A, a);
	M I = A;
	bool thrown = false;
	try { I = Operations::inverse(A); }
	catch (const SingularException&) { thrown = true; }
	same(A, a, "matrix unchanged");
	T d = leibniz(a);
	if (thrown) { ceq(d, T(0), "only singular matrices have no inverse"); sv::reach("singular"); sv::stop(); }
	sv::check(I.rows() == n && I.columns() == n, "shape of the inverse");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			T s(0), t(0);
			for (size_t k = 0; k < n; ++k)
			{
				s += mulx(a(i, k), I.at(k, j));
				t += mulx(I.at(i, k), a(k, j));
			}
			ceq(s, T(i == j ? 1 : 0), "matrix times inverse");
			ceq(t, T(i == j ? 1 : 0), "inverse times matrix");
		}
	sv::check(d != T(0), "singular matrices are reported");
	sv::reach("end");
}
// entries away from the pivot tolerance: determinant and pivots zero or clearly not
static Ref<double> invInput(size_t n, bool sparse = false)
{
	Ref<double> a = symRef<double>(n, n, "a");
	if (n == 3)
	{
		static const double b[9] = {2, 1, -1, 4, 3, 1, -2, 5, 2};
		for (size_t i = 0; i < 9; ++i) if (sparse ? i % 2 == 0 && i != 4 || i == 3 : i % 2) a.v[i] = sparse && i == 6 ? 0 : b[i];
	}
	for (double x : a.v) sv::assume(x <= 100 && x >= -100);
	noTiny(a);
	double d = leibniz(a);
	// the last pivot is the determinant over the product of the other pivots, which are below 1e5 each
	sv::assume(d == 0 || ab(d) > 1e-5);
	return a;
}
SV_ENTRY(inv_dense) { size_t n = sv::param(0); inverse(DenseMatrix<double>(n, n), invInput(n)); }
SV_ENTRY(inv_sparse) { size_t n = sv::param(0); inverse(SparseMatrix<double>(n, n), invInput(n, true)); }
SV_ENTRY(inv_cplx)
{
	Ref<cd> a = symRef<cd>(2, 2, "a");
	a(0, 0) = cd(sv::real(), 2);
	a(1, 0) = cd(1, sv::real());
	cd d = leibniz(a);
	sv::assume(d == cd(0) || d.real() > 1 || d.real() < -1);
	for (const cd& z : a.v) { sv::assume(z.real() < 100 && z.real() > -100 && z.imag() < 100 && z.imag() > -100); }
	inverse(DenseMatrix<cd>(2, 2), a);
}
SV_ENTRY(inv_lu)
{
	size_t n = sv::param(0), pattern = sv::param(1);
	Ref<double> l(n, n), u(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			bool in = pattern == 0 || (pattern == 1 && (j == i + 1 || i == j + 1)) || (pattern == 2 && (i == n - 1 || j == n - 1)) || (pattern == 3 && (i == 0 || j == 0));
			if (i == j) l(i, j) = 1;
			if (j < i) l(i, j) = in ? sv::real("l") : pattern == 4 ? 2.0 * (int)j - (int)i : 0;
			if (j > i) u(i, j) = in ? sv::real("u") : pattern == 4 ? 3.0 * (int)i - (int)j : 0;
			if (j == i) u(i, j) = sv::real("d");
			if (j == i) sv::assume(u(i, j) > EPS || u(i, j) < -EPS || u(i, j) == 0);
		}
	bool sing = false;
	for (size_t i = 0; i < n; ++i) if (u(i, i) == 0) sing = true;
	DenseMatrix<double> L(n, n), U(n, n), I(n, n);
	load(L, l); load(U, u);
	bool thrown = false;
	try { I = Operations::inverse(L, U); }
	catch (const SingularException&) { thrown = true; }
	sv::check(thrown == sing, "singular factors are reported");
	same(L, l, "L unchanged");
	same(U, u, "U unchanged");
	SparseMatrix<double> SL(n, n), SU(n, n), SI(n, n);
	load(SL, l); load(SU, u);
	bool thrown2 = false;
	try { SI = Operations::inverse(SL, SU); }
	catch (const SingularException&) { thrown2 = true; }
	sv::check(thrown2 == sing, "singular sparse factors are reported");
	same(SL, l, "sparse L unchanged");
	same(SU, u, "sparse U unchanged");
	if (!sing)
	{
		Ref<double> a = mulRef(l, u);
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
			{
				double s = 0, t = 0;
				for (size_t k = 0; k < n; ++k) { s += a(i, k) * I.at(k, j); t += a(i, k) * SI.at(k, j); }
				sv::eq(s, i == j ? 1 : 0, "inverse of L U");
				sv::eq(t, i == j ? 1 : 0, "sparse inverse of L U");
			}
	}
	sv::reach("end");
}

template<class M> static void pluRun(M A)
{
	double d = 0;
	Ref<double> a = pluInput<double>(A.rows(), sv::param(2), d);
	size_t n = a.r;
	load(A, a);
	sv::eq(Operations::determinant(A), d, "determinant with known factors");
	M I = Operations::inverse(A);
	same(A, a, "matrix unchanged");
	sv::check(I.rows() == n && I.columns() == n, "shape of the inverse");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			double s = 0, t = 0;
			for (size_t k = 0; k < n; ++k) { s += a(i, k) * I.at(k, j); t += I.at(i, k) * a(k, j); }
			sv::eq(s, i == j ? 1 : 0, "matrix times inverse");
			sv::eq(t, i == j ? 1 : 0, "inverse times matrix");
		}
	sv::reach("end");
}
template<size_t N> static void pluFixed()
{
	FixedMatrix<double, N, N> A;
	double d = 0;
	Ref<double> a = pluInput<double>(N, sv::param(2), d);
	load(A, a);
	sv::eq(Operations::determinant(A), d, "fixed determinant with known factors");
	same(A, a, "matrix unchanged");
	sv::reach("end");
}
SV_ENTRY(plu)
{
	size_t n = sv::param(0);
	if (sv::param(1) == 0) pluRun(DenseMatrix<double>(n, n));
	else if (sv::param(1) == 1) pluRun(SparseMatrix<double>(n, n));
	else if (n == 4) pluFixed<4>();
	else pluFixed<5>();
}
