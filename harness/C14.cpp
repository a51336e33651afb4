// C14: LU decomposition with partial pivoting
// SV: {"entry":"dense","quick":[[1],[2],[3]],"bound":"size; all real entries","timeout":400}
// SV: {"entry":"sparse","quick":[[1],[2]],"bound":"size; all real entries and patterns","timeout":800}
// SV: {"entry":"sparse3","quick":[[]],"bound":"3x3 sparse patterns with up to 5 free entries, all values"}
// SV: {"entry":"fixed","quick":[[2],[3]],"bound":"size; all real entries"}
// SV: {"entry":"cplx","quick":[[2]],"bound":"2x2 complex dense, all entries"}
// SV: {"entry":"dense4","quick":[[]],"bound":"4x4 dense, one symbolic entry per row around a regular matrix"}
// SV: {"entry":"plu","quick":[[4,0,3,0],[5,0,4,0],[4,1,0,0],[4,2,3,0],[5,2,4,0],[4,0,1,1],[3,1,0,1],[4,2,1,1]],"thorough":[[5,1,0,0],[6,0,1,0]],"bound":"size, dense/sparse/fixed, symbolic sub-diagonals of L and corners of U (0: one entry each), real/complex; every row order of L U for unit lower L with entries up to one half and upper U with fixed diagonal and any entries above","timeout":800}
// SV: {"entry":"deep","quick":[[4,0],[4,1],[4,2],[5,0],[5,1]],"bound":"size, dense/sparse/fixed; every row order of a matrix with dominant pivots, three symbolic entries","timeout":600}
#include "common.h"
#include "matrix/Matrix.h"
#include "LU.h"
#include "Vector.h"
using namespace NS;
static const double EPS = std::numeric_limits<double>::epsilon();
static double ab(double x) { return x < 0 ? -x : x; }
template<class M> static void dirty(M& m)
{
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.columns(); ++j) m.set(i, j, (typename M::value_type)(5.0 + i + 2 * j));
}
// no row of the column offers a pivot (size up to 3)
static bool noPivot(const Ref<double>& a)
{
	size_t n = a.r;
	for (size_t p = 0; p < n; ++p)
	{
		bool best = true;
		for (size_t i = 0; i < n && best; ++i)
			if (ab(a(i, 0)) > ab(a(p, 0))) best = false;
		if (!best) continue;
		if (ab(a(p, 0)) <= EPS) return n > 1;
		bool small = n == 3;
		for (size_t i = 0; i < n && small; ++i)
			if (i != p && ab(a(i, 1) - a(i, 0) * a(p, 1) / a(p, 0)) > EPS) small = false;
		if (small) return true;
	}
	return false;
}
template<class M, class T> static void factors(const Ref<T>& a, const M& L, const M& U, const M& P, size_t count)
{
	size_t n = a.r;
	sv::check(L.rows() == n && L.columns() == n && U.rows() == n && U.columns() == n && P.rows() == n && P.columns() == n, "shapes of the factors");
	std::vector<size_t> perm(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			T v = P.at(i, j);
			bool one = v == T(1);
			sv::check(one || v == T(0), "P holds zeros and ones");
			if (one)
			{
				sv::check(perm[i] == n, "P has one entry per row");
				for (size_t k = 0; k < i; ++k) sv::check(perm[k] != j, "P has one entry per column");
				perm[i] = j;
			}
			if (j > i) ceq(L.at(i, j), T(0), "L is lower triangular");
			if (j == i) ceq(L.at(i, j), T(1), "L has a unit diagonal");
			if (j < i) ceq(U.at(i, j), T(0), "U is upper triangular");
		}
	size_t inv = 0;
	for (size_t i = 0; i < n; ++i)
	{
		sv::check(perm[i] < n, "P has an entry in every row");
		for (size_t j = 0; j < i; ++j) if (perm[j] > perm[i]) ++inv;
	}
	sv::check(count % 2 == inv % 2, "parity of the pivot count");
	sv::check(count < n, "number of row exchanges");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			T s(0);
			for (size_t k = 0; k < n; ++k) s += mulx(L.at(i, k), U.at(k, j));
			ceq(s, a(perm[i], j), "P A = L U");
		}
}
template<class M> static void lu(M A, const Ref<double>& a, M L, M U, M P, bool pivots = true)
{
	size_t n = a.r, count = 99;
	dirty(L); dirty(U); dirty(P);
	long live = sv::live();
	bool thrown = false;
	try { LU::serial::doolittle(A, L, U, P, &count); }
	catch (const SingularException&) { thrown = true; }
	same(A, a, "matrix unchanged");
	if (thrown)
	{
		if (n <= 3) sv::check(noPivot(a), "singularity is only reported without an acceptable pivot");
		sv::reach("singular");
		return;
	}
	factors(a, L, U, P, count);
	for (size_t i = 0; i < n; ++i)
	{
		if (i + 1 < n) sv::check(ab(U.at(i, i)) > EPS, "a missing pivot is reported");
		for (size_t j = 0; j < i; ++j) sv::check(ab(L.at(i, j)) <= 1, "the pivot has the largest magnitude");
	}
	sv::reach("end");
}
SV_ENTRY(dense)
{
	size_t n = sv::param(0);
	DenseMatrix<double> A(n, n), L(n, n), U(n, n), P(n, n);
	Ref<double> a = symRef<double>(n, n, "a");
	load(A, a);
	lu(A, a, L, U, P);
}
SV_ENTRY(dense4)
{
	size_t n = 4;
	static const double base[4][4] = {{2, 1, -1, 3}, {4, 2, 5, 1}, {-2, 1, 1, 2}, {6, -3, 2, 1}};
	DenseMatrix<double> A(n, n), L(n, n), U(n, n), P(n, n);
	Ref<double> a(n, n);
	size_t c = sv::choice(4, "column");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			a(i, j) = base[i][j];
			if (j == c && i % 2 == 0) a(i, j) = sv::real("a");
		}
	load(A, a);
	lu(A, a, L, U, P);
}
SV_ENTRY(sparse)
{
	size_t n = sv::param(0);
	SparseMatrix<double> A(n, n), E(1, 1);
	Ref<double> a = symRef<double>(n, n, "a");
	load(A, a);
	lu(A, a, E, E, E);
}
SV_ENTRY(sparse3)
{
	static const char* pat[] = {"110011101", "011110101", "001110011", "010101110", "101010111", "111100010", "100110011"};
	const char* p = pat[sv::choice(7, "pattern")];
	SparseMatrix<double> A(3, 3), E(2, 2);
	Ref<double> a(3, 3);
	for (size_t i = 0; i < 9; ++i)
		if (p[i] == '1') { a.v[i] = sv::real("a"); sv::assume(a.v[i] != 0); }
	load(A, a);
	lu(A, a, E, E, E);
}
// every order of the rows, so every sequence of row exchanges up to the size
template<class M> static void deep(size_t n, M A, const M& E, bool holes)
{
	static const double diag[5] = {8, -9, 11, -12, 10};
	static const double off[25] = {0, 1, -2, 1, 2, 2, 0, 1, -1, 1, -1, 2, 0, 1, -2, 1, 1, 2, 0, 1, -1, 1, 1, 2, 0};
	std::vector<size_t> left;
	for (size_t i = 0; i < n; ++i) left.push_back(i);
	Ref<double> a(n, n);
	for (size_t i = 0; i < n; ++i)
	{
		size_t k = sv::choice(left.size(), "row order"), q = left[k];
		left.erase(left.begin() + k);
		for (size_t j = 0; j < n; ++j)
		{
			if (q == j) a(i, j) = diag[j];
			else if (holes && (q + 2 * j) % 3 == 1) continue;
			else if ((q == 1 && j == 0) || (q == 2 && j == 3) || (q == 3 && j == 1))
			{
				a(i, j) = sv::real("a");
				sv::assume(a(i, j) < 1 && a(i, j) > 0.25);
			}
			else a(i, j) = off[q * 5 + j];
		}
	}
	load(A, a);
	lu(A, a, E, E, E);
}
SV_ENTRY(deep)
{
	size_t n = sv::param(0);
	if (sv::param(1) == 0) { DenseMatrix<double> A(n, n); deep(n, A, A, false); }
	else if (sv::param(1) == 1) { SparseMatrix<double> A(n, n), E(1, 1); deep(n, A, E, true); }
	else { FixedMatrix<double, 4, 4> A; deep(4, A, A, false); }
}
template<size_t N> static void fx()
{
	FixedMatrix<double, N, N> A;
	Ref<double> a = symRef<double>(N, N, "a");
	load(A, a);
	FixedMatrix<double, N, N> E;
	lu(A, a, E, E, E);
}
SV_ENTRY(fixed) { if (sv::param(0) == 2) fx<2>(); else fx<3>(); }
SV_ENTRY(cplx)
{
	size_t n = sv::param(0);
	DenseMatrix<cd> A(n, n), L(n, n), U(n, n), P(n, n);
	Ref<cd> a = symRef<cd>(n, n, "a");
	load(A, a);
	dirty(L); dirty(U); dirty(P);
	size_t count = 99;
	bool thrown = false;
	try { LU::serial::doolittle(A, L, U, P, &count); }
	catch (const SingularException&) { thrown = true; }
	same(A, a, "matrix unchanged");
	auto sq = [](const cd& z) { return z.real() * z.real() + z.imag() * z.imag(); };
	if (thrown)
	{
		for (size_t i = 0; i < n; ++i) sv::check(sq(a(i, 0)) <= EPS * EPS, "singularity is only reported without an acceptable pivot");
		sv::stop();
	}
	factors(a, L, U, P, count);
	sv::check(sq(U.at(0, 0)) > EPS * EPS, "a missing pivot is reported");
	sv::check(sq(U.at(0, 0)) >= sq(a(0, 0)) && sq(U.at(0, 0)) >= sq(a(1, 0)), "the pivot has the largest magnitude");
	sv::reach("end");
}

template<class M, class T> static void plu(M A, M L, M U, M P, size_t n)
{
	double d = 0;
	Ref<T> l, u;
	std::vector<size_t> order;
	Ref<T> a = pluInput<T>(n, sv::param(2), d, &l, &u, &order);
	load(A, a);
	size_t count = 99;
	bool thrown = false;
	try { LU::serial::doolittle(A, L, U, P, &count); }
	catch (const SingularException&) { thrown = true; }
	sv::check(!thrown, "regular matrices have factors");
	same(A, a, "matrix unchanged");
	// the pivot of every step is the only entry of largest magnitude: the factors are determined
	same(L, l, "L with known factors");
	same(U, u, "U with known factors");
	sv::check(P.rows() == n && P.columns() == n, "shape of P");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) ceq(P.at(i, j), T(order[j] == i ? 1 : 0), "P with known factors");
	size_t inv = 0;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < i; ++j) if (order[j] > order[i]) ++inv;
	sv::check(count % 2 == inv % 2 && count < n, "parity of the pivot count");
	sv::reach("end");
}
template<class T> static void pluT(size_t kind, size_t n)
{
	if (kind == 0) { DenseMatrix<T> A(n, n); plu<DenseMatrix<T>, T>(A, A, A, A, n); }
	else if (kind == 1) { SparseMatrix<T> A(n, n); plu<SparseMatrix<T>, T>(A, A, A, A, n); }
	else if (n == 4) { FixedMatrix<T, 4, 4> A; plu<FixedMatrix<T, 4, 4>, T>(A, A, A, A, n); }
	else { FixedMatrix<T, 5, 5> A; plu<FixedMatrix<T, 5, 5>, T>(A, A, A, A, n); }
}
SV_ENTRY(plu)
{
	if (sv::param(3)) pluT<cd>(sv::param(1), sv::param(0));
	else pluT<double>(sv::param(1), sv::param(0));
}
