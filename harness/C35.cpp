// C35: row-extremum norms and the condition figure
// SV: {"entry":"dense","quick":[[1,1],[1,3],[3,1],[2,2]],"thorough":[[2,3],[3,2]],"bound":"matrix shape, entries of any magnitude up to 1000"}
// SV: {"entry":"sparse","quick":[[1,2],[2,2]],"thorough":[[2,3],[3,2]],"bound":"matrix shape, all patterns with any values; smallest entries where every entry is stored"}
// SV: {"entry":"fixed","quick":[[]],"bound":"2x2 and 1x3, entries of any magnitude up to 1000"}
// SV: {"entry":"row","quick":[[3,3],[4,3],[6,2],[2,4],[8,2]],"thorough":[[5,4],[8,3]],"bound":"matrix shape; entries of one row of any magnitude from 1/1000 to 1000, the rest fixed; dense and sparse"}
// SV: {"entry":"scaled","quick":[[1,2],[2,1],[2,2]],"thorough":[[2,3]],"bound":"matrix shape, entries and factor of any value other than zero, exchanged rows"}
#include "common.h"
#include "matrix/FixedMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/SparseMatrix.h"
#include "matrix/MatrixOperations.h"
using namespace NS;
static void bounded(double x) { sv::assume(x <= 1000); sv::assume(x >= -1000); }
static double ab(double x) { return x < 0 ? -x : x; }
// sum of the squares of the largest and smallest magnitudes of the rows
static double sum(const Ref<double>& a, bool largest)
{
	double s = 0;
	for (size_t i = 0; i < a.r; ++i)
	{
		double m = ab(a(i, 0));
		for (size_t j = 1; j < a.c; ++j)
		{
			double x = ab(a(i, j));
			if (largest ? x > m : x < m) m = x;
		}
		s += m * m;
	}
	return s;
}
static void root(double r, double s, const char* msg)
{
	sv::leq(0, r, msg);
	sv::eq(r * r, s, msg);
}
template<class M> void figures(const M& m, const Ref<double>& a)
{
	double hi = sum(a, true), lo = sum(a, false);
	double h = Operations::max_norm2(m), l = Operations::min_norm2(m);
	root(h, hi, "largest entries of the rows");
	root(l, lo, "smallest entries of the rows");
	same(m, a, "the matrix is left alone");
	if (lo > 0)
	{
		double c = Operations::cond(m);
		sv::leq(0, c, "condition figure is the ratio");
		sv::eq(c * l, h, "condition figure is the ratio");
		sv::check(h >= l, "condition figure is at least one");
		sv::reach("ratio");
	}
}
SV_ENTRY(dense)
{
	size_t r = (size_t)sv::param(0), c = (size_t)sv::param(1);
	Ref<double> a = symRef<double>(r, c);
	for (double x : a.v) bounded(x);
	DenseMatrix<double> m(r, c);
	load(m, a);
	figures(m, a);
	sv::reach("end");
}
SV_ENTRY(fixed)
{
	Ref<double> a;
	if (sv::choice(2))
	{
		a = symRef<double>(2, 2);
		for (double x : a.v) bounded(x);
		FixedMatrix<double, 2, 2> m;
		load(m, a);
		figures(m, a);
	}
	else
	{
		a = symRef<double>(1, 3);
		for (double x : a.v) bounded(x);
		FixedMatrix<double, 1, 3> m;
		load(m, a);
		figures(m, a);
	}
	sv::reach("end");
}
SV_ENTRY(sparse)
{
	size_t r = (size_t)sv::param(0), c = (size_t)sv::param(1);
	Ref<double> a(r, c);
	SparseMatrix<double> m(r, c);
	bool full = true;
	for (size_t i = 0; i < r * c; ++i)
	{
		if (!sv::choice(2)) { full = false; continue; }
		a.v[i] = sym<double>();
		bounded(a.v[i]);
		sv::assume(a.v[i] != 0);
		m.set(i / c, i % c, a.v[i]);
	}
	if (full) figures(m, a);
	else
	{
		root(Operations::max_norm2(m), sum(a, true), "largest entries of the rows");
		same(m, a, "the matrix is left alone");
	}
	sv::reach("end");
}
SV_ENTRY(row)
{
	size_t r = (size_t)sv::param(0), c = (size_t)sv::param(1), k = sv::choice(r);
	bool turn = sv::choice(2);
	static const double fix[7] = {3, -0.5, 7, -4, 0.25, 2, -9};
	Ref<double> a(r, c);
	DenseMatrix<double> m(r, c);
	SparseMatrix<double> n(r, c);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < c; ++j)
		{
			double x = fix[(3 * i + 2 * j) % 7];
			if (i == k)
			{
				x = sym<double>();
				sv::assume(x >= 0.001);
				sv::assume(x <= 1000);
				if ((j % 2 == 0) == turn) x = -x;
			}
			a(i, j) = x;
			m.set(i, j, x);
			n.set(i, j, x);
		}
	if (sv::choice(2)) figures(m, a);
	else figures(n, a);
	sv::reach("end");
}
SV_ENTRY(scaled)
{
	size_t r = (size_t)sv::param(0), c = (size_t)sv::param(1);
	Ref<double> a = symRef<double>(r, c);
	for (double x : a.v) { bounded(x); sv::assume(x != 0); }
	double f = sv::real("factor");
	bounded(f);
	sv::assume(f != 0);
	DenseMatrix<double> m(r, c), n(r, c);
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < c; ++j)
		{
			m.set(i, j, a(i, j));
			n.set(r - 1 - i, c - 1 - j, f * a(i, j));
		}
	double h = Operations::max_norm2(m), l = Operations::min_norm2(m);
	double h2 = Operations::max_norm2(n), l2 = Operations::min_norm2(n);
	sv::eq(h2 * h2, f * f * h * h, "norms scale with the matrix");
	sv::eq(l2 * l2, f * f * l * l, "norms scale with the matrix");
	double c1 = Operations::cond(m), c2 = Operations::cond(n);
	sv::eq(c1 * c1 * l2 * l2, h2 * h2, "condition figure does not depend on the scale or order of rows");
	sv::eq(c2 * l2, h2, "condition figure is the ratio");
	sv::reach("end");
}
