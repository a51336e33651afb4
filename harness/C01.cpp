// C01: sparse matrix as a map, every edit history (SPARSE)
// SV: {"entry":"history","quick":[[1,1,4],[2,2,3],[1,3,3],[3,1,3],[2,3,2],[3,2,2],[2,3,4],[3,2,4],[3,3,3],[1,4,4],[4,1,4]],"thorough":[[2,2,5],[4,4,3],[5,5,2],[1,5,4],[5,1,4],[1,8,3],[8,1,3]],"bound":"rows, columns, number of edits from an empty matrix; any position, any value, set/linear_set/scale/clear"}
// SV: {"entry":"step","quick":[[2,3,1],[3,2,1],[3,3,1],[2,2,2],[4,2,1],[2,4,1]],"thorough":[[3,3,2],[2,4,2],[4,2,2],[3,4,1],[4,3,1]],"bound":"rows, columns, edits applied to an arbitrary filled pattern (every subset of positions)"}
// SV: {"entry":"history_complex","quick":[[2,2,2],[2,2,3],[2,3,3]],"thorough":[[3,3,3],[2,2,4]],"bound":"as history, complex elements"}
// SV: {"entry":"row","quick":[[1,8,0],[2,7,1],[3,6,2],[6,1,3],[8,1,0]],"thorough":[[1,10,0],[2,9,2],[10,1,0]],"bound":"rows, columns, order of filling (ascending, descending, from the middle); every subset of one row (one column for a single column) beside neighbouring entries, any values, then one edit anywhere in it","timeout":800}
// SV: {"entry":"initlist","quick":[[]],"bound":"initializer lists 3x3 ragged, all values"}
#include "common.h"
#include "matrix/SparseMatrix.h"
using namespace NS;
template<class T> static void verify(const SparseMatrix<T>& m, const Ref<T>& r)
{
	size_t n = 0;
	std::vector<size_t> col(r.c, 0);
	for (size_t i = 0; i < r.r; ++i)
	{
		size_t k = 0;
		for (size_t j = 0; j < r.c; ++j)
		{
			ceq(m.at(i, j), r(i, j), "at returns the last written value");
			ceq(m.linear_at(i * r.c + j), r(i, j), "linear_at returns the last written value");
			bool nz = r(i, j) != T(0);
			sv::check(m.has(i, j) == nz, "has reports exactly the non-zero entries");
			T v(7);
			sv::check(m.has(i, j, v) == nz, "has(value) reports exactly the non-zero entries");
			ceq(v, r(i, j), "has(value) yields the stored value");
			if (nz)
			{
				++k;
				++col[j];
			}
		}
		sv::check(m.row_filled_count(i) == k, "row_filled_count counts the entries of the row");
		n += k;
	}
	sv::check(m.filled_count() == n, "filled_count counts the present entries");
	sv::check(m.empty() == (n == 0), "empty iff no entry is present");
	sv::check(m.has_zero() == (n != r.r * r.c), "has_zero iff a position has no entry");
	sv::check(m.rows() == r.r && m.columns() == r.c && m.size() == r.r * r.c, "dimensions never change");
	if (n)
		for (size_t j = 0; j < r.c; ++j)
			sv::check(m.column_filled_count(j) == col[j], "column_filled_count counts the entries of the column");
}
template<class T> static void edit(SparseMatrix<T>& m, Ref<T>& r)
{
	size_t pos = r.r * r.c;
	size_t op = sv::choice(pos + 2, "op");
	if (op < pos)
	{
		T v = sym<T>("v");
		size_t i = op / r.c, j = op % r.c;
		if (op % 2)
			m.linear_set(op, v);
		else
			m.set(i, j, v);
		r(i, j) = v;
	}
	else if (op == pos)
	{
		T f = sym<T>("f");
		m *= f;
		for (auto& x : r.v)
			x = mulx(x, f);
	}
	else
	{
		m *= T(0);
		for (auto& x : r.v)
			x = T(0);
	}
}
SV_ENTRY(history)
{
	size_t R = sv::param(0), C = sv::param(1), K = sv::param(2);
	SparseMatrix<double> m(R, C);
	Ref<double> r(R, C);
	verify(m, r);
	for (size_t k = 0; k < K; ++k)
		edit(m, r);
	verify(m, r);
	sv::reach("end");
}
SV_ENTRY(step)
{
	size_t R = sv::param(0), C = sv::param(1), K = sv::param(2);
	SparseMatrix<double> m(R, C, 4);
	Ref<double> r(R, C);
	for (size_t i = 0; i < R * C; ++i)
		if (sv::choice(2, "filled"))
		{
			double v = sv::real("a");
			sv::assume(v != 0);
			m.set(i / C, i % C, v);
			r.v[i] = v;
		}
	for (size_t k = 0; k < K; ++k)
		edit(m, r);
	verify(m, r);
	sv::reach("end");
}
// many entries in a line, filled in an order of choice, and one more edit
SV_ENTRY(row)
{
	size_t R = sv::param(0), C = sv::param(1), order = sv::param(2), n = C == 1 ? R : C, at = C == 1 ? 0 : sv::choice(R, "row");
	SparseMatrix<double> m(R, C);
	Ref<double> r(R, C);
	auto put = [&](size_t i, size_t j, double v) { m.set(i, j, v); r(i, j) = v; };
	for (size_t i = 0; i < R && C > 1; ++i)
		if (i != at && (i + at) % 3 != 0) put(i, (2 * i + at) % C, 5);
	std::vector<bool> in(n);
	for (size_t k = 0; k < n; ++k) in[k] = sv::choice(2, "filled");
	for (size_t q = 0; q < n; ++q)
	{
		size_t k = order == 0 ? q : order == 1 ? n - 1 - q : order == 2 ? (q % 2 ? n / 2 - (q + 1) / 2 : n / 2 + q / 2) : (q * 2 < n ? 2 * q : 2 * (q - (n + 1) / 2) + 1);
		if (k >= n || !in[k]) continue;
		double v = sv::real("a");
		sv::assume(v != 0);
		if (C == 1) put(k, 0, v); else put(at, k, v);
	}
	size_t k = sv::choice(n, "edit");
	double v = sv::real("v");
	if (C == 1) put(k, 0, v); else put(at, k, v);
	verify(m, r);
	sv::reach("end");
}
SV_ENTRY(history_complex)
{
	size_t R = sv::param(0), C = sv::param(1), K = sv::param(2);
	SparseMatrix<cd> m(R, C);
	Ref<cd> r(R, C);
	for (size_t k = 0; k < K; ++k)
		edit(m, r);
	verify(m, r);
	sv::reach("end");
}
SV_ENTRY(initlist)
{
	double a = sv::real(), b = sv::real(), c = sv::real(), d = sv::real(), e = sv::real(), f = sv::real();
	SparseMatrix<double> m = {{a, b}, {c}, {d, e, f}};
	Ref<double> r(3, 3);
	r.v = {a, b, 0, c, 0, 0, d, e, f};
	verify(m, r);
	sv::reach("end");
}
