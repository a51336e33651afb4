// C02: sparse iteration and editing through iterators
// SV: {"entry":"iterate","quick":[[1,1],[1,4],[4,1],[2,3],[3,2],[3,3],[4,3],[3,4],[2,5],[5,2]],"thorough":[[4,4],[3,5],[5,3],[7,2],[2,7]],"bound":"rows, columns; every filled pattern, all non-zero values"}
// SV: {"entry":"iterate_complex","quick":[[2,2],[3,1]],"bound":"as iterate, complex elements"}
// SV: {"entry":"edit_it","quick":[[1,3],[3,1],[2,3],[3,2],[3,3],[4,2],[2,4]],"thorough":[[4,3],[3,4],[5,2]],"bound":"rows, columns; every pattern, one set/erase/write at every stored entry, then full iteration"}
// SV: {"entry":"erase_all","quick":[[2,2],[3,2],[2,3],[3,3],[4,2]],"thorough":[[2,5],[5,2],[4,3]],"bound":"rows, columns; every pattern, every subset of the entries erased in one pass"}
// SV: {"entry":"edit_history","quick":[[2,2,2],[3,1,3],[2,2,3],[3,2,2],[2,3,2]],"thorough":[[3,3,3],[2,4,3],[4,2,3]],"bound":"rows, columns, number of edits; iteration after any edit history"}
// SV: {"entry":"row","quick":[[1,8,0],[2,6,1],[3,5,2],[6,1,3],[7,1,0]],"thorough":[[1,10,0],[2,9,2],[10,1,0]],"bound":"rows, columns, order of filling; every subset of one row (one column for a single column) beside neighbouring entries, then one edit anywhere in it","timeout":800}
#include "common.h"
#include "matrix/SparseMatrix.h"
using namespace NS;
struct Ent { size_t i, j; };
template<class T> static std::vector<Ent> entries(const Ref<T>& r)
{
	std::vector<Ent> e;
	for (size_t i = 0; i < r.r; ++i)
		for (size_t j = 0; j < r.c; ++j)
			if (r(i, j) != T(0))
				e.push_back(Ent{i, j});
	return e;
}
template<class T> static void verify(SparseMatrix<T>& m, const Ref<T>& r)
{
	const SparseMatrix<T>& cm = m;
	std::vector<Ent> e = entries(r);
	size_t k = 0;
	for (auto it = m.begin(); it != m.end(); ++it, ++k)
	{
		sv::check(it.isValid(), "an iterator before end is valid");
		sv::check(k < e.size() && it.row() == e[k].i && it.column() == e[k].j, "iteration visits the stored entries in order");
		ceq(*it, r(e[k].i, e[k].j), "iteration yields the stored value");
	}
	sv::check(k == e.size(), "iteration visits every stored entry");
	k = 0;
	for (auto it = cm.begin(); it != cm.end(); it++, ++k)
	{
		sv::check(k < e.size() && it.row() == e[k].i && it.column() == e[k].j, "const iteration visits the stored entries in order");
		ceq(*it, r(e[k].i, e[k].j), "const iteration yields the stored value");
	}
	sv::check(k == e.size(), "const iteration visits every stored entry");
	k = 0;
	for (auto it = cm.cbegin(); it != cm.cend(); ++it)
		++k;
	sv::check(k == e.size(), "cbegin iteration visits every stored entry");
	for (size_t i = 0; i < r.r; ++i)
	{
		std::vector<size_t> w;
		for (size_t j = 0; j < r.c; ++j)
			if (r(i, j) != T(0))
				w.push_back(j);
		k = 0;
		for (auto it = m.row_begin(i); it != m.row_end(i); ++it, ++k)
		{
			sv::check(k < w.size() && it.row() == i && it.column() == w[k], "row iteration visits the row's entries in order");
			ceq(*it, r(i, w[k]), "row iteration yields the stored value");
		}
		sv::check(k == w.size(), "row iteration visits every entry of the row");
		k = 0;
		for (auto it = cm.row_begin(i); it != cm.row_end(i); it++, ++k)
			sv::check(k < w.size() && it.row() == i && it.column() == w[k], "const row iteration visits the row's entries in order");
		sv::check(k == w.size(), "const row iteration visits every entry of the row");
		k = 0;
		for (auto it = cm.row_cbegin(i); it != cm.row_cend(i); ++it)
			++k;
		sv::check(k == w.size(), "row_cbegin iteration visits every entry of the row");
		sv::check(cm.row_filled_count(i) == w.size(), "row_filled_count is the number of entries in the row");
	}
	for (size_t j = 0; j < r.c; ++j)
	{
		std::vector<size_t> w;
		for (size_t i = 0; i < r.r; ++i)
			if (r(i, j) != T(0))
				w.push_back(i);
		k = 0;
		for (auto it = m.column_begin(j); it != m.column_end(j); ++it, ++k)
		{
			sv::check(k < w.size() && it.row() == w[k] && it.column() == j, "column iteration visits the column's entries in order");
			ceq(*it, r(w[k], j), "column iteration yields the stored value");
		}
		sv::check(k == w.size(), "column iteration visits every entry of the column");
		k = 0;
		for (auto it = cm.column_begin(j); it != cm.column_end(j); it++, ++k)
			sv::check(k < w.size() && it.row() == w[k] && it.column() == j, "const column iteration visits the column's entries in order");
		sv::check(k == w.size(), "const column iteration visits every entry of the column");
		k = 0;
		for (auto it = cm.column_cbegin(j); it != cm.column_cend(j); ++it)
			++k;
		sv::check(k == w.size(), "column_cbegin iteration visits every entry of the column");
		sv::check(cm.column_filled_count(j) == w.size(), "column_filled_count is the number of entries in the column");
	}
	same(m, r, "iterating changes nothing");
	sv::check(m.filled_count() == e.size(), "filled_count is the number of stored entries");
}
template<class T> static void pattern(SparseMatrix<T>& m, Ref<T>& r)
{
	for (size_t i = 0; i < r.v.size(); ++i)
		if (sv::choice(2, "filled"))
		{
			T v = sym<T>("a");
			sv::assume(v != T(0));
			m.set(i / r.c, i % r.c, v);
			r.v[i] = v;
		}
}
SV_ENTRY(iterate)
{
	Ref<double> r(sv::param(0), sv::param(1));
	SparseMatrix<double> m(r.r, r.c);
	pattern(m, r);
	verify(m, r);
	sv::reach("end");
}
SV_ENTRY(iterate_complex)
{
	Ref<cd> r(sv::param(0), sv::param(1));
	SparseMatrix<cd> m(r.r, r.c);
	pattern(m, r);
	verify(m, r);
	sv::reach("end");
}
template<class It> static void expectAt(const SparseMatrix<double>& m, const It& it, const Ref<double>& r, const std::vector<Ent>& e, size_t k, const char* msg)
{
	if (k < e.size())
	{
		sv::check(it.isValid() && it.row() == e[k].i && it.column() == e[k].j, msg);
		ceq(*it, r(e[k].i, e[k].j), msg);
	}
	else
		sv::check(!it.isValid() && it == m.end(), msg);
}
SV_ENTRY(edit_it)
{
	Ref<double> r(sv::param(0), sv::param(1));
	SparseMatrix<double> m(r.r, r.c);
	pattern(m, r);
	std::vector<Ent> e = entries(r);
	if (e.empty())
	{
		sv::check(m.begin() == m.end(), "empty matrix: begin is end");
		auto it = m.erase(m.begin());
		sv::check(it == m.end(), "erasing at end yields end");
		it = m.set(m.begin(), 3.0);
		sv::check(it == m.end(), "setting at end yields end");
		verify(m, r);
		return;
	}
	size_t k = sv::choice(e.size(), "entry");
	auto it = m.begin();
	for (size_t n = 0; n < k; ++n)
		++it;
	size_t op = sv::choice(5, "op");
	double v = sv::real("v");
	if (op == 0) // write through the reference
	{
		sv::assume(v != 0);
		*it = v;
		r(e[k].i, e[k].j) = v;
	}
	else if (op == 1)
	{
		sv::assume(v != 0);
		auto n = m.set(it, v);
		r(e[k].i, e[k].j) = v;
		expectAt(m, n, r, e, k, "set(it, value) yields an iterator to the entry");
	}
	else if (op == 2)
	{
		auto n = m.erase(it);
		r(e[k].i, e[k].j) = 0;
		std::vector<Ent> f = entries(r);
		expectAt(m, n, r, f, k, "erase yields an iterator to the following entry");
		for (size_t q = k; q < f.size(); ++q, ++n)
			expectAt(m, n, r, f, q, "iteration continues correctly after erase");
		expectAt(m, n, r, f, f.size(), "iteration after erase ends at end");
	}
	else if (op == 3)
	{
		auto n = m.set(it, 0.0);
		r(e[k].i, e[k].j) = 0;
		std::vector<Ent> f = entries(r);
		expectAt(m, n, r, f, k, "set(it, 0) erases and yields an iterator to the following entry");
	}
	else
	{
		auto n = m.erase(m.end());
		sv::check(n == m.end(), "erasing at end yields end");
		n = m.set(m.end(), v);
		sv::check(n == m.end(), "setting at end yields end");
	}
	verify(m, r);
	sv::reach("end");
}
SV_ENTRY(erase_all)
{
	Ref<double> r(sv::param(0), sv::param(1));
	SparseMatrix<double> m(r.r, r.c);
	pattern(m, r);
	std::vector<Ent> e = entries(r);
	size_t k = 0;
	for (auto it = m.begin(); it != m.end(); ++k)
	{
		sv::check(k < e.size() && it.row() == e[k].i && it.column() == e[k].j, "erase loop visits the entries in order");
		if (sv::choice(2, "erase"))
		{
			it = m.erase(it);
			r(e[k].i, e[k].j) = 0;
		}
		else
			++it;
	}
	sv::check(k == e.size(), "erase loop visits every entry");
	verify(m, r);
	sv::reach("end");
}
SV_ENTRY(edit_history)
{
	Ref<double> r(sv::param(0), sv::param(1));
	SparseMatrix<double> m(r.r, r.c);
	for (long k = 0; k < sv::param(2); ++k)
	{
		size_t p = sv::choice(r.v.size(), "pos");
		double v = sv::real("v");
		m.set(p / r.c, p % r.c, v);
		r.v[p] = v;
		if (sv::choice(2, "erase") && !m.empty())
		{
			auto it = m.begin();
			r(it.row(), it.column()) = 0;
			m.erase(it);
		}
	}
	verify(m, r);
	sv::reach("end");
}
// many entries in a line, filled in an order of choice, and one more edit
SV_ENTRY(row)
{
	size_t R = sv::param(0), C = sv::param(1), order = sv::param(2), n = C == 1 ? R : C, at = C == 1 ? 0 : sv::choice(R, "row");
	SparseMatrix<double> m(R, C);
	Ref<double> r(R, C);
	auto put = [&](size_t i, size_t j, double v) { m.set(i, j, v); r(i, j) = v; };
	for (size_t i = 0; i < R && C > 1; ++i)
		if (i != at && (i + at) % 3 != 0) put(i, (2 * i + at) % C, 5);
	std::vector<bool> in(n);
	for (size_t k = 0; k < n; ++k) in[k] = sv::choice(2, "filled");
	for (size_t q = 0; q < n; ++q)
	{
		size_t k = order == 0 ? q : order == 1 ? n - 1 - q : order == 2 ? (q % 2 ? n / 2 - (q + 1) / 2 : n / 2 + q / 2) : (q * 2 < n ? 2 * q : 2 * (q - (n + 1) / 2) + 1);
		if (k >= n || !in[k]) continue;
		double v = sv::real("a");
		sv::assume(v != 0);
		if (C == 1) put(k, 0, v); else put(at, k, v);
	}
	size_t k = sv::choice(n, "edit");
	double v = sv::real("v");
	if (C == 1) put(k, 0, v); else put(at, k, v);
	verify(m, r);
	sv::reach("end");
}
