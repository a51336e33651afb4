// C13: permutations
// SV: {"entry":"full","quick":[[1],[2],[3],[4]],"bound":"size, all permutations, all entries and patterns (size 4: full pattern)"}
// SV: {"entry":"four","quick":[[4]],"thorough":[[5]],"bound":"size, all permutations; matrix with up to 3 entries of all values, vectors with all values"}
// SV: {"entry":"large","quick":[[6,4],[7,1],[5,0],[8,3]],"thorough":[[10,3],[7,0]],"bound":"size, pattern; positive values; rotations, exchanges of two, reversal and cycles of three"}
#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOrder.h"
using namespace NS;
static DynamicVector<Index> anyPerm(size_t n)
{
	DynamicVector<Index> p(n);
	for (size_t i = 0; i < n; ++i)
	{
		p.set(i, sv::u64("p", 0, n - 1));
		for (size_t j = 0; j < i; ++j) sv::assume(p[j] != p[i]);
	}
	return p;
}
static void check(const SparseMatrix<double>& S, const Ref<double>& a, DynamicVector<Index> p)
{
	size_t n = a.r;
	DynamicVector<Index> p0 = p;
	SparseMatrix<double> P = permutation_matrix<double>(p);
	sv::check(P.rows() == n && P.columns() == n && P.filled_count() == n, "permutation matrix has one entry per row");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) sv::eq(P.at(i, j), p[i] == j ? 1 : 0, "permutation matrix entry");
	DynamicVector<Index> q = inverse_permutation(p);
	sv::check(q.size() == n, "inverse ordering length");
	for (size_t i = 0; i < n; ++i)
	{
		sv::check(q[p[i]] == i, "inverse ordering undoes the ordering");
		sv::check(p[q[i]] == i, "ordering undoes the inverse");
	}
	SparseMatrix<double> B = permutate(S, p);
	Ref<double> b(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j) b(i, j) = a(p[i], p[j]);
	same(B, b, "permuted matrix is P A P^T");
	consistent(B, "permuted matrix bookkeeping");
	same(permutate(B, q), a, "permuting back");
	same(S, a, "matrix unchanged");
	DynamicVector<double> x(n);
	std::vector<double> xv(n);
	for (size_t i = 0; i < n; ++i) x.set(i, xv[i] = sv::real("x"));
	DynamicVector<double> y = permutate(x, p), z = P.mul(x);
	sv::check(y.size() == n, "permuted vector length");
	for (size_t i = 0; i < n; ++i)
	{
		sv::eq(y.at(i), x.at(p[i]), "permuted vector");
		sv::eq(y.at(i), z.at(i), "permuted vector is P x");
	}
	sameVec(permutate(y, q), xv, "permuting the vector back");
	sameVec(x, xv, "vector unchanged");
	// corresponding right hand sides: (P A P^T)(P x) = P (A x)
	DynamicVector<double> l = B.mul(y), r = permutate(S.mul(x), p);
	for (size_t i = 0; i < n; ++i) sv::eq(l.at(i), r.at(i), "permuted system has the permuted solution");
	for (size_t i = 0; i < n; ++i) sv::check(p[i] == p0[i], "ordering unchanged");
	sv::reach("end");
}
SV_ENTRY(full)
{
	size_t n = sv::param(0);
	SparseMatrix<double> S(n, n);
	Ref<double> a = symRef<double>(n, n, "a");
	if (n >= 3) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (n == 4 || i != j) sv::assume(a(i, j) != 0);
	load(S, a);
	check(S, a, anyPerm(n));
}
SV_ENTRY(four)
{
	size_t n = sv::param(0);
	SparseMatrix<double> S(n, n);
	Ref<double> a(n, n);
	a(0, 1) = sv::real("a");
	a(3, 2) = sv::real("a");
	a(2, 2) = sv::real("a");
	load(S, a);
	check(S, a, anyPerm(n));
}

SV_ENTRY(large)
{
	size_t n = sv::param(0);
	Ref<double> a = patRef<double>(n, n, sv::param(1));
	SparseMatrix<double> S(n, n);
	load(S, a);
	DynamicVector<Index> p(n);
	size_t kind = sv::choice(4, "kind"), i = sv::choice(n, "first"), j = kind == 1 || kind == 3 ? sv::choice(n, "second") : i;
	for (size_t k = 0; k < n; ++k) p.set(k, kind == 0 ? (k + i) % n : kind == 2 ? n - 1 - k : k);
	if (kind == 2 && i) sv::stop();
	if (kind == 1) std::swap(p[i], p[j]);
	if (kind == 3)
	{
		if (j + 1 >= n || i == j || i == j + 1) sv::stop();
		std::swap(p[i], p[j]);
		std::swap(p[j], p[j + 1]);
	}
	check(S, a, p);
}
