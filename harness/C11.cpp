// C11: matrix constructors
// SV: {"entry":"parts_dense","quick":[[1,1],[3,3],[2,4],[4,2],[5,5],[1,5],[5,1],[6,9],[9,3]],"thorough":[[7,7],[9,4],[4,9]],"bound":"rows, columns; all entries; every 32 bit offset"}
// SV: {"entry":"parts_sparse","quick":[[1,1],[2,3],[3,2],[3,3]],"thorough":[[4,3],[3,4],[1,6],[6,1]],"bound":"rows, columns; all entries and patterns; every 32 bit offset"}
// SV: {"entry":"eye","quick":[[]],"bound":"all shapes up to 8x8, dense, sparse, fixed"}
// SV: {"entry":"diagonal","quick":[[1],[3],[5],[9],[2],[4],[7]],"thorough":[[20]],"bound":"length, all values"}
// SV: {"entry":"hilb","quick":[[1],[2],[3],[4],[5],[6],[7],[8],[9]],"thorough":[[10],[12],[16]],"bound":"size"}
// SV: {"entry":"conv","quick":[[1,1],[2,3],[3,2],[3,3]],"thorough":[[4,3],[2,5]],"bound":"rows, columns; all entries and patterns, real and complex"}
// SV: {"entry":"lists","quick":[[]],"bound":"initializer lists with ragged rows, all values"}
// SV: {"entry":"large","quick":[[6,7,4],[7,5,3],[8,8,1],[6,6,8],[9,3,0]],"thorough":[[12,12,3],[5,16,4]],"bound":"rows, columns, pattern; parts of a sparse matrix at every 32 bit offset, conversions both ways; positive values"}
#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixConverter.h"
using namespace NS;
template<template<typename> class M> static void parts(const Ref<double>& a)
{
	size_t r = a.r, c = a.c;
	M<double> A(r, c);
	load(A, a);
	bool low = sv::choice(2, "part") == 0;
	long k = sv::i64("k", -2147483648L, 2147483647L);
	M<double> R = low ? Construct::tril(A, (int)k) : Construct::triu(A, (int)k);
	sv::check(R.rows() == r && R.columns() == c, "shape of the part");
	for (size_t i = 0; i < r; ++i)
		for (size_t j = 0; j < c; ++j)
		{
			long d = (long)j - (long)i;
			bool in = low ? d <= k : d >= k;
			sv::eq(R.at(i, j), in ? a(i, j) : 0, low ? "lower part" : "upper part");
		}
	same(A, a, "source unchanged");
	sv::reach("end");
}
SV_ENTRY(parts_dense) { parts<DenseMatrix>(symRef<double>(sv::param(0), sv::param(1), "a")); }
SV_ENTRY(parts_sparse) { parts<SparseMatrix>(symRef<double>(sv::param(0), sv::param(1), "a")); }
SV_ENTRY(eye)
{
	size_t r = 1 + sv::choice(8), c = 1 + sv::choice(8);
	Ref<double> e(r, c);
	for (size_t i = 0; i < r && i < c; ++i) e(i, i) = 1;
	same(Construct::eye<DenseMatrix, double>(r, c), e, "dense identity");
	same(Construct::eye<SparseMatrix, double>(r, c), e, "sparse identity");
	consistent(Construct::eye<SparseMatrix, double>(r, c), "sparse identity bookkeeping");
	Ref<double> f(2, 3), g(3, 2);
	f(0, 0) = f(1, 1) = g(0, 0) = g(1, 1) = 1;
	same(Construct::eye<double, 2, 3>(), f, "fixed wide identity");
	same(Construct::eye<double, 3, 2>(), g, "fixed tall identity");
	sv::reach("end");
}
SV_ENTRY(diagonal)
{
	size_t n = sv::param(0);
	DynamicVector<double> v(n);
	Ref<double> e(n, n);
	for (size_t i = 0; i < n; ++i) v.set(i, e(i, i) = sv::real("v"));
	DenseMatrix<double> D = Construct::diag<DenseMatrix>(v);
	SparseMatrix<double> S = Construct::diag<SparseMatrix>(v);
	same(D, e, "dense diagonal matrix");
	same(S, e, "sparse diagonal matrix");
	consistent(S, "sparse diagonal matrix bookkeeping");
	sv::check(Construct::diag(D) == v && Construct::diag(S) == v, "diagonal of the diagonal matrix");
	DenseMatrix<double> A(n, n + 1), B(n + 1, n);
	Ref<double> a = symRef<double>(n, n + 1), b = symRef<double>(n + 1, n);
	load(A, a);
	load(B, b);
	std::vector<double> da, db;
	for (size_t i = 0; i < n; ++i) { da.push_back(a(i, i)); db.push_back(b(i, i)); }
	sameVec(Construct::diag(A), da, "diagonal of a wide matrix");
	sameVec(Construct::diag(B), db, "diagonal of a tall matrix");
	FixedVector<double, 2> f;
	Ref<double> ef(2, 2);
	for (size_t i = 0; i < 2; ++i) f.set(i, ef(i, i) = sv::real("f"));
	same(Construct::diag<DenseMatrix>(f), ef, "diagonal matrix of a fixed vector");
	sv::reach("end");
}
template<template<typename> class M> static void hil(size_t n)
{
	M<double> H = Construct::hilbert<M, double>(n), I = Construct::inv_hilbert<M, double>(n);
	sv::check(H.rows() == n && H.columns() == n && I.rows() == n && I.columns() == n, "Hilbert shapes");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			sv::eq(H.at(i, j) * (double)(i + j + 1), 1, "Hilbert entry");
			double s = 0, t = 0;
			for (size_t k = 0; k < n; ++k)
			{
				s += I.at(k, j) / (double)(i + k + 1);
				t += I.at(i, k) / (double)(k + j + 1);
			}
			sv::eq(s, i == j ? 1 : 0, "Hilbert matrix times inverse");
			sv::eq(t, i == j ? 1 : 0, "inverse times Hilbert matrix");
		}
}
SV_ENTRY(hilb)
{
	hil<DenseMatrix>(sv::param(0));
	hil<SparseMatrix>(sv::param(0));
	sv::reach("end");
}
SV_ENTRY(conv)
{
	size_t r = sv::param(0), c = sv::param(1);
	Ref<double> a = symRef<double>(r, c, "a");
	DenseMatrix<double> D(r, c);
	SparseMatrix<double> S(r, c);
	load(D, a);
	load(S, a);
	auto S2 = Convert::toSparseMatrix(D);
	auto D2 = Convert::toDenseMatrix(S);
	same(S2, a, "dense to sparse");
	consistent(S2, "dense to sparse bookkeeping");
	same(D2, a, "sparse to dense");
	sv::check(D2 == D && S2 == S, "conversions are inverse");
	same(D, a, "source unchanged");
	same(S, a, "source unchanged");
	FixedMatrix<cd, 1, 2> F;
	Ref<cd> f = symRef<cd>(1, 2, "f");
	load(F, f);
	auto SF = Convert::toSparseMatrix(F);
	same(SF, f, "fixed complex to sparse");
	same(Convert::toDenseMatrix(SF), f, "complex sparse to dense");
	sv::reach("end");
}
SV_ENTRY(lists)
{
	double x = sv::real(), y = sv::real(), z = sv::real(), w = sv::real(), u = sv::real();
	Ref<double> e(3, 3);
	e(0, 0) = x; e(1, 0) = y; e(1, 1) = z; e(1, 2) = w; e(2, 0) = 0; e(2, 1) = u;
	DenseMatrix<double> D = {{x}, {y, z, w}, {0, u}};
	SparseMatrix<double> S = {{x}, {y, z, w}, {0, u}};
	FixedMatrix<double, 3, 3> F = {{x}, {y, z, w}, {0, u}};
	same(D, e, "dense from lists");
	same(S, e, "sparse from lists");
	consistent(S, "sparse from lists bookkeeping");
	same(F, e, "fixed from lists");
	FixedMatrix<double, 4, 4> G = {{x}, {y, z, w}, {0, u}};
	for (size_t i = 0; i < 4; ++i)
		for (size_t j = 0; j < 4; ++j) sv::eq(G.at(i, j), i < 3 && j < 3 ? e(i, j) : 0, "fixed from shorter lists");
	sv::reach("end");
}

SV_ENTRY(large)
{
	Ref<double> a = patRef<double>(sv::param(0), sv::param(1), sv::param(2));
	if (sv::choice(2, "what")) { parts<SparseMatrix>(a); return; }
	SparseMatrix<double> S(a.r, a.c);
	DenseMatrix<double> D(a.r, a.c);
	load(S, a);
	load(D, a);
	same(Convert::toDenseMatrix(S), a, "larger sparse matrix as dense");
	same(Convert::toSparseMatrix(D), a, "larger dense matrix as sparse");
	consistent(Convert::toSparseMatrix(D), "larger dense matrix as sparse");
	same(S, a, "source unchanged");
	same(D, a, "source unchanged");
	sv::reach("end");
}
