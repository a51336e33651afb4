// C06: transpose, conjugate, adjugate (adjoint), trace
// SV: {"entry":"dense","quick":[[2,2],[2,3],[3,1],[1,4],[3,3],[5,5],[4,5],[8,8],[9,6],[6,6],[7,7],[3,10]],"thorough":[[16,16]],"bound":"rows, columns, real and complex, all values"}
// SV: {"entry":"fixed","quick":[[]],"bound":"fixed 2x3, 3x3, 1x2, real and complex, all values"}
// SV: {"entry":"sparse","quick":[[2,2],[2,3],[3,2],[1,3],[3,1],[3,3],[4,2],[2,4]],"thorough":[[4,3],[3,4],[2,5],[6,2]],"bound":"rows, columns, every pattern, real"}
// SV: {"entry":"sparse_complex","quick":[[2,2],[1,3],[3,1],[2,3],[3,3],[4,2],[2,4]],"thorough":[[4,3],[3,4]],"bound":"rows, columns, every pattern, complex"}
// SV: {"entry":"large","quick":[[6,7,4],[7,5,2],[8,8,3],[1,9,0],[9,1,0],[6,6,6],[6,6,7],[9,4,5]],"thorough":[[12,11,4],[14,14,3]],"bound":"rows, columns, pattern of a sparse matrix; positive values, real and complex"}
#include "common.h"
#include "matrix/Matrix.h"
using namespace NS;
template<class T> static void more(const SparseMatrix<T>& m) { consistent(m, "presence follows the values"); }
template<class T, class DC> static void more(const BaseMatrix<T, DC>&) {}
template<class T> static Ref<T> tr(const Ref<T>& a)
{
	Ref<T> e(a.c, a.r);
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
			e(j, i) = a(i, j);
	return e;
}
template<class M, class T> static void verify(const M& A, const Ref<T>& a)
{
	Ref<T> t = tr(a), c = a, h = t;
	for (auto& x : c.v) x = cj(x);
	for (auto& x : h.v) x = cj(x);
	auto T1 = A.transpose();
	same(T1, t, "transpose exchanges rows and columns");
	more(T1);
	auto C1 = A.conjugate();
	same(C1, c, "conjugate negates imaginary parts");
	more(C1);
	auto H1 = A.adjugate();
	same(H1, h, "adjoint is the conjugate transpose");
	more(H1);
	same(T1.transpose(), a, "transposing twice gives the original");
	same(C1.conjugate(), a, "conjugating twice gives the original");
	same(H1.adjugate(), a, "adjoining twice gives the original");
	T s(0);
	for (size_t i = 0; i < a.r && i < a.c; ++i) s += a(i, i);
	ceq(A.trace(), s, "trace is the sum of the diagonal");
	same(A, a, "the matrix is unchanged");
	more(A);
	sv::reach("end");
}
template<class T> static void denseT(size_t r, size_t c)
{
	Ref<T> a = symRef<T>(r, c, "a");
	DenseMatrix<T> A(r, c);
	load(A, a);
	verify(A, a);
}
SV_ENTRY(dense)
{
	if (sv::choice(2, "type")) denseT<cd>(sv::param(0), sv::param(1));
	else denseT<double>(sv::param(0), sv::param(1));
}
template<class T, Dimension R, Dimension C> static void fixedT()
{
	Ref<T> a = symRef<T>(R, C, "a");
	FixedMatrix<T, R, C> A;
	load(A, a);
	verify(A, a);
}
SV_ENTRY(fixed)
{
	switch (sv::choice(6, "type"))
	{
	case 0: fixedT<double, 2, 3>(); break;
	case 1: fixedT<double, 3, 3>(); break;
	case 2: fixedT<double, 1, 2>(); break;
	case 3: fixedT<cd, 2, 3>(); break;
	case 4: fixedT<cd, 3, 3>(); break;
	case 5: fixedT<cd, 3, 1>(); break;
	}
}
SV_ENTRY(sparse)
{
	Ref<double> a = symRef<double>(sv::param(0), sv::param(1), "a");
	SparseMatrix<double> A(a.r, a.c);
	load(A, a);
	verify(A, a);
}
SV_ENTRY(sparse_complex)
{
	Ref<cd> a(sv::param(0), sv::param(1));
	SparseMatrix<cd> A(a.r, a.c);
	for (size_t i = 0; i < a.v.size(); ++i)
		if (sv::choice(2, "filled"))
		{
			a.v[i] = sym<cd>("a");
			sv::assume(a.v[i] != cd(0));
			A.set(i / a.c, i % a.c, a.v[i]);
		}
	verify(A, a);
}

template<class T> static void largeT()
{
	Ref<T> a = patRef<T>(sv::param(0), sv::param(1), sv::param(2));
	SparseMatrix<T> A(a.r, a.c);
	load(A, a);
	verify(A, a);
}
SV_ENTRY(large) { if (sv::choice(2, "type")) largeT<double>(); else largeT<cd>(); }
