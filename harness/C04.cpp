// C04: value semantics of the containers
// SV: {"entry":"dense","quick":[[2,2,2,2],[2,3,3,2],[1,2,3,1],[3,3,2,2],[1,4,4,1],[4,1,2,3],[6,7,5,4],[1,20,9,2]],"thorough":[[5,5,4,6]],"bound":"dimensions of two dense matrices, all contents, every operation"}
// SV: {"entry":"sparse","quick":[[2,2,2,2],[1,2,3,1],[2,2,3,1],[2,3,3,2],[3,1,1,3]],"thorough":[[3,3,2,2],[2,2,3,3],[1,6,6,1]],"bound":"dimensions of two sparse matrices, all contents and patterns, every operation","args":["--max-viol","50"]}
// SV: {"entry":"fixed","quick":[[]],"bound":"2x3 and 3x1 fixed matrices, all contents"}
// SV: {"entry":"dynvec","quick":[[2,3],[3,3],[1,4],[0,2],[3,0],[8,5],[5,8],[3,8],[8,9],[16,17],[9,2]],"thorough":[[20,33],[33,20]],"bound":"sizes of two dynamic vectors, all contents, every operation"}
// SV: {"entry":"fixvec","quick":[[]],"bound":"fixed vector of size 3, all contents"}
// SV: {"entry":"countable","quick":[[2,3]],"bound":"plain countable sets of two sizes"}
// SV: {"entry":"resize_matrix","quick":[[2,2,3,3],[3,3,2,2],[2,3,3,1],[1,3,2,2],[2,1,1,4],[2,3,4,4],[3,3,5,5]],"thorough":[[4,4,2,3]],"bound":"old and new dimensions, all contents; dense and sparse"}
// SV: {"entry":"complex_values","quick":[[2,2,1,3]],"bound":"as dense and sparse, complex elements"}
// SV: {"entry":"large","quick":[[6,7,5,4,4,2],[8,8,8,8,3,1],[2,9,9,2,0,4],[6,6,3,8,6,7]],"thorough":[[10,9,12,4,4,3]],"bound":"dimensions and patterns of two sparse matrices, positive values; every operation, resizing the first to the shape of the second"}
#include "common.h"
#include "matrix/Matrix.h"
using namespace NS;
template<class M> struct Mk;
template<class T> struct Mk<DenseMatrix<T>> { static DenseMatrix<T> make(size_t r, size_t c) { return DenseMatrix<T>(r, c); } };
template<class T> struct Mk<SparseMatrix<T>> { static SparseMatrix<T> make(size_t r, size_t c) { return SparseMatrix<T>(r, c); } };
template<class T, Dimension A, Dimension B> struct Mk<FixedMatrix<T, A, B>> { static FixedMatrix<T, A, B> make(size_t, size_t) { return FixedMatrix<T, A, B>(); } };
template<class T> static void more(const SparseMatrix<T>& m) { consistent(m, "presence and counts follow the contents"); }
template<class T, class DC> static void more(const BaseMatrix<T, DC>&) {}
template<class M> static void ops(size_t r1, size_t c1, size_t r2, size_t c2, const Ref<typename M::value_type>& a, const Ref<typename M::value_type>& b)
{
	typedef typename M::value_type T;
	M A = Mk<M>::make(r1, c1), B = Mk<M>::make(r2, c2);
	load(A, a);
	load(B, b);
	T v(9);
	switch (sv::choice(9, "op"))
	{
	case 0:
	{
		M D(A);
		same(D, a, "copy equals the source");
		more(D);
		D.set(r1 - 1, c1 - 1, v);
		same(A, a, "changing the copy leaves the source alone");
		Ref<T> e = a;
		e(r1 - 1, c1 - 1) = v;
		same(D, e, "the copy is changed");
		if (r1 * c1 > 1) A.set(0, 0, T(8)); else A *= T(0);
		same(D, e, "changing the source leaves the copy alone");
		break;
	}
	case 1:
	{
		M& q = (B = A);
		sv::check(&q == &B, "assignment yields the target");
		same(B, a, "assigned object equals the source");
		more(B);
		B.set(0, 0, v);
		same(A, a, "assignment copies");
		break;
	}
	case 2:
	{
		M& self = A;
		A = self;
		same(A, a, "self-assignment changes nothing");
		more(A);
		break;
	}
	case 3:
	{
		M D(std::move(A));
		same(D, a, "moved-to object has the contents");
		more(D);
		A = B;
		same(A, b, "moved-from object can be assigned");
		same(D, a, "moved-to object is independent");
		break;
	}
	case 4:
	{
		B = std::move(A);
		same(B, a, "move-assigned object has the contents");
		more(B);
		A = B;
		same(A, a, "moved-from object can be assigned");
		more(A);
		break;
	}
	case 5:
		A.swap(B);
		same(A, b, "swap exchanges contents and dimensions");
		same(B, a, "swap exchanges contents and dimensions");
		more(A);
		more(B);
		A.set(r2 - 1, c2 - 1, v);
		same(B, a, "swapped objects stay independent");
		break;
	case 6:
		A.swap(A);
		same(A, a, "swapping with itself changes nothing");
		more(A);
		break;
	case 7:
		std::swap(A, B);
		same(A, b, "std::swap exchanges contents and dimensions");
		same(B, a, "std::swap exchanges contents and dimensions");
		more(A);
		more(B);
		break;
	case 8:
	{
		A *= T(0);
		same(A, Ref<T>(r1, c1), "clearing zeroes every element");
		more(A);
		B = A;
		same(B, Ref<T>(r1, c1), "a cleared object can be assigned");
		load(A, a);
		same(A, a, "a cleared object can be refilled");
		more(A);
		break;
	}
	}
	sv::reach("end");
}
template<class M> static void ops(size_t r1, size_t c1, size_t r2, size_t c2)
{
	typedef typename M::value_type T;
	Ref<T> a = symRef<T>(r1, c1, "a"), b = symRef<T>(r2, c2, "b");
	ops<M>(r1, c1, r2, c2, a, b);
}
SV_ENTRY(dense) { ops<DenseMatrix<double>>(sv::param(0), sv::param(1), sv::param(2), sv::param(3)); }
SV_ENTRY(sparse) { ops<SparseMatrix<double>>(sv::param(0), sv::param(1), sv::param(2), sv::param(3)); }
SV_ENTRY(complex_values)
{
	size_t a = sv::param(0), b = sv::param(1), c = sv::param(2), d = sv::param(3);
	if (sv::choice(2, "repr")) ops<DenseMatrix<cd>>(a, b, c, d);
	else
	{
		SparseMatrix<cd> A(a, b), B(c, d);
		cd x(sv::real("x"), sv::real("x")), y(sv::real("y"), sv::real("y"));
		A.set(a - 1, b - 1, x);
		B.set(0, d - 1, y);
		Ref<cd> ra(a, b), rb(c, d);
		ra(a - 1, b - 1) = x;
		rb(0, d - 1) = y;
		SparseMatrix<cd> C(A);
		A.swap(B);
		same(A, rb, "complex swap");
		same(B, ra, "complex swap");
		same(C, ra, "complex copy");
		C = A;
		same(C, rb, "complex assignment");
	}
	sv::reach("end");
}
SV_ENTRY(fixed)
{
	if (sv::choice(2, "shape")) ops<FixedMatrix<double, 2, 3>>(2, 3, 2, 3);
	else ops<FixedMatrix<double, 3, 1>>(3, 1, 3, 1);
}
template<class V> static void vops(V& A, V& B, std::vector<double> a, std::vector<double> b, bool dyn)
{
	sameVec(A, a, "initial contents");
	sameVec(B, b, "initial contents");
	switch (sv::choice(8, "op"))
	{
	case 0:
	{
		V D(A);
		sameVec(D, a, "copy equals the source");
		if (a.size()) D.linear_set(a.size() - 1, 5);
		sameVec(A, a, "changing the copy leaves the source alone");
		break;
	}
	case 1:
	{
		V& q = (B = A);
		sv::check(&q == &B, "assignment yields the target");
		sameVec(B, a, "assigned object equals the source");
		if (a.size()) B[0] = 5;
		sameVec(A, a, "assignment copies");
		break;
	}
	case 2:
	{
		V& s = A;
		A = s;
		sameVec(A, a, "self-assignment changes nothing");
		break;
	}
	case 3:
	{
		V D(std::move(A));
		sameVec(D, a, "moved-to object has the contents");
		A = B;
		sameVec(A, b, "moved-from object can be assigned");
		sameVec(D, a, "moved-to object is independent");
		break;
	}
	case 4:
		B = std::move(A);
		sameVec(B, a, "move-assigned object has the contents");
		A = B;
		sameVec(A, a, "moved-from object can be assigned");
		break;
	case 5:
		A.swap(B);
		sameVec(A, b, "swap exchanges contents and size");
		sameVec(B, a, "swap exchanges contents and size");
		break;
	case 6:
		A.swap(A);
		sameVec(A, a, "swapping with itself changes nothing");
		break;
	case 7:
	{
		double f = sv::real("f");
		A.fill(f);
		sameVec(A, std::vector<double>(a.size(), f), "fill sets every element");
		sameVec(B, b, "fill leaves other objects alone");
		break;
	}
	}
	sv::reach("end");
}
SV_ENTRY(dynvec)
{
	size_t n = sv::param(0), m = sv::param(1);
	DynamicVector<double> A(n), B(m);
	std::vector<double> a(n), b(m);
	sameVec(A, std::vector<double>(n, 0), "a new vector is zero");
	for (size_t i = 0; i < n; ++i) A.set(i, a[i] = sv::real("a"));
	for (size_t i = 0; i < m; ++i) B.set(i, b[i] = sv::real("b"));
	if (sv::choice(2, "resize"))
	{
		size_t k = sv::choice(7, "newsize");
		A.resize(k);
		std::vector<double> e = a;
		e.resize(k, 0);
		sameVec(A, e, "resize keeps the surviving part and zeroes new elements");
		A.resize(n);
		e.resize(n, 0);
		sameVec(A, e, "resizing back");
		sameVec(B, b, "resize leaves other objects alone");
		sv::reach("end");
		return;
	}
	vops(A, B, a, b, true);
}
SV_ENTRY(fixvec)
{
	double x = sv::real("x"), y = sv::real("y");
	FixedVector<double, 3> A = {x, y}, B;
	std::vector<double> a = {x, y, 0}, b(3);
	sameVec(B, std::vector<double>(3, 0), "a new vector is zero");
	for (size_t i = 0; i < 3; ++i) B.set(i, b[i] = sv::real("b"));
	vops(A, B, a, b, false);
}
SV_ENTRY(countable)
{
	size_t n = sv::param(0), m = sv::param(1);
	DynamicCountableSet<double> A(n), B(m);
	std::vector<double> a(n), b(m);
	for (size_t i = 0; i < n; ++i) A.linear_set(i, a[i] = sv::real("a"));
	for (size_t i = 0; i < m; ++i) B[i] = (b[i] = sv::real("b"));
	size_t k = 0;
	for (auto it = B.begin(); it != B.end(); ++it, ++k)
		sv::eq(*it, b[k], "iteration yields the elements in order");
	sv::check(k == m, "iteration visits every element");
	vops(A, B, a, b, true);
}
template<class M> static void resizeM(const Ref<typename M::value_type>& a, size_t r2, size_t c2)
{
	typedef typename M::value_type T;
	size_t r1 = a.r, c1 = a.c;
	Ref<T> e(r2, c2);
	M A = Mk<M>::make(r1, c1);
	load(A, a);
	A.resize(r2, c2);
	for (size_t i = 0; i < r1 && i < r2; ++i)
		for (size_t j = 0; j < c1 && j < c2; ++j)
			e(i, j) = a(i, j);
	same(A, e, "resize keeps the surviving part and zeroes new elements");
	more(A);
	M B = A;
	same(B, e, "a resized matrix can be copied");
	A.set(r2 - 1, c2 - 1, T(3));
	e(r2 - 1, c2 - 1) = T(3);
	same(A, e, "a resized matrix can be written at its far corner");
	sv::reach("end");
}
SV_ENTRY(resize_matrix)
{
	if (sv::choice(2, "repr")) resizeM<DenseMatrix<double>>(symRef<double>(sv::param(0), sv::param(1)), sv::param(2), sv::param(3));
	else resizeM<SparseMatrix<double>>(symRef<double>(sv::param(0), sv::param(1)), sv::param(2), sv::param(3));
}

SV_ENTRY(large)
{
	size_t r1 = sv::param(0), c1 = sv::param(1), r2 = sv::param(2), c2 = sv::param(3);
	Ref<double> a = patRef<double>(r1, c1, sv::param(4)), b = patRef<double>(r2, c2, sv::param(5), "b");
	switch (sv::choice(3, "what"))
	{
	case 0: ops<SparseMatrix<double>>(r1, c1, r2, c2, a, b); break;
	case 1: resizeM<SparseMatrix<double>>(a, r2, c2); break;
	case 2: resizeM<DenseMatrix<double>>(a, r2, c2); break;
	}
}
