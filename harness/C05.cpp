// C05: dense and fixed matrix algebra
// SV: {"entry":"dense","quick":[[2,5,7],[7,6,3],[1,1,1],[2,2,2],[2,3,1],[3,2,4],[1,4,2],[4,1,3],[3,3,3],[6,6,6],[4,4,4],[2,5,5],[5,3,2],[8,8,8],[1,12,1],[9,2,10],[3,9,4],[11,3,5],[2,17,2],[16,1,3]],"thorough":[[12,12,12],[16,3,16]],"bound":"r,k,c: matrices r x k and k x c, all values"}
// SV: {"entry":"dense_complex","quick":[[2,2,2],[2,3,1],[1,2,3],[3,3,3],[5,5,5],[2,9,3]],"thorough":[[7,7,7]],"bound":"as dense, complex elements"}
// SV: {"entry":"fixed","quick":[[0],[1],[2],[3]],"bound":"fixed shapes 2x2, 2x3*3x2, 1x3*3x1, 3x1*1x2, all values"}
// SV: {"entry":"fixed_complex","quick":[[]],"bound":"fixed 2x3*3x2 complex"}
// SV: {"entry":"dense_float","quick":[[2,3,2]],"bound":"as dense, float elements"}
// SV: {"entry":"access","quick":[[1,1],[2,3],[3,2],[1,4],[4,1],[5,4],[8,9],[17,3]],"thorough":[[20,20]],"bound":"dense access and iteration, all values"}
// SV: {"entry":"access_fixed","quick":[[]],"bound":"fixed 2x3 access and iteration"}
#include "common.h"
#include "matrix/Matrix.h"
using namespace NS;
template<class M, class T> static void elementwise(M A, M B, const Ref<T>& a, const Ref<T>& b)
{
	size_t n = a.v.size();
	Ref<T> e = a;
	T f = sym<T>("f");
	for (size_t i = 0; i < n; ++i) e.v[i] = a.v[i] + b.v[i];
	same(A + B, e, "sum is entrywise");
	for (size_t i = 0; i < n; ++i) e.v[i] = a.v[i] - b.v[i];
	same(A - B, e, "difference is entrywise");
	for (size_t i = 0; i < n; ++i) e.v[i] = -a.v[i];
	same(-A, e, "negation is entrywise");
	for (size_t i = 0; i < n; ++i) e.v[i] = mulx(a.v[i], b.v[i]);
	same(A * B, e, "compound product is entrywise");
	for (size_t i = 0; i < n; ++i) e.v[i] = mulx(a.v[i], f);
	same(A * f, e, "scaling is entrywise");
	same(f * A, e, "scaling from the left is entrywise");
	same(A, a, "left operand unchanged");
	same(B, b, "right operand unchanged");
	M C = A;
	M* q = &(C += B);
	sv::check(q == &C, "compound operators return the left operand");
	for (size_t i = 0; i < n; ++i) e.v[i] = a.v[i] + b.v[i];
	same(C, e, "+= agrees with +");
	C = A;
	q = &(C -= B);
	sv::check(q == &C, "compound operators return the left operand");
	for (size_t i = 0; i < n; ++i) e.v[i] = a.v[i] - b.v[i];
	same(C, e, "-= agrees with -");
	C = A;
	q = &(C *= B);
	sv::check(q == &C, "compound operators return the left operand");
	for (size_t i = 0; i < n; ++i) e.v[i] = mulx(a.v[i], b.v[i]);
	same(C, e, "*= agrees with *");
	C = A;
	q = &(C *= f);
	sv::check(q == &C, "compound operators return the left operand");
	for (size_t i = 0; i < n; ++i) e.v[i] = mulx(a.v[i], f);
	same(C, e, "scalar *= agrees with scalar *");
	same(B, b, "right operand unchanged by compound operators");
	C = A; C += C;
	for (size_t i = 0; i < n; ++i) e.v[i] = a.v[i] + a.v[i];
	same(C, e, "+= with itself");
	C = A; C -= C;
	for (size_t i = 0; i < n; ++i) e.v[i] = T(0);
	same(C, e, "-= with itself");
	C = A; C *= C;
	for (size_t i = 0; i < n; ++i) e.v[i] = mulx(a.v[i], a.v[i]);
	same(C, e, "*= with itself");
	size_t k = 0, step = n > 9 ? 5 : 1;
	for (auto it = A.begin(); it != A.end(); ++it, ++k)
	{
		if (k % step) continue;
		C = A;
		auto jt = C.begin();
		for (size_t i = 0; i < k; ++i) ++jt;
		C *= *jt;
		for (size_t i = 0; i < n; ++i) e.v[i] = mulx(a.v[i], a.v[k]);
		same(C, e, "scaling by an own entry");
	}
	sv::check(A == A && !(A != A), "a matrix equals itself");
}
template<class T> static void vecs(const Ref<T>& a, std::vector<T>& x, std::vector<T>& y, std::vector<T>& ax, std::vector<T>& ya)
{
	for (auto& v : x) v = sym<T>("x");
	for (auto& v : y) v = sym<T>("y");
	for (size_t i = 0; i < a.r; ++i)
		for (size_t j = 0; j < a.c; ++j)
		{
			ax[i] += mulx(a(i, j), x[j]);
			ya[j] += mulx(a(i, j), y[i]);
		}
}
template<class T> static void denseT(size_t R, size_t K, size_t C)
{
	Ref<T> a = symRef<T>(R, K, "a"), b = symRef<T>(R, K, "b"), c = symRef<T>(K, C, "c");
	DenseMatrix<T> A(R, K), B(R, K), D(K, C);
	same(A, Ref<T>(R, K), "a new matrix is zero");
	load(A, a);
	load(B, b);
	load(D, c);
	elementwise(A, B, a, b);
	same(A.mul(D), mulRef(a, c), "matrix product");
	same(A, a, "left factor unchanged");
	same(D, c, "right factor unchanged");
	std::vector<T> x(K), y(R), ax(R, T(0)), ya(K, T(0));
	vecs(a, x, y, ax, ya);
	DynamicVector<T> X(K), Y(R);
	for (size_t i = 0; i < K; ++i) X.set(i, x[i]);
	for (size_t i = 0; i < R; ++i) Y.set(i, y[i]);
	sameVec(A.mul(X), ax, "matrix times vector");
	sameVec(A.mul_left(Y), ya, "vector times matrix");
	if (K == 2)
	{
		FixedVector<T, 2> F;
		F.set(0, x[0]); F.set(1, x[1]);
		sameVec(A.mul(F), ax, "matrix times fixed vector");
	}
	if (R == 2)
	{
		FixedVector<T, 2> F;
		F.set(0, y[0]); F.set(1, y[1]);
		sameVec(A.mul_left(F), ya, "fixed vector times matrix");
	}
	sameVec(X, x, "vector unchanged");
	sameVec(Y, y, "vector unchanged");
	if (R == 2 && K == 3)
	{
		FixedMatrix<T, 2, 3> F;
		load(F, b);
		DenseMatrix<T> C1 = A;
		C1 += F;
		same(C1, [&] { Ref<T> e = a; for (size_t i = 0; i < 6; ++i) e.v[i] = a.v[i] + b.v[i]; return e; }(), "dense += fixed");
		C1 -= F;
		same(C1, a, "dense -= fixed");
		C1 *= F;
		same(C1, [&] { Ref<T> e = a; for (size_t i = 0; i < 6; ++i) e.v[i] = mulx(a.v[i], b.v[i]); return e; }(), "dense *= fixed");
	}
	sv::reach("end");
}
SV_ENTRY(dense) { denseT<double>(sv::param(0), sv::param(1), sv::param(2)); }
SV_ENTRY(dense_complex) { denseT<cd>(sv::param(0), sv::param(1), sv::param(2)); }
SV_ENTRY(dense_float) { denseT<float>(sv::param(0), sv::param(1), sv::param(2)); }
template<class T, Dimension R, Dimension K, Dimension C> static void fixedT()
{
	Ref<T> a = symRef<T>(R, K, "a"), b = symRef<T>(R, K, "b"), c = symRef<T>(K, C, "c");
	FixedMatrix<T, R, K> A, B;
	FixedMatrix<T, K, C> D;
	same(A, Ref<T>(R, K), "a new matrix is zero");
	load(A, a);
	load(B, b);
	load(D, c);
	elementwise(A, B, a, b);
	same(A.mul(D), mulRef(a, c), "matrix product");
	same(A, a, "left factor unchanged");
	same(D, c, "right factor unchanged");
	std::vector<T> x(K), y(R), ax(R, T(0)), ya(K, T(0));
	vecs(a, x, y, ax, ya);
	FixedVector<T, K> X;
	FixedVector<T, R> Y;
	for (size_t i = 0; i < K; ++i) X.set(i, x[i]);
	for (size_t i = 0; i < R; ++i) Y.set(i, y[i]);
	sameVec(A.mul(X), ax, "matrix times vector");
	sameVec(A.mul_left(Y), ya, "vector times matrix");
	sameVec(X, x, "vector unchanged");
	sameVec(Y, y, "vector unchanged");
	sv::reach("end");
}
SV_ENTRY(fixed)
{
	switch (sv::param(0))
	{
	case 0: fixedT<double, 2, 2, 2>(); break;
	case 1: fixedT<double, 2, 3, 2>(); break;
	case 2: fixedT<double, 1, 3, 1>(); break;
	case 3: fixedT<double, 3, 1, 2>(); break;
	}
}
SV_ENTRY(fixed_complex) { fixedT<cd, 2, 3, 2>(); }
template<class M> static void accessT(M A, const Ref<double>& a)
{
	size_t R = a.r, C = a.c;
	const M& cA = A;
	sv::check(A.rows() == R && A.columns() == C && A.size() == R * C, "dimensions");
	for (size_t i = 0; i < R; ++i)
		for (size_t j = 0; j < C; ++j)
		{
			sv::eq(A.at(i, j), a(i, j), "at");
			sv::eq(A.linear_at(i * C + j), a(i, j), "linear_at is row-major");
			double v = 5;
			bool h = A.has(i, j, v);
			sv::eq(v, a(i, j), "has(value) yields the element");
			sv::check(A.has(i, j) == h, "has agrees with has(value)");
			sv::check(h == (a(i, j) != 0), "has iff non-zero");
		}
	size_t k = 0;
	for (auto it = A.begin(); it != A.end(); ++it, ++k)
	{
		sv::check(k < R * C && it.isValid() && it.row() == k / C && it.column() == k % C, "iteration is row-major");
		sv::eq(*it, a.v[k], "iteration yields the elements");
	}
	sv::check(k == R * C, "iteration visits every element");
	k = 0;
	for (auto it = cA.begin(); it != cA.end(); it++, ++k)
	{
		sv::check(it.row() == k / C && it.column() == k % C, "const iteration is row-major");
		sv::eq(*it, a.v[k], "const iteration yields the elements");
	}
	sv::check(k == R * C, "const iteration visits every element");
	k = 0;
	for (auto it = cA.cbegin(); it != cA.cend(); ++it) ++k;
	sv::check(k == R * C, "cbegin iteration visits every element");
	for (size_t i = 0; i < R; ++i)
	{
		k = 0;
		for (auto it = A.row_begin(i); it != A.row_end(i); ++it, ++k)
		{
			sv::check(it.row() == i && it.column() == k, "row iteration in order");
			sv::eq(*it, a(i, k), "row iteration yields the elements");
		}
		sv::check(k == C, "row iteration visits the whole row");
		k = 0;
		for (auto it = cA.row_cbegin(i); it != cA.row_cend(i); it++, ++k)
			sv::eq(*it, a(i, k), "const row iteration yields the elements");
		sv::check(k == C, "const row iteration visits the whole row");
		k = 0;
		for (auto it = cA.row_begin(i); it != cA.row_end(i); ++it, ++k)
			sv::eq(*it, a(i, k), "const row iteration yields the elements");
		sv::check(k == C, "const row iteration visits the whole row");
	}
	for (size_t j = 0; j < C; ++j)
	{
		k = 0;
		for (auto it = A.column_begin(j); it != A.column_end(j); ++it, ++k)
		{
			sv::check(it.row() == k && it.column() == j, "column iteration in order");
			sv::eq(*it, a(k, j), "column iteration yields the elements");
		}
		sv::check(k == R, "column iteration visits the whole column");
		k = 0;
		for (auto it = cA.column_cbegin(j); it != cA.column_cend(j); it++, ++k)
			sv::eq(*it, a(k, j), "const column iteration yields the elements");
		sv::check(k == R, "const column iteration visits the whole column");
		k = 0;
		for (auto it = cA.column_begin(j); it != cA.column_end(j); ++it, ++k)
			sv::eq(*it, a(k, j), "const column iteration yields the elements");
		sv::check(k == R, "const column iteration visits the whole column");
	}
	// writing
	Ref<double> e = a;
	size_t p = sv::choice(R * C, "pos"), op = sv::choice(5, "op");
	double v = sv::real("v");
	auto it = A.begin();
	for (size_t q = 0; q < p; ++q) ++it;
	e.v[p] = v;
	if (op == 0) A.set(p / C, p % C, v);
	if (op == 1) A.linear_set(p, v);
	if (op == 2) *it = v;
	if (op == 3) A.set(it, v);
	if (op == 4) { A.erase(it); e.v[p] = 0; }
	same(A, e, "a write changes exactly the addressed element");
	sv::reach("end");
}
SV_ENTRY(access)
{
	Ref<double> a = symRef<double>(sv::param(0), sv::param(1), "a");
	if (a.r * a.c > 4) for (size_t i = 4; i < a.v.size(); ++i) sv::assume(a.v[i] != 0);
	DenseMatrix<double> A(a.r, a.c);
	load(A, a);
	accessT(A, a);
	if (a.r == 2 && a.c == 3)
	{
		DenseMatrix<double> B = {{a.v[0], a.v[1], a.v[2]}, {a.v[3]}};
		Ref<double> b = a;
		b.v[4] = b.v[5] = 0;
		same(B, b, "initializer list");
	}
}
SV_ENTRY(access_fixed)
{
	Ref<double> a = symRef<double>(2, 3, "a");
	FixedMatrix<double, 2, 3> A = {{a.v[0], a.v[1], a.v[2]}, {a.v[3], a.v[4], a.v[5]}};
	accessT(A, a);
}
