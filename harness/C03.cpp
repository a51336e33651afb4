// C03: sparse arithmetic equals dense arithmetic
// SV: {"entry":"binary","quick":[[2,2],[1,3],[3,1]],"thorough":[[2,3],[3,2]],"bound":"rows, columns; every pair of patterns, all values (zero, cancelling, equal)"}
// SV: {"entry":"alias","quick":[[2,2],[2,3],[3,2],[3,3]],"thorough":[[4,3],[2,5]],"bound":"same object on both sides, every pattern"}
// SV: {"entry":"scale","quick":[[2,2],[2,3],[3,1],[3,3]],"thorough":[[4,3],[2,5]],"bound":"scalar operators, every pattern"}
// SV: {"entry":"own","quick":[[2,2],[2,3],[3,1],[3,3]],"thorough":[[4,3],[2,4]],"bound":"scaling by a reference to any own entry, every pattern"}
// SV: {"entry":"special","quick":[[]],"bound":"2x3: every left pattern, infinity or NaN at one absent position of the right operand"}
// SV: {"entry":"product","quick":[[2,2,2],[1,3,1],[3,1,2],[2,1,3],[2,3,2],[3,2,2],[2,2,3]],"thorough":[[1,4,2],[4,1,2],[2,1,4],[3,2,3]],"bound":"r,k,c of A(r,k)*B(k,c), every pair of patterns","args":["--max-viol","50"]}
// SV: {"entry":"matvec","quick":[[2,2],[3,2],[2,3],[1,3],[3,1],[3,3],[4,2],[2,4]],"thorough":[[4,4],[3,5],[5,3],[2,6],[6,2]],"bound":"matrix times vector from both sides, every pattern, dynamic and fixed vectors"}
// SV: {"entry":"complex_ops","quick":[[1,2],[2,1]],"thorough":[[2,2]],"bound":"complex elements, every pattern"}
// SV: {"entry":"compare","quick":[[2,2],[1,3],[3,2],[2,3]],"thorough":[[3,3],[1,6]],"bound":"equality of two matrices"}
// SV: {"entry":"large","quick":[[6,7,4,2],[7,5,3,1],[1,9,0,2],[9,1,4,0],[6,6,6,7],[8,8,1,3]],"thorough":[[12,12,1,4],[9,10,3,2]],"bound":"rows, columns, patterns of both operands; positive values, two common positions free; sums, differences, entrywise products, scaling, comparison"}
// SV: {"entry":"large_product","quick":[[6,7,5,4,2],[5,8,1,2,0],[1,8,6,0,3],[7,7,7,1,3],[6,6,6,5,7]],"thorough":[[10,10,10,1,3],[8,9,7,4,2]],"bound":"shape of the product, patterns of the factors; positive values, one factor symbolic; products with vectors of any values"}
#include "common.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
using namespace NS;
typedef SparseMatrix<double> SM;
template<class T> static SparseMatrix<T> make(const Ref<T>& r)
{
	SparseMatrix<T> m(r.r, r.c);
	load(m, r);
	return m;
}
template<class T> static void full(const SparseMatrix<T>& m, const Ref<T>& r, const char* msg)
{
	same(m, r, msg);
	consistent(m, "presence and counts agree with the values");
}
SV_ENTRY(binary)
{
	size_t R = sv::param(0), C = sv::param(1);
	Ref<double> a = symRef<double>(R, C, "a"), b = symRef<double>(R, C, "b"), e(R, C);
	SM A = make(a), B = make(b);
	size_t op = sv::choice(6, "op");
	for (size_t i = 0; i < R * C; ++i)
		e.v[i] = op % 3 == 0 ? a.v[i] + b.v[i] : op % 3 == 1 ? a.v[i] - b.v[i] : a.v[i] * b.v[i];
	if (op < 3)
	{
		SM D = op == 0 ? A + B : op == 1 ? A - B : A * B;
		full(D, e, "sum, difference and entrywise product agree with the dense definition");
		full(A, a, "left operand unchanged");
		// the result is independent of the operands
		D.set(0, 0, 17);
		full(A, a, "left operand not shared with the result");
	}
	else
	{
		SM& r = op == 3 ? A += B : op == 4 ? A -= B : A *= B;
		sv::check(&r == &A, "compound operators return the left operand");
		full(A, e, "compound operators agree with the dense definition");
	}
	full(B, b, "right operand unchanged");
	sv::reach("end");
}
SV_ENTRY(alias)
{
	size_t R = sv::param(0), C = sv::param(1);
	Ref<double> a = symRef<double>(R, C, "a"), e(R, C);
	SM A = make(a);
	size_t op = sv::choice(6, "op");
	for (size_t i = 0; i < R * C; ++i)
		e.v[i] = op % 3 == 0 ? a.v[i] + a.v[i] : op % 3 == 1 ? 0 : a.v[i] * a.v[i];
	if (op == 0) A += A;
	if (op == 1) A -= A;
	if (op == 2) A *= A;
	if (op == 3) A = A + A;
	if (op == 4) A = A - A;
	if (op == 5) A = A * A;
	full(A, e, "the same object on both sides");
	sv::reach("end");
}
SV_ENTRY(scale)
{
	size_t R = sv::param(0), C = sv::param(1);
	Ref<double> a = symRef<double>(R, C, "a"), e = a;
	SM A = make(a);
	double f = sv::real("f");
	size_t op = sv::choice(5, "op");
	for (auto& x : e.v)
		x = op == 3 ? -x : x * f;
	if (op == 0)
	{
		A *= f;
		full(A, e, "in-place scaling");
	}
	else if (op == 4)
	{
		Ref<double> h = a;
		for (auto& x : h.v) x = x / 4;
		A *= 0.25;
		full(A, h, "scaling by a fraction");
	}
	else
	{
		SM D = op == 1 ? A * f : op == 2 ? f * A : -A;
		full(D, e, "scaling and negation agree with the dense definition");
		full(A, a, "operand unchanged");
	}
	sv::reach("end");
}
SV_ENTRY(own)
{
	size_t R = sv::param(0), C = sv::param(1);
	Ref<double> a = symRef<double>(R, C, "a"), e = a;
	SM A = make(a);
	size_t n = A.filled_count();
	if (!n) { sv::reach("end"); return; }
	auto it = A.begin();
	for (size_t k = sv::choice(n, "entry"); k > 0; --k) ++it;
	double f = *it;
	for (auto& x : e.v) x = x * f;
	bool left = sv::choice(2);
	if (left) A *= *it;
	else A = *it * A;
	full(A, e, "scaling by an own entry");
	sv::reach("end");
}
// infinities and NaN: entries absent on one side stay what the dense definition without them says
SV_ENTRY(special)
{
	static const double W[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
	SM A(2, 3), B(2, 3);
	Ref<double> a(2, 3);
	size_t w = sv::choice(6, "where");
	for (size_t i = 0; i < 6; ++i)
		if (i != w && sv::choice(2, "pattern")) { a.v[i] = sv::real("a"); sv::assume(a.v[i] != 0); A.set(i / 3, i % 3, a.v[i]); }
	B.set(w / 3, w % 3, W[sv::choice(3, "value")]);
	size_t x = sv::choice(6, "second");
	if (x != w) B.set(x / 3, x % 3, 2);
	A *= B;
	for (size_t i = 0; i < 6; ++i) sv::eq(A.at(i / 3, i % 3), i == x && i != w ? a.v[i] * 2 : 0, "entries absent on the left stay absent");
	consistent(A, "presence and counts agree with the values");
	SM D(1, 1);
	sv::eq(D.at(0, 0), 0, "a new matrix reads zero");
	sv::reach("end");
}
SV_ENTRY(product)
{
	size_t R = sv::param(0), K = sv::param(1), C = sv::param(2);
	Ref<double> a = symRef<double>(R, K, "a"), b = symRef<double>(K, C, "b");
	SM A = make(a), B = make(b);
	SM D = A.mul(B);
	full(D, mulRef(a, b), "product agrees with the dense definition");
	full(A, a, "left factor unchanged");
	full(B, b, "right factor unchanged");
	sv::reach("end");
}
SV_ENTRY(matvec)
{
	size_t R = sv::param(0), C = sv::param(1);
	Ref<double> a = symRef<double>(R, C, "a");
	SM A = make(a);
	DynamicVector<double> x(C), y(R);
	std::vector<double> ax(R, 0), ya(C, 0);
	for (size_t j = 0; j < C; ++j) x.set(j, sv::real("x"));
	for (size_t i = 0; i < R; ++i) y.set(i, sv::real("y"));
	for (size_t i = 0; i < R; ++i)
		for (size_t j = 0; j < C; ++j)
		{
			ax[i] += a(i, j) * x.at(j);
			ya[j] += a(i, j) * y.at(i);
		}
	DynamicVector<double> xc = x, yc = y;
	sameVec(A.mul(x), ax, "matrix times vector");
	sameVec(A.mul_left(y), ya, "vector times matrix");
	if (C == 2)
	{
		FixedVector<double, 2> f;
		f.set(0, x.at(0)); f.set(1, x.at(1));
		sameVec(A.mul(f), ax, "matrix times fixed vector");
	}
	if (R == 2)
	{
		FixedVector<double, 2> f;
		f.set(0, y.at(0)); f.set(1, y.at(1));
		sameVec(A.mul_left(f), ya, "fixed vector times matrix");
	}
	full(A, a, "matrix unchanged");
	for (size_t j = 0; j < C; ++j) sv::eq(x.at(j), xc.at(j), "vector unchanged");
	for (size_t i = 0; i < R; ++i) sv::eq(y.at(i), yc.at(i), "vector unchanged");
	sv::reach("end");
}
SV_ENTRY(complex_ops)
{
	size_t R = sv::param(0), C = sv::param(1);
	Ref<cd> a(R, C), b(R, C), e(R, C);
	SparseMatrix<cd> A(R, C), B(R, C);
	for (size_t i = 0; i < R * C; ++i)
	{
		if (sv::choice(2, "fa"))
			A.set(i / C, i % C, a.v[i] = sym<cd>("a"));
		if (sv::choice(2, "fb"))
			B.set(i / C, i % C, b.v[i] = sym<cd>("b"));
	}
	size_t op = sv::choice(5, "op");
	cd f(sv::real("f"), sv::real("f"));
	for (size_t i = 0; i < R * C; ++i)
		e.v[i] = op == 0 ? a.v[i] + b.v[i] : op == 1 ? a.v[i] - b.v[i] : op == 2 ? mulx(a.v[i], b.v[i]) : op == 3 ? mulx(a.v[i], f) : -a.v[i];
	SparseMatrix<cd> D = op == 0 ? A + B : op == 1 ? A - B : op == 2 ? A * B : op == 3 ? A * f : -A;
	full(D, e, "complex sparse arithmetic agrees with the dense definition");
	full(A, a, "left operand unchanged");
	full(B, b, "right operand unchanged");
	if (R != C)
	{
		Ref<cd> bt(C, R);
		SparseMatrix<cd> Bt(C, R);
		for (size_t i = 0; i < R; ++i)
			for (size_t j = 0; j < C; ++j)
				Bt.set(j, i, bt(j, i) = b(i, j));
		full(A.mul(Bt), mulRef(a, bt), "complex product");
	}
	sv::reach("end");
}
SV_ENTRY(compare)
{
	size_t R = sv::param(0), C = sv::param(1);
	Ref<double> a = symRef<double>(R, C, "a"), b = symRef<double>(R, C, "b");
	SM A = make(a), B = make(b);
	bool eq = true;
	for (size_t i = 0; i < R * C; ++i)
		if (a.v[i] != b.v[i])
			eq = false;
	sv::check((A == B) == eq, "equality is entrywise equality");
	sv::check((A != B) == !eq, "inequality is the negation of equality");
	sv::check(A == A, "a matrix equals itself");
	SM D(R, C + 1);
	load(D, a);
	sv::check(!(A == D), "matrices of different dimensions are not equal");
	sv::reach("end");
}

SV_ENTRY(large)
{
	size_t R = sv::param(0), C = sv::param(1), both = 0;
	Ref<double> a = patRef<double>(R, C, sv::param(2)), b(R, C), e = a;
	for (size_t i = 0; i < R; ++i)
		for (size_t j = 0; j < C; ++j)
			if (pattern(sv::param(3), i, j, R, C))
			{
				b(i, j) = sv::real("b");
				// larger than the entry of the other operand, except for two of them
				if (a(i, j) == 0 || ++both < 3) sv::assume(b(i, j) > 0);
				else { double d = b(i, j); sv::assume(d > 0); b(i, j) = a(i, j) + d; }
			}
	SM A = make(a), B = make(b);
	size_t op = sv::choice(12, "op");
	double f = op == 9 || op == 10 ? sv::real("f") : -1;
	for (size_t i = 0; i < R * C; ++i)
		e.v[i] = op == 7 || op == 8 ? 0 : op == 6 ? a.v[i] * a.v[i] : op > 8 ? a.v[i] * f : op % 3 == 0 ? a.v[i] + b.v[i] : op % 3 == 1 ? a.v[i] - b.v[i] : a.v[i] * b.v[i];
	SM D(1, 1);
	switch (op)
	{
	case 0: D = A + B; break;
	case 1: D = A - B; break;
	case 2: D = A * B; break;
	case 3: A += B; D = A; break;
	case 4: A -= B; D = A; break;
	case 5: A *= B; D = A; break;
	case 6: A *= A; D = A; break;
	case 7: A -= A; D = A; break;
	case 8: D = A; D *= 0; break;
	case 9: D = A * f; break;
	case 10: A *= f; D = A; break;
	case 11: D = -A; break;
	}
	full(D, e, "larger operands");
	full(B, b, "larger right operand unchanged");
	if (op < 3 || op == 8 || op == 9 || op == 11) full(A, a, "larger left operand unchanged");
	sv::check(D == make(e) && !(D != make(e)), "equal larger matrices compare equal");
	D.set(R - 1, C / 2, D.at(R - 1, C / 2) + 1);
	sv::check(D != make(e) && !(D == make(e)), "a larger matrix differs in one entry");
	sv::reach("end");
}
SV_ENTRY(large_product)
{
	size_t R = sv::param(0), K = sv::param(1), C = sv::param(2), left = sv::choice(2, "symbolic factor");
	Ref<double> a(R, K), b(K, C);
	for (size_t i = 0; i < R; ++i) for (size_t k = 0; k < K; ++k) if (pattern(sv::param(3), i, k, R, K)) a(i, k) = 1 + (3 * i + 5 * k) % 7;
	for (size_t k = 0; k < K; ++k) for (size_t j = 0; j < C; ++j) if (pattern(sv::param(4), k, j, K, C)) b(k, j) = 2 + (2 * k + 3 * j) % 5;
	if (left) a = patRef<double>(R, K, sv::param(3)); else b = patRef<double>(K, C, sv::param(4), "b");
	SM A = make(a), B = make(b), D = A.mul(B);
	full(D, mulRef(a, b), "larger product");
	full(A, a, "larger left factor unchanged");
	full(B, b, "larger right factor unchanged");
	DynamicVector<double> x(K), y(R);
	std::vector<double> ax(R, 0), ya(K, 0);
	for (size_t k = 0; k < K; ++k) x.set(k, sv::real("x"));
	for (size_t i = 0; i < R; ++i) y.set(i, sv::real("y"));
	for (size_t i = 0; i < R; ++i)
		for (size_t k = 0; k < K; ++k)
		{
			ax[i] += a(i, k) * x.at(k);
			ya[k] += a(i, k) * y.at(i);
		}
	sameVec(A.mul(x), ax, "larger matrix times vector");
	sameVec(A.mul_left(y), ya, "vector times larger matrix");
	sv::reach("end");
}
