// C09: dimension mismatches
// SV: {"entry":"vectors","quick":[[],[6]],"thorough":[[10]],"bound":"all pairs of lengths up to the parameter (4), all operations"}
// SV: {"entry":"dense_ops","quick":[[],[4]],"thorough":[[5]],"bound":"all pairs of shapes up to 3x3"}
// SV: {"entry":"sparse_ops","quick":[[]],"thorough":[[4]],"bound":"all pairs of shapes up to 3x3"}
// SV: {"entry":"mixed_ops","quick":[[]],"bound":"dense with fixed 2x3 operands, shapes up to 6x6 with few elements"}
// SV: {"entry":"products","quick":[[],[4]],"thorough":[[5]],"bound":"all pairs of shapes up to 3x3, dense and sparse; vectors up to 4"}
// SV: {"entry":"factor","quick":[[]],"bound":"all shapes up to 3x3 of matrix, L, U, P"}
// SV: {"entry":"solve","quick":[[]],"bound":"all shapes up to 3x3, vectors up to 3"}
// SV: {"entry":"args","quick":[[3]],"thorough":[[4]],"bound":"every operation taking several matrices or vectors, each argument of its own shape: all shapes up to 3x3 for two arguments at a time, all square sizes up to 3 for up to four arguments (4 in the thorough tier)"}
// SV: {"entry":"iterate","quick":[[]],"bound":"all shapes up to 3x3, vectors up to 3"}
// SV: {"entry":"order","quick":[[]],"bound":"all shapes up to 3x3, permutations of size up to 3"}
#include "common.h"
#include "Vector.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOperations.h"
#include "matrix/MatrixOrder.h"
#include "LU.h"
#include "CG.h"
#include "Iterative.h"
using namespace NS;
static size_t bound(size_t d) { size_t p = sv::param(0); return p ? p : d; }
// runs op, which must be refused exactly when !ok
template<class F> static void expect(bool ok, F op, const char* what)
{
	bool refused = false;
	try { op(); }
	catch (const NSException&) { refused = true; }
	if (ok) sv::check(!refused, what);
	else sv::check(refused, what);
}
SV_ENTRY(vectors)
{
	size_t n = 1 + sv::choice(bound(4), "n"), m = 1 + sv::choice(bound(4), "m");
	DynamicVector<double> A(n), B(m);
	std::vector<double> a(n), b(m);
	for (size_t i = 0; i < n; ++i) A.set(i, a[i] = sv::real("a"));
	for (size_t i = 0; i < m; ++i) { B.set(i, b[i] = sv::real("b")); sv::assume(b[i] != 0); }
	bool ok = n == m;
	DynamicVector<double> C = A;
	expect(ok, [&] { C = A; C += B; }, "+="); if (!ok) sameVec(C, a, "+= refused without effect");
	expect(ok, [&] { C = A; C -= B; }, "-="); if (!ok) sameVec(C, a, "-= refused without effect");
	expect(ok, [&] { C = A; C *= B; }, "*="); if (!ok) sameVec(C, a, "*= refused without effect");
	expect(ok, [&] { C = A; C /= B; }, "/="); if (!ok) sameVec(C, a, "/= refused without effect");
	expect(ok, [&] { A + B; }, "+");
	expect(ok, [&] { A - B; }, "-");
	expect(ok, [&] { A * B; }, "*");
	expect(ok, [&] { A / B; }, "/");
	expect(ok, [&] { A.dot(B); }, "dot");
	bool e = false;
	try { e = A == B; } catch (const NSException&) { sv::check(!ok, "== refused"); }
	if (!ok) sv::check(!e, "vectors of different size are not equal");
	sameVec(A, a, "left operand unchanged");
	sameVec(B, b, "right operand unchanged");
	sv::reach("end");
}
template<class M> static void fill(M& m, double v)
{
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.columns(); ++j) m.set(i, j, v + i * 10 + j);
}
template<class M> static Ref<double> snap(const M& m)
{
	Ref<double> r(m.rows(), m.columns());
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.columns(); ++j) r(i, j) = m.at(i, j);
	return r;
}
template<class M> static void symFill(M& m)
{
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.columns(); ++j)
		{
			double v = sv::real("m");
			sv::assume(v > 1);
			m.set(i, j, v);
		}
}
template<class M> static void pairOps()
{
	size_t N = bound(3);
	size_t r = 1 + sv::choice(N), c = 1 + sv::choice(N), r2 = 1 + sv::choice(N), c2 = 1 + sv::choice(N);
	M A(r, c), B(r2, c2);
	symFill(A);
	symFill(B);
	Ref<double> a = snap(A), b = snap(B);
	bool ok = r == r2 && c == c2;
	M C = A;
	expect(ok, [&] { C = A; C += B; }, "+="); if (!ok) same(C, a, "+= refused without effect");
	expect(ok, [&] { C = A; C -= B; }, "-="); if (!ok) same(C, a, "-= refused without effect");
	expect(ok, [&] { C = A; C *= B; }, "*="); if (!ok) same(C, a, "*= refused without effect");
	expect(ok, [&] { A + B; }, "+");
	expect(ok, [&] { A - B; }, "-");
	expect(ok, [&] { A * B; }, "*");
	bool e = false;
	try { e = A == B; } catch (const NSException&) { sv::check(!ok, "== refused"); }
	if (!ok) sv::check(!e, "matrices of different shape are not equal");
	same(A, a, "left operand unchanged");
	same(B, b, "right operand unchanged");
	sv::reach("end");
}
SV_ENTRY(dense_ops) { pairOps<DenseMatrix<double>>(); }
SV_ENTRY(sparse_ops) { pairOps<SparseMatrix<double>>(); }
SV_ENTRY(mixed_ops)
{
	static const size_t R[] = {2, 3, 1, 6, 2, 3, 2}, Cc[] = {3, 2, 6, 1, 2, 3, 4};
	size_t k = sv::choice(7);
	DenseMatrix<double> A(R[k], Cc[k]);
	FixedMatrix<double, 2, 3> F;
	symFill(A);
	symFill(F);
	Ref<double> a = snap(A), f = snap(F);
	bool ok = k == 0;
	DenseMatrix<double> C = A;
	expect(ok, [&] { C = A; C += F; }, "+= fixed"); if (!ok) same(C, a, "+= refused without effect");
	expect(ok, [&] { C = A; C -= F; }, "-= fixed"); if (!ok) same(C, a, "-= refused without effect");
	expect(ok, [&] { C = A; C *= F; }, "*= fixed"); if (!ok) same(C, a, "*= refused without effect");
	same(F, f, "right operand unchanged");
	sv::reach("end");
}
SV_ENTRY(products)
{
	size_t N = bound(3);
	size_t r = 1 + sv::choice(N), c = 1 + sv::choice(N), r2 = 1 + sv::choice(N), c2 = 1 + sv::choice(N), n = 1 + sv::choice(N + 1);
	DenseMatrix<double> A(r, c), B(r2, c2);
	SparseMatrix<double> S(r, c), R(r2, c2);
	symFill(A); symFill(B); symFill(S); symFill(R);
	DynamicVector<double> v(n);
	for (size_t i = 0; i < n; ++i) v.set(i, sv::real("v"));
	Ref<double> a = snap(A), s = snap(S);
	expect(c == r2, [&] { auto C = A.mul(B); sv::check(C.rows() == r && C.columns() == c2, "product shape"); }, "dense product");
	expect(c == r2, [&] { auto C = S.mul(R); sv::check(C.rows() == r && C.columns() == c2, "sparse product shape"); }, "sparse product");
	expect(c == n, [&] { sv::check(A.mul(v).size() == r, "dense M v size"); }, "dense M v");
	expect(c == n, [&] { sv::check(S.mul(v).size() == r, "sparse M v size"); }, "sparse M v");
	expect(r == n, [&] { sv::check(A.mul_left(v).size() == c, "dense v M size"); }, "dense v M");
	expect(r == n, [&] { sv::check(S.mul_left(v).size() == c, "sparse v M size"); }, "sparse v M");
	same(A, a, "dense operand unchanged");
	same(S, s, "sparse operand unchanged");
	sv::reach("end");
}
// diagonally dominant (symbolic up to 2x2 if asked for), so that no operation is refused for another reason
template<class M> static void dom(M& m, bool symbolic = false)
{
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < m.columns(); ++j)
		{
			if (!symbolic || m.rows() > 2 || m.columns() > 2) { m.set(i, j, i == j ? 8.0 + i : 1.0); continue; }
			double v = sv::real("m");
			if (i == j) sv::assume(v >= 8 && v <= 9);
			else sv::assume(v >= 0.5 && v <= 1);
			m.set(i, j, v);
		}
}
template<class M> static void lowTri(M& m)
{
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j <= i && j < m.columns(); ++j) m.set(i, j, i == j ? 1.0 : 0.5);
}
template<class M> static void upTri(M& m)
{
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = i; j < m.columns(); ++j) m.set(i, j, i == j ? 2.0 : 0.5);
}
SV_ENTRY(factor)
{
	size_t r = 1 + sv::choice(3), c = 1 + sv::choice(3), o = 1 + sv::choice(3), q = 1 + sv::choice(3), w = sv::choice(3);
	DenseMatrix<double> A(r, c), L(w == 0 ? o : r, w == 0 ? q : c), U(r, c), P(w == 1 ? o : r, w == 1 ? q : c);
	SparseMatrix<double> S(r, c), SL(r, c), SU(r, c), SP(r, c), T(o, q);
	dom(A, true);
	Ref<double> a = snap(A);
	load(S, a);
	bool sq = r == c;
	bool lok = L.rows() == r && L.columns() == c, pok = P.rows() == r && P.columns() == c;
	expect(sq && lok && pok, [&] { LU::serial::doolittle(A, L, U, P); }, "dense LU");
	expect(sq, [&] { LU::serial::doolittle(S, SL, SU, SP); }, "sparse LU");
	expect(sq, [&] { SparseMatrix<double> X(r, c), Y(r, c); LU::serial::ilu0(S, X, Y); }, "ilu0");
	DenseMatrix<double> D(o, q);
	expect(sq && o == r && q == c, [&] { LU::serial::cholesky(A, D); }, "dense Cholesky");
	expect(sq && o == r && q == c, [&] { LU::serial::cholesky(S, T); }, "sparse Cholesky");
	expect(sq, [&] { Operations::inverse(S); }, "sparse inverse");
	expect(sq, [&] { Operations::inverse(A); }, "dense inverse");
	if (!sq)
	{
		sv::eq(Operations::determinant(A), 0, "determinant of a non-square matrix is 0");
		sv::eq(Operations::determinant(S), 0, "determinant of a non-square sparse matrix is 0");
	}
	same(A, a, "factored matrix unchanged");
	same(S, a, "factored sparse matrix unchanged");
	sv::reach("end");
}
SV_ENTRY(solve)
{
	size_t r = 1 + sv::choice(3), c = 1 + sv::choice(3), r2 = 1 + sv::choice(3), c2 = 1 + sv::choice(3), n = 1 + sv::choice(3);
	DenseMatrix<double> L(r, c), U(r2, c2);
	SparseMatrix<double> SL(r, c), SU(r2, c2);
	lowTri(L); lowTri(SL); upTri(U); upTri(SU);
	DynamicVector<double> b(n);
	for (size_t i = 0; i < n; ++i) b.set(i, sv::real("b"));
	Ref<double> l = snap(L), u = snap(U);
	bool sq = r == c && r2 == c2 && r == r2;
	expect(sq && n == r, [&] { LU::serial::solve_lu(L, U, b); }, "dense solve");
	expect(sq && n == r, [&] { LU::serial::solve_lu(SL, SU, b); }, "sparse solve");
	SparseMatrix<double> IL(n, n), IU(n, n), JU(n, r);
	expect(sq && n == r, [&] { LU::serial::ainv_lu(SL, SU, IL, IU); }, "sparse ainv_lu");
	expect(sq && n == r, [&] { SparseMatrix<double> X(n, n); LU::serial::ainv_lu(SL, SU, X, JU); }, "sparse ainv_lu, second output");
	expect(sq, [&] { Operations::inverse(SL, SU); }, "inverse from factors");
	SparseMatrix<double> P(n, c);
	for (size_t i = 0; i < n && i < c; ++i) P.set(i, i, 1);
	expect(sq && n == r && c == n, [&] { Operations::inverse(SL, SU, P); }, "inverse from pivoted factors");
	same(L, l, "L unchanged"); same(SL, l, "sparse L unchanged");
	same(U, u, "U unchanged"); same(SU, u, "sparse U unchanged");
	sv::reach("end");
}
template<class M> static void eye(M& m)
{
	for (size_t i = 0; i < m.rows() && i < m.columns(); ++i)
	{
		double v = sv::real("p");
		sv::assume(v >= 1 && v <= 2);
		m.set(i, i, v);
	}
}
// every argument of its own shape
SV_ENTRY(args)
{
	const size_t N = bound(3);
	enum { INV3, INV3D, AINV, PCG, CGS, LUD, CHOL, OPS };
	int op = sv::choice(OPS, "op");
	// argument k: 0..3; one of them may have any shape, the others are square of any size
	size_t odd = sv::choice(4, "odd"), rr[4], cc[4];
	for (size_t k = 0; k < 4; ++k)
	{
		rr[k] = cc[k] = 1 + sv::choice(N, "size");
		if (k == odd) cc[k] = 1 + sv::choice(N, "columns");
	}
	auto sq = [&](int k) { return rr[k] == cc[k]; };
	bool all3 = sq(0) && sq(1) && sq(2) && rr[0] == rr[1] && rr[1] == rr[2];
	bool all4 = all3 && sq(3) && rr[3] == rr[0];
	auto vec = [](size_t n) { DynamicVector<double> x(n); for (size_t i = 0; i < n; ++i) { double t = sv::real("v"); sv::assume(t > 0 && t < 100); x.set(i, t); } return x; };
	if (op == INV3 || op == AINV)
	{
		SparseMatrix<double> L(rr[0], cc[0]), U(rr[1], cc[1]), P(rr[2], cc[2]), Q(rr[3], cc[3]);
		lowTri(L); upTri(U); eye(P);
		Ref<double> l = snap(L), u = snap(U), p = snap(P), q = snap(Q);
		if (op == INV3)
		{
			if (rr[3] != 1 || cc[3] != 1) return;
			expect(all3, [&] { auto I = Operations::inverse(L, U, P); sv::check(I.rows() == rr[0] && I.columns() == rr[0], "shape of the inverse"); }, "sparse inverse from L, U, P");
			same(P, p, "P unchanged");
		}
		else
		{
			SparseMatrix<double> O = P;
			expect(all4, [&] { LU::serial::ainv_lu(L, U, O, Q); }, "approximate inverse factors");
			if (!all4) { same(O, p, "first output untouched when refused"); same(Q, q, "second output untouched when refused"); }
		}
		same(L, l, "L unchanged"); same(U, u, "U unchanged");
	}
	else if (op == INV3D)
	{
		if (rr[3] != 1 || cc[3] != 1) return;
		DenseMatrix<double> L(rr[0], cc[0]), U(rr[1], cc[1]), P(rr[2], cc[2]);
		lowTri(L); upTri(U); eye(P);
		Ref<double> l = snap(L), u = snap(U), p = snap(P);
		expect(all3, [&] { auto I = Operations::inverse(L, U, P); sv::check(I.rows() == rr[0] && I.columns() == rr[0], "shape of the inverse"); }, "dense inverse from L, U, P");
		same(L, l, "L unchanged"); same(U, u, "U unchanged"); same(P, p, "P unchanged");
	}
	else if (op == LUD)
	{
		// the upper factor is assigned; L and P must have the shape of A
		DenseMatrix<double> A(rr[0], cc[0]), L(rr[1], cc[1]), P(rr[2], cc[2]), U(rr[3], cc[3]);
		if (!all3 && rr[3] != 1) return;
		dom(A, all3);
		Ref<double> a = snap(A), p = snap(P);
		if (all4 || !all3) expect(all3, [&] { LU::serial::doolittle(A, L, U, P); }, "dense LU");
		same(A, a, "factored matrix unchanged");
	}
	else if (op == CHOL)
	{
		if (rr[3] != 1 || cc[3] != 1 || rr[2] != 1 || cc[2] != 1) return;
		bool ok = sq(0) && sq(1) && rr[0] == rr[1];
		DenseMatrix<double> A(rr[0], cc[0]), C(rr[1], cc[1]);
		SparseMatrix<double> S(rr[0], cc[0]), T(rr[1], cc[1]), J(rr[1], cc[1]);
		dom(A); dom(S);
		expect(ok, [&] { LU::serial::cholesky(A, C); }, "dense Cholesky");
		expect(ok, [&] { LU::serial::cholesky(S, T); }, "sparse Cholesky");
		expect(ok, [&] { CG::serial::jacobi(S, J); }, "Jacobi preconditioner");
	}
	else
	{
		// system matrix, preconditioner and the lengths of the two vectors
		if (odd > 1) return;
		size_t n = rr[2], k = rr[3];
		SparseMatrix<double> S(rr[0], cc[0]), M(rr[1], cc[1]);
		DenseMatrix<double> A(rr[0], cc[0]);
		dom(S); dom(A); eye(M);
		DynamicVector<double> b = vec(n), x(k);
		std::vector<double> b0(n);
		for (size_t i = 0; i < n; ++i) b0[i] = b.at(i);
		bool ok = sq(0) && n == rr[0] && k == rr[0];
		if (op == PCG)
			expect(ok && sq(1) && rr[1] == rr[0], [&] { CG::serial::pcg(S, b, M, x, 1); }, "preconditioned CG");
		else
		{
			if (rr[1] != 1 || cc[1] != 1) return;
			expect(ok, [&] { CG::serial::cg(S, b, x, 1); }, "sparse CG");
			expect(ok, [&] { CG::serial::cg(A, b, x, 1); }, "dense CG");
			expect(ok, [&] { Iterative::serial::jacobi(S, b, x, 1); }, "sparse Jacobi");
			expect(ok, [&] { Iterative::serial::sor(A, b, x, 1.0, 1); }, "dense SOR");
		}
		for (size_t i = 0; i < n; ++i) sv::eq(b.at(i), b0[i], "right-hand side unchanged");
	}
	sv::reach("end");
}
SV_ENTRY(iterate)
{
	size_t r = 1 + sv::choice(3), c = 1 + sv::choice(3), n = 1 + sv::choice(3), k = 1 + sv::choice(3);
	DenseMatrix<double> A(r, c);
	SparseMatrix<double> S(r, c);
	dom(A);
	dom(S);
	DynamicVector<double> b(n), x(k);
	for (size_t i = 0; i < n; ++i) { double t = sv::real("b"); sv::assume(t > 0); b.set(i, t); }
	bool ok = r == c && n == r && k == r;
	expect(ok, [&] { Iterative::serial::jacobi(A, b, x, 1); }, "dense Jacobi");
	expect(ok, [&] { Iterative::serial::jacobi(S, b, x, 1); }, "sparse Jacobi");
	expect(ok, [&] { Iterative::serial::sor(A, b, x, 1.0, 1); }, "dense SOR");
	expect(ok, [&] { Iterative::serial::sor(S, b, x, 1.0, 1); }, "sparse SOR");
	expect(ok, [&] { CG::serial::cg(A, b, x, 1); }, "dense CG");
	expect(ok, [&] { CG::serial::cg(S, b, x, 1); }, "sparse CG");
	SparseMatrix<double> Cm(k, r);
	for (size_t i = 0; i < k && i < r; ++i) Cm.set(i, i, 1);
	expect(ok, [&] { CG::serial::pcg(S, b, Cm, x, 1); }, "preconditioned CG");
	expect(r == c && k == r, [&] { SparseMatrix<double> X(k, r); CG::serial::jacobi(S, X); }, "Jacobi preconditioner");
	sv::reach("end");
}
SV_ENTRY(order)
{
	size_t r = 1 + sv::choice(3), c = 1 + sv::choice(3), n = 1 + sv::choice(3);
	SparseMatrix<double> S(r, c);
	dom(S);
	DynamicVector<Index> p(n);
	for (size_t i = 0; i < n; ++i) p.set(i, n - 1 - i);
	DynamicVector<double> v(r);
	expect(r == c, [&] { cuthill_mckee(S); }, "Cuthill-McKee");
	expect(r == c, [&] { r_cuthill_mckee(S); }, "reverse Cuthill-McKee");
	expect(r == c && n == r, [&] { permutate(S, p); }, "permutate matrix");
	expect(n == r, [&] { permutate(v, p); }, "permutate vector");
	sv::reach("end");
}
