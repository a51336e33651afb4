// C18: incomplete LU and inverses of triangular factors
// SV: {"entry":"ilu","quick":[[1],[2],[3]],"bound":"size; all real entries and patterns","timeout":600}
// SV: {"entry":"ilu4","quick":[[]],"bound":"4x4, fixed values with six free entries (so 64 patterns)","timeout":600}
// SV: {"entry":"ilupat","quick":[[4,0],[4,1],[4,2],[4,3]],"thorough":[[5,0],[5,1],[5,2],[5,3],[5,4],[5,5],[5,6],[5,7]],"bound":"4x4: every pattern of the twelve off-diagonal entries, one symbolic row (5x5: the 2^16 patterns with a full first column)","timeout":850}
// SV: {"entry":"cplx","quick":[[]],"bound":"2x2 complex, all entries"}
// SV: {"entry":"ainv","quick":[[1,0],[2,0],[3,0],[1,1],[2,1],[3,1],[4,1],[5,1],[6,1]],"thorough":[[7,1],[8,1],[4,0]],"bound":"size, sparse/dense; all factor entries and patterns, outputs holding anything before","timeout":600}
// SV: {"entry":"ainvc","quick":[[]],"bound":"2x2 complex sparse and dense"}
// SV: {"entry":"shapes","quick":[[]],"bound":"all shapes up to 2x2 of each argument"}
#include "common.h"
#include "matrix/Matrix.h"
#include "LU.h"
using namespace NS;
static const double EPS = std::numeric_limits<double>::epsilon();
static double ab(double x) { return x < 0 ? -x : x; }
static bool small(double x) { return ab(x) <= EPS; }
// definition: entries of the factors on the pattern; sing: a pivot that is needed is missing
static Ref<double> iluRef(const Ref<double>& a, bool& sing, bool& maybe)
{
	size_t n = a.r;
	Ref<double> m(n, n);
	sing = maybe = false;
	std::vector<bool> nz(n * n);
	for (size_t i = 0; i < n * n; ++i) nz[i] = a.v[i] != 0;
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			if (!nz[i * n + j]) continue;
			double s = a(i, j);
			for (size_t k = 0; k < i && k < j; ++k)
				if (nz[i * n + k] && nz[k * n + j]) s -= m(i, k) * m(k, j);
			if (j < i)
			{
				if (small(m(j, j))) { sing = true; return m; }
				s /= m(j, j);
			}
			m(i, j) = s;
		}
	return m;
}
static void ilu(const Ref<double>& a)
{
	size_t n = a.r;
	SparseMatrix<double> A(n, n), L(n, n), U(n, n);
	load(A, a);
	if (sv::choice(2, "dirty")) { L.set(0, n - 1, 7); U.set(n - 1, 0, 5); L.set(n - 1, 0, 3); U.set(0, 0, 2); }
	bool thrown = false;
	try { LU::serial::ilu0(A, L, U); }
	catch (const SingularException&) { thrown = true; }
	same(A, a, "matrix unchanged");
	bool sing, maybe;
	Ref<double> m = iluRef(a, sing, maybe);
	sv::check(thrown == sing, "a missing pivot is reported, others are not");
	if (thrown) { sv::reach("singular"); return; }
	sv::check(L.rows() == n && L.columns() == n && U.rows() == n && U.columns() == n, "shapes");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			sv::eq(L.at(i, j), j < i ? m(i, j) : j == i && a(i, i) != 0 ? 1 : 0, "lower factor");
			sv::eq(U.at(i, j), j < i ? 0 : m(i, j), "upper factor");
		}
	bool diag = true;
	for (size_t i = 0; i < n; ++i) if (a(i, i) == 0) diag = false;
	if (diag)
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j)
			{
				if (a(i, j) == 0) { sv::check(!L.has(i, j) && !U.has(i, j), "no fill-in"); continue; }
				double s = 0;
				for (size_t k = 0; k < n; ++k) s += L.at(i, k) * U.at(k, j);
				sv::eq(s, a(i, j), "L U = A on the pattern");
			}
	consistent(L, "L consistent");
	consistent(U, "U consistent");
	sv::reach("end");
}
SV_ENTRY(ilu)
{
	size_t n = sv::param(0);
	Ref<double> a = symRef<double>(n, n, "a");
	for (size_t i = 0; i < n; ++i) sv::assume(a(i, i) == 0 || !small(a(i, i)));
	ilu(a);
}
SV_ENTRY(ilu4)
{
	static const double b[16] = {7, 1, 0, 2, 3, 8, 1, 0, 0, 2, 9, -1, 1, 0, 4, 11};
	static const int f[16] = {0, 1, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 1, 1, 1, 0};
	Ref<double> a(4, 4);
	for (size_t i = 0; i < 16; ++i)
		if (f[i]) { a.v[i] = sv::real("a"); sv::assume(a.v[i] <= 1 && a.v[i] >= -1); }
		else a.v[i] = b[i];
	ilu(a);
}
SV_ENTRY(ilupat)
{
	size_t n = sv::param(0), part = sv::param(1), bit = 0;
	Ref<double> a(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			if (i == j) { a(i, j) = 9 + (double)i; continue; }
			bool on;
			if (bit < (n == 4 ? 2u : 3u)) { on = part >> bit & 1; ++bit; }
			else if (n == 5 && j == 0) on = true;
			else on = sv::choice(2, "pattern");
			if (!on) continue;
			if (j == (i + 1) % n || i + 1 == n)
			{
				a(i, j) = sv::real("a");
				sv::assume(a(i, j) < 2 && a(i, j) > 0.5);
			}
			else a(i, j) = (i + 2 * j) % 3 == 0 ? -1 : 1 + 0.5 * (double)((i * j) % 3);
		}
	ilu(a);
}
SV_ENTRY(cplx)
{
	SparseMatrix<cd> A(2, 2), L(2, 2), U(2, 2);
	Ref<cd> a = symRef<cd>(2, 2, "a");
	sv::assume(a(0, 0).real() > 1 || a(0, 0).imag() < -1);
	sv::assume(a(1, 0) != cd(0) && a(0, 1) != cd(0) && a(1, 1) != cd(0));
	load(A, a);
	LU::serial::ilu0(A, L, U);
	ceq(mulx(L.at(1, 0), a(0, 0)), a(1, 0), "complex lower factor");
	ceq(L.at(0, 0), cd(1), "unit diagonal");
	ceq(L.at(1, 1), cd(1), "unit diagonal");
	ceq(L.at(0, 1), cd(0), "lower factor");
	ceq(U.at(1, 0), cd(0), "upper factor");
	ceq(U.at(0, 0), a(0, 0), "upper factor");
	ceq(U.at(0, 1), a(0, 1), "upper factor");
	ceq(mulx(L.at(1, 0), U.at(0, 1)) + U.at(1, 1), a(1, 1), "complex product");
	sv::reach("end");
}
template<class M> static void ai(size_t n)
{
	M L(n, n), U(n, n), X(n, n), Y(n, n);
	Ref<double> l(n, n), u(n, n);
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			if (j < i) l(i, j) = sv::real("l");
			else if (j == i) l(i, j) = 1;
			if (j >= i) u(i, j) = sv::real("u");
			if (j == i) sv::assume(u(i, j) == 0 || !small(u(i, j)));
		}
	load(L, l);
	load(U, u);
	if (sv::choice(2, "dirty"))
		for (size_t i = 0; i < n; ++i)
			for (size_t j = 0; j < n; ++j) { X.set(i, j, 3.0 + i + 2 * j); Y.set(i, j, 1.0 + 2 * i + j); }
	bool sing = false, thrown = false;
	for (size_t i = 0; i < n; ++i) if (u(i, i) == 0) sing = true;
	try { LU::serial::ainv_lu(L, U, X, Y); }
	catch (const SingularException&) { thrown = true; }
	sv::check(thrown == sing, "a missing pivot is reported, others are not");
	same(L, l, "L unchanged");
	same(U, u, "U unchanged");
	if (thrown) { sv::reach("singular"); return; }
	sv::check(X.rows() == n && X.columns() == n && Y.rows() == n && Y.columns() == n, "shapes");
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			double s = 0, t = 0;
			for (size_t k = 0; k < n; ++k) { s += l(i, k) * X.at(k, j); t += u(i, k) * Y.at(k, j); }
			sv::eq(s, i == j ? 1 : 0, "L invL = 1");
			sv::eq(t, i == j ? 1 : 0, "U invU = 1");
		}
	sv::reach("end");
}
SV_ENTRY(ainv) { if (sv::param(1)) ai<DenseMatrix<double>>(sv::param(0)); else ai<SparseMatrix<double>>(sv::param(0)); }
template<class M> static void aic()
{
	M L(2, 2), U(2, 2), X(2, 2), Y(2, 2);
	cd l = sym<cd>("l"), a = sym<cd>("u"), b = sym<cd>("u"), c = sym<cd>("u");
	sv::assume(a.real() > 1 || a.imag() > 1);
	sv::assume(c.real() > 1 || c.imag() < -1);
	L.set(0, 0, 1); L.set(1, 1, 1); L.set(1, 0, l);
	U.set(0, 0, a); U.set(0, 1, b); U.set(1, 1, c);
	LU::serial::ainv_lu(L, U, X, Y);
	ceq(X.at(0, 0), cd(1), "invL"); ceq(X.at(1, 1), cd(1), "invL"); ceq(X.at(0, 1), cd(0), "invL");
	ceq(l + X.at(1, 0), cd(0), "L invL = 1");
	ceq(mulx(a, Y.at(0, 0)) + mulx(b, Y.at(1, 0)), cd(1), "U invU = 1");
	ceq(mulx(a, Y.at(0, 1)) + mulx(b, Y.at(1, 1)), cd(0), "U invU = 1");
	ceq(mulx(c, Y.at(1, 1)), cd(1), "U invU = 1");
	ceq(mulx(c, Y.at(1, 0)), cd(0), "U invU = 1");
	sv::reach("end");
}
SV_ENTRY(ainvc) { if (sv::choice(2)) aic<DenseMatrix<cd>>(); else aic<SparseMatrix<cd>>(); }
SV_ENTRY(shapes)
{
	size_t r = 1 + sv::choice(2), c = 1 + sv::choice(2);
	SparseMatrix<double> A(r, c);
	for (size_t i = 0; i < r && i < c; ++i) A.set(i, i, 2);
	if (sv::choice(2))
	{
		SparseMatrix<double> L, U;
		bool t = false;
		try { LU::serial::ilu0(A, L, U); }
		catch (const NotSquareException&) { t = true; }
		sv::check(t == (r != c), "shape of the input is checked");
	}
	else
	{
		size_t s[6];
		for (int i = 0; i < 6; ++i) s[i] = 1 + sv::choice(2);
		SparseMatrix<double> L(s[0], s[1]), X(s[2], s[3]), Y(s[4], s[5]);
		for (size_t i = 0; i < s[0] && i < s[1]; ++i) L.set(i, i, 1);
		int t = 0;
		try { LU::serial::ainv_lu(L, A, X, Y); }
		catch (const NotSquareException&) { t = 1; }
		catch (const MatrixSizeMismatchException&) { t = 2; }
		bool sq = r == c && s[0] == s[1] && s[2] == s[3] && s[4] == s[5];
		sv::check(t == (!sq ? 1 : s[0] != r || s[2] != r || s[4] != r ? 2 : 0), "shapes are checked");
	}
	sv::reach("end");
}
