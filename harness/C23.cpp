// C23: generalised cross product
// SV: {"entry":"plane","quick":[[]],"bound":"all vectors in the plane"}
// SV: {"entry":"space","quick":[[]],"bound":"all pairs of vectors in space"}
// SV: {"entry":"four","quick":[[]],"bound":"three vectors in four dimensions, three free entries"}
#include "common.h"
#include "Normal.h"
using namespace NS;
// entries are zero or above the absolute pivot tolerance of the determinant
static double entry()
{
	double v = sv::real("v"), e = 1e-15;
	sv::assume(v > e || v < -e || v == 0);
	return v;
}
template<size_t K> static void unit(const FixedVector<double, K>& n, const double* w, const char*)
{
	double q = 0, d = 0;
	for (size_t i = 0; i < K; ++i) { q += n[i] * n[i]; d += n[i] * w[i]; }
	sv::eq(q, 1, "unit length");
	sv::check(d > 0, "orientation");
	// n is a positive multiple of w
	for (size_t i = 0; i < K; ++i)
		for (size_t j = 0; j < i; ++j) sv::eq(n[i] * w[j], n[j] * w[i], "direction of the cross product");
}
SV_ENTRY(plane)
{
	std::array<FixedVector<double, 2>, 1> a;
	double x = entry(), y = entry();
	a[0][0] = x; a[0][1] = y;
	sv::assume(x != 0 || y != 0);
	FixedVector<double, 2> n = Math::normal(a);
	double w[2] = {y, -x};
	unit<2>(n, w, "");
	sv::eq(n[0] * x + n[1] * y, 0, "orthogonal");
	sv::eq(a[0][0], x, "input unchanged");
	sv::reach("end");
}
SV_ENTRY(space)
{
	std::array<FixedVector<double, 3>, 2> a;
	double u[3], v[3];
	for (int i = 0; i < 3; ++i) { a[0][i] = u[i] = entry(); a[1][i] = v[i] = entry(); }
	double w[3] = {u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]};
	sv::assume(w[0] != 0 || w[1] != 0 || w[2] != 0);
	FixedVector<double, 3> n = Math::normal(a);
	unit<3>(n, w, "");
	sv::eq(n[0] * u[0] + n[1] * u[1] + n[2] * u[2], 0, "orthogonal");
	sv::eq(n[0] * v[0] + n[1] * v[1] + n[2] * v[2], 0, "orthogonal");
	sv::reach("end");
}
static double det3(const double* p, const double* q, const double* r)
{
	return p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0]);
}
SV_ENTRY(four)
{
	std::array<FixedVector<double, 4>, 3> a;
	double b[3][4] = {{3, 1, -1, 2}, {1, 4, 1, 1}, {-1, 2, 5, 1}};
	for (int i = 0; i < 3; ++i) { double x = sv::real("v"); sv::assume(x <= 0.25 && x >= -0.25); b[i][(i + 2) % 4] += x; }
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) a[i][j] = b[i][j];
	double w[4];
	for (int k = 0; k < 4; ++k)
	{
		double m[3][3];
		for (int i = 0; i < 3; ++i) for (int j = 0, p = 0; j < 4; ++j) if (j != k) m[i][p++] = b[i][j];
		w[k] = (k % 2 ? -1 : 1) * det3(m[0], m[1], m[2]);
	}
	FixedVector<double, 4> n = Math::normal(a);
	unit<4>(n, w, "");
	for (int i = 0; i < 3; ++i) sv::eq(n[0] * b[i][0] + n[1] * b[i][1] + n[2] * b[i][2] + n[3] * b[i][3], 0, "orthogonal");
	sv::reach("end");
}
