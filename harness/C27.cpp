// C27: Lagrange shape functions
// SV: {"entry":"s11","quick":[[]],"bound":"dimension 1, order 1; all points and node values"}
// SV: {"entry":"s12","quick":[[]],"bound":"dimension 1, order 2; all points and node values"}
// SV: {"entry":"s21","quick":[[]],"bound":"dimension 2, order 1; all points and node values"}
// SV: {"entry":"s22","quick":[[]],"bound":"dimension 2, order 2; all points and node values"}
// SV: {"entry":"s23","quick":[[]],"bound":"dimension 2, order 3; all points and node values"}
// SV: {"entry":"s31","quick":[[]],"bound":"dimension 3, order 1; all points and node values"}
// SV: {"entry":"s32","quick":[[]],"bound":"dimension 3, order 2; all points and node values"}
// SV: {"entry":"f22","quick":[[]],"bound":"single precision; dimension 2, order 2"}
#include "common.h"
#include "sf/PolyShapeFunction.h"
using namespace NS;
// node positions in sixths
struct Nodes { int k, o, n; int x[10][3]; };
static const Nodes N11 = {1, 1, 2, {{0}, {6}}};
static const Nodes N12 = {1, 2, 3, {{0}, {6}, {3}}};
static const Nodes N21 = {2, 1, 3, {{0, 0}, {6, 0}, {0, 6}}};
static const Nodes N22 = {2, 2, 6, {{0, 0}, {6, 0}, {0, 6}, {3, 0}, {3, 3}, {0, 3}}};
static const Nodes N23 = {2, 3, 10, {{0, 0}, {6, 0}, {0, 6}, {2, 0}, {4, 0}, {4, 2}, {2, 4}, {0, 4}, {0, 2}, {2, 2}}};
static const Nodes N31 = {3, 1, 4, {{0, 0, 0}, {6, 0, 0}, {0, 6, 0}, {0, 0, 6}}};
static const Nodes N32 = {3, 2, 10, {{0, 0, 0}, {6, 0, 0}, {0, 6, 0}, {0, 0, 6}, {3, 0, 0}, {3, 3, 0}, {0, 3, 0}, {3, 0, 3}, {0, 0, 3}, {0, 3, 3}}};
static const double TOL = 1e-9;
template<class T> static void near(T a, T b, const char* m)
{
	// node positions such as one third are not representable
	double t = sizeof(T) == 8 ? TOL : 1e-4;
	sv::check(a - b <= t && b - a <= t, m);
}
template<class T> static T monomial(const T* x, int k, const int* e)
{
	T r = T(1);
	for (int i = 0; i < k; ++i) for (int q = 0; q < e[i]; ++q) r = r * x[i];
	return r;
}
template<class T, Dimension K, Dimension O> static void run(const Nodes& N)
{
	typedef PolyShapeFunction<T, K, O> SF;
	SF f;
	const size_t n = SF::DOF;
	sv::check((int)n == N.n, "number of components");
	// nodal basis
	for (size_t i = 0; i < n; ++i)
		for (size_t j = 0; j < n; ++j)
		{
			FixedVector<T, K> p;
			for (int c = 0; c < N.k; ++c) p[c] = T(N.x[j][c]) / T(6);
			near(f.value(i, p), T(i == j ? 1 : 0), "one at its own node, zero at the others");
		}
	FixedVector<T, K> x;
	T xs[3];
	for (size_t c = 0; c < K; ++c) x[c] = xs[c] = sym<T>("x");
	// partition of unity
	T s = T(0);
	FixedVector<T, K> g, g2;
	for (size_t c = 0; c < K; ++c) g[c] = g2[c] = T(0);
	for (size_t i = 0; i < n; ++i)
	{
		s += f.value(i, x);
		FixedVector<T, K> d = f.gradient(i, x), d2 = f.gradient2(i, x);
		for (size_t c = 0; c < K; ++c) { g[c] += d[c]; g2[c] += d2[c]; }
	}
	ceq(s, T(1), "the functions add up to one");
	for (size_t c = 0; c < K; ++c) { ceq(g[c], T(0), "gradients add up to zero"); ceq(g2[c], T(0), "second derivatives add up to zero"); }
	// derivatives: polynomials of degree up to three are determined exactly by differences
	FixedVector<T, SF::DOF> nv, ones;
	for (size_t i = 0; i < n; ++i) { nv[i] = sym<T>("c"); ones[i] = T(1); }
	for (size_t i = 0; i < n; ++i)
	{
		ceq(f.value(i, x), f.value(i, x, ones), "plain form is the weighted form with unit weights");
		for (int form = 0; form < 2; ++form)
		{
			FixedVector<T, K> d = form ? f.gradient(i, x, nv) : f.gradient(i, x), d2 = form ? f.gradient2(i, x, nv) : f.gradient2(i, x);
			for (size_t c = 0; c < K; ++c)
			{
				T v[5];
				for (int q = -2; q <= 2; ++q)
				{
					FixedVector<T, K> y = x;
					y[c] = x[c] + T(q);
					v[q + 2] = form ? f.value(i, y, nv) : f.value(i, y);
				}
				// exact for polynomials of degree at most four / three
				if (sizeof(T) == 8 || sv::symbolic())
				{
					ceq(T(12) * d[c], v[0] - T(8) * v[1] + T(8) * v[3] - v[4], "first derivative");
					ceq(d2[c], v[1] - T(2) * v[2] + v[3], "second derivative");
				}
			}
		}
	}
	// interpolation of polynomials up to the order
	int e[3] = {0, 0, 0};
	for (e[0] = 0; e[0] <= (int)O; ++e[0])
		for (e[1] = 0; e[1] <= (K > 1 ? (int)O : 0); ++e[1])
			for (e[2] = 0; e[2] <= (K > 2 ? (int)O : 0); ++e[2])
			{
				if (e[0] + e[1] + e[2] > (int)O) continue;
				T r = T(0), dr[3] = {T(0), T(0), T(0)};
				int den = 1;
				for (int q = 0; q < e[0] + e[1] + e[2]; ++q) den *= 6;
				for (size_t i = 0; i < n; ++i)
				{
					int w = 1;
					for (int c = 0; c < N.k; ++c) for (int q = 0; q < e[c]; ++q) w *= N.x[i][c];
					r += T(w) * f.value(i, x);
					auto d = f.gradient(i, x);
					for (size_t c = 0; c < K; ++c) dr[c] += T(w) * d[c];
				}
				if (sizeof(T) == 8 || sv::symbolic())
				{
					ceq(r, T(den) * monomial(xs, N.k, e), "interpolation reproduces polynomials of the order");
					for (size_t c = 0; c < K; ++c)
					{
						int q[3] = {e[0], e[1], e[2]};
						T ex = T(0);
						if (q[c]) { q[c]--; ex = T(den * e[c]) * monomial(xs, N.k, q); }
						ceq(dr[c], ex, "interpolated gradient");
					}
				}
			}
	sv::reach("end");
}
SV_ENTRY(s11) { run<double, 1, 1>(N11); }
SV_ENTRY(s12) { run<double, 1, 2>(N12); }
SV_ENTRY(s21) { run<double, 2, 1>(N21); }
SV_ENTRY(s22) { run<double, 2, 2>(N22); }
SV_ENTRY(s23) { run<double, 2, 3>(N23); }
SV_ENTRY(s31) { run<double, 3, 1>(N31); }
SV_ENTRY(s32) { run<double, 3, 2>(N32); }
SV_ENTRY(f22) { run<float, 2, 2>(N22); }
