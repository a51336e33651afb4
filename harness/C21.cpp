// C21: simplex coordinate maps, volume, gradients
// SV: {"entry":"maps","quick":[[]],"bound":"all two-dimensional simplices and points"}
// SV: {"entry":"volume","quick":[[]],"bound":"all two-dimensional simplices, degenerate ones included"}
// SV: {"entry":"gradient","quick":[[]],"bound":"all two-dimensional simplices and points"}
// SV: {"entry":"reuse","quick":[[]],"bound":"prepared again after moving a vertex, copies"}
// SV: {"entry":"flt","quick":[[]],"bound":"float element type, all simplices"}
#include "common.h"
#include "Simplex.h"
using namespace NS;
template<class T> struct Tri
{
	T x[3], y[3];
	Simplex<T, 2> s;
	T det() const { return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); }
};
// first edge longer than the absolute pivot tolerance of the determinant, or zero
template<class T> static void edge(const Tri<T>& t)
{
	T a = t.x[1] - t.x[0], b = t.y[1] - t.y[0], e = 2 * std::numeric_limits<T>::epsilon();
	sv::assume(a > e || a < -e || b > e || b < -e || (a == 0 && b == 0));
}
template<class T> static void tri(Tri<T>& t)
{
	for (int i = 0; i < 3; ++i)
	{
		t.x[i] = sym<T>("x");
		t.y[i] = sym<T>("y");
		t.s[i][0] = t.x[i];
		t.s[i][1] = t.y[i];
	}
	edge(t);
}
template<class T> static void regular(Tri<T>& t)
{
	tri(t);
	sv::assume(t.det() != 0);
}
template<class T> static void maps()
{
	Tri<T> t;
	regular(t);
	t.s.prepare();
	const Simplex<T, 2>& s = t.s;
	typedef FixedVector<T, 2> V;
	static const T c[3][2] = {{0, 0}, {1, 0}, {0, 1}};
	for (int i = 0; i < 3; ++i)
	{
		V g = s.toGlobal(V{c[i][0], c[i][1]});
		ceq(g[0], t.x[i], "corner to vertex");
		ceq(g[1], t.y[i], "corner to vertex");
		V l = s.toLocal(s[i]);
		ceq(l[0], c[i][0], "vertex to corner");
		ceq(l[1], c[i][1], "vertex to corner");
		ceq(s[i][0], t.x[i], "vertices unchanged");
		ceq(s[i][1], t.y[i], "vertices unchanged");
	}
	V p{sym<T>("p"), sym<T>("p")};
	V g = s.toGlobal(p);
	ceq(g[0], t.x[0] + p[0] * (t.x[1] - t.x[0]) + p[1] * (t.x[2] - t.x[0]), "affine map");
	ceq(g[1], t.y[0] + p[0] * (t.y[1] - t.y[0]) + p[1] * (t.y[2] - t.y[0]), "affine map");
	V q = s.toLocal(g);
	ceq(q[0], p[0], "local after global");
	ceq(q[1], p[1], "local after global");
	V h = s.toGlobal(s.toLocal(p));
	// rounding in single precision exceeds the tolerance of native replays
	if (sizeof(T) == 8 || sv::symbolic())
	{
		ceq(h[0], p[0], "global after local");
		ceq(h[1], p[1], "global after local");
	}
	for (int i = 0; i < 2; ++i)
		for (int j = 0; j < 2; ++j)
		{
			T a = 0;
			for (int k = 0; k < 2; ++k) a += s.matrix().at(i, k) * s.inverseMatrix().at(k, j);
			ceq(a, T(i == j), "inverse matrix");
			ceq(s.matrix().at(i, j), i == 0 ? t.x[j + 1] - t.x[0] : t.y[j + 1] - t.y[0], "matrix");
		}
	sv::reach("end");
}
SV_ENTRY(maps) { maps<double>(); }
SV_ENTRY(flt) { maps<float>(); }
SV_ENTRY(volume)
{
	Tri<double> t;
	tri(t);
	t.s.prepare();
	double d = t.det(), v = t.s.volume();
	sv::eq(t.s.determinant(), d, "determinant");
	sv::eq(v, (d < 0 ? -d : d) / 2, "volume");
	sv::eq(Triangle<double>::unitVolume(), 0.5, "unit volume");
	sv::reach("end");
}
SV_ENTRY(gradient)
{
	Tri<double> t;
	regular(t);
	t.s.prepare();
	typedef FixedVector<double, 2> V;
	V p{sv::real("p"), sv::real("p")}, l = t.s.toLocal(p);
	double bary[3] = {1 - l[0] - l[1], l[0], l[1]};
	for (int i = 0; i < 3; ++i)
	{
		V g = t.s.gradient(i);
		// the barycentric coordinate is the affine function with this gradient, one at its vertex
		sv::eq(bary[i], 1 + g[0] * (p[0] - t.x[i]) + g[1] * (p[1] - t.y[i]), "barycentric coordinate");
		for (int j = 0; j < 3; ++j)
			sv::eq(g[0] * (t.x[j] - t.x[i]) + g[1] * (t.y[j] - t.y[i]), i == j ? 0 : -1, "zero at the other vertices");
	}
	sv::reach("end");
}
SV_ENTRY(reuse)
{
	Tri<double> t;
	regular(t);
	t.s.prepare();
	Simplex<double, 2> c = t.s;
	t.s[2][0] = t.x[2] = sv::real("m");
	sv::assume(t.det() != 0);
	t.s.prepare();
	typedef FixedVector<double, 2> V;
	V p{sv::real("p"), sv::real("p")}, q = t.s.toLocal(t.s.toGlobal(p)), r = c.toLocal(c.toGlobal(p));
	sv::eq(q[0], p[0], "prepared again"); sv::eq(q[1], p[1], "prepared again");
	sv::eq(r[0], p[0], "copy"); sv::eq(r[1], p[1], "copy");
	sv::eq(t.s.determinant(), t.det(), "prepared again");
	Simplex<double, 2> u = {{t.x[0], t.y[0]}, {t.x[1], t.y[1]}, {t.x[2], t.y[2]}};
	u.prepare();
	sv::eq(u.volume(), t.s.volume(), "from a list");
	V g = u.toGlobal(p), h = t.s.toGlobal(p);
	sv::eq(g[0], h[0], "from a list"); sv::eq(g[1], h[1], "from a list");
	sv::reach("end");
}
