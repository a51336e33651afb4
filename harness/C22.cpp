// C22: circumcircle, diameter, faces and normals
// SV: {"entry":"circle","quick":[[]],"bound":"all two-dimensional simplices"}
// SV: {"entry":"diam","quick":[[]],"bound":"all two-dimensional simplices, degenerate ones included"}
// SV: {"entry":"face","quick":[[0],[1],[2]],"bound":"face; all two-dimensional simplices"}
#include "common.h"
#include "Simplex.h"
using namespace NS;
typedef FixedVector<double, 2> V;
static double x[3], y[3];
static double det() { return (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); }
static void tri(Simplex<double, 2>& s, bool reg)
{
	for (int i = 0; i < 3; ++i)
	{
		s[i][0] = x[i] = sv::real("x");
		s[i][1] = y[i] = sv::real("y");
	}
	if (reg)
	{
		double e = 1e-15;
		sv::assume(x[1] - x[0] > e || x[1] - x[0] < -e || y[1] - y[0] > e || y[1] - y[0] < -e);
		sv::assume(det() != 0);
	}
	s.prepare();
}
SV_ENTRY(circle)
{
	Simplex<double, 2> s;
	tri(s, true);
	V c = s.center();
	double r = s.outerRadius();
	sv::check(r >= 0, "radius is not negative");
	for (int i = 0; i < 3; ++i)
		sv::eq((x[i] - c[0]) * (x[i] - c[0]) + (y[i] - c[1]) * (y[i] - c[1]), r * r, "vertices on the circle");
	sv::reach("end");
}
SV_ENTRY(diam)
{
	Simplex<double, 2> s;
	for (int i = 0; i < 3; ++i)
	{
		s[i][0] = x[i] = sv::real("x");
		s[i][1] = y[i] = sv::real("y");
	}
	double d = s.diameter(), q[3];
	sv::check(d >= 0, "diameter is not negative");
	bool hit = false;
	for (int i = 0; i < 3; ++i)
	{
		int j = (i + 1) % 3;
		q[i] = (x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j]);
	}
	double m = q[0] >= q[1] ? (q[0] >= q[2] ? q[0] : q[2]) : (q[1] >= q[2] ? q[1] : q[2]);
	(void)hit;
	sv::eq(d * d, m, "largest extent");
	sv::reach("end");
}
SV_ENTRY(face)
{
	Simplex<double, 2> s;
	tri(s, true);
	int i = sv::param(0), a = (i + 1) % 3, b = (i + 2) % 3;
	V c = s.faceCenter(i), n = s.faceNormal(i);
	sv::eq(c[0], (x[a] + x[b]) / 2, "face centre");
	sv::eq(c[1], (y[a] + y[b]) / 2, "face centre");
	sv::eq(n[0] * n[0] + n[1] * n[1], 1, "unit length");
	sv::eq(n[0] * (x[b] - x[a]) + n[1] * (y[b] - y[a]), 0, "orthogonal to the face");
	sv::check(n[0] * (x[i] - x[a]) + n[1] * (y[i] - y[a]) < 0, "points away from the opposite vertex");
	sv::reach("end");
}
