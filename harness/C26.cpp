// C26: generated box grids
// SV: {"entry":"grid","quick":[[4,5]],"thorough":[[6,7]],"bound":"all subdivisions up to the given ones; any extent and offset","timeout":1500}
// SV: {"entry":"gridf","quick":[[2,3]],"bound":"single precision; all subdivisions up to the given ones","timeout":400}
// SV: {"entry":"refuse","quick":[[]],"bound":"any subdivisions with a zero"}
#include "common.h"
#include "mesh/HyperCube.h"
using namespace NS;
template<class T> static void run()
{
	typedef MeshVertex<T, 2> MV;
	size_t nx = sv::conc(sv::u64("nx", 1, sv::param(0))), ny = sv::conc(sv::u64("ny", 1, sv::param(1)));
	T sx = sym<T>("sx"), sy = sym<T>("sy"), ox = sym<T>("ox"), oy = sym<T>("oy");
	FixedVector<Dimension, 2> el;
	el[0] = (Dimension)nx; el[1] = (Dimension)ny;
	FixedVector<T, 2> sz, of;
	sz[0] = sx; sz[1] = sy; of[0] = ox; of[1] = oy;
	Mesh<T, 2> m = HyperCube<T, 2>::generate(el, sz, of);
	const size_t nv = (nx + 1) * (ny + 1), nt = 2 * nx * ny;
	sv::check(m.vertices().size() == nv, "number of vertices");
	sv::check(m.elements().size() == nt, "number of triangles");
	sv::check(m.edges().size() == nv + nt - 1, "number of faces");
	// regular grid: the vertex list holds each grid point exactly once
	std::vector<MV*> at(nv, nullptr);
	std::vector<std::pair<size_t, size_t>> pos(nv);
	// identified with a sample extent: column and row of a vertex by the coefficient of the extent
	for (size_t k = 0; k < nv; ++k)
	{
		MV* v = m.vertex(k);
		sv::check(v->GlobalIndex == k, "vertex numbers follow the list");
	}
	// expected order is not part of the statement: match every grid point to one vertex
	sv::assume(sx > T(1) / 1024 && sy > T(1) / 1024);
	for (size_t k = 0; k < nv; ++k)
	{
		MV* v = m.vertex(k);
		size_t i = 0, j = 0;
		while (i < nx && (v->Vertex[0] - ox) * T(2 * nx) > sx * T(2 * i + 1)) ++i;
		while (j < ny && (v->Vertex[1] - oy) * T(2 * ny) > sy * T(2 * j + 1)) ++j;
		ceq(v->Vertex[0] * T(nx), ox * T(nx) + sx * T(i), "grid column");
		ceq(v->Vertex[1] * T(ny), oy * T(ny) + sy * T(j), "grid row");
		sv::check(!at[j * (nx + 1) + i], "every grid point once");
		at[j * (nx + 1) + i] = v;
		pos[k] = {i, j};
		bool rim = i == 0 || j == 0 || i == nx || j == ny;
		sv::check(v->Flags == (rim ? (uint32)MVF_StrongBoundary : 0u), "exactly the rim is boundary");
	}
	// triangles: corners of one cell, positive area, each cell covered twice by half
	std::vector<int> cell(nx * ny, 0);
	T sum = T(0);
	for (auto e : m.elements())
	{
		size_t lx = nx, ly = ny, hx = 0, hy = 0;
		std::pair<size_t, size_t> p[3];
		for (int c = 0; c < 3; ++c)
		{
			p[c] = pos[e->Vertices[c]->GlobalIndex];
			sv::check(m.vertex(e->Vertices[c]->GlobalIndex) == e->Vertices[c], "triangle uses vertices of the mesh");
			lx = std::min(lx, p[c].first); hx = std::max(hx, p[c].first);
			ly = std::min(ly, p[c].second); hy = std::max(hy, p[c].second);
			ceq(e->Element[c][0], e->Vertices[c]->Vertex[0], "corner of the triangle");
			ceq(e->Element[c][1], e->Vertices[c]->Vertex[1], "corner of the triangle");
		}
		sv::check(hx == lx + 1 && hy == ly + 1, "triangle within one cell");
		sv::check(p[0] != p[1] && p[1] != p[2] && p[0] != p[2], "proper triangle");
		cell[ly * nx + lx]++;
		T a = (e->Element[1][0] - e->Element[0][0]) * (e->Element[2][1] - e->Element[0][1]) - (e->Element[2][0] - e->Element[0][0]) * (e->Element[1][1] - e->Element[0][1]);
		bool pos_ = a > T(0);
		sv::check(pos_ || a < T(0), "area is not zero");
		sum += pos_ ? a : -a;
	}
	for (int c : cell) sv::check(c == 2, "two triangles in each cell");
	ceq(sum, T(2) * sx * sy, "areas add up to the box");
	// faces
	for (auto d : m.edges())
	{
		auto a = pos[d->Vertices[0]->GlobalIndex], b = pos[d->Vertices[1]->GlobalIndex];
		bool rim = (a.first == b.first && (a.first == 0 || a.first == nx)) || (a.second == b.second && (a.second == 0 || a.second == ny));
		sv::check(d->Elements[0] && (d->Elements[1] != nullptr) == !rim, "interior faces have two elements");
	}
	// the finished mesh is valid when it is prepared
	if (sizeof(T) == 8 && nx * ny <= 2)
	{
		sv::assume(sx > 1e-3 && sy > 1e-3);
		m.prepare();
		for (auto e : m.elements())
		{
			T v = e->Element.volume() * T(2 * nx * ny);
			ceq(v < T(0) ? -v : v, sx * sy, "volume of a triangle");
		}
		m.validate();
	}
	sv::reach("end");
}
SV_ENTRY(grid) { run<double>(); }
SV_ENTRY(gridf) { run<float>(); }
SV_ENTRY(refuse)
{
	long before = sv::live();
	Dimension a = (Dimension)sv::u64("a", 0, 0xffff), b = (Dimension)sv::u64("b", 0, 0xffff);
	sv::assume(a == 0 || b == 0);
	bool t = false;
	try { Mesh<double, 2> m = HyperCube<double, 2>::generate({a, b}, {sv::real("sx"), sv::real("sy")}, {0, 0}); }
	catch (const InvalidElementCountException&) { t = true; }
	sv::check(t && sv::live() == before, "no subdivisions");
	sv::reach("end");
}
