// C25: ownership of mesh parts
// SV: {"entry":"ops","quick":[[3]],"thorough":[[4]],"bound":"number of operations on three mesh objects sharing parts in any way; after an optional set-up","timeout":1500}
// SV: {"entry":"nodes","quick":[[]],"bound":"meshes with implicit nodes, box grids and failed set-up"}
// SV: {"entry":"lists","quick":[[3],[6]],"thorough":[[8]],"bound":"number of vertices; all indices"}
// SV: {"entry":"counts","quick":[[3]],"thorough":[[5]],"bound":"every number of vertices, of elements and of set-ups of faces up to the parameter, every way to give the parts up; double and float"}
#include "common.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include <utility>
using namespace NS;
typedef MeshVertex<double, 2> MV;
typedef MeshElement<double, 2> ME;
typedef Mesh<double, 2> MM;
// model: every object refers to a set of parts (or nothing)
struct Parts { size_t fills; double tag[8]; size_t users; };
struct World
{
	static const int N = 3;
	alignas(MM) unsigned char raw[N][sizeof(MM)];
	bool alive[N];
	int of[N];
	Parts p[16];
	int np;
	MM& m(int i) { return *reinterpret_cast<MM*>(raw[i]); }
	World() : np(0) { for (int i = 0; i < N; ++i) { alive[i] = false; of[i] = -1; } }
	int fresh() { p[np].fills = 0; return np++; }
};
static void fill(MM& m, double tag)
{
	size_t n = m.vertices().size();
	for (size_t i = 0; i < 3; ++i) m.addVertex(new MV(FixedVector<double, 2>{tag, (double)i}));
	ME* e = new ME();
	for (size_t i = 0; i < 3; ++i) e->Vertices[i] = m.vertex(n + i);
	m.addElement(e);
	m.setupNeighbors();
}
static void verify(World& w)
{
	for (int i = 0; i < World::N; ++i)
	{
		if (!w.alive[i] || w.of[i] < 0) continue;
		Parts& p = w.p[w.of[i]];
		MM& m = w.m(i);
		sv::check(m.vertices().size() == 3 * p.fills, "vertices of the mesh");
		sv::check(m.elements().size() == p.fills, "elements of the mesh");
		sv::check(m.edges().size() == 3 * p.fills, "faces of the mesh");
		for (size_t k = 0; k < p.fills; ++k)
		{
			ME* e = m.element(k);
			for (size_t j = 0; j < 3; ++j)
			{
				MV* v = m.vertex(3 * k + j);
				sv::check(e->Vertices[j] == v && v->Elements.size() == 1 && v->Elements[0] == e, "parts belong together");
				sv::eq(v->Vertex[0], p.tag[k], "vertex content");
				sv::check(e->Neighbors[j] && e->Neighbors[j]->Elements[0] == e, "face content");
			}
		}
	}
}
static void step(World& w)
{
	int op = (int)sv::choice(8, "op"), i = (int)sv::choice(World::N, "i");
	int j = i;
	if (op >= 1 && op <= 4) j = (int)sv::choice(World::N, "j");
	bool ctor = op <= 2;
	if (ctor == w.alive[i]) sv::stop();
	if (j != i && !w.alive[j]) sv::stop();
	if (ctor && op && j == i) sv::stop();
	switch (op)
	{
	case 0: new (w.raw[i]) MM(); w.of[i] = w.fresh(); w.alive[i] = true; break;
	case 1: new (w.raw[i]) MM(w.m(j)); w.of[i] = w.of[j]; w.alive[i] = true; break;
	case 2: new (w.raw[i]) MM(std::move(w.m(j))); w.of[i] = w.of[j]; w.of[j] = -1; w.alive[i] = true; break;
	case 3: { MM& r = (w.m(i) = w.m(j)); sv::check(&r == &w.m(i), "assignment returns its target"); w.of[i] = w.of[j]; break; }
	case 4: { MM& r = (w.m(i) = std::move(w.m(j))); sv::check(&r == &w.m(i), "assignment returns its target"); if (i != j) { w.of[i] = w.of[j]; w.of[j] = -1; } break; }
	case 5: w.m(i).~MM(); w.alive[i] = false; w.of[i] = -1; break;
	case 6: if (w.of[i] < 0) sv::stop(); w.m(i).clear(); w.p[w.of[i]].fills = 0; break;
	case 7:
	{
		if (w.of[i] < 0) sv::stop();
		Parts& p = w.p[w.of[i]];
		double t = sv::real("t");
		fill(w.m(i), t);
		p.tag[p.fills++] = t;
		break;
	}
	}
	verify(w);
}
SV_ENTRY(ops)
{
	long before = sv::live();
	{
		World w;
		new (w.raw[0]) MM();
		w.alive[0] = true;
		w.of[0] = w.fresh();
		switch (sv::choice(4, "start"))
		{
		case 3: new (w.raw[1]) MM(w.m(0)); w.alive[1] = true; w.of[1] = 0; // fall through
		case 2: new (w.raw[2]) MM(); w.alive[2] = true; w.of[2] = w.fresh(); // fall through
		case 1: { double t = sv::real("t"); fill(w.m(0), t); w.p[0].tag[0] = t; w.p[0].fills = 1; }
		}
		verify(w);
		for (long k = 0; k < sv::param(0); ++k) step(w);
		for (int i = 0; i < World::N; ++i)
			if (w.alive[i]) { w.m(i).~MM(); w.alive[i] = false; verify(w); }
	}
	sv::check(sv::live() == before, "all parts are released");
	sv::reach("end");
}
template<Dimension O> static void prepared()
{
	MM a = HyperCube<double, 2>::generate({(Dimension)(1 + sv::choice(2)), (Dimension)(1 + sv::choice(2))}, {1, 1}, {0, 0});
	a.setupBoundaries();
	PolyShapePolicy<double, 2, O>::prepareMesh(a);
	size_t nv = a.vertices().size(), ne = a.elements().size();
	MM b = a;
	a.clear();
	sv::check(a.vertices().empty() && a.elements().empty() && a.edges().empty(), "cleared");
	sv::check(b.vertices().empty() && b.elements().empty() && b.edges().empty(), "cleared together");
	a = HyperCube<double, 2>::generate({1, 1}, {1, 1}, {0, 0});
	sv::check(a.vertices().size() == 4 && a.elements().size() == 2 && a.edges().size() == 5 && b.vertices().empty() && nv > 4 - O && ne >= 2, "usable again");
	b = std::move(a);
	sv::check(b.vertices().size() == 4 && b.elements().size() == 2, "moved");
}
SV_ENTRY(nodes)
{
	long before = sv::live();
	size_t k = sv::choice(3);
	if (k == 0) prepared<1>();
	if (k == 1) prepared<2>();
	if (k == 2)
	{
		// a face with three elements
		MM m;
		for (int i = 0; i < 5; ++i) m.addVertex(new MV(FixedVector<double, 2>{sv::real("x"), sv::real("y")}));
		for (int i = 0; i < 3; ++i)
		{
			ME* e = new ME();
			e->Vertices[0] = m.vertex(0);
			e->Vertices[1] = m.vertex(1);
			e->Vertices[2] = m.vertex(2 + i);
			m.addElement(e);
		}
		bool t = false;
		try { m.setupNeighbors(); } catch (const TooManySharedFacesException&) { t = true; }
		sv::check(t, "face with three elements");
	}
	if (k == 0 || k == 1)
	{
		bool t = false;
		try { MM m = HyperCube<double, 2>::generate({(Dimension)sv::choice(2), 0}, {1, 1}, {0, 0}); } catch (const InvalidElementCountException&) { t = true; }
		sv::check(t, "no elements");
	}
	sv::check(sv::live() == before, "all parts are released");
	sv::reach("end");
}
SV_ENTRY(lists)
{
	size_t n = sv::param(0);
	long before = sv::live();
	{
		MM m;
		if (sv::choice(2)) m.reserveVertices(sv::conc(sv::u64("r", 1, 4)));
		if (sv::choice(2)) m.reserveElements(sv::conc(sv::u64("r", 1, 4)));
		std::vector<MV*> v;
		std::vector<ME*> e;
		for (size_t i = 0; i < n; ++i) { v.push_back(new MV(FixedVector<double, 2>{sv::real("x"), sv::real("y")})); m.addVertex(v.back()); }
		for (size_t i = 0; i < n; ++i)
		{
			e.push_back(new ME());
			for (size_t j = 0; j < 3; ++j) e[i]->Vertices[j] = v[(i + j) % n];
			m.addElement(e[i]);
			for (size_t j = 0; j < 3; ++j)
			{
				sv::eq(e[i]->Element[j][0], v[(i + j) % n]->Vertex[0], "corner of the element");
				sv::eq(e[i]->Element[j][1], v[(i + j) % n]->Vertex[1], "corner of the element");
			}
		}
		// an entry replaced by its owner
		size_t k = sv::u64("k", 0, n - 1), q = sv::u64("q", 0, n - 1);
		MV* w = new MV(FixedVector<double, 2>{sv::real("x"), sv::real("y")});
		m.setVertex(k, w);
		delete v[k];
		v[k] = w;
		ME* f = new ME();
		m.setElement(q, f);
		delete e[q];
		e[q] = f;
		sv::check(m.vertices().size() == n && m.elements().size() == n, "counts");
		for (size_t i = 0; i < n; ++i) sv::check(m.vertex(i) == v[i] && m.vertices()[i] == v[i] && m.element(i) == e[i] && m.elements()[i] == e[i], "entries in order of insertion");
	}
	sv::check(sv::live() == before, "all parts are released");
	sv::reach("end");
}

template<class T> static void countsT()
{
	typedef Mesh<T, 2> Ms;
	size_t N = sv::param(0);
	long before = sv::live();
	{
		size_t nv = sv::choice(N + 1, "vertices"), ne = nv ? sv::choice(N + 1, "elements") : 0;
		Ms m;
		T x = Sym<T>::get("x");
		for (size_t i = 0; i < nv; ++i) m.addVertex(new MeshVertex<T, 2>(FixedVector<T, 2>{x, (T)i}));
		for (size_t k = 0; k < ne; ++k)
		{
			auto e = new MeshElement<T, 2>();
			for (size_t j = 0; j < 3; ++j) e->Vertices[j] = m.vertex((j + k) % nv);
			m.addElement(e);
		}
		// faces only for a mesh that is one
		size_t nf = 0;
		if (nv == 3 && ne == 1 && sv::choice(2, "faces")) { m.setupNeighbors(); nf = 3; }
		if (nv == 3 && ne == 2 && sv::choice(2, "faces")) { m.setupNeighbors(); nf = 3; }
		sv::check(m.vertices().size() == nv && m.elements().size() == ne && m.edges().size() == nf, "numbers of parts");
		for (size_t i = 0; i < nv; ++i) { sv::eq(m.vertex(i)->Vertex[0], x, "content"); sv::check(m.vertex(i)->GlobalIndex == i, "numbering"); }
		switch (sv::choice(7, "end"))
		{
		case 0: break;
		case 1: m.clear(); sv::check(m.vertices().empty() && m.elements().empty() && m.edges().empty(), "cleared"); break;
		case 2: { Ms o; m = o; sv::check(m.vertices().empty() && o.vertices().empty(), "assigned"); break; }
		case 3: { Ms o; m = std::move(o); sv::check(m.vertices().empty() && m.elements().empty() && m.edges().empty(), "moved into"); break; }
		case 4: { Ms o(m), q(o); m = Ms(); sv::check(o.vertices().size() == nv && q.elements().size() == ne, "still owned by the copies"); break; }
		case 5: { Ms o(std::move(m)); sv::check(o.vertices().size() == nv && o.elements().size() == ne && o.edges().size() == nf, "moved out"); break; }
		case 6: { Ms o; o = m; o.clear(); sv::check(m.vertices().empty() && m.elements().empty() && m.edges().empty(), "cleared through a copy"); break; }
		}
	}
	sv::check(sv::live() == before, "all parts are released");
	sv::reach("end");
}
SV_ENTRY(counts) { if (sv::choice(2, "float")) countsT<float>(); else countsT<double>(); }
