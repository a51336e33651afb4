// C24: neighbours, boundaries and validation
// SV: {"entry":"topo","quick":[[4,2,1],[5,3,0],[4,3,1],[5,3,1],[6,3,0],[5,4,0]],"thorough":[[6,4,0],[5,4,1],[7,3,0]],"bound":"vertices, elements, any vertex order; all triangle sets (first triangle fixed up to renaming)","timeout":1500}
// SV: {"entry":"order","quick":[[]],"bound":"fixed fan of three triangles and strip, elements added in every order"}
// SV: {"entry":"shapes","quick":[[3],[4],[5],[7],[8],[6]],"thorough":[[9],[10],[11]],"bound":"triangles; fans around a rim or an inner vertex, strips, rings, two fans touching in a vertex or along a face, grids; every start of the element order in both directions with any two elements exchanged, every rotation and orientation of the vertices"}
// SV: {"entry":"valid","quick":[[]],"bound":"two-triangle mesh with any coordinates and any single fault","timeout":400}
// SV: {"entry":"flags","quick":[[]],"bound":"boundary flags on preset flags"}
#include "common.h"
#include "mesh/Mesh.h"
using namespace NS;
typedef MeshVertex<double, 2> MV;
typedef MeshElement<double, 2> ME;
typedef MeshEdge<double, 2> MD;
typedef Mesh<double, 2> MM;
static void add(MM& m, size_t a, size_t b, size_t c)
{
	ME* e = new ME();
	e->Vertices[0] = m.vertex(a);
	e->Vertices[1] = m.vertex(b);
	e->Vertices[2] = m.vertex(c);
	m.addElement(e);
}
static bool hasV(const ME* e, const MV* v) { return e->Vertices[0] == v || e->Vertices[1] == v || e->Vertices[2] == v; }
static void topology(MM& m)
{
	const auto& E = m.elements();
	bool many = false;
	for (ME* e : E)
		for (int i = 0; i < 3; ++i)
		{
			int n = 0;
			for (ME* o : E)
				if (o != e && hasV(o, e->Vertices[(i + 1) % 3]) && hasV(o, e->Vertices[(i + 2) % 3])) ++n;
			if (n > 1) many = true;
		}
	bool thrown = false;
	try { m.setupNeighbors(); }
	catch (const TooManySharedFacesException&) { thrown = true; }
	sv::check(thrown == many, "faces shared by more than two elements are rejected, others are not");
	if (thrown) { sv::reach("many"); return; }
	m.setupBoundaries();
	size_t faces2 = 0;
	std::map<MV*, bool> rim;
	for (ME* e : E)
		for (int i = 0; i < 3; ++i)
		{
			MV *a = e->Vertices[(i + 1) % 3], *b = e->Vertices[(i + 2) % 3];
			ME* other = nullptr;
			for (ME* o : E) if (o != e && hasV(o, a) && hasV(o, b)) other = o;
			MD* d = e->Neighbors[i];
			sv::check(d != nullptr, "every face is set");
			sv::check((d->Vertices[0] == a && d->Vertices[1] == b) || (d->Vertices[0] == b && d->Vertices[1] == a), "face vertices");
			sv::check((d->Elements[0] == e && d->Elements[1] == other) || (d->Elements[1] == e && d->Elements[0] == other), "elements on both sides of a face");
			if (other)
			{
				bool found = false;
				for (int j = 0; j < 3; ++j) if (other->Neighbors[j] == d) { found = true; sv::check(other->Vertices[j] != a && other->Vertices[j] != b, "faces are named by the opposite vertex"); }
				sv::check(found, "neighbours are symmetric");
				faces2 += 1;
			}
			else
			{
				rim[a] = rim[b] = true;
				faces2 += 2;
			}
			size_t cnt = 0;
			for (MD* x : m.edges()) if (x == d) ++cnt;
			sv::check(cnt == 1, "the mesh lists every face once");
		}
	sv::check(2 * m.edges().size() == faces2, "no other faces");
	size_t id = 0;
	for (MV* v : m.vertices())
	{
		sv::check(v->GlobalIndex == id++, "vertex index");
		sv::check(((v->Flags & MVF_StrongBoundary) != 0) == rim[v], "boundary vertices");
		size_t n = 0;
		for (ME* e : E) if (hasV(e, v)) { ++n; size_t c = 0; for (ME* x : v->Elements) if (x == e) ++c; sv::check(c == 1, "vertex knows its elements"); }
		sv::check(n == v->Elements.size(), "vertex knows no other elements");
	}
	sv::reach("end");
}
static void vertices(MM& m, size_t n)
{
	for (size_t i = 0; i < n; ++i) m.addVertex(new MV(FixedVector<double, 2>{sv::real("x"), sv::real("y")}));
}
SV_ENTRY(topo)
{
	size_t nv = sv::param(0), ne = sv::param(1);
	bool anyOrder = sv::param(2);
	MM m;
	vertices(m, nv);
	add(m, 0, 1, 2);
	for (size_t k = 1; k < ne; ++k)
	{
		size_t a = sv::u64("v", 0, nv - 1), b = sv::u64("v", 0, nv - 1), c = sv::u64("v", 0, nv - 1);
		if (anyOrder) sv::assume(a != b && b != c && a != c);
		else sv::assume(a < b && b < c);
		add(m, a, b, c);
	}
	topology(m);
}
SV_ENTRY(order)
{
	static const size_t T[2][4][3] = {{{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}}, {{0, 1, 2}, {2, 1, 3}, {2, 3, 4}, {4, 3, 5}}};
	size_t k = sv::choice(2);
	std::vector<size_t> left = {0, 1, 2, 3};
	MM m;
	vertices(m, 6);
	while (!left.empty())
	{
		size_t i = sv::choice(left.size());
		const size_t* t = T[k][left[i]];
		size_t r = sv::choice(left.size() == 4 ? 3 : 1);
		add(m, t[r], t[(r + 1) % 3], t[(r + 2) % 3]);
		left.erase(left.begin() + i);
	}
	topology(m);
}
SV_ENTRY(shapes)
{
	const size_t n = sv::param(0);
	std::vector<std::array<size_t, 3>> t;
	size_t nv = 0;
	switch (sv::choice(7, "shape"))
	{
	case 0:// open fan around 0
		for (size_t i = 0; i < n; ++i) t.push_back({{0, i + 1, i + 2}});
		nv = n + 2;
		break;
	case 1:// closed fan around 0
		for (size_t i = 0; i < n; ++i) t.push_back({{0, i + 1, (i + 1) % n + 1}});
		nv = n + 1;
		break;
	case 2:// strip
		for (size_t i = 0; i < n; ++i) t.push_back({{i, i + 1, i + 2}});
		nv = n + 2;
		break;
	case 3:// ring without inner vertex
		if (n < 5) sv::stop();
		for (size_t i = 0; i < n; ++i) t.push_back({{i, (i + 1) % n, (i + 2) % n}});
		nv = n;
		break;
	case 4:// two fans touching in 0 only
		for (size_t i = 0; i < n; ++i) t.push_back(i < n / 2 ? std::array<size_t, 3>{{0, i + 1, i + 2}} : std::array<size_t, 3>{{0, i + 2, i + 3}});
		nv = n + 3;
		break;
	case 5:// corner at 2, fans around both of its neighbours
	{
		size_t last[2] = {3, 3};
		t.push_back({{0, 1, 2}});
		t.push_back({{0, 1, 3}});
		nv = 4;
		for (size_t i = 2; i < n; ++i, ++nv)
		{
			t.push_back({{i % 2, last[i % 2], nv}});
			last[i % 2] = nv;
		}
		break;
	}
	case 6:// grid of two rows
		if (n % 4) sv::stop();
		for (size_t i = 0; i < n / 4; ++i)
			for (size_t j = 0; j < 2; ++j)
			{
				const size_t c = 3 * i + j;
				t.push_back({{c, c + 1, c + 3}});
				t.push_back({{c + 1, c + 4, c + 3}});
			}
		nv = 3 * (n / 4 + 1);
		break;
	}
	MM m;
	vertices(m, nv);
	const size_t start = sv::choice(n, "start"), dir = sv::choice(2, "direction"), rot = sv::choice(3, "rotation"), flip = sv::choice(2, "flip");
	std::vector<size_t> o;
	for (size_t i = 0; i < n; ++i) o.push_back(dir ? (start + n - i) % n : (start + i) % n);
	const size_t a = sv::choice(n, "a"), b = sv::choice(n, "b");
	if (a > b) sv::stop();
	std::swap(o[a], o[b]);
	for (size_t i : o)
	{
		const size_t r = rot;
		if (flip) add(m, t[i][(r + 1) % 3], t[i][r], t[i][(r + 2) % 3]);
		else add(m, t[i][r], t[i][(r + 1) % 3], t[i][(r + 2) % 3]);
	}
	topology(m);
}
// two triangles 012, 132 on a quadrilateral with free coordinates
SV_ENTRY(valid)
{
	MM m;
	vertices(m, 4);
	add(m, 0, 1, 2);
	add(m, 1, 3, 2);
	double x[4], y[4];
	for (size_t i = 0; i < 4; ++i) { x[i] = m.vertex(i)->Vertex[0]; y[i] = m.vertex(i)->Vertex[1]; }
	// pivots of the determinant above its absolute tolerance
	static const double e = 1e-12;
	sv::assume(x[1] - x[0] > e || x[1] - x[0] < -e || y[1] - y[0] > e || y[1] - y[0] < -e);
	sv::assume(x[3] - x[1] > e || x[3] - x[1] < -e || y[3] - y[1] > e || y[3] - y[1] < -e);
	double d0 = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]);
	double d1 = (x[3] - x[1]) * (y[2] - y[1]) - (x[2] - x[1]) * (y[3] - y[1]);
	bool flat = (d0 >= -e && d0 <= e) || (d1 >= -e && d1 <= e);
	if (flat) sv::assume(d0 == 0 || d1 == 0);
	m.setupNeighbors();
	m.prepare();
	int fault = sv::choice(10, "fault");
	enum { NONE, INDEX, ISOLATED, MALFORMED, INCOMPLETE, ZERO, NEIGHBOR } want = flat ? ZERO : NONE;
	if (fault && flat) sv::stop();
	switch (fault)
	{
	case 1: { size_t i = sv::u64("i", 0, 3), j = sv::u64("j", 0, 5); sv::assume(i != j); m.vertex(i)->GlobalIndex = j; want = INDEX; break; }
	case 2: m.addVertex(new MV(FixedVector<double, 2>{sv::real("x"), sv::real("y")})); want = ISOLATED; break;
	case 3: m.vertex(0)->Elements.push_back(m.element(1)); want = MALFORMED; break;
	case 4: m.vertex(3)->Elements[0] = m.element(0); want = MALFORMED; break;
	case 5:
	{
		// vertex moved after the element was added
		size_t i = sv::u64("i", 0, 3), c = sv::u64("c", 0, 1);
		double dlt = sv::real("d");
		sv::assume(dlt > 1e-6 || dlt < -1e-6);
		m.vertex(i)->Vertex[c] += dlt;
		want = INCOMPLETE;
		break;
	}
	case 6:
	{
		// vertex of an element dropped on both sides
		m.element(0)->Vertices[1] = nullptr;
		m.vertex(1)->Elements.erase(m.vertex(1)->Elements.begin());
		want = INCOMPLETE;
		break;
	}
	case 7: m.element(sv::u64("i", 0, 1))->Neighbors[sv::u64("j", 0, 2)] = nullptr; want = NEIGHBOR; break;
	case 8: m.vertex(2)->Elements.clear(); want = ISOLATED; break;
	case 9:
	{
		// element with an additional implicit node
		MV* v = new MV(FixedVector<double, 2>{sv::real("x"), sv::real("y")});
		m.addVertex(v);
		v->Elements.push_back(m.element(0));
		if (sv::choice(2)) for (int i = 0; i < 3; ++i) m.element(0)->DOFVertices.push_back(m.element(0)->Vertices[i]);
		if (sv::choice(2)) m.element(0)->DOFVertices.push_back(v);
		else want = MALFORMED;
		if (m.element(0)->DOFVertices.size() == 1) want = MALFORMED;
		break;
	}
	}
	int got = NONE;
	try { m.validate(); }
	catch (const InvalidVertexIndexException&) { got = INDEX; }
	catch (const IsolatedVertexException&) { got = ISOLATED; }
	catch (const MalformedVertexElementConnectionException&) { got = MALFORMED; }
	catch (const IncompleteElementException&) { got = INCOMPLETE; }
	catch (const ZeroVolumeSimplexException&) { got = ZERO; }
	catch (const MalformedElementNeighborConnectionException&) { got = NEIGHBOR; }
	sv::check(got == want, "validation names the violated condition");
	sv::reach(want == NONE ? "end" : "rejected");
}
SV_ENTRY(flags)
{
	// interior vertex 0 in a closed fan; flags that were set before are kept
	MM m;
	vertices(m, 5);
	add(m, 0, 1, 2); add(m, 0, 2, 3); add(m, 0, 3, 4); add(m, 0, 4, 1);
	size_t f = sv::choice(4);
	for (size_t i = 0; i < 5; ++i) m.vertex(i)->Flags = f << 1;
	m.setupNeighbors();
	m.setupBoundaries();
	for (size_t i = 0; i < 5; ++i) sv::check(m.vertex(i)->Flags == ((f << 1) | (i ? MVF_StrongBoundary : 0)), "boundary flag");
	sv::reach("end");
}
