// C28: numbering of degrees of freedom
// SV: {"entry":"tri1","quick":[[4,2,1],[5,3,0],[4,3,1],[5,3,1],[6,3,0],[5,4,0]],"thorough":[[6,4,0],[5,4,1],[7,3,0]],"bound":"order 1; vertices, triangles, any corner order; all triangle sets","timeout":1500}
// SV: {"entry":"tri2","quick":[[4,2,1],[5,3,0],[4,3,1],[5,3,1],[6,3,0],[5,4,0]],"thorough":[[6,4,0],[5,4,1],[7,3,0]],"bound":"order 2; vertices, triangles, any corner order; all triangle sets","timeout":1500}
// SV: {"entry":"box","quick":[[3,4]],"thorough":[[5,6]],"bound":"order 1 and 2 on box grids of any extent"}
#include "common.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
using namespace NS;
// local coordinates of the nodes in halves
static const int L1[3][1] = {{0}, {2}, {1}};
static const int L2[6][2] = {{0, 0}, {2, 0}, {0, 2}, {1, 0}, {1, 1}, {0, 1}};
static const int L3[4][3] = {{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {0, 0, 2}};
template<Dimension K> int local(size_t node, size_t c);
template<> int local<1>(size_t node, size_t c) { return L1[node][c]; }
template<> int local<2>(size_t node, size_t c) { return L2[node][c]; }
template<> int local<3>(size_t node, size_t c) { return L3[node][c]; }
template<Dimension K, Dimension O> static void prepared(Mesh<double, K>& m)
{
	typedef MeshVertex<double, K> MV;
	typedef MeshElement<double, K> ME;
	const size_t n = PolyShapePolicy<double, K, O>::DOF;
	std::vector<MV*> old = m.vertices();
	std::vector<uint32> flags;
	std::vector<std::vector<ME*>> elems;
	for (MV* v : old) { flags.push_back(v->Flags); elems.push_back(v->Elements); }
	const size_t faces = m.edges().size();
	PolyShapePolicy<double, K, O>::prepareMesh(m);
	size_t added = O == 1 ? 0 : (K == 1 ? m.elements().size() : faces);
	sv::check(m.vertices().size() == old.size() + added, "number of nodes");
	sv::check(m.edges().size() == faces, "faces are kept");
	for (size_t i = 0; i < m.vertices().size(); ++i)
	{
		sv::check(m.vertex(i)->GlobalIndex == i, "numbers without gaps");
		for (size_t j = 0; j < i; ++j) sv::check(m.vertex(i) != m.vertex(j), "every node once");
	}
	for (size_t i = 0; i < old.size(); ++i)
	{
		sv::check(m.vertex(i) == old[i] && old[i]->Flags == flags[i] && old[i]->Elements == elems[i], "existing vertices are kept");
	}
	std::vector<size_t> used(m.vertices().size(), 0);
	for (ME* e : m.elements())
	{
		sv::check(e->DOFVertices.size() == n, "as many nodes as components");
		for (size_t k = 0; k < n; ++k)
		{
			MV* v = e->DOFVertices[k];
			sv::check(v->GlobalIndex < m.vertices().size() && m.vertex(v->GlobalIndex) == v, "node belongs to the mesh");
			used[v->GlobalIndex]++;
			size_t cnt = 0;
			for (ME* x : v->Elements) if (x == e) ++cnt;
			sv::check(cnt == 1, "node knows its element");
			if (k <= K) { sv::check(v == e->Vertices[k], "corner nodes come first"); continue; }
			sv::check(v->GlobalIndex >= old.size(), "implicit nodes are new");
			for (size_t c = 0; c < K; ++c)
			{
				double s = 2 * e->Vertices[0]->Vertex[c];
				for (size_t q = 0; q < K; ++q) s += local<K>(k, q) * (e->Vertices[q + 1]->Vertex[c] - e->Vertices[0]->Vertex[c]);
				sv::eq(2 * v->Vertex[c], s, "node position belongs to its shape function");
			}
			sv::check(v->Flags & MVF_Implicit, "implicit node is marked");
			bool boundary = false;
			if (K == 2)
			{
				// face opposite to: nodes 3,4,5 lie on the faces opposite to corner 2,0,1
				static const int opp[3] = {2, 0, 1};
				auto* d = e->Neighbors[opp[k - 3]];
				boundary = !d->Elements[1];
				sv::check(d->DOFVertices.size() == 3 && d->DOFVertices[2] == v, "face holds its node");
				for (int q = 0; q < 2; ++q)
					if (d->Elements[q]) { size_t z = 0; for (MV* w : d->Elements[q]->DOFVertices) if (w == v) ++z; sv::check(z == 1, "shared node has one number"); }
				sv::check(v->Elements.size() == (boundary ? 1 : 2), "node knows no other elements");
			}
			else sv::check(v->Elements.size() == 1, "node knows no other elements");
			sv::check(v->Flags == (uint32)(MVF_Implicit | (boundary ? MVF_StrongBoundary : 0)), "boundary mark of the node");
		}
	}
	for (size_t i = old.size(); i < used.size(); ++i) sv::check(used[i] == m.vertex(i)->Elements.size(), "no unused node");
	for (auto* d : m.edges())
	{
		sv::check(d->DOFVertices.size() == K + (O == 2 && K == 2), "nodes of a face");
		for (size_t q = 0; q < K; ++q) sv::check(d->DOFVertices[q] == d->Vertices[q], "face corners");
	}
}
template<Dimension K> static void vertices(Mesh<double, K>& m, size_t n)
{
	for (size_t i = 0; i < n; ++i)
	{
		FixedVector<double, K> p;
		for (size_t c = 0; c < K; ++c) p[c] = sv::real("x");
		m.addVertex(new MeshVertex<double, K>(p));
	}
}
template<Dimension K> static void add(Mesh<double, K>& m, const size_t* v)
{
	auto* e = new MeshElement<double, K>();
	for (size_t i = 0; i <= K; ++i) e->Vertices[i] = m.vertex(v[i]);
	m.addElement(e);
}
template<Dimension O> static void triangles()
{
	size_t nv = sv::param(0), ne = sv::param(1);
	bool anyOrder = sv::param(2);
	Mesh<double, 2> m;
	vertices(m, nv);
	for (size_t k = 0; k < ne; ++k)
	{
		size_t v[3] = {0, 1, 2};
		if (k) for (int i = 0; i < 3; ++i) v[i] = sv::u64("v", 0, nv - 1);
		if (anyOrder) sv::assume(v[0] != v[1] && v[1] != v[2] && v[0] != v[2]);
		else sv::assume(v[0] < v[1] && v[1] < v[2]);
		add(m, v);
	}
	try { m.setupNeighbors(); }
	catch (const TooManySharedFacesException&) { sv::stop(); }
	switch (sv::choice(ne < 4 ? 3 : 2))
	{
	case 0: break;
	case 1: m.setupBoundaries(); break;
	default: for (auto d : m.edges()) if (d->Elements[1]) std::swap(d->Elements[0], d->Elements[1]);// sides of a face have no order
	}
	prepared<2, O>(m);
	sv::reach("end");
}
SV_ENTRY(tri1) { triangles<1>(); }
SV_ENTRY(tri2) { triangles<2>(); }
SV_ENTRY(box)
{
	Dimension nx = (Dimension)(1 + sv::choice(sv::param(0))), ny = (Dimension)(1 + sv::choice(sv::param(1)));
	double sx = sv::real("sx"), sy = sv::real("sy");
	sv::assume(sx > 0.001 && sy > 0.001 && sx < 1000 && sy < 1000);
	FixedVector<double, 2> sz, of;
	sz[0] = sx; sz[1] = sy; of[0] = sv::real("ox"); of[1] = sv::real("oy");
	Mesh<double, 2> m = HyperCube<double, 2>::generate({nx, ny}, sz, of);
	size_t base = (nx + 1) * (ny + 1);
	if (sv::choice(2)) { prepared<2, 1>(m); sv::check(m.vertices().size() == base, "nodes of the grid"); }
	else
	{
		prepared<2, 2>(m);
		sv::check(m.vertices().size() == (2 * nx + 1) * (2 * ny + 1), "nodes of the grid");
		size_t rim = 0;
		for (auto v : m.vertices()) if (v->Flags & MVF_StrongBoundary) ++rim;
		sv::check(rim == 4u * (nx + ny), "boundary nodes of the grid");
	}
	m.prepare();
	m.validate();
	sv::reach("end");
}
