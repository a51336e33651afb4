// C36: finite element systems assembled from mesh, shape functions, quadrature, matrices and solvers
// SV: {"entry":"fan","quick":[[3],[4],[5],[6]],"thorough":[[8]],"bound":"order 1; triangles around one inner vertex at any position inside, exact identities"}
// SV: {"entry":"patch1","quick":[[1,1],[2,2],[3,2],[4,4]],"thorough":[[7,6]],"bound":"order 1; box grid of this many cells, polynomials of degree 1 with coefficients up to 1000"}
// SV: {"entry":"patch2","quick":[[1,1],[2,1],[2,2],[3,3]],"thorough":[[5,4]],"bound":"order 2; box grid of this many cells, polynomials of degree 2 with coefficients up to 1000"}
// SV: {"entry":"mixed","quick":[[1],[2]],"bound":"order; irregular triangulation of a square with corners in any orientation, polynomials of that degree"}
// SV: {"entry":"solve1","quick":[[2,2],[3,2],[4,3],[4,4]],"thorough":[[5,5]],"bound":"order 1; box grid, boundary values from any polynomial of degree 1; dense and sparse factorisation, with and without reordering"}
// SV: {"entry":"iterate1","quick":[[2,2],[3,2],[3,3]],"thorough":[[4,4],[5,4]],"bound":"order 1; box grid, all multiples from 1 to 100 of one polynomial, conjugate gradients with and without preconditioner"}
// SV: {"entry":"iterate2","quick":[[1,1],[2,1]],"bound":"order 2; as iterate1"}
// SV: {"entry":"solve2","quick":[[1,1],[2,1],[2,2]],"thorough":[[3,2]],"bound":"order 2; box grid, boundary values and source from any polynomial of degree 2; dense and sparse factorisation, with and without reordering","timeout":800}
#include "common.h"
#include "mesh/HyperCube.h"
#include "sf/PolyShapeFunction.h"
#include "quadrature/Quadrature.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/MatrixOrder.h"
#include "matrix/MatrixConverter.h"
#include "LU.h"
#include "CG.h"
using namespace NS;
typedef MeshVertex<double, 2> MV;
typedef MeshElement<double, 2> ME;
typedef Mesh<double, 2> MM;
typedef FixedVector<double, 2> P2;
// stiffness, mass and load of the whole mesh
template<Dimension O> struct System
{
	typedef PolyShapeFunction<double, 2, O> SF;
	size_t n;
	SparseMatrix<double> a;
	Ref<double> m;
	DynamicVector<double> b;
	explicit System(const MM& mesh) : n(mesh.vertices().size()), a(n, n), m(n, n), b(n)
	{
		SF sf;
		GaussLegendreQuadrature<double, 2, O + 1> q;
		for (ME* e : mesh.elements())
		{
			double d = e->Element.determinant();
			sv::check(d != 0, "elements are not flat");
			if (d < 0) d = -d;
			const FixedMatrix<double, 2, 2> t = e->Element.inverseMatrix().transpose();
			for (size_t i = 0; i < SF::DOF; ++i)
			{
				const size_t gi = e->DOFVertices[i]->GlobalIndex;
				for (size_t j = 0; j < SF::DOF; ++j)
				{
					const size_t gj = e->DOFVertices[j]->GlobalIndex;
					double k = d * q.eval([&](const P2& x) -> double { return t.mul(sf.gradient(i, x)).dot(t.mul(sf.gradient(j, x))); });
					a.set(gi, gj, a.at(gi, gj) + k);
					m(gi, gj) += d * q.eval([&](const P2& x) -> double { return sf.value(i, x) * sf.value(j, x); });
				}
				b.set(gi, b.at(gi) + d * q.eval([&](const P2& x) -> double { return sf.value(i, x); }));
			}
		}
	}
};
static void close(double a, double b, double tol, const char* msg) { sv::leq(a - b, tol, msg); sv::leq(b - a, tol, msg); }
struct Poly
{
	double c[6];
	Poly() { for (double& x : c) x = 0; }
	explicit Poly(size_t degree)
	{
		for (size_t i = 0; i < 6; ++i)
		{
			c[i] = 0;
			if (i >= 3 && degree < 2) continue;
			c[i] = sv::real("c");
			sv::assume(c[i] <= 1000);
			sv::assume(c[i] >= -1000);
		}
	}
	double at(const P2& x) const { return c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * (x[0] * x[0]) + c[4] * (x[0] * x[1]) + c[5] * (x[1] * x[1]); }
	double laplace() const { return 2 * c[3] + 2 * c[5]; }
};
static std::vector<bool> boundary(const MM& m)
{
	// nodes on a face with one element
	std::vector<bool> r(m.vertices().size(), false);
	for (auto f : m.edges())
		if (!f->Elements[0] || !f->Elements[1])
		{
			for (int k = 0; k < 2; ++k) r[f->Vertices[k]->GlobalIndex] = true;
			for (MV* v : f->DOFVertices) r[v->GlobalIndex] = true;
		}
	return r;
}
template<Dimension O> void patch(MM& mesh, double area)
{
	PolyShapeFunction<double, 2, O>::prepareMesh(mesh);
	System<O> s(mesh);
	Poly p(O);
	std::vector<bool> outer = boundary(mesh);
	double total = 0, mass = 0, lin = 0, all = 0;
	for (size_t i = 0; i < s.n; ++i)
	{
		double r = 0, z = 0, w = 0;
		for (size_t j = 0; j < s.n; ++j)
		{
			r += s.a.at(i, j) * p.at(mesh.vertex(j)->Vertex);
			z += s.a.at(i, j);
			w += s.m(i, j);
			lin += s.m(i, j) * p.at(mesh.vertex(j)->Vertex);
			close(s.a.at(i, j), s.a.at(j, i), 1e-10, "stiffness is symmetric");
		}
		close(z, 0, 1e-10, "constants have no stiffness");
		close(w, s.b.at(i), 1e-10, "rows of the mass matrix add up to the load");
		if (!outer[i]) close(r + p.laplace() * s.b.at(i), 0, 1e-6, "polynomials of the degree satisfy the inner equations");
		total += s.b.at(i);
		mass += w;
		all += s.b.at(i) * p.at(mesh.vertex(i)->Vertex);
	}
	close(total, area, 1e-9, "loads add up to the area");
	close(mass, area, 1e-9, "mass adds up to the area");
	close(lin, all, 1e-6, "integral of a polynomial");
	sv::reach("end");
}
static MM box(size_t x, size_t y)
{
	FixedVector<Dimension, 2> n;
	n[0] = x; n[1] = y;
	P2 s, o;
	s[0] = 2; s[1] = 1.5; o[0] = -0.5; o[1] = 1;
	MM m = HyperCube<double, 2>::generate(n, s, o);
	m.prepare();
	return m;
}
SV_ENTRY(patch1) { MM m = box((size_t)sv::param(0), (size_t)sv::param(1)); patch<1>(m, 3); }
SV_ENTRY(patch2) { MM m = box((size_t)sv::param(0), (size_t)sv::param(1)); patch<2>(m, 3); }
static ME* tri(MM& m, size_t a, size_t b, size_t c)
{
	ME* e = new ME;
	e->Vertices[0] = m.vertex(a);
	e->Vertices[1] = m.vertex(b);
	e->Vertices[2] = m.vertex(c);
	for (int i = 0; i < 3; ++i) e->Element[i] = e->Vertices[i]->Vertex;
	for (int i = 0; i < 3; ++i) e->Vertices[i]->Elements.push_back(e);
	m.addElement(e);
	return e;
}
static void put(MM& m, double x, double y) { P2 p; p[0] = x; p[1] = y; m.addVertex(new MV(p)); }
SV_ENTRY(mixed)
{
	MM m;
	put(m, 0, 0); put(m, 4, 0); put(m, 4, 4); put(m, 0, 4); put(m, 1, 2.5); put(m, 2.5, 1);
	static const size_t t[6][3] = {{0, 1, 5}, {1, 2, 5}, {2, 3, 4}, {3, 0, 4}, {0, 5, 4}, {5, 2, 4}};
	size_t turn = sv::choice(6), who = sv::choice(6);
	static const size_t perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	for (size_t i = 0; i < 6; ++i)
	{
		const size_t* q = perm[i == who ? turn : (i * 5) % 6];
		tri(m, t[i][q[0]], t[i][q[1]], t[i][q[2]]);
	}
	m.setupNeighbors();
	m.prepare();
	if (sv::param(0) == 1) patch<1>(m, 16);
	else patch<2>(m, 16);
}
SV_ENTRY(fan)
{
	size_t k = (size_t)sv::param(0);
	static const double x[8] = {8, 6, 0, -5, -8, -5, 0, 6}, y[8] = {0, 5, 8, 6, 0, -6, -8, -5};
	std::vector<size_t> use;
	for (size_t i = 0; i < 8 && use.size() < k; ++i)
		if (k == 8 || i != 1) if (!(k <= 4 && i % 2) && !(k == 3 && i == 4)) use.push_back(i);
	MM m;
	P2 c;
	c[0] = sv::real("px");
	c[1] = sv::real("py");
	double area = 0;
	for (size_t i = 0; i < k; ++i) put(m, x[use[i]], y[use[i]]);
	put(m, c[0], c[1]);
	for (size_t i = 0; i < k; ++i)
	{
		size_t a = use[i], b = use[(i + 1) % k];
		double d = (x[a] - c[0]) * (y[b] - c[1]) - (x[b] - c[0]) * (y[a] - c[1]);
		sv::assume(d > 0);
		area += d;
		tri(m, i, (i + 1) % k, k);
	}
	m.setupNeighbors();
	m.prepare();
	typedef PolyShapeFunction<double, 2, 1> SF;
	SF::prepareMesh(m);
	SF sf;
	GaussLegendreQuadrature<double, 2, 1> q;
	double w = q.eval([](const P2&) -> double { return 1; });
	// equations of the inner vertex
	std::vector<double> row(k + 1, 0.0);
	double load = 0;
	for (ME* e : m.elements())
	{
		const FixedMatrix<double, 2, 2> t = e->Element.inverseMatrix().transpose();
		double d = e->Element.determinant();
		for (size_t j = 0; j < 3; ++j)
		{
			size_t g = e->DOFVertices[j]->GlobalIndex;
			row[g] += d * q.eval([&](const P2& l) -> double { return t.mul(sf.gradient(2, l)).dot(t.mul(sf.gradient(j, l))); });
			P2 a = t.mul(sf.gradient(j, e->Vertices[0]->Vertex)), b = e->Element.gradient(j);
			ceq(a[0], b[0], "gradient in the element");
			ceq(a[1], b[1], "gradient in the element");
		}
		load += d * w;
		sv::check(e->DOFVertices[2]->GlobalIndex == k, "inner vertex is last");
	}
	ceq(load * 2, 2 * w * area, "areas add up");
	double z = 0, lx = 0, ly = 0;
	for (size_t j = 0; j <= k; ++j)
	{
		z += row[j];
		lx += row[j] * m.vertex(j)->Vertex[0];
		ly += row[j] * m.vertex(j)->Vertex[1];
	}
	ceq(z, 0, "constants have no stiffness");
	ceq(lx, 0, "linear functions satisfy the inner equation");
	ceq(ly, 0, "linear functions satisfy the inner equation");
	sv::reach("end");
}
// system with the boundary values moved to the right hand side
template<Dimension O> void constrain(const MM& mesh, const System<O>& s, const Poly& p, SparseMatrix<double>& a, DynamicVector<double>& b)
{
	std::vector<bool> outer = boundary(mesh);
	a = s.a;
	b = DynamicVector<double>(s.n);
	for (size_t i = 0; i < s.n; ++i)
	{
		b[i] = outer[i] ? p.at(mesh.vertex(i)->Vertex) : -(p.laplace() * s.b.at(i));
		for (size_t j = 0; j < s.n; ++j)
		{
			if (outer[j] && !outer[i]) b[i] -= s.a.at(i, j) * p.at(mesh.vertex(j)->Vertex);
			if (outer[i] || outer[j]) a.set(i, j, j == i ? 1 : 0);
		}
	}
}
template<Dimension O> void solve()
{
	MM mesh = box((size_t)sv::param(0), (size_t)sv::param(1));
	PolyShapeFunction<double, 2, O>::prepareMesh(mesh);
	System<O> s(mesh);
	Poly p(O);
	const size_t n = s.n;
	SparseMatrix<double> a;
	DynamicVector<double> b;
	constrain(mesh, s, p, a, b);
	DynamicVector<double> x(n);
	size_t how = sv::choice(4);
	if (how < 3)
	{
		SparseMatrix<double> l(n, n), u(n, n), pm(n, n);
		if (how)
		{
			DynamicVector<Index> order = how == 1 ? cuthill_mckee(a) : r_cuthill_mckee(a);
			SparseMatrix<double> r = permutate(a, order);
			LU::serial::doolittle(r, l, u, pm);
			x = permutate(DynamicVector<double>(LU::serial::solve_lu(l, u, pm.mul(permutate(b, order)))), inverse_permutation(order));
		}
		else
		{
			LU::serial::doolittle(a, l, u, pm);
			x = LU::serial::solve_lu(l, u, pm.mul(b));
		}
	}
	else
	{
		DenseMatrix<double> d = Convert::toDenseMatrix(a), l(n, n), u(n, n), pm(n, n);
		LU::serial::doolittle(d, l, u, pm);
		x = LU::serial::solve_lu(l, u, pm.mul(b));
	}
	for (size_t i = 0; i < n; ++i) close(x[i], p.at(mesh.vertex(i)->Vertex), 1e-6, "solution is the polynomial");
	sv::reach("end");
}
// the iterative solvers, for multiples of one polynomial
template<Dimension O> void iterate()
{
	MM mesh = box((size_t)sv::param(0), (size_t)sv::param(1));
	PolyShapeFunction<double, 2, O>::prepareMesh(mesh);
	System<O> s(mesh);
	Poly p;
	double t = sv::real("t");
	sv::assume(t >= 1);
	sv::assume(t <= 100);
	static const double c[6] = {1, 2, -3, 0.5, -1, 2};
	for (size_t i = 0; i < (O == 1 ? 3u : 6u); ++i) p.c[i] = t * c[i];
	SparseMatrix<double> a, pre(s.n, s.n);
	DynamicVector<double> b, x;
	constrain(mesh, s, p, a, b);
	const DynamicVector<double> x0(s.n);
	size_t it = 0;
	if (sv::choice(2)) x = CG::serial::cg(a, b, x0, 2 * s.n, 1e-7, &it);
	else
	{
		CG::serial::jacobi(a, pre);
		x = CG::serial::pcg(a, b, pre, x0, 2 * s.n, 1e-7, &it);
	}
	sv::check(it <= s.n, "as many steps as unknowns");
	for (size_t i = 0; i < s.n; ++i) close(x[i], p.at(mesh.vertex(i)->Vertex), 1e-5, "solution is the polynomial");
	sv::reach("end");
}
SV_ENTRY(iterate1) { iterate<1>(); }
SV_ENTRY(iterate2) { iterate<2>(); }
SV_ENTRY(solve1) { solve<1>(); }
SV_ENTRY(solve2) { solve<2>(); }
