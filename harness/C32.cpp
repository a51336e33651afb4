// C32: exported VTK files
// SV: {"entry":"options","quick":[[0],[1],[2]],"bound":"two triangles with any coordinates, not prepared / first order / second order; all point options and 0 to 2 arrays of either kind"}
// SV: {"entry":"element","quick":[[0],[1]],"bound":"two triangles, one with any coordinates; all element options","timeout":800}
// SV: {"entry":"meshes","quick":[[4,2],[5,3],[6,4]],"thorough":[[7,4],[6,5]],"bound":"vertices, triangles; all triangle sets with any coordinates, data arrays with any values","timeout":1500}
// SV: {"entry":"empty","quick":[[]],"bound":"meshes without elements or vertices"}
#ifdef SV_SYMBOLIC
#include "shim_stream.h"
#else
#include <fstream>
#include <unistd.h>
#endif
#include "common.h"
#include "sf/PolyShapeFunction.h"
#include "export/VTKExporter.h"
using namespace NS;
typedef MeshVertex<double, 2> MV;
typedef MeshElement<double, 2> ME;
typedef Mesh<double, 2> MM;
typedef DynamicVector<double> DV;
typedef std::map<std::string, DV*> Data;
static void number(const std::string& t, double want, const char* msg)
{
#ifdef SV_SYMBOLIC
	if (!t.empty() && t[0] == '\x01')
	{
		size_t i = 0;
		for (size_t k = 1; k < t.size(); ++k) i = 10 * i + (size_t)(t[k] - '0');
		sv::check(i < std::sv_numbers().size(), msg);
		sv::eq(std::sv_numbers()[i], want, msg);
		return;
	}
	sv::eq(std::strtod(t.c_str(), nullptr), want, msg);
#else
	char* e;
	double v = std::strtod(t.c_str(), &e);
	sv::check(!t.empty() && !*e, msg);
	// printed with six significant digits
	sv::check(std::fabs(v - want) <= 1e-5 * std::fabs(want), msg);
#endif
}
static size_t integer(const std::string& t, const char* msg)
{
	size_t v = 0;
	sv::check(!t.empty() && t.size() < 10, msg);
	for (char c : t) { sv::check(c >= '0' && c <= '9', msg); v = 10 * v + (size_t)(c - '0'); }
	return v;
}
// a reader for the part of XML that matters: tags with attributes, nesting, text
struct Node
{
	std::string name;
	std::map<std::string, std::string> attr;
	std::vector<Node> kids;
	std::vector<std::string> words;
	const Node& kid(const char* n) const
	{
		const Node* r = nullptr;
		for (const Node& k : kids) if (k.name == n) { sv::check(!r, "a part is written once"); r = &k; }
		sv::check(r != nullptr, "every part is written");
		return *r;
	}
	const Node* array(const std::string& n) const
	{
		const Node* r = nullptr;
		for (const Node& k : kids)
			if (k.name == "DataArray" && k.attr.count("Name") && k.attr.at("Name") == n) { sv::check(!r, "an array is written once"); r = &k; }
		return r;
	}
	std::string at(const char* n) const { auto i = attr.find(n); return i == attr.end() ? std::string() : i->second; }
};
struct Reader
{
	const std::string& s;
	size_t p;
	explicit Reader(const std::string& t) : s(t), p(0) {}
	static bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
	bool end() const { return p >= s.size(); }
	void skip() { while (!end() && space(s[p])) ++p; }
	char get() { sv::check(!end(), "file is complete"); return s[p++]; }
	std::string word() { std::string r; while (!end() && !space(s[p]) && s[p] != '<' && s[p] != '>' && s[p] != '=' && s[p] != '/') r += s[p++]; return r; }
	// after '<'
	void element(Node& n)
	{
		n.name = word();
		for (;;)
		{
			skip();
			char c = get();
			if (c == '>') break;
			if (c == '/') { sv::check(get() == '>', "well-formed tags"); return; }
			--p;
			std::string a = word();
			sv::check(!a.empty() && get() == '=' && get() == '"', "well-formed attributes");
			std::string v;
			for (;;) { char d = get(); if (d == '"') break; v += d; }
			sv::check(!n.attr.count(a), "attributes are unique");
			n.attr[a] = v;
		}
		for (;;)
		{
			skip();
			char c = get();
			if (c == '<')
			{
				if (s[p] == '/')
				{
					++p;
					sv::check(word() == n.name, "tags are closed in order");
					skip();
					sv::check(get() == '>', "well-formed tags");
					return;
				}
				n.kids.push_back(Node());
				element(n.kids.back());
			}
			else
			{
				--p;
				std::string w = word();
				sv::check(!w.empty(), "plain text");
				n.words.push_back(w);
			}
		}
	}
};
static void document(const std::string& t, Node& root)
{
	Reader r(t);
	r.skip();
	if (t.compare(r.p, 5, "<?xml") == 0) { while (r.get() != '>') {} r.skip(); }
	sv::check(r.get() == '<', "starts with a tag");
	r.element(root);
	r.skip();
	sv::check(r.end(), "nothing after the last tag");
}
static std::string written(const MM& m, const Data& pd, const Data& cd, int opt)
{
#ifdef SV_SYMBOLIC
	std::string f = "mesh.vtu";
	VTKExporter<double, 2>::write(f, m, pd, cd, opt);
	sv::check(std::sv_files().size() == 1 && std::sv_files()[0].name == f, "the named file is written");
	sv::check(std::sv_min_precision() >= 6, "enough digits");
	return std::sv_files()[0].text;
#else
	char dir[] = "/tmp/sv-vtk-XXXXXX";
	if (!mkdtemp(dir)) sv::stop();
	std::string f = std::string(dir) + "/mesh.vtu", t;
	VTKExporter<double, 2>::write(f, m, pd, cd, opt);
	{
		std::ifstream in(f.c_str());
		for (int c; (c = in.get()) >= 0;) t += (char)c;
	}
	unlink(f.c_str());
	rmdir(dir);
	return t;
#endif
}
static void values(const Node* n, const DV& v, const char* msg)
{
	sv::check(n && n->words.size() == v.size(), msg);
	sv::check(n->at("format") == "ascii" && n->at("type").substr(0, 5) == "Float", msg);
	sv::check(n->at("NumberOfComponents") == "" || n->at("NumberOfComponents") == "1", msg);
	for (size_t i = 0; i < v.size(); ++i) number(n->words[i], v.at(i), msg);
}
static void matches(const MM& m, const Data& pd, const Data& cd, int opt)
{
	const size_t nv = m.vertices().size(), ne = m.elements().size();
	std::vector<MV*> V = m.vertices();
	std::vector<ME*> E = m.elements();
	std::vector<FixedVector<double, 2>> C;
	for (MV* v : V) C.push_back(v->Vertex);
	Node root;
	document(written(m, pd, cd, opt), root);
	sv::check(m.vertices() == V && m.elements() == E, "the mesh is unchanged");
	for (size_t i = 0; i < nv; ++i)
	{
		sv::check(V[i]->GlobalIndex == i, "the mesh is unchanged");
		for (size_t k = 0; k < 2; ++k) sv::eq(V[i]->Vertex[k], C[i][k], "the mesh is unchanged");
	}
	sv::check(root.name == "VTKFile" && root.at("type") == "UnstructuredGrid" && root.at("byte_order") == "LittleEndian", "file type");
	const Node& piece = root.kid("UnstructuredGrid").kid("Piece");
	sv::check(integer(piece.at("NumberOfPoints"), "point count") == nv, "point count");
	sv::check(integer(piece.at("NumberOfCells"), "cell count") == ne, "cell count");
	const Node& pts = piece.kid("Points").kid("DataArray");
	sv::check(pts.at("NumberOfComponents") == "3" && pts.at("format") == "ascii" && pts.at("type").substr(0, 5) == "Float", "point array");
	sv::check(pts.words.size() == 3 * nv, "every vertex once");
	for (size_t i = 0; i < nv; ++i)
	{
		number(pts.words[3 * i], C[i][0], "first coordinate");
		number(pts.words[3 * i + 1], C[i][1], "second coordinate");
		number(pts.words[3 * i + 2], 0, "third coordinate");
	}
	const Node& cells = piece.kid("Cells");
	const Node *con = cells.array("connectivity"), *off = cells.array("offsets"), *typ = cells.array("types");
	sv::check(con && off && typ && cells.kids.size() == 3, "cell arrays");
	for (const Node& k : cells.kids) sv::check(k.at("format") == "ascii" && (k.at("type").substr(0, 3) == "Int" || k.at("type").substr(0, 4) == "UInt"), "cell arrays");
	const bool quad = opt & VOO_IsQuadratic;
	const size_t n = quad ? 6 : 3;
	sv::check(con->words.size() == n * ne, "one index per node of every element");
	sv::check(off->words.size() == ne && typ->words.size() == ne, "one offset and type per element");
	for (size_t e = 0; e < ne; ++e)
	{
		sv::check(integer(off->words[e], "offset") == n * (e + 1), "offset");
		sv::check(integer(typ->words[e], "type") == (quad ? 22 : 5), "type");
		size_t id[6];
		for (size_t k = 0; k < n; ++k)
		{
			id[k] = integer(con->words[n * e + k], "connectivity");
			sv::check(id[k] < nv, "connectivity");
			if (k < 3) sv::check(V[id[k]] == E[e]->Vertices[k], "corners of the element");
		}
		for (size_t k = 3; k < n; ++k)
			for (size_t c = 0; c < 2; ++c)
				sv::eq(2 * C[id[k]][c], C[id[k - 3]][c] + C[id[(k - 2) % 3]][c], "nodes between the corners in the order of the format");
	}
	const Node &P = piece.kid("PointData"), &Q = piece.kid("CellData");
	size_t np = pd.size(), nc = cd.size();
	for (auto& d : pd) values(P.array(d.first), *d.second, "point data");
	for (auto& d : cd) values(Q.array(d.first), *d.second, "cell data");
	sv::check(!P.attr.count("Scalars") || P.array(P.at("Scalars")), "the active array exists");
	if (opt & VOO_VertexBoundaryLabel)
	{
		++np;
		const Node* a = P.array("BoundaryLabel");
		sv::check(a && a->words.size() == nv && a->at("format") == "ascii", "boundary labels");
		for (size_t i = 0; i < nv; ++i) sv::check(integer(a->words[i], "boundary label") == ((V[i]->Flags & MVF_StrongBoundary) ? 1 : 0), "boundary label");
	}
	if (opt & VOO_VertexImplicitLabel)
	{
		++np;
		const Node* a = P.array("ImplicitLabel");
		sv::check(a && a->words.size() == nv && a->at("format") == "ascii", "implicit labels");
		for (size_t i = 0; i < nv; ++i) sv::check(integer(a->words[i], "implicit label") == ((V[i]->Flags & MVF_Implicit) ? 1 : 0), "implicit label");
	}
	if (opt & VOO_ElementDeterminant)
	{
		++nc;
		const Node* a = Q.array("ElementDeterminant");
		sv::check(a && a->words.size() == ne && a->at("format") == "ascii", "determinants");
		for (size_t e = 0; e < ne; ++e) number(a->words[e], E[e]->Element.determinant(), "determinant");
	}
	if (opt & VOO_ElementMatrix)
	{
		++nc;
		const Node* a = Q.array("ElementMatrix");
		sv::check(a && a->words.size() == 4 * ne && a->at("NumberOfComponents") == "4" && a->at("format") == "ascii", "matrices");
		for (size_t e = 0; e < ne; ++e)
			for (size_t i = 0; i < 2; ++i)
				for (size_t j = 0; j < 2; ++j) number(a->words[4 * e + 2 * i + j], E[e]->Element.matrix().at(i, j), "matrix");
	}
	if (opt & VOO_ElementGradient)
	{
		++nc;
		const Node* a = Q.array("ElementGradient");
		sv::check(a && a->words.size() == 2 * ne && a->at("NumberOfComponents") == "2" && a->at("format") == "ascii", "gradients");
		for (size_t e = 0; e < ne; ++e)
		{
			FixedVector<double, 2> g = E[e]->Element.gradient(0);
			for (size_t i = 0; i < 2; ++i) number(a->words[2 * e + i], g[i], "gradient");
		}
	}
	sv::check(P.kids.size() == np && Q.kids.size() == nc, "no other arrays");
	sv::reach("end");
}
static void vertices(MM& m, size_t n)
{
	for (size_t i = 0; i < n; ++i)
	{
		double x = sym<double>("x"), y = sym<double>("y");
		m.addVertex(new MV(FixedVector<double, 2>{x, y}));
	}
}
static void triangle(MM& m, size_t a, size_t b, size_t c)
{
	ME* e = new ME();
	e->Vertices[0] = m.vertex(a);
	e->Vertices[1] = m.vertex(b);
	e->Vertices[2] = m.vertex(c);
	m.addElement(e);
}
static void geometry(MM& m)
{
	for (ME* e : m.elements())
	{
		auto &a = e->Vertices[0]->Vertex, &b = e->Vertices[1]->Vertex, &c = e->Vertices[2]->Vertex;
		sv::assume((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]) != 0);
	}
}
struct Arrays
{
	std::vector<DV> store;
	Data d;
	Arrays(size_t count, size_t n, const char* first)
	{
		store.reserve(count);
		for (size_t k = 0; k < count; ++k)
		{
			store.push_back(DV(n));
			for (size_t i = 0; i < n; ++i) store[k].set(i, sym<double>("d"));
			d[std::string(first) + (char)('0' + k)] = &store[k];
		}
	}
};
SV_ENTRY(options)
{
	MM m;
	vertices(m, 4);
	triangle(m, 0, 1, 2);
	triangle(m, 3, 2, 1);
	geometry(m);
	m.setupNeighbors();
	m.setupBoundaries();
	if (sv::param(0) == 1) PolyShapePolicy<double, 2, 1>::prepareMesh(m);
	if (sv::param(0) == 2) PolyShapePolicy<double, 2, 2>::prepareMesh(m);
	int opt = (sv::param(0) == 2 ? VOO_IsQuadratic : 0) | VOO_VertexBoundaryLabel * (int)sv::choice(4);
	m.vertex(sv::choice(4))->Flags = (uint32)sv::choice(4);
	Arrays a(sv::choice(3), m.vertices().size(), "u"), b(sv::choice(3), m.elements().size(), "c");
	matches(m, a.d, b.d, opt);
}
SV_ENTRY(element)
{
	MM m;
	vertices(m, 3);
	triangle(m, 2, 0, 1);
	m.addVertex(new MV(FixedVector<double, 2>{7, 5}));
	m.addVertex(new MV(FixedVector<double, 2>{8, 5}));
	m.addVertex(new MV(FixedVector<double, 2>{6, 9}));
	triangle(m, 3, 4, 5);
	geometry(m);
	m.setupNeighbors();
	if (sv::param(0) == 1) PolyShapePolicy<double, 2, 1>::prepareMesh(m);
	m.prepare();
	Data none;
	Arrays b(sv::choice(2), 2, "c");
	matches(m, none, b.d, (int)(1 + sv::choice(7)));
}
SV_ENTRY(meshes)
{
	size_t nv = (size_t)sv::param(0), ne = (size_t)sv::param(1);
	MM m;
	vertices(m, nv);
	triangle(m, 0, 1, 2);
	size_t last = 0;
	for (size_t e = 1; e < ne; ++e)
	{
		// triangles in any order of their corners; distinct sets in increasing order
		std::vector<size_t> all;
		for (size_t i = 0; i < nv; ++i) for (size_t j = i + 1; j < nv; ++j) for (size_t k = j + 1; k < nv; ++k) all.push_back((i * 8 + j) * 8 + k);
		if (last + 1 >= all.size()) sv::stop();
		last = last + 1 + sv::choice(all.size() - last - 1);
		size_t c[3] = {all[last] / 64, all[last] / 8 % 8, all[last] % 8};
		if (e % 2) std::swap(c[0], c[2]);
		triangle(m, c[0], c[1], c[2]);
	}
	geometry(m);
	try { m.setupNeighbors(); }
	catch (const TooManySharedFacesException&) { sv::stop(); }
	m.setupBoundaries();
	int o = (int)sv::choice(3);
	if (o == 1) PolyShapePolicy<double, 2, 1>::prepareMesh(m);
	if (o == 2) PolyShapePolicy<double, 2, 2>::prepareMesh(m);
	Arrays a(1, m.vertices().size(), "u"), b(1, m.elements().size(), "c");
	matches(m, a.d, b.d, VOO_VertexBoundaryLabel | VOO_VertexImplicitLabel | (o == 2 ? VOO_IsQuadratic : 0));
}
SV_ENTRY(empty)
{
	MM m;
	vertices(m, sv::choice(3));
	int opt = (int)sv::choice(32);
	Data none;
	matches(m, none, none, opt);
}
