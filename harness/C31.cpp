// C31: meshes from object descriptions
// SV: {"entry":"shapes","quick":[[0,0],[0,1],[1,0],[2,1],[4,1],[3,2],[4,2]],"thorough":[[5,2],[6,2]],"bound":"vertices and triangles of the first description; all coordinates and indices","timeout":1500}
// SV: {"entry":"odd","quick":[[]],"bound":"position and index lists of any length up to 8"}
// SV: {"entry":"several","quick":[[]],"bound":"up to three descriptions, reported failure, both sources"}
#ifdef SV_SYMBOLIC
#include "shim_stream.h"
#endif
#include "common.h"
#include <sstream>
// stand-in for the third party parser: hands out the description chosen below
#define TINY_OBJ_LOADER_H_
namespace tinyobj
{
struct material_t { std::string name; };
struct tag_t { std::string name; };
struct mesh_t
{
	std::vector<float> positions, normals, texcoords;
	std::vector<unsigned int> indices;
	std::vector<unsigned char> num_vertices;
	std::vector<int> material_ids;
	std::vector<tag_t> tags;
};
struct shape_t { std::string name; mesh_t mesh; };
class MaterialReader { public: virtual ~MaterialReader() {} };
class MaterialFileReader : public MaterialReader { public: MaterialFileReader(const std::string&) {} };
static std::vector<shape_t>* given;
static bool usable;
static int calls;
static std::string source;
static bool LoadObj(std::vector<shape_t>& shapes, std::vector<material_t>&, std::string& err, const char* name, const char* = nullptr, unsigned int = 1)
{
	source = name;
	++calls;
	shapes = *given;
	if (!usable) err = "unusable";
	return usable;
}
static bool LoadObj(std::vector<shape_t>& shapes, std::vector<material_t>&, std::string& err, std::istream& in, MaterialReader&, unsigned int = 1)
{
	std::getline(in, source);
	++calls;
	shapes = *given;
	if (!usable) err = "unusable";
	return usable;
}
}
#include "loader/MeshObjLoader.h"
using namespace NS;
typedef std::vector<tinyobj::shape_t> Shapes;
static tinyobj::shape_t shape(size_t floats, size_t ints)
{
	tinyobj::shape_t s;
	for (size_t i = 0; i < floats; ++i) s.mesh.positions.push_back(sym<float>("p"));
	// every known vertex, or anything else
	for (size_t i = 0; i < ints; ++i)
	{
		size_t c = sv::choice(floats / 3 + 1);
		s.mesh.indices.push_back(c < floats / 3 ? (unsigned)c : (unsigned)sv::u64("i", floats / 3, 0xffffffffu));
	}
	return s;
}
template<Index yI, Index xI> static void run(Shapes& s, bool ok, bool file)
{
	tinyobj::given = &s;
	tinyobj::usable = ok;
	tinyobj::calls = 0;
	size_t nv = 0, ne = 0;
	bool bad = !ok;
	// three triangles on one side
	bool many = false, degenerate = false;
	if (!s.empty())
	{
		tinyobj::mesh_t& m = s[0].mesh;
		nv = m.positions.size() / 3;
		ne = m.indices.size() / 3;
		for (size_t i = 0; i < 3 * ne; ++i) if (m.indices[i] >= nv) bad = true;
		if (!bad)
			for (size_t a = 0; a < ne; ++a)
				for (int k = 0; k < 3; ++k)
				{
					unsigned p = m.indices[3 * a + (k + 1) % 3], q = m.indices[3 * a + (k + 2) % 3];
					int n = 0;
					for (size_t b = 0; b < ne; ++b)
					{
						bool hp = false, hq = false;
						for (int j = 0; j < 3; ++j) { if (m.indices[3 * b + j] == p) hp = true; if (m.indices[3 * b + j] == q) hq = true; }
						if (b != a && hp && hq) ++n;
					}
					if (n > 1) many = true;
					if (p == q) degenerate = true;
				}
	}
	long before = sv::live();
	bool thrown = false, shared = false;
	{
		Mesh<double, 2> m;
		std::string text = "some object";
		try { m = file ? MeshObjLoader<double, yI, xI>::loadFile(text) : MeshObjLoader<double, yI, xI>::loadString(text); }
		catch (const LoadObjErrorException&) { thrown = true; }
		catch (const TooManySharedFacesException&) { shared = true; }
		catch (...) { sv::fail("only the documented exceptions"); }
		sv::check(tinyobj::calls == 1 && tinyobj::source == text, "the given object is parsed once");
		tinyobj::source = std::string();
		sv::check(thrown == bad, "unusable descriptions and unknown vertices are rejected, others are not");
		if (!bad && !degenerate) sv::check(shared == many, "faces with more than two triangles are rejected");
		if (!thrown && !shared)
		{
			sv::check(m.vertices().size() == nv, "number of vertices");
			sv::check(m.elements().size() == ne, "number of triangles");
			for (size_t i = 0; i < nv; ++i)
			{
				MeshVertex<double, 2>* v = m.vertex(i);
				sv::check(v->GlobalIndex == i, "vertex index");
				sv::eq(v->Vertex[0], s[0].mesh.positions[3 * i + xI], "first coordinate");
				sv::eq(v->Vertex[1], s[0].mesh.positions[3 * i + yI], "second coordinate");
			}
			for (size_t i = 0; i < ne; ++i)
				for (int k = 0; k < 3; ++k)
				{
					MeshElement<double, 2>* e = m.element(i);
					unsigned v = s[0].mesh.indices[3 * i + k];
					sv::check(e->Vertices[k]->GlobalIndex == v, "corner of the triangle");
					sv::eq(e->Element[k][0], s[0].mesh.positions[3 * v + xI], "geometry of the triangle");
					sv::eq(e->Element[k][1], s[0].mesh.positions[3 * v + yI], "geometry of the triangle");
					sv::check(e->Neighbors[k] != nullptr, "faces are set");
				}
			sv::reach("loaded");
		}
		else sv::reach("rejected");
	}
	sv::check(sv::live() == before, "nothing is left behind");
	sv::reach("end");
}
SV_ENTRY(shapes)
{
	Shapes s;
	s.push_back(shape(3 * sv::param(0), 3 * sv::param(1)));
	switch (sv::choice(3))
	{
	case 0: run<1, 0>(s, true, false); break;
	case 1: run<2, 0>(s, true, false); break;
	default: run<0, 2>(s, true, false); break;
	}
}
SV_ENTRY(odd)
{
	Shapes s;
	s.push_back(shape(sv::choice(9), sv::choice(5)));
	run<1, 0>(s, true, sv::choice(2));
}
SV_ENTRY(several)
{
	Shapes s;
	size_t n = sv::choice(4);
	for (size_t i = 0; i < n; ++i) s.push_back(shape(i == 0 ? 9 : 3 * sv::choice(2), i < 2 ? 3 : 0));
	run<1, 0>(s, sv::choice(2), sv::choice(2));
}
