// C31: object text, through the vendored parser (well-formed text only)
// SV: {"entry":"text","quick":[[0],[1],[2],[3]],"bound":"group layout; four vertices with any coordinate digits in one number, two triangles or one quadrangle, three ways of naming vertices, comments and line ends"}
#ifdef SV_SYMBOLIC
#include "shim_stream.h"
#endif
#define TINYOBJLOADER_IMPLEMENTATION
#define NDEBUG
#include "common.h"
#include "loader/MeshObjLoader.h"
using namespace NS;
struct Num { std::string text; double value; };
static bool any;
static int next;
static double digit(std::string& t)
{
	if (!any) { int d = next++ % 10; t += (char)('0' + d); return d; }
	unsigned char c = sv::byte();
	sv::assume(c >= '0' && c <= '9');
	t += (char)c;
	return (double)(c - '0');
}
static Num num(int form)
{
	Num n;
	switch (form)
	{
	case 0: n.value = digit(n.text); break;
	case 1: n.text += '-'; n.value = -digit(n.text); break;
	case 2: n.value = 10 * digit(n.text); n.value += digit(n.text); n.text += ".5"; n.value += 0.5; break;
	default: n.value = digit(n.text); n.text += ".25e1"; n.value = 10 * (n.value + 0.25); break;
	}
	return n;
}
static std::string dec(size_t v) { return std::string(1, (char)('0' + v)); }
static std::string name(int style, size_t i)
{
	switch (style)
	{
	case 0: return dec(i + 1);
	case 1: return "-" + dec(4 - i);
	case 2: return dec(i + 1) + "//1";
	default: return dec(i + 1) + "/1/1";
	}
}
SV_ENTRY(text)
{
	int style = (int)sv::choice(4), groups = (int)sv::param(0);
	const char* end = (style + groups) % 2 ? "\r\n" : "\n";
	std::string t = std::string("# an object") + end + end;
	Num C[4][3];
	if (groups) t += std::string("g first part") + end;
	next = 1;
	int form = (int)sv::choice(4);
	for (int i = 0; i < 4; ++i)
	{
		t += "v ";
		for (int k = 0; k < 3; ++k) { any = i == form && k == form % 3; C[i][k] = num((form + i + k) % 4); t += " " + C[i][k].text; }
		t += end;
	}
	t += std::string("vn 0 0 1") + end + "vt 0 0" + end;
	if (groups == 2) t += std::string("g second") + end;
	size_t tri[2][3] = {{0, 1, 2}, {0, 2, 3}};
	static const size_t Q[3][4] = {{0, 1, 2, 3}, {3, 1, 0, 2}, {2, 0, 3, 1}};
	const size_t* q = Q[sv::choice(3)];
	bool quad = sv::choice(2);
	for (auto& f : tri) for (auto& v : f) v = q[v];
	if (quad)
	{
		t += "f";
		for (int k = 0; k < 4; ++k) t += " " + name(style, q[k]);
		t += end;
	}
	else
		for (auto& f : tri)
		{
			t += "f";
			for (int k = 0; k < 3; ++k) t += " " + name(style, f[k]);
			t += end;
		}
	if (groups == 3) t += std::string("g second") + end + "f 1 2 3" + end;
	Mesh<double, 2> m = MeshObjLoader<double>::loadString(t);
	sv::check(m.vertices().size() == 4 && m.elements().size() == 2, "vertices and triangles");
	for (int f = 0; f < 2; ++f)
		for (int k = 0; k < 3; ++k)
		{
			sv::check(m.element(f)->Vertices[k]->GlobalIndex < 4 && m.vertex(m.element(f)->Vertices[k]->GlobalIndex) == m.element(f)->Vertices[k], "corner");
			for (int d = 0; d < 2; ++d)
				sv::eq(m.element(f)->Vertices[k]->Vertex[d], C[tri[f][k]][d].value, "coordinates of the corner");
		}
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j)
			sv::check((m.element(0)->Vertices[i] == m.element(1)->Vertices[j]) == (tri[0][i] == tri[1][j]), "triangles share the vertices they name");
	sv::reach("end");
}
