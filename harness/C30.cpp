// C30: reading triangle meshes from text
// SV: {"entry":"nodes","quick":[[0,6],[1,6],[2,6]],"thorough":[[0,7],[1,7],[2,7]],"bound":"node text: prefix (none, header, header and node) followed by this many arbitrary bytes","timeout":1500}
// SV: {"entry":"elements","quick":[[0,6],[1,6],[2,6]],"thorough":[[0,7],[1,7],[2,7]],"bound":"element text: prefix followed by this many arbitrary bytes, three vertices","timeout":1500}
// SV: {"entry":"mutate","quick":[[0],[1]],"bound":"well-formed small files with one arbitrary byte put anywhere or text cut anywhere","timeout":1500}
// SV: {"entry":"exact","quick":[[1,0],[1,1],[2,0],[2,1],[3,0],[3,1]],"thorough":[[4,0],[4,1]],"bound":"vertices = triangles + 2, numbering base; coordinate digits, layouts, corner order","timeout":1500}
// SV: {"entry":"faults","quick":[[]],"bound":"a well-formed file with a single fault of any listed kind"}
// SV: {"entry":"wrong","quick":[[2,0],[2,1],[3,0],[3,1],[4,0],[4,1],[5,0],[5,1],[7,0],[7,1]],"thorough":[[9,0],[9,1]],"bound":"triangles, numbering base; any single number of the numbering or a corner replaced by 0 to 9 or one of three wrong numbers"}
// SV: {"entry":"comments","quick":[[0,1],[1,1],[0,12],[1,12]],"bound":"node or element file, length of the comment; a comment of arbitrary bytes put before, between or behind the lines or at the end of a line","timeout":1500}
// SV: {"entry":"file","quick":[[]],"bound":"files with well-formed and malformed content"}
#ifdef SV_SYMBOLIC
#include "shim_stream.h"
#else
#include <fstream>
#include <unistd.h>
#endif
#include "common.h"
#include "loader/MeshTriangleLoader.h"
using namespace NS;
typedef MeshTriangleLoader<double> LD;
typedef Mesh<double, 2> MM;
enum { OK, NODE, ELEMENT, SHARED };
// reads the files; the mesh must be consistent
static int load(const std::string& a, const std::string& b, MM& out)
{
	try
	{
		out = LD::loadString(a, b);
		return OK;
	}
	catch (const LoadTriangleNodeErrorException&) { return NODE; }
	catch (const LoadTriangleElementErrorException&) { return ELEMENT; }
	catch (const TooManySharedFacesException&) { return SHARED; }
	catch (...) { sv::fail("only the documented exceptions"); }
}
static void sane(const MM& m)
{
	size_t n = 0;
	for (auto v : m.vertices()) sv::check(v && v->GlobalIndex == n++, "vertices are numbered in order");
	for (auto e : m.elements())
		for (int i = 0; i < 3; ++i)
		{
			sv::check(e->Vertices[i] && e->Vertices[i]->GlobalIndex < n && m.vertex(e->Vertices[i]->GlobalIndex) == e->Vertices[i], "corners are vertices of the mesh");
			sv::check(e->Neighbors[i] != nullptr, "faces are set");
		}
}
static void total(const std::string& a, const std::string& b)
{
	long before = sv::live();
	{
		MM m;
		int r = load(a, b, m);
		if (r == OK) { sane(m); sv::reach("loaded"); }
		else sv::reach("rejected");
	}
	sv::check(sv::live() == before, "nothing is left behind");
}
static std::string bytes(size_t n)
{
	std::string s;
	for (size_t i = 0; i < n; ++i) s += (char)sv::byte();
	return s;
}
static const char* const NODES3 = "3 2 0 0\n1 0 0\n2 1 0\n3 0 1\n";
SV_ENTRY(nodes)
{
	static const char* const P[] = {"", "3 2\n", "3 2\n1 0 0\n"};
	total(std::string(P[sv::param(0)]) + bytes((size_t)sv::param(1)), "");
	sv::reach("end");
}
SV_ENTRY(elements)
{
	static const char* const P[] = {"", "2 3\n", "2 3\n1 1 2 "};
	total(NODES3, std::string(P[sv::param(0)]) + bytes((size_t)sv::param(1)));
	sv::reach("end");
}
SV_ENTRY(mutate)
{
	std::string a = "3 2 0 0\n1 0 0\n2 1 .5 7\n3 0 1e0\n", b = "1 3\n1 3 1 2\n";
	std::string& s = sv::param(0) ? b : a;
	size_t i = sv::choice(s.size());
	switch (sv::choice(3))
	{
	case 0: s[i] = (char)sv::byte(); break;
	case 1: s.insert(i, 1, (char)sv::byte()); break;
	default: s.resize(i); break;
	}
	total(a, b);
	sv::reach("end");
}
// a decimal number as text, and its value
struct Number { std::string text; double value; };
static Number number(int form)
{
	Number n;
	auto digit = [&]() { unsigned char c = sv::byte(); sv::assume(c >= '0' && c <= '9'); n.text += (char)c; };
	switch (form)
	{
	case 0: digit(); break;
	case 1: n.text += '-'; digit(); n.text += '.'; digit(); break;
	case 2: digit(); digit(); n.text += "e-"; digit(); break;
	default: n.text += '.'; digit(); break;
	}
	n.value = sv_parse_dec_(n.text.data(), n.text.size());
	return n;
}
struct Layout { const char *sep, *lead, *end; };
static Layout layout()
{
	static const Layout L[] = {{" ", "", "\n"}, {"   ", "  ", " \n\n"}, {"\t", "", "\r\n"}, {"\t ", "\t\r\n", " \r\n\r\n \t\r\n"}, {" \v", "\f", "\f\n\v\n"}, {" ", "", " # note 1 2\n# 9 9\n"}, {" ", "", " 1\n"}};
	return L[sv::choice(7)];
}
static std::string dec(size_t v) { return v >= 10 ? dec(v / 10) + (char)('0' + v % 10) : std::string(1, (char)('0' + v)); }
SV_ENTRY(exact)
{
	size_t nt = (size_t)sv::param(0), base = (size_t)sv::param(1), nv = nt + 2;
	Layout l = layout();
	bool cut = sv::choice(2);
	int form = (int)sv::choice(4);
	std::string a = l.lead + dec(nv) + l.sep + "2" + l.sep + "0" + l.sep + "0" + l.end, b = l.lead + dec(nt) + l.sep + "3" + l.sep + "0" + l.end;
	std::vector<Number> X(nv), Y(nv);
	for (size_t i = 0; i < nv; ++i)
	{
		X[i] = number((form + (int)i) % 4);
		Y[i] = number((form + (int)i + 1) % 4);
		a += l.lead + dec(i + base) + l.sep + X[i].text + l.sep + Y[i].text + l.end;
	}
	size_t perm = sv::choice(6);
	static const size_t P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	for (size_t t = 0; t < nt; ++t)
	{
		b += l.lead + dec(t + base);
		for (int k = 0; k < 3; ++k) b += l.sep + dec(t + P[perm][k] + base);
		b += l.end;
	}
	if (cut) { a.resize(a.find_last_not_of(" \r\n") + 1); b.resize(b.find_last_not_of(" \r\n") + 1); }
	long before = sv::live();
	{
		MM m;
		sv::check(load(a, b, m) == OK, "well-formed files are accepted");
		sv::check(m.vertices().size() == nv, "number of vertices");
		sv::check(m.elements().size() == nt, "number of triangles");
		sane(m);
		for (size_t i = 0; i < nv; ++i)
		{
			sv::eq(m.vertex(i)->Vertex[0], X[i].value, "first coordinate");
			sv::eq(m.vertex(i)->Vertex[1], Y[i].value, "second coordinate");
		}
		for (size_t t = 0; t < nt; ++t)
			for (int k = 0; k < 3; ++k)
			{
				size_t v = t + P[perm][k];
				sv::check(m.element(t)->Vertices[k] == m.vertex(v), "corner of the triangle");
				sv::eq(m.element(t)->Element[k][0], X[v].value, "geometry of the triangle");
				sv::eq(m.element(t)->Element[k][1], Y[v].value, "geometry of the triangle");
			}
	}
	sv::check(sv::live() == before, "nothing is left behind");
	sv::reach("end");
}
SV_ENTRY(comments)
{
	static const char* const L[2][4] = {{"3 2 0 0", "1 0 0", "2 1 .5", "3 0 2"}, {"2 3 0", "1 1 2 3", "2 3 2 1", ""}};
	size_t w = (size_t)sv::param(0), n = w ? 3 : 4, line = sv::choice(n + 1), style = sv::choice(4);
	std::string c = "#";
	for (long i = 0; i < sv::param(1); ++i)
	{
		unsigned char b = sv::byte();
		sv::assume(b != '\n');
		c += (char)b;
	}
	std::string t[2];
	for (size_t f = 0; f < 2; ++f)
		for (size_t i = 0; i < 5; ++i)
		{
			bool here = f == w && i == line;
			if (here && style < 2) t[f] += (style ? " \t" : "") + c + "\n";
			if (i >= (f ? 3 : 4)) continue;
			t[f] += L[f][i];
			if (here && style > 1) t[f] += (style == 2 ? " " : "") + c;
			t[f] += "\n";
		}
	{
		MM m;
		sv::check(load(t[0], t[1], m) == OK, "comments are skipped");
		sane(m);
		static const double X[3][2] = {{0, 0}, {1, .5}, {0, 2}};
		sv::check(m.vertices().size() == 3 && m.elements().size() == 2, "comments add nothing");
		for (size_t i = 0; i < 3; ++i)
			for (size_t k = 0; k < 2; ++k) sv::eq(m.vertex(i)->Vertex[k], X[i][k], "coordinates with comments");
		for (size_t k = 0; k < 3; ++k) sv::check(m.element(0)->Vertices[k] == m.vertex(k) && m.element(1)->Vertices[k] == m.vertex(2 - k), "corners with comments");
	}
	sv::reach("end");
}
SV_ENTRY(faults)
{
	struct Case { const char *a, *b; int want; };
	const char* const N = "3 2\n1 0 0\n2 1 0\n3 0 1\n";
	const char* const E = "1 3\n1 1 2 3\n";
	const Case C[] = {
		{N, E, OK},
		{"0 2\n", E, NODE}, {"x 2\n", E, NODE}, {"3\n1 0 0\n2 1 0\n3 0 1\n", E, NODE}, {"3 3\n1 0 0\n2 1 0\n3 0 1\n", E, NODE}, {"3 x\n", E, NODE},
		{"3 2\n1 0 0\n2 1 0\n4 0 1\n", E, NODE}, {"3 2\n2 0 0\n3 1 0\n4 0 1\n", E, NODE}, {"3 2\n1 0 0\n0 1 0\n2 0 1\n", E, NODE}, {"3 2\n1 0 0\n1 1 0\n2 0 1\n", E, NODE},
		{"3 2\n1\n2 1 0\n3 0 1\n", E, NODE}, {"3 2\n1 0\n2 1 0\n3 0 1\n", E, NODE}, {"3 2\n1 0 0\n2 1 x\n3 0 1\n", E, NODE}, {"3 2\n1 0 0\n2 x 0\n3 0 1\n", E, NODE}, {"3 2\nx 0 0\n", E, NODE},
		{"3 2\n1 0 0\n2 1 # 0\n3 0 1\n", E, NODE}, {"3 2\n1 0 0\n2 1 0.5\n3 -1", E, NODE},
		{N, "0 3\n", ELEMENT}, {N, "x 3\n", ELEMENT}, {N, "1\n1 1 2 3\n", ELEMENT}, {N, "1 4\n1 1 2 3\n", ELEMENT}, {N, "1 x\n", ELEMENT},
		{N, "1 3\n2 1 2 3\n", ELEMENT}, {N, "1 3\n1 1 2 3\n1 1 2 3\n", ELEMENT}, {N, "1 3\n1 1 2 3\n3 1 2 3\n", ELEMENT},
		{N, "1 3\n1\n", ELEMENT}, {N, "1 3\n1 1\n", ELEMENT}, {N, "1 3\n1 1 2\n", ELEMENT}, {N, "1 3\n1 1 2 x\n", ELEMENT}, {N, "1 3\n1 1 x 3\n", ELEMENT}, {N, "1 3\n1 x 2 3\n", ELEMENT}, {N, "1 3\nx 1 2 3\n", ELEMENT},
		{N, "1 3\n1 1 2 4\n", ELEMENT}, {N, "1 3\n1 1 4 3\n", ELEMENT}, {N, "1 3\n1 4 2 3\n", ELEMENT}, {N, "1 3\n1 0 2 3\n", ELEMENT}, {N, "1 3\n0 1 2 3\n", ELEMENT}, {N, "1 3\n1 1 2 #3\n", ELEMENT},
		{"", "1 3\n1 1 2 3\n", ELEMENT}, {N, "1 3\n1 1 2 -1\n", ELEMENT}, {N, "1 3\n1 1 2 99999999999999999999999\n", ELEMENT}};
	const Case& c = C[sv::choice(sizeof(C) / sizeof(C[0]))];
	long before = sv::live();
	{
		MM m;
		int r = load(c.a, c.b, m);
		sv::check(r == c.want, "malformed files are rejected with the exception of the file at fault");
	}
	sv::check(sv::live() == before, "nothing is left behind");
	sv::reach("end");
}
// one wrong number anywhere in longer files
SV_ENTRY(wrong)
{
	size_t nt = (size_t)sv::param(0), base = (size_t)sv::param(1), nv = nt + 2 + sv::choice(2, "unused vertex");
	size_t line = sv::choice(nv + nt), wrong = sv::choice(13), field = 0;
	bool node = line < nv;
	if (!node) { line -= nv; field = sv::choice(4); }
	std::string a = dec(nv) + " 2\n", b = dec(nt) + " 3\n";
	bool bad = false;
	size_t w = wrong < 10 ? wrong : wrong < 12 ? wrong + 90 : 0;
	std::string text = wrong == 12 ? "-1" : wrong == 11 ? "4294967297" : dec(w);
	for (size_t i = 0; i < nv; ++i)
	{
		bool me = node && line == i;
		a += (me ? text : dec(i + base)) + " " + dec(i) + " " + dec(i * i) + "\n";
		if (me) bad = text != dec(i + base);
	}
	for (size_t t = 0; t < nt; ++t)
		for (size_t f = 0; f < 4; ++f)
		{
			bool me = !node && line == t && f == field;
			size_t right = (f ? t + f - 1 : t) + base;
			b += (me ? text : dec(right)) + (f == 3 ? "\n" : " ");
			if (me) bad = f == 0 ? text != dec(right) : wrong >= 10 || w < base || w >= nv + base;
		}
	// numbering may start at one or at zero, a single first line does not tell
	if (bad && (node ? nv : nt) > 1 && line > 0)
	{
		MM m;
		sv::check(load(a, b, m) == (node ? NODE : ELEMENT), "a wrong number is rejected with the exception of the file at fault");
	}
	else if (bad && field)
	{
		MM m;
		sv::check(load(a, b, m) == ELEMENT, "a wrong number is rejected with the exception of the file at fault");
	}
	else if (!bad && (node || field == 0 ))
	{
		MM m;
		sv::check(load(a, b, m) == OK, "well-formed files are accepted");
	}
	else total(a, b);
	sv::reach("end");
}
SV_ENTRY(file)
{
	const char* const A[] = {NODES3, "3 2\n1 0 0", "3 2\n1 0\n", ""};
	const char* const B[] = {"1 3\n1 2 3 1\n", "1 3\n1 1 2\n", ""};
	std::string a = A[sv::choice(4)], b = B[sv::choice(3)];
	MM m, n;
	int want = load(a, b, m), got = OK;
#ifdef SV_SYMBOLIC
	std::string fa = "a.node", fb = "a.ele";
	std::sv_files().push_back(std::sv_file{fa, a});
	std::sv_files().push_back(std::sv_file{fb, b});
#else
	char dir[] = "/tmp/sv-mesh-XXXXXX";
	if (!mkdtemp(dir)) sv::stop();
	std::string fa = std::string(dir) + "/a.node", fb = std::string(dir) + "/a.ele";
	{ std::ofstream(fa) << a; std::ofstream(fb) << b; }
#endif
	try { n = LD::loadFile(fa, fb); }
	catch (const LoadTriangleNodeErrorException&) { got = NODE; }
	catch (const LoadTriangleElementErrorException&) { got = ELEMENT; }
	catch (const TooManySharedFacesException&) { got = SHARED; }
#ifndef SV_SYMBOLIC
	unlink(fa.c_str()); unlink(fb.c_str()); rmdir(dir);
#endif
	sv::check(got == want, "files behave as their content");
	if (got == OK)
	{
		sv::check(m.vertices().size() == n.vertices().size() && m.elements().size() == n.elements().size(), "same mesh");
		for (size_t i = 0; i < m.vertices().size(); ++i)
			for (size_t k = 0; k < 2; ++k) sv::eq(m.vertex(i)->Vertex[k], n.vertex(i)->Vertex[k], "same vertex");
		for (size_t i = 0; i < m.elements().size(); ++i)
			for (size_t k = 0; k < 3; ++k) sv::check(m.element(i)->Vertices[k]->GlobalIndex == n.element(i)->Vertices[k]->GlobalIndex, "same triangle");
	}
	sv::reach("end");
}
