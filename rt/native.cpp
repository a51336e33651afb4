// Native side of the harness interface: values come from a file.
// exit 0 ok, 41 assertion violated, 43 assumption not met, anything else: crash.
#include "sv.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <string>
#include <vector>
#include <utility>
#include <sstream>
static std::vector<std::pair<std::string, std::string>> in;
static size_t pos = 0;
static std::vector<long> params;
static double tol = 1e-6;
static long live = 0;
static std::string next(const char* name)
{
	if (pos >= in.size()) return "0";
	(void)name;
	return in[pos++].second;
}
extern "C" {
double sv_real_(const char* n) { return strtod(next(n).c_str(), nullptr); }
float sv_f32_(const char* n) { return strtof(next(n).c_str(), nullptr); }
unsigned long sv_u64_(const char* n, unsigned long lo, unsigned long hi, unsigned long s)
{
	unsigned long v = strtoul(next(n).c_str(), nullptr, 10);
	bool ok = s ? ((long)v >= (long)lo && (long)v <= (long)hi) : (v >= lo && v <= hi);
	if (!ok) v = lo;
	return v;
}
unsigned char sv_byte_(const char* n) { return (unsigned char)strtoul(next(n).c_str(), nullptr, 10); }
unsigned long sv_choice_(const char* n, unsigned long k) { unsigned long v = strtoul(next(n).c_str(), nullptr, 10); return v < k ? v : 0; }
void sv_assume_(bool c) { if (!c) { fprintf(stderr, "assumption not met\n"); fflush(stderr); _Exit(43); } }
void sv_fail_(const char* m) { fprintf(stderr, "ASSERTION VIOLATED: %s\n", m); fflush(stderr); _Exit(41); }
void sv_assert_(bool c, const char* m) { if (!c) sv_fail_(m); }
void sv_eq_(double a, double b, const char* m)
{
	if (a == b || (std::isnan(a) && std::isnan(b))) return;
	double s = 1 + std::fabs(a) + std::fabs(b);
	if (!(std::fabs(a - b) <= tol * s)) { fprintf(stderr, "values %.17g vs %.17g\n", a, b); sv_fail_(m); }
}
void sv_leq_(double a, double b, const char* m) { if (!(a <= b + tol * (1 + std::fabs(a) + std::fabs(b)))) { fprintf(stderr, "values %.17g > %.17g\n", a, b); sv_fail_(m); } }
void sv_reach_(const char* l) { if (getenv("SV_VERBOSE")) fprintf(stderr, "reached %s\n", l); }
void sv_stop_() { fflush(stderr); _Exit(0); }
long sv_live_() { return live; }
long sv_param_(unsigned long i) { return i < params.size() ? params[i] : 0; }
bool sv_symbolic_() { return false; }
void sv_print_(const char* l, double v) { if (getenv("SV_VERBOSE")) fprintf(stderr, "[%s] %.17g\n", l, v); }
unsigned long sv_concrete_(unsigned long v) { return v; }
double sv_parse_dec_(const char* p, unsigned long n) { return strtod(std::string(p, n).c_str(), nullptr); }
}
// count live heap blocks
#include <new>
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --live; free(p); }
#include <dlfcn.h>
int main(int argc, char** argv)
{
	// usage: prog ENTRY PARAMS INPUTFILE
	std::stringstream ps(argv[2]);
	std::string t;
	while (std::getline(ps, t, ',')) if (!t.empty() && t != "-") params.push_back(atol(t.c_str()));
	std::ifstream f(argv[3]);
	std::string line;
	while (std::getline(f, line))
	{
		size_t p = line.rfind(' ');
		if (p == std::string::npos) continue;
		in.emplace_back(line.substr(0, p), line.substr(p + 1));
	}
	void (*e)() = (void (*)())dlsym(nullptr, argv[1]);
	if (!e) { fprintf(stderr, "no entry %s\n", argv[1]); return 99; }
	live = 0;
	e();
	return 0;
}
