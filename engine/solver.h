// Path constraints and decision procedures (z3) over real polynomials and bit-vectors.
#pragma once
#include "poly.h"
#include <z3++.h>
#include <set>
#include <unordered_set>
#include <chrono>

extern z3::context* gCtx;
#define ZC (*gCtx)
enum { BVTOK = 1u << 30, SQRTBASE = 1u << 20 };

typedef std::map<uint32_t, mpq_class> RModel; // real variables
struct Model
{
	RModel r;
	std::map<uint32_t, uint64_t> b; // bit-vector / fp (as bits) variables by token
	bool valid = true;
};

struct VarInfo { z3::expr e; unsigned width; bool fp; VarInfo(const z3::expr& x, unsigned w, bool f) : e(x), width(w), fp(f) {} };
extern std::map<uint32_t, VarInfo> gBvVars; // token -> variable

z3::expr realVar(uint32_t v);
z3::expr polyExpr(const PP& p);

inline mpq_class defaultVal(uint32_t v)
{
	static const int pr[] = {2, 3, -5, 7, 11, -13, 17, 19, -23, 29, 31, 37, -41, 43, 47, -53};
	return mpq_class(pr[v % 16] + (int)(v / 16) * 60);
}
// false when the polynomial mentions a square root variable
inline bool polyEval(const Poly& p, const RModel& m, mpq_class& out)
{
	out = 0;
	mpq_class t, b;
	for (auto& x : p.t)
	{
		t = x.c;
		for (auto& q : x.m)
		{
			if (q.first >= SQRTBASE) return false;
			auto it = m.find(q.first);
			b = it == m.end() ? defaultVal(q.first) : it->second;
			for (uint32_t e = 0; e < q.second; ++e) t *= b;
		}
		out += t;
	}
	return true;
}
inline void polyVars(const Poly& p, std::set<uint32_t>& s)
{
	for (auto& x : p.t) for (auto& q : x.m) s.insert(q.first);
}

// A condition: either (sign of poly) in mask [1 neg, 2 zero, 4 pos], or a z3 boolean.
struct Cond
{
	PP p;
	uint8_t mask = 0;
	z3::expr e;
	std::vector<uint32_t> vars; // filled by prepare()
	bool prepared = false;
	Cond() : e(*gCtx) {}
	static Cond poly(const PP& q, uint8_t m) { Cond c; c.p = q; c.mask = m; return c; }
	static Cond ex(const z3::expr& x) { Cond c; c.e = x; return c; }
	Cond neg() const
	{
		Cond c;
		if (p) { c.p = p; c.mask = mask ^ 7; }
		else c.e = !e;
		return c;
	}
	z3::expr expr() const
	{
		if (!p) return e;
		z3::expr x = polyExpr(p), z = ZC.real_val(0);
		switch (mask)
		{
		case 0: return ZC.bool_val(false);
		case 1: return x < z;
		case 2: return x == z;
		case 3: return x <= z;
		case 4: return x > z;
		case 5: return x != z;
		case 6: return x >= z;
		}
		return ZC.bool_val(true);
	}
};
typedef std::shared_ptr<const Cond> CondP;

struct SolverStats
{
	long queries = 0, sat = 0, unsat = 0, unknown = 0, cache = 0, quick = 0, unknownBranch = 0;
	double time = 0, maxTime = 0;
	long assertQueries = 0, assertSyntactic = 0;
};
extern SolverStats gStats;

enum Res { SAT, UNSAT, UNKNOWN };
void prepareCond(Cond& c);
// Is slice(constraints) && c satisfiable?  On SAT fills `out` with a full model (base model updated).
Res solve(const std::vector<CondP>& path, const Model& base, const std::vector<CondP>& extra, unsigned timeoutMs, Model& out, bool whole = false);
int evalCond(const Cond& c, const Model& m); // 1 true 0 false -1 unknown
