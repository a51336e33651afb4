// sx: symbolic executor for LLVM IR (see DESIGN.md).
#include "exec.h"
#include <llvm/Linker/Linker.h>
#include <llvm/ADT/APFloat.h>
#include <cmath>
#include <random>
#include <llvm/ADT/SmallString.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/resource.h>

using namespace llvm;
typedef std::string Str;

static LLVMContext LC;
static std::unique_ptr<llvm::Module> M;
static const DataLayout* DL;
static bool gFp = false;
static long gMaxInstr = 20000000, gMaxPaths = 0;
static double gTimeout = 600;
static unsigned gBranchTo = 3000, gAssertTo = 60000;
static std::vector<long> gParams;
static bool gDebug = false;
static bool gLeak = false;
static int gStop = 3; // distinct violations before stopping

static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Unsup { Str what; };
struct NeedFork { CondP c; Model mt, mf; };
struct NeedChoice { unsigned n; };
struct PathStop { Str kind; };   // "done", "pruned", "violation"
struct Raised {};                // C++ exception raised: control already transferred
struct OutOfTime {};

static std::map<uint64_t, std::shared_ptr<Obj>> gShared; // constant globals
static std::unordered_map<const Function*, uint64_t> fnAddr;
static std::unordered_map<uint64_t, const Function*> addrFn;
static std::unordered_map<const GlobalVariable*, uint64_t> gvAddr;
static std::map<uint64_t, const GlobalVariable*> addrGv;
static std::unordered_map<const Function*, std::unique_ptr<CF>> cfs;
static std::vector<State> work;
static Str gFatal;
static std::vector<z3::expr> gKeep;

struct Violation { Str msg, kind, where; std::vector<std::vector<std::pair<Str, Str>>> cands; };
static std::vector<Violation> viols;
static std::map<Str, int> violCount;
static std::map<Str, long> reachCount;
static long nPaths = 0, nPruned = 0, nForks = 0, nInstr = 0, nInconclusive = 0, nViolPaths = 0, nAsserts = 0;
static std::vector<Str> inconclusive;
static std::vector<std::vector<std::pair<Str, Str>>> samples;
static long nEq = 0, nEqSyn = 0;

// ---------------------------------------------------------------- values
static mpq_class fromDouble(double d) { mpq_class q; q = d; return q; }
static Val mkReal(const RatFun& r, unsigned w, bool abs = false)
{
	auto n = std::make_shared<Node>();
	n->rf = r; n->abs = abs;
	Val v; v.k = K_REAL; v.w = w; v.n = n;
	return v;
}
static Val mkRealC(const mpq_class& c, unsigned w) { return mkReal(ratConst(c), w); }
static Val mkSpec(double d, unsigned w)
{
	Val v; v.k = K_SPEC; v.w = w; memcpy(&v.lo, &d, 8);
	return v;
}
static double specD(const Val& v) { double d; memcpy(&d, &v.lo, 8); return d; }
static Val mkFlt(double d, unsigned w)
{
	Val v; v.k = K_FLT; v.w = w;
	if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); v.lo = u; }
	else memcpy(&v.lo, &d, 8);
	return v;
}
static double fltD(const Val& v)
{
	if (v.w == 32) { float f; uint32_t u = (uint32_t)v.lo; memcpy(&f, &u, 4); return f; }
	double d; memcpy(&d, &v.lo, 8); return d;
}
static z3::sort fpSort(unsigned w) { return w == 32 ? ZC.fpa_sort(8, 24) : ZC.fpa_sort(11, 53); }
static Val mkFpE(const z3::expr& e0, unsigned w)
{
	z3::expr e = e0.simplify();
	auto n = std::make_shared<Node>();
	n->e = e;
	Val v; v.k = K_FP; v.w = w; v.n = n;
	return v;
}
static Val mkBV(const z3::expr& e0, unsigned w)
{
	z3::expr e = e0.simplify();
	if (w == 1)
	{
		if (e.is_true()) return Val::I(1, 1);
		if (e.is_false()) return Val::I(0, 1);
	}
	else if (e.is_numeral() && w <= 64)
		return Val::I(e.get_numeral_uint64(), w);
	auto n = std::make_shared<Node>();
	n->e = e;
	Val v; v.k = K_BV; v.w = w; v.n = n;
	return v;
}
static Val mkPolyCond(const PP& p, uint8_t mask)
{
	if (p->isConst())
	{
		int s = sgn(p->constVal());
		return Val::I((mask & (s < 0 ? 1 : s == 0 ? 2 : 4)) ? 1 : 0, 1);
	}
	if (mask == 0) return Val::I(0, 1);
	if (mask == 7) return Val::I(1, 1);
	auto n = std::make_shared<Node>();
	n->cp = p; n->cmask = mask;
	Val v; v.k = K_BV; v.w = 1; v.n = n;
	return v;
}
static z3::expr bvE(const Val& v)
{
	if (v.k == K_INT)
		return v.w == 1 ? ZC.bool_val(v.lo & 1) : ZC.bv_val((uint64_t)v.lo, v.w);
	if (v.k == K_BV)
	{
		if (v.n->cp) { return Cond::poly(v.n->cp, v.n->cmask).expr(); }
		return v.n->e;
	}
	throw Unsup{"bit-vector view of a non-integer value"};
}
static z3::expr fpE(const Val& v)
{
	if (v.k == K_FP) return v.n->e;
	if (v.k == K_FLT)
	{
		z3::expr b = ZC.bv_val((uint64_t)v.lo, v.w);
		return z3::expr(ZC, Z3_mk_fpa_to_fp_bv(ZC, b, fpSort(v.w)));
	}
	if (v.k == K_BV && v.w > 1)
		return z3::expr(ZC, Z3_mk_fpa_to_fp_bv(ZC, v.n->e, fpSort(v.w)));
	if (v.k == K_INT)
		return z3::expr(ZC, Z3_mk_fpa_to_fp_bv(ZC, ZC.bv_val((uint64_t)v.lo, v.w), fpSort(v.w)));
	throw Unsup{"fp view"};
}
static int64_t sext(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static Val realFromBits(uint64_t bits, unsigned w)
{
	double d;
	if (w == 32) { float f; uint32_t u = (uint32_t)bits; memcpy(&f, &u, 4); d = f; }
	else memcpy(&d, &bits, 8);
	if (gFp) { Val v; v.k = K_FLT; v.w = w; v.lo = bits; return v; }
	if (std::isnan(d) || std::isinf(d)) return mkSpec(d, w);
	return mkRealC(fromDouble(d), w);
}
static bool realToBits(const Val& v, uint64_t& bits)
{
	double d;
	if (v.k == K_SPEC) d = specD(v);
	else if (v.k == K_FLT) { bits = v.lo; return true; }
	else if (v.k == K_REAL && !v.n->abs && v.n->rf.isConst())
	{
		mpq_class q = v.n->rf.constVal();
		d = q.get_d();
		if (fromDouble(d) != q) return false;
		if (v.w == 32 && fromDouble((float)d) != q) return false;
	}
	else return false;
	if (v.w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); bits = u; }
	else memcpy(&bits, &d, 8);
	return true;
}
// integer view of possibly real-typed bits
static Val asInt(const Val& v)
{
	if (v.k == K_REAL || v.k == K_SPEC || v.k == K_FLT)
	{
		uint64_t b;
		if (realToBits(v, b)) return Val::I(b, v.w);
		throw Unsup{"integer operation on the bits of a symbolic real"};
	}
	if (v.k == K_FP)
		return mkBV(z3::expr(ZC, Z3_mk_fpa_to_ieee_bv(ZC, v.n->e)), v.w);
	return v;
}

// byte i of a real value
static Val fragByte(const Val& v, unsigned i)
{
	uint64_t b;
	if (v.k == K_UNDEF) return Val::U(8);
	if (realToBits(v, b)) return Val::I((b >> (8 * i)) & 255, 8);
	auto n = std::make_shared<Node>();
	n->agg.push_back(v);
	Val r; r.k = K_FRAG; r.w = 8; r.lo = i; r.n = n;
	return r;
}
static bool isRealK(const Val& v) { return v.k == K_REAL || v.k == K_SPEC || v.k == K_FLT; }
static Val byteOf(const Val& v, unsigned i)
{
	if (v.k == K_FRAG) return v.w == 8 ? v : v.n->agg[i];
	if (isRealK(v)) return fragByte(v, i);
	if (v.k == K_INT) return Val::I(i < 8 ? (v.lo >> (8 * i)) & 255 : 0, 8);
	Val x = v;
	if (x.k == K_FP) x = asInt(x);
	return mkBV(bvE(x).extract(8 * i + 7, 8 * i), 8);
}
// bytes -> value; recovers a whole real, else a movable fragment
static Val joinBytes(const std::vector<Val>& b)
{
	if (b.size() == 1) return b[0];
	if (b[0].k == K_FRAG && b[0].lo == 0)
	{
		const Val& whole = b[0].n->agg[0];
		bool ok = whole.w == b.size() * 8;
		for (unsigned i = 1; ok && i < b.size(); ++i)
			ok = b[i].k == K_FRAG && b[i].lo == i && b[i].n->agg[0].n == whole.n && b[i].n->agg[0].k == whole.k;
		if (ok) return whole;
	}
	auto n = std::make_shared<Node>();
	n->agg = b;
	Val r; r.k = K_FRAG; r.w = (uint16_t)(8 * b.size()); r.n = n;
	return r;
}

// ---------------------------------------------------------------- decisions
static Str demang(StringRef s) { return llvm::demangle(s.str()); }
static Str where(State& S)
{
	Str r;
	int n = 0;
	for (auto it = S.st.rbegin(); it != S.st.rend() && n < 12; ++it, ++n)
	{
		Str l;
		if (it->ip < it->f->code.size())
		{
			auto d = it->f->code[it->ip].I->getDebugLoc();
			if (d)
			{
				auto* sc = d->getScope();
				l = " at " + sc->getFilename().str() + ":" + std::to_string(d.getLine());
				for (auto* ia = d->getInlinedAt(); ia; ia = ia->getInlinedAt())
					l += " <- " + ia->getFilename().str() + ":" + std::to_string(ia->getLine());
			}
		}
		r += (r.empty() ? "" : "\n  ") + it->f->dem.substr(0, 200) + l;
	}
	return r;
}
static CondP prep(Cond c)
{
	prepareCond(c);
	return std::make_shared<const Cond>(c);
}
static void addCond(State& S, const CondP& c)
{
	if (c->p)
	{
		PP p = gPolys.intern(c->p);
		auto it = S.facts.find(p->id);
		uint8_t m = it == S.facts.end() ? 7 : it->second;
		S.facts[p->id] = m & c->mask;
	}
	else
	{
		z3::expr e = c->e;
		bool t = true;
		while (e.is_not()) { e = e.arg(0); t = !t; }
		gKeep.push_back(e);
		S.bfacts[e.id()] = t;
		if (t && e.is_and())
			for (unsigned i = 0; i < e.num_args(); ++i)
			{
				z3::expr a = e.arg(i);
				bool ta = true;
				while (a.is_not()) { a = a.arg(0); ta = !ta; }
				S.bfacts[a.id()] = ta;
			}
		if (t && e.is_eq() && e.arg(0).is_bv())
		{
			z3::expr a = e.arg(0), b = e.arg(1);
			if (a.is_numeral()) std::swap(a, b);
			if (b.is_numeral() && b.get_sort().bv_size() <= 64) { gKeep.push_back(a); S.conc[a.id()] = b.get_numeral_uint64(); }
		}
	}
	S.path.push_back(c);
}
static int factCheck(State& S, const Cond& c)
{
	if (c.p)
	{
		if (c.p->isConst())
		{
			int s = sgn(c.p->constVal());
			return (c.mask & (s < 0 ? 1 : s == 0 ? 2 : 4)) ? 1 : 0;
		}
		auto it = S.facts.find(gPolys.intern(c.p)->id);
		if (it != S.facts.end())
		{
			if ((it->second & c.mask) == it->second) return 1;
			if ((it->second & c.mask) == 0) return 0;
		}
		return -1;
	}
	z3::expr e = c.e;
	bool t = true;
	while (e.is_not()) { e = e.arg(0); t = !t; }
	if (e.is_true()) return t;
	if (e.is_false()) return !t;
	auto it = S.bfacts.find(e.id());
	if (it != S.bfacts.end()) return it->second == t;
	return -1;
}
// decide a condition on the current path; throws NeedFork when both outcomes are possible
static bool decide(State& S, const Cond& c0)
{
	Cond c = c0;
	int f = factCheck(S, c);
	if (f >= 0) return f;
	CondP ct = prep(c), cf = prep(c.neg());
	int ev = evalCond(*ct, S.model);
	Model mt = S.model, mf = S.model;
	mt.valid = mf.valid = false;
	Res rt, rf;
	if (ev == 1) { rt = SAT; mt = S.model; }
	else { rt = solve(S.path, S.model, {ct}, gBranchTo, mt); }
	if (ev == 0) { rf = SAT; mf = S.model; }
	else if (rt == UNSAT) { rf = SAT; }
	else { rf = solve(S.path, S.model, {cf}, gBranchTo, mf); }
	if (rt == UNKNOWN || rf == UNKNOWN) gStats.unknownBranch++;
	if (rt == UNKNOWN) { mt = S.model; mt.valid = false; }
	if (rf == UNKNOWN) { mf = S.model; mf.valid = false; }
	if (rt == UNSAT || rf == UNSAT)
	{
		if (rt == UNSAT && rf == UNSAT) throw PathStop{"pruned"};
		bool v = rf == UNSAT;
		// implied: remember it (no new constraint needed, but facts help)
		if (c.p)
		{
			PP p = gPolys.intern(c.p);
			auto it = S.facts.find(p->id);
			uint8_t m = it == S.facts.end() ? 7 : it->second;
			S.facts[p->id] = m & (v ? c.mask : (c.mask ^ 7));
		}
		else
		{
			z3::expr e = c.e;
			bool t = true;
			while (e.is_not()) { e = e.arg(0); t = !t; }
			gKeep.push_back(e);
			S.bfacts[e.id()] = v ? t : !t;
		}
		return v;
	}
	NeedFork nf;
	nf.c = ct; nf.mt = mt; nf.mf = mf;
	throw nf;
}
static Cond condOf(const Val& v)
{
	if (v.n->cp) return Cond::poly(v.n->cp, v.n->cmask);
	return Cond::ex(v.n->e);
}
static void violation(State& S, const Str& kind, const Str& msg, const CondP& extra = nullptr, const RatFun* diff = nullptr);
static bool decideBool(State& S, const Val& v)
{
	if (v.k == K_INT) return v.lo & 1;
	if (v.k == K_UNDEF) { violation(S, "uninit", "behaviour depends on an uninitialised value"); }
	if (v.k != K_BV || v.w != 1) throw Unsup{"branch on non-boolean"};
	return decide(S, condOf(v));
}
static uint64_t concretize(State& S, const Val& v0)
{
	Val v = asInt(v0);
	if (v.k == K_INT) return v.lo;
	if (v.k == K_UNDEF) violation(S, "uninit", "address, size or integer conversion depends on an uninitialised value");
	if (v.k != K_BV) throw Unsup{"concretize"};
	if (v.w == 1) return decideBool(S, v);
	auto it = S.conc.find(v.n->e.id());
	if (it != S.conc.end()) return it->second;
	// pick a feasible value
	uint64_t val = 0;
	Model m = S.model;
	Cond any = Cond::ex(v.n->e == v.n->e);
	z3::expr probe = v.n->e;
	bool got = false;
	if (S.model.valid)
	{
		// evaluate by substituting the model
		z3::expr_vector from(ZC), to(ZC);
		Cond tmp = Cond::ex(probe == probe + ZC.bv_val(1, v.w));
		prepareCond(tmp);
		for (uint32_t x : tmp.vars)
			if (x & BVTOK)
			{
				auto& vi = gBvVars.at(x);
				auto k = S.model.b.find(x);
				uint64_t kv = k == S.model.b.end() ? 0 : k->second;
				from.push_back(vi.e);
				to.push_back(vi.fp ? z3::expr(ZC, Z3_mk_fpa_to_fp_bv(ZC, ZC.bv_val(kv, vi.width), vi.e.get_sort())) : ZC.bv_val(kv, vi.width));
			}
		z3::expr r = probe.substitute(from, to).simplify();
		if (r.is_numeral()) { val = r.get_numeral_uint64(); got = true; }
	}
	if (!got)
	{
		z3::solver s(ZC);
		for (auto& c : S.path) s.add(c->expr());
		if (s.check() != z3::sat) throw PathStop{"pruned"};
		val = s.get_model().eval(probe, true).get_numeral_uint64();
	}
	gKeep.push_back(probe);
	if (decide(S, Cond::ex((probe == ZC.bv_val((uint64_t)val, v.w)))))
	{
		S.conc[probe.id()] = val;
		return val;
	}
	return concretize(S, v); // unreachable in practice
}

// ---------------------------------------------------------------- reals
static Cond signCond(State& S, const RatFun& r, uint8_t mask)
{
	// sign(r) in mask; denominators are non-zero on this path
	mpq_class sc;
	PP p = gPolys.normal(r.num, sc);
	bool flip = sgn(sc) < 0;
	bool sgnMatters = !(mask == 2 || mask == 5);
	if (sgnMatters && !p->isZero())
		for (auto& d : r.den)
			if (d.second % 2)
			{
				auto it = S.facts.find(d.first->id);
				uint8_t m = it == S.facts.end() ? 7 : it->second;
				m &= 5;
				if (m == 4) continue;
				if (m == 1) { flip = !flip; continue; }
				mpq_class s2;
				p = gPolys.normal(polyMul(p, d.first), s2);
				if (sgn(s2) < 0) flip = !flip;
			}
	if (flip) mask = (mask & 2) | ((mask & 1) ? 4 : 0) | ((mask & 4) ? 1 : 0);
	return Cond::poly(p, mask);
}
static bool decideSign(State& S, const RatFun& r, uint8_t mask)
{
	if (r.isConst())
	{
		int s = sgn(r.constVal());
		return mask & (s < 0 ? 1 : s == 0 ? 2 : 4);
	}
	return decide(S, signCond(S, r, mask));
}
static RatFun ratNeg(const RatFun& r) { RatFun x = r; x.num = polyScale(r.num, -1); return x; }
static RatFun asReal(State& S, const Val& v)
{
	if (v.k == K_REAL)
	{
		if (!v.n->abs) return v.n->rf;
		if (decideSign(S, v.n->rf, 6)) return v.n->rf;
		return ratNeg(v.n->rf);
	}
	if (v.k == K_INT)
	{
		Val r = realFromBits(v.lo, v.w);
		if (r.k == K_REAL) return r.n->rf;
	}
	throw Unsup{"real view"};
}
static Val mkCondVal(const Cond& c)
{
	return mkPolyCond(c.p, c.mask);
}
static Val fixReal(const Val& v)
{
	if (v.k == K_INT) return realFromBits(v.lo, v.w);
	return v;
}
static Val realArith(State& S, unsigned op, const Val& a0, const Val& b0)
{
	Val a = fixReal(a0), b = fixReal(b0);
	unsigned w = a.w;
	if (a.k == K_UNDEF || b.k == K_UNDEF) return Val::U(w);
	if (a.k == K_SPEC || b.k == K_SPEC)
	{
		auto num = [&](const Val& v) -> double {
			if (v.k == K_SPEC) return specD(v);
			RatFun r = asReal(S, v);
			if (op == Instruction::FAdd || op == Instruction::FSub) return 1.0;
			if (decideSign(S, r, 2)) return 0.0;
			return decideSign(S, r, 4) ? 1.0 : -1.0;
		};
		if ((a.k == K_SPEC && std::isnan(specD(a))) || (b.k == K_SPEC && std::isnan(specD(b)))) return mkSpec(NAN, w);
		double x = num(a), y = num(b), r = 0;
		switch (op)
		{
		case Instruction::FAdd: r = x + y; break;
		case Instruction::FSub: r = x - y; break;
		case Instruction::FMul: r = x * y; break;
		case Instruction::FDiv: r = x / y; break;
		default: throw Unsup{"frem on special"};
		}
		if (std::isnan(r) || std::isinf(r)) return mkSpec(r, w);
		return mkRealC(0, w); // finite / inf
	}
	if (op == Instruction::FMul && a.n == b.n && a.n->abs) return mkReal(ratMul(a.n->rf, a.n->rf), w);
	if (op == Instruction::FMul && a.n->abs && b.n->abs) return mkReal(ratMul(a.n->rf, b.n->rf), w, true);
	if (op == Instruction::FMul || op == Instruction::FDiv)
	{
		if (a.n->abs && b.n->rf.isConst() && !b.n->abs && sgn(b.n->rf.constVal()) > 0)
			return mkReal(ratMul(a.n->rf, ratConst(op == Instruction::FMul ? b.n->rf.constVal() : mpq_class(1 / b.n->rf.constVal()))), w, true);
		if (op == Instruction::FMul && b.n->abs && a.n->rf.isConst() && !a.n->abs && sgn(a.n->rf.constVal()) > 0)
			return mkReal(ratMul(b.n->rf, a.n->rf), w, true);
	}
	RatFun x = asReal(S, a), y = asReal(S, b);
	switch (op)
	{
	case Instruction::FAdd: return mkReal(ratAdd(x, y), w);
	case Instruction::FSub: return mkReal(ratAdd(x, y, true), w);
	case Instruction::FMul: return mkReal(ratMul(x, y), w);
	case Instruction::FDiv:
	{
		if (decideSign(S, y, 2))
		{
			if (decideSign(S, x, 2)) return mkSpec(NAN, w);
			return mkSpec(decideSign(S, x, 4) ? INFINITY : -INFINITY, w);
		}
		if (y.isConst()) { RatFun r = x; r.num = polyScale(x.num, 1 / y.constVal()); return mkReal(r, w); }
		return mkReal(ratMul(x, ratInv(y)), w);
	}
	case Instruction::FRem:
		if (x.isConst() && y.isConst()) return mkRealC(fromDouble(fmod(x.constVal().get_d(), y.constVal().get_d())), w);
		throw Unsup{"frem on symbolic reals"};
	}
	throw Unsup{"real op"};
}
static Val realCmp(State& S, CmpInst::Predicate p, const Val& a0, const Val& b0)
{
	Val a = fixReal(a0), b = fixReal(b0);
	if (p == CmpInst::FCMP_TRUE) return Val::I(1, 1);
	if (p == CmpInst::FCMP_FALSE) return Val::I(0, 1);
	if (a.k == K_UNDEF || b.k == K_UNDEF) return Val::U(1);
	bool nan = (a.k == K_SPEC && std::isnan(specD(a))) || (b.k == K_SPEC && std::isnan(specD(b)));
	if (p == CmpInst::FCMP_ORD) return Val::I(!nan, 1);
	if (p == CmpInst::FCMP_UNO) return Val::I(nan, 1);
	if (nan) return Val::I(CmpInst::isUnordered(p), 1);
	uint8_t mask = 0;
	switch (p)
	{
	case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: mask = 2; break;
	case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: mask = 5; break;
	case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: mask = 1; break;
	case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: mask = 3; break;
	case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: mask = 4; break;
	case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: mask = 6; break;
	default: throw Unsup{"fcmp"};
	}
	if (a.k == K_SPEC || b.k == K_SPEC)
	{
		double x = a.k == K_SPEC ? specD(a) : 0, y = b.k == K_SPEC ? specD(b) : 0;
		return Val::I((mask & (x < y ? 1 : x == y ? 2 : 4)) ? 1 : 0, 1);
	}
	auto flip = [](uint8_t m) -> uint8_t { return (m & 2) | ((m & 1) ? 4 : 0) | ((m & 4) ? 1 : 0); };
	if (b.n->abs && !a.n->abs) { std::swap(a, b); mask = flip(mask); }
	RatFun d;
	if (a.n->abs && b.n->abs)
		d = ratAdd(ratMul(a.n->rf, a.n->rf), ratMul(b.n->rf, b.n->rf), true);
	else if (a.n->abs && b.n->rf.isConst())
	{
		mpq_class c = b.n->rf.constVal();
		if (sgn(c) < 0) return Val::I((mask & 4) ? 1 : 0, 1);
		if (c == 0)
		{
			if (mask == 1) return Val::I(0, 1);
			if (mask == 6) return Val::I(1, 1);
			return mkCondVal(signCond(S, a.n->rf, (mask & 2) ? 2 : 5));
		}
		d = ratAdd(ratMul(a.n->rf, a.n->rf), ratConst(c * c), true);
	}
	else
		d = ratAdd(asReal(S, a), asReal(S, b), true);
	if (d.isConst())
	{
		int s = sgn(d.constVal());
		return Val::I((mask & (s < 0 ? 1 : s == 0 ? 2 : 4)) ? 1 : 0, 1);
	}
	return mkCondVal(signCond(S, d, mask));
}
static uint32_t sqrtVar(const RatFun& x)
{
	for (auto& k : gSqrt.arg)
		if (k.second.den.size() == x.den.size() && *k.second.num == *x.num && ratSame(k.second, x)) return k.first;
	uint32_t v = SQRTBASE + (uint32_t)gSqrt.arg.size() + 1;
	gSqrt.arg[v] = x;
	return v;
}
static bool polyIsSquare(const PP& p, PP& root)
{
	// single term with even exponents, or (linear form)^2 found by undetermined square root of the leading term
	if (p->isZero()) { root = p; return true; }
	auto sq = [](const mpq_class& c, mpq_class& r) {
		if (sgn(c) < 0) return false;
		mpz_class a = sqrt(c.get_num()), b = sqrt(c.get_den());
		if (a * a != c.get_num() || b * b != c.get_den()) return false;
		r = mpq_class(a, b);
		return true;
	};
	// Newton-like long-division square root
	mpq_class c;
	if (!sq(p->t[0].c, c)) return false;
	Mono m;
	for (auto& q : p->t[0].m) { if (q.second % 2) return false; m.emplace_back(q.first, q.second / 2); }
	Poly r0; r0.t.push_back({m, c});
	PP r = mkPoly(std::move(r0));
	for (int i = 0; i < 40; ++i)
	{
		PP rem = polyAdd(p, polyMul(r, r), true);
		if (rem->isZero()) { root = r; return true; }
		Mono q;
		if (!monoDiv(rem->t[0].m, m, q)) return false;
		Poly nt; nt.t.push_back({q, mpq_class(rem->t[0].c / (2 * c))});
		if (monoCmp(q, r->t.back().m) >= 0) return false;
		r = polyAdd(r, mkPoly(std::move(nt)));
	}
	return false;
}
static Val realSqrt(State& S, const Val& v0, bool nonneg = false)
{
	Val v = fixReal(v0);
	if (v.k == K_UNDEF) return v;
	if (v.k == K_SPEC) return specD(v) > 0 ? v : mkSpec(NAN, v.w);
	RatFun x = asReal(S, v);
	if (x.isConst())
	{
		mpq_class c = x.constVal();
		if (sgn(c) < 0) return mkSpec(NAN, v.w);
		mpz_class a = sqrt(c.get_num()), b = sqrt(c.get_den());
		if (a * a == c.get_num() && b * b == c.get_den()) return mkRealC(mpq_class(a, b), v.w);
	}
	else
	{
		PP rt;
		bool denSq = true;
		for (auto& d : x.den) if (d.second % 2) denSq = false;
		if (denSq && polyIsSquare(x.num, rt))
		{
			RatFun r; r.num = rt; r.den = x.den;
			for (auto& d : r.den) d.second /= 2;
			return mkReal(r, v.w, true); // |root|
		}
		if (!nonneg && decideSign(S, x, 1)) return mkSpec(NAN, v.w);
		if (decideSign(S, x, 2)) return mkRealC(0, v.w);
	}
	uint32_t s = sqrtVar(x);
	PP sv = gPolys.intern(polyVar(s));
	if (std::find(S.sqrts.begin(), S.sqrts.end(), s) == S.sqrts.end())
	{
		S.sqrts.push_back(s);
		addCond(S, prep(Cond::poly(sv, 4)));
		// s^2 * den == num, added as a raw z3 equation (the polynomial layer reduces s^2)
		z3::expr lhs = realVar(s) * realVar(s), rhs = ZC.real_val(1);
		mpq_class one;
		Poly dummy;
		PP den = polyConst(1);
		for (auto& d : x.den) den = polyMul(den, polyPow(d.first, d.second));
		mpz_class l1 = 1, l2 = 1;
		for (auto& t : den->t) l1 = lcm(l1, t.c.get_den());
		for (auto& t : x.num->t) l2 = lcm(l2, t.c.get_den());
		// polyExpr scales by l: den*l1, num*l2
		z3::expr e = lhs * polyExpr(den) * ZC.real_val(mpz_class(l2).get_str().c_str()) == polyExpr(x.num) * ZC.real_val(mpz_class(l1).get_str().c_str());
		addCond(S, prep(Cond::ex(e)));
	}
	return mkReal(RatFun{polyVar(s), {}}, v.w);
}

// ---------------------------------------------------------------- violations
static Str jesc(const Str& s)
{
	Str r;
	for (char c : s)
	{
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if ((unsigned char)c < 32) r += ' ';
		else r += c;
	}
	return r;
}
static std::vector<std::pair<Str, Str>> inputsOf(State& S, const Model& m)
{
	std::vector<std::pair<Str, Str>> r;
	for (auto& in : S.inputs)
	{
		Str v;
		if (in.kind == 'r')
		{
			uint32_t id = in.v.n->rf.num->t[0].m[0].first;
			auto it = m.r.find(id);
			mpq_class q = it == m.r.end() ? defaultVal(id) : it->second;
			char buf[64];
			snprintf(buf, sizeof buf, "%.17g", q.get_d());
			v = buf;
		}
		else if (in.v.k == K_INT) v = std::to_string(in.v.lo);
		else
		{
			uint32_t tok = (uint32_t)in.v.lo;
			auto it = m.b.find(tok);
			uint64_t q = it == m.b.end() ? 0 : it->second;
			if (in.kind == 'f')
			{
				char buf[64];
				if (gBvVars.at(tok).width == 32) { float f; uint32_t u = (uint32_t)q; memcpy(&f, &u, 4); snprintf(buf, sizeof buf, "%.9g", f); }
				else { double d; memcpy(&d, &q, 8); snprintf(buf, sizeof buf, "%.17g", d); }
				v = buf;
			}
			else v = std::to_string(q);
		}
		r.emplace_back(in.name, v);
	}
	return r;
}
static void niceModels(State& S, const Model& base, const std::vector<CondP>& extra, const RatFun* diff, std::vector<Model>& out)
{
	// perturb the found model towards small numbers with a large difference (candidates for native replay)
	if (!base.valid) return;
	for (auto& c : S.path) for (uint32_t v : c->vars) if (v >= SQRTBASE && !(v & BVTOK)) return;
	std::mt19937 g(7);
	static const int nums[] = {0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 7, -7};
	std::vector<uint32_t> vars;
	for (auto& in : S.inputs) if (in.kind == 'r') vars.push_back(in.v.n->rf.num->t[0].m[0].first);
	if (vars.empty()) return;
	double best = -1;
	Model bm;
	for (int k = 0; k < 600; ++k)
	{
		Model t = base;
		for (auto v : vars) if (g() % 2) t.r[v] = nums[g() % 12];
		bool ok = true;
		for (auto& c : S.path) if (evalCond(*c, t) != 1) { ok = false; break; }
		if (ok) for (auto& c : extra) if (evalCond(*c, t) != 1) { ok = false; break; }
		if (!ok) continue;
		double score = 1;
		if (diff)
		{
			mpq_class n;
			if (!polyEval(*diff->num, t.r, n)) continue;
			for (auto& d : diff->den) { mpq_class q; polyEval(*d.first, t.r, q); if (q == 0) { n = 0; break; } for (int e = 0; e < d.second; ++e) n /= q; }
			score = std::min(fabs(n.get_d()), 1e6);
		}
		if (score > best) { best = score; bm = t; if (!diff && k > 50) break; }
	}
	if (best > 0) out.push_back(bm);
}
static void violation(State& S, const Str& kind, const Str& msg, const CondP& extra, const RatFun* diff)
{
	if (gDebug) fprintf(stderr, "VIOL %s: %s\n  %s\n", kind.c_str(), msg.c_str(), where(S).c_str());
	std::vector<CondP> ex;
	if (extra) ex.push_back(extra);
	Model m = S.model;
	std::vector<Model> ms;
	Str key = kind + "|" + msg;
	int& cnt = violCount[key];
	if (cnt < 2 || viols.size() < 400)
	{
		if (extra || !S.model.valid)
		{
			std::vector<CondP> e2 = ex;
			if (e2.empty()) { Cond t = Cond::ex(ZC.bool_val(true)); e2.push_back(prep(t)); }
			Model bad = S.model;
			Res r = solve(S.path, S.model, e2, gAssertTo, m, !S.model.valid);
			if (r == UNSAT) throw PathStop{"pruned"};
			if (r == UNKNOWN)
			{
				nInconclusive++;
				if (inconclusive.size() < 20) inconclusive.push_back(kind + ": " + msg);
				throw PathStop{"inconclusive"};
			}
		}
		if (cnt < 2)
		{
			niceModels(S, m, ex, diff, ms);
			ms.push_back(m);
			Violation v;
			v.msg = msg; v.kind = kind; v.where = where(S);
			for (auto& x : ms) v.cands.push_back(inputsOf(S, x));
			if (viols.empty()) gTimeout = std::min(gTimeout, elapsed() + 30); // enough to report
			viols.push_back(v);
		}
	}
	cnt++;
	nViolPaths++;
	throw PathStop{"violation"};
}

// ---------------------------------------------------------------- memory
static Obj* findObj(State& S, uint64_t a, bool& shared)
{
	shared = false;
	auto it = S.mem.upper_bound(a);
	if (it != S.mem.begin())
	{
		--it;
		Obj* o = it->second.get();
		if (a >= o->base && a <= o->base + o->size) return o;
	}
	auto jt = gShared.upper_bound(a);
	if (jt != gShared.begin())
	{
		--jt;
		Obj* o = jt->second.get();
		if (a >= o->base && a <= o->base + o->size) { shared = true; return o; }
	}
	return nullptr;
}
static Obj* access(State& S, uint64_t a, uint64_t n, bool write)
{
	bool sh;
	Obj* o = findObj(S, a, sh);
	if (!o)
	{
		if (a < 4096) violation(S, "memory", "null pointer access");
		violation(S, "memory", "access outside any object");
	}
	if (!o->alive) violation(S, "memory", Str("access to ") + (o->kind == 'h' ? "freed heap memory" : "dead stack memory"));
	if (a + n > o->base + o->size) violation(S, "memory", Str("out-of-bounds ") + (write ? "write" : "read") + " of " + (o->kind == 'h' ? "heap" : o->kind == 'a' ? "stack" : "global") + " memory");
	if (write)
	{
		if (sh || o->ro) violation(S, "memory", "write to constant memory");
		auto& p = S.mem.find(o->base)->second;
		if (p.use_count() > 1) { p = std::make_shared<Obj>(*p); o = p.get(); }
	}
	return o;
}
static uint64_t alloc(State& S, uint64_t n, char kind, bool zero = false)
{
	if (n > (64u << 20)) violation(S, "memory", "huge allocation");
	auto o = std::make_shared<Obj>();
	o->base = S.brk;
	o->size = n;
	o->kind = kind;
	o->data.assign(n, 0);
	o->st.assign(n, zero ? 1 : 0);
	S.brk += ((n + 15) / 16) * 16 + 48;
	S.mem.emplace(o->base, o);
	if (kind == 'h') S.liveHeap++;
	return o->base;
}
static void release(State& S, uint64_t a)
{
	auto it = S.mem.find(a);
	auto& p = it->second;
	auto d = std::make_shared<Obj>();
	d->base = p->base; d->size = p->size; d->kind = p->kind; d->alive = false; d->name = p->name;
	p = d;
}
// remove symbolic cells overlapping [off, off+n), splitting bit-vectors
static void shatter(Obj* o, uint32_t off, uint32_t n)
{
	if (o->sym.empty()) return;
	auto it = o->sym.upper_bound(off);
	if (it != o->sym.begin()) { auto pr = std::prev(it); if (pr->first + pr->second.second > off) it = pr; }
	while (it != o->sym.end() && it->first < off + n)
	{
		uint32_t s = it->first, z = it->second.second;
		Val v = it->second.first;
		bool inside = s >= off && s + z <= off + n;
		it = o->sym.erase(it);
		if (!inside)
		{
			if (v.k == K_FP) v = asInt(v);
			if ((v.k == K_BV && v.w == z * 8) || (isRealK(v) && v.w == z * 8) || v.k == K_FRAG)
				for (uint32_t i = 0; i < z; ++i)
				{
					if (s + i >= off && s + i < off + n) continue;
					Val b = byteOf(v, i);
					if (b.k == K_INT) { o->st[s + i] = 1; o->data[s + i] = (uint8_t)b.lo; }
					else { o->sym[s + i] = {b, 1}; o->st[s + i] = 2; }
				}
			else
				for (uint32_t i = 0; i < z; ++i) o->st[s + i] = 0;
			it = o->sym.lower_bound(off);
		}
	}
}
static void storeVal(Obj* o, uint32_t off, const Val& v0, uint32_t n)
{
	Val v = v0;
	shatter(o, off, n);
	if (v.k == K_UNDEF) { memset(&o->st[off], 0, n); return; }
	if (v.k == K_FRAG && n > 1)
	{
		for (uint32_t i = 0; i < n; ++i) storeVal(o, off + i, v.n->agg[i], 1);
		return;
	}
	if (v.k == K_FLT) { v.k = K_INT; }
	if (v.k == K_INT)
	{
		for (uint32_t i = 0; i < n; ++i) { o->data[off + i] = i < 8 ? (uint8_t)(v.lo >> (8 * i)) : 0; }
		memset(&o->st[off], 1, n);
		return;
	}
	if (v.k == K_BV && v.w == 1)
	{
		v = mkBV(z3::ite(bvE(v), ZC.bv_val(1, 8), ZC.bv_val(0, 8)), 8);
	}
	else if (v.k == K_BV && v.w < n * 8)
		v = mkBV(z3::zext(v.n->e, n * 8 - v.w), n * 8);
	o->sym[off] = {v, n};
	memset(&o->st[off], 2, n);
}
static Val loadVal(Obj* o, uint32_t off, uint32_t n, unsigned w, bool isFloat)
{
	bool allC = true, allU = true, anyU = false;
	for (uint32_t i = 0; i < n; ++i)
	{
		uint8_t s = o->st[off + i];
		if (s != 1) allC = false;
		if (s != 0) allU = false;
		else anyU = true;
	}
	if (allC)
	{
		uint64_t b = 0;
		if (n > 8 && isFloat)
		{
			bool z = true;
			for (uint32_t i = 0; i < n; ++i) if (o->data[off + i]) z = false;
			if (z) return mkRealC(0, w);
			throw Unsup{"concrete 80-bit load"};
		}
		if (n > 8)
		{
			z3::expr e = ZC.bv_val((uint64_t)o->data[off], 8);
			for (uint32_t i = 1; i < n; ++i) e = z3::concat(ZC.bv_val((uint64_t)o->data[off + i], 8), e);
			return mkBV(e, w);
		}
		for (uint32_t i = 0; i < n; ++i) b |= (uint64_t)o->data[off + i] << (8 * i);
		if (isFloat) return realFromBits(b, w);
		return Val::I(b, w);
	}
	if (allU) return Val::U(w);
	auto it = o->sym.find(off);
	if (it != o->sym.end() && it->second.second == n)
	{
		Val v = it->second.first;
		if (isFloat && v.k == K_BV) { if (gFp) return mkFpE(fpE(v), w); throw Unsup{"float view of symbolic bits"}; }
		if (!isFloat && v.k == K_BV && v.w != w) return mkBV(w == 1 ? (v.n->e.extract(0, 0) == ZC.bv_val(1, 1)) : v.n->e.extract(w - 1, 0), w);
		return v;
	}
	if (anyU) return Val::U(w);
	// compose from bytes
	std::vector<Val> bytes(n);
	bool frag = false;
	for (uint32_t i = 0; i < n; ++i)
	{
		if (o->st[off + i] == 1) { bytes[i] = Val::I(o->data[off + i], 8); continue; }
		auto jt = o->sym.upper_bound(off + i);
		if (jt == o->sym.begin()) throw Unsup{"cell"};
		--jt;
		bytes[i] = byteOf(jt->second.first, off + i - jt->first);
		if (bytes[i].k == K_FRAG) frag = true;
	}
	if (frag) return joinBytes(bytes);
	z3::expr_vector parts(ZC);
	for (uint32_t i = n; i-- > 0;) parts.push_back(bvE(bytes[i]));
	z3::expr e = parts.size() == 1 ? parts[0] : z3::concat(parts);
	if (isFloat)
	{
		Val b = mkBV(e, w);
		if (b.k == K_INT) return realFromBits(b.lo, w);
		if (gFp) return mkFpE(fpE(b), w);
		throw Unsup{"float view of composed bits"};
	}
	if (w < n * 8) e = w == 1 ? (e.extract(0, 0) == ZC.bv_val(1, 1)) : e.extract(w - 1, 0);
	return mkBV(e, w);
}
static void copyMem(State& S, uint64_t d, uint64_t s, uint64_t n)
{
	if (n == 0) return;
	Obj* so = access(S, s, n, false);
	uint32_t soff = (uint32_t)(s - so->base);
	std::vector<uint8_t> data(so->data.begin() + soff, so->data.begin() + soff + n), st(so->st.begin() + soff, so->st.begin() + soff + n);
	std::vector<std::pair<uint32_t, std::pair<Val, uint32_t>>> cells;
	if (!so->sym.empty())
	{
		auto it = so->sym.upper_bound(soff);
		if (it != so->sym.begin()) --it;
		for (; it != so->sym.end() && it->first < soff + n; ++it)
		{
			uint32_t b = it->first, z = it->second.second;
			if (b + z <= soff) continue;
			if (b >= soff && b + z <= soff + n) cells.push_back({b - soff, it->second});
			else
			{
				Val v = it->second.first;
				for (uint32_t i = 0; i < z; ++i)
				{
					if (b + i < soff || b + i >= soff + n) continue;
					Val x = byteOf(v, i);
					if (x.k == K_INT) { st[b + i - soff] = 1; data[b + i - soff] = (uint8_t)x.lo; }
					else cells.push_back({b + i - soff, {x, 1}});
				}
			}
		}
	}
	Obj* o = access(S, d, n, true);
	uint32_t doff = (uint32_t)(d - o->base);
	shatter(o, doff, (uint32_t)n);
	memcpy(&o->data[doff], data.data(), n);
	memcpy(&o->st[doff], st.data(), n);
	for (auto& c : cells) o->sym[doff + c.first] = c.second;
}

// typed load / store
static unsigned bitsOf(Type* t)
{
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isFloatTy()) return 32;
	if (t->isDoubleTy()) return 64;
	if (t->isX86_FP80Ty()) return 80;
	if (t->isHalfTy()) return 16;
	return 0;
}
static Val loadT(State& S, Type* t, uint64_t a)
{
	if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
	{
		Val v; v.k = K_AGG;
		auto n = std::make_shared<Node>();
		if (auto* st = dyn_cast<StructType>(t))
		{
			auto* sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) n->agg.push_back(loadT(S, st->getElementType(i), a + sl->getElementOffset(i)));
		}
		else
		{
			Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
			uint64_t c = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
			uint64_t sz = DL->getTypeAllocSize(et);
			for (uint64_t i = 0; i < c; ++i) n->agg.push_back(loadT(S, et, a + i * sz));
		}
		v.n = n;
		return v;
	}
	uint64_t n = DL->getTypeStoreSize(t);
	Obj* o = access(S, a, n, false);
	return loadVal(o, (uint32_t)(a - o->base), (uint32_t)n, bitsOf(t), t->isFloatingPointTy());
}
static void storeT(State& S, Type* t, uint64_t a, const Val& v)
{
	if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
	{
		if (v.k == K_UNDEF) { uint64_t n = DL->getTypeStoreSize(t); Obj* o = access(S, a, n, true); storeVal(o, (uint32_t)(a - o->base), v, (uint32_t)n); return; }
		if (auto* st = dyn_cast<StructType>(t))
		{
			auto* sl = DL->getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); ++i) storeT(S, st->getElementType(i), a + sl->getElementOffset(i), v.n->agg[i]);
		}
		else
		{
			Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
			uint64_t sz = DL->getTypeAllocSize(et);
			for (size_t i = 0; i < v.n->agg.size(); ++i) storeT(S, et, a + i * sz, v.n->agg[i]);
		}
		return;
	}
	uint64_t n = DL->getTypeStoreSize(t);
	Obj* o = access(S, a, n, true);
	storeVal(o, (uint32_t)(a - o->base), v, (uint32_t)n);
}

// ---------------------------------------------------------------- constants
static Val constVal(const Constant* c);
static uint64_t constAddr(const Constant* c)
{
	Val v = constVal(c);
	return v.lo;
}
static mpq_class apToQ(const APFloat& f0)
{
	APFloat f = f0;
	// exact: significand * 2^exp through hex string
	SmallVector<char, 64> buf;
	char tmp[128];
	f.convertToHexString(tmp, 0, false, APFloat::rmNearestTiesToEven);
	// parse 0x1.abcp+e
	Str s(tmp);
	bool neg = s[0] == '-';
	if (neg) s = s.substr(1);
	s = s.substr(2);
	size_t p = s.find('p');
	Str man = s.substr(0, p);
	long e = strtol(s.substr(p + 1).c_str(), nullptr, 10);
	size_t dot = man.find('.');
	if (dot != Str::npos) { e -= 4 * (long)(man.size() - dot - 1); man.erase(dot, 1); }
	mpz_class z(man, 16);
	mpq_class q(z);
	if (e >= 0) { mpz_class t = 1; t <<= e; q *= t; }
	else { mpz_class t = 1; t <<= -e; q /= t; }
	return neg ? mpq_class(-q) : q;
}
static Val zeroOf(Type* t)
{
	if (t->isFloatingPointTy())
	{
		if (gFp) return mkFlt(0.0, bitsOf(t));
		return mkRealC(0, bitsOf(t));
	}
	if (t->isAggregateType() || t->isVectorTy())
	{
		Val v; v.k = K_AGG;
		auto n = std::make_shared<Node>();
		if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) n->agg.push_back(zeroOf(e));
		else
		{
			Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
			uint64_t c = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
			for (uint64_t i = 0; i < c; ++i) n->agg.push_back(zeroOf(et));
		}
		v.n = n;
		return v;
	}
	if (bitsOf(t) > 64) return mkBV(ZC.bv_val(0, bitsOf(t)), bitsOf(t));
	return Val::I(0, bitsOf(t));
}
static Val undefOf(Type* t)
{
	if (t->isAggregateType() || t->isVectorTy())
	{
		Val v; v.k = K_AGG;
		auto n = std::make_shared<Node>();
		if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) n->agg.push_back(undefOf(e));
		else
		{
			Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
			uint64_t c = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
			for (uint64_t i = 0; i < c; ++i) n->agg.push_back(undefOf(et));
		}
		v.n = n;
		return v;
	}
	return Val::U(bitsOf(t));
}
static Val constVal(const Constant* c)
{
	Type* t = c->getType();
	if (auto* ci = dyn_cast<ConstantInt>(c))
	{
		if (ci->getBitWidth() > 64)
		{
			SmallString<64> s;
			ci->getValue().toStringUnsigned(s);
			return mkBV(ZC.bv_val(s.c_str(), ci->getBitWidth()), ci->getBitWidth());
		}
		return Val::I(ci->getZExtValue(), ci->getBitWidth());
	}
	if (auto* cf = dyn_cast<ConstantFP>(c))
	{
		const APFloat& f = cf->getValueAPF();
		unsigned w = bitsOf(t);
		if (w == 80)
		{
			if (f.isNaN() || f.isInfinity()) return mkSpec(f.isNaN() ? NAN : f.isNegative() ? -INFINITY : INFINITY, w);
			if (f.isZero()) return mkRealC(0, w);
			return mkRealC(apToQ(f), w);
		}
		double d = w == 32 ? (double)f.convertToFloat() : f.convertToDouble();
		if (gFp) return mkFlt(d, w);
		if (std::isnan(d) || std::isinf(d)) return mkSpec(d, w);
		return mkRealC(fromDouble(d), w);
	}
	if (isa<ConstantPointerNull>(c)) return Val::I(0, 64);
	if (isa<UndefValue>(c)) return undefOf(t);
	if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
	if (auto* gv = dyn_cast<GlobalVariable>(c)) return Val::I(gvAddr.at(gv), 64);
	if (auto* f = dyn_cast<Function>(c)) return Val::I(fnAddr.at(f), 64);
	if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
	if (auto* cd = dyn_cast<ConstantDataSequential>(c))
	{
		Val v; v.k = K_AGG;
		auto n = std::make_shared<Node>();
		for (unsigned i = 0; i < cd->getNumElements(); ++i) n->agg.push_back(constVal(cd->getElementAsConstant(i)));
		v.n = n;
		return v;
	}
	if (isa<ConstantAggregate>(c))
	{
		Val v; v.k = K_AGG;
		auto n = std::make_shared<Node>();
		for (unsigned i = 0; i < c->getNumOperands(); ++i) n->agg.push_back(constVal(cast<Constant>(c->getOperand(i))));
		v.n = n;
		return v;
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c))
	{
		switch (ce->getOpcode())
		{
		case Instruction::GetElementPtr:
		{
			auto* gep = cast<GEPOperator>(ce);
			APInt off(64, 0);
			if (!gep->accumulateConstantOffset(*DL, off)) throw Unsup{"constant gep"};
			return Val::I(constAddr(ce->getOperand(0)) + off.getSExtValue(), 64);
		}
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
		case Instruction::PtrToInt: case Instruction::IntToPtr: return Val::I(constAddr(ce->getOperand(0)), bitsOf(t));
		case Instruction::Add: return Val::I(constVal(ce->getOperand(0)).lo + constVal(ce->getOperand(1)).lo, bitsOf(t));
		case Instruction::Sub: return Val::I(constVal(ce->getOperand(0)).lo - constVal(ce->getOperand(1)).lo, bitsOf(t));
		case Instruction::Trunc: return Val::I(constVal(ce->getOperand(0)).lo, bitsOf(t));
		}
		throw Unsup{Str("constant expression ") + ce->getOpcodeName()};
	}
	throw Unsup{"constant kind"};
}

#include "interp.inc"
