#include "solver.h"
#include <random>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <sstream>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

z3::context* gCtx = nullptr;
PolyTable gPolys;
SqrtVars gSqrt;
std::vector<PP> gKnownFactors;
size_t gPolyTermLimit = 4000000;
std::map<uint32_t, VarInfo> gBvVars;
SolverStats gStats;
static std::unordered_map<std::string, std::pair<Res, Model>> gCache;

z3::expr realVar(uint32_t v)
{
	return ZC.real_const((v >= SQRTBASE ? "s" + std::to_string(v - SQRTBASE) : "v" + std::to_string(v)).c_str());
}
z3::expr polyExpr(const PP& p0)
{
	static std::unordered_map<uint32_t, z3::expr> memo;
	PP p = gPolys.intern(p0);
	auto it = memo.find(p->id);
	if (it != memo.end()) return it->second;
	// scale to integer coefficients (positive factor: keeps the sign)
	mpz_class l = 1;
	for (auto& t : p->t) l = lcm(l, t.c.get_den());
	z3::expr_vector sum(ZC);
	for (auto& t : p->t)
	{
		mpq_class c = t.c * l;
		z3::expr_vector f(ZC);
		if (c != 1 || t.m.empty()) f.push_back(ZC.real_val(c.get_str().c_str()));
		for (auto& q : t.m)
			for (uint32_t e = 0; e < q.second; ++e) f.push_back(realVar(q.first));
		z3::expr m = f[0];
		if (f.size() > 1)
		{
			std::vector<Z3_ast> a;
			for (unsigned i = 0; i < f.size(); ++i) a.push_back(f[i]);
			m = z3::expr(ZC, Z3_mk_mul(ZC, a.size(), a.data()));
		}
		sum.push_back(m);
	}
	z3::expr r = sum.size() == 0 ? ZC.real_val(0) : sum.size() == 1 ? sum[0] : z3::sum(sum);
	memo.emplace(p->id, r);
	return r;
}
static void exprVars(const z3::expr& e, std::set<uint32_t>& s, std::unordered_set<unsigned>& seen)
{
	if (!seen.insert(e.id()).second) return;
	if (e.is_app())
	{
		if (e.num_args() == 0 && e.decl().decl_kind() == Z3_OP_UNINTERPRETED)
		{
			std::string n = e.decl().name().str();
			if (n[0] == 'v') s.insert(std::stoul(n.substr(1)));
			else if (n[0] == 's') s.insert(SQRTBASE + std::stoul(n.substr(1)));
			else if (n[0] == 'b') s.insert(BVTOK | std::stoul(n.substr(1)));
			return;
		}
		for (unsigned i = 0; i < e.num_args(); ++i) exprVars(e.arg(i), s, seen);
	}
}
void prepareCond(Cond& c)
{
	if (c.prepared) return;
	std::set<uint32_t> s;
	if (c.p) polyVars(*c.p, s);
	else { std::unordered_set<unsigned> seen; exprVars(c.e, s, seen); }
	c.vars.assign(s.begin(), s.end());
	c.prepared = true;
}
static z3::expr bvConst(const VarInfo& vi, uint64_t val)
{
	if (!vi.fp)
		return vi.e.is_bool() ? ZC.bool_val(val & 1) : ZC.bv_val((uint64_t)val, vi.width);
	z3::expr b = ZC.bv_val((uint64_t)val, vi.width);
	return z3::expr(ZC, Z3_mk_fpa_to_fp_bv(ZC, b, vi.e.get_sort()));
}
int evalCond(const Cond& c, const Model& m)
{
	if (!m.valid) return -1;
	if (c.p)
	{
		mpq_class v;
		if (!polyEval(*c.p, m.r, v)) return -1;
		int sg = sgn(v);
		uint8_t bit = sg < 0 ? 1 : sg == 0 ? 2 : 4;
		return (c.mask & bit) ? 1 : 0;
	}
	std::set<uint32_t> vs;
	if (c.prepared) vs.insert(c.vars.begin(), c.vars.end());
	else { std::unordered_set<unsigned> seen; exprVars(c.e, vs, seen); }
	z3::expr_vector from(ZC), to(ZC);
	for (uint32_t v : vs)
	{
		if (v & BVTOK)
		{
			auto it = gBvVars.find(v);
			if (it == gBvVars.end()) return -1;
			auto k = m.b.find(v);
			from.push_back(it->second.e);
			to.push_back(bvConst(it->second, k == m.b.end() ? 0 : k->second));
		}
		else if (v >= SQRTBASE) return -1;
		else
		{
			auto k = m.r.find(v);
			from.push_back(realVar(v));
			to.push_back(ZC.real_val((k == m.r.end() ? defaultVal(v) : k->second).get_str().c_str()));
		}
	}
	z3::expr x = c.e;
	z3::expr r = x.substitute(from, to).simplify();
	if (r.is_true()) return 1;
	if (r.is_false()) return 0;
	return -1;
}
static bool allTrue(const std::vector<const Cond*>& cs, const Model& m)
{
	for (auto c : cs) if (evalCond(*c, m) != 1) return false;
	return true;
}
static std::mt19937 rng(12345);
static std::unordered_map<unsigned, z3::expr> keepAlive;
static bool quickSat(const std::vector<const Cond*>& cs, const std::vector<const Cond*>& target, Model& m)
{
	// try to repair the model towards the target atoms by changing one or two real variables
	static const int nums[] = {0, 1, -1, 2, -2, 3, -3, 5, -7, 10, -20, 100};
	for (auto c : target) if (!c->p) return false;
	for (auto c : cs)
		for (uint32_t v : c->vars) if (v >= SQRTBASE && !(v & BVTOK)) return false;
	std::set<uint32_t> vs;
	for (auto c : target) vs.insert(c->vars.begin(), c->vars.end());
	std::vector<uint32_t> vv;
	for (auto v : vs) if (!(v & BVTOK)) vv.push_back(v);
	if (vv.empty()) return false;
	auto val = [&](const Model& mm, uint32_t v) { auto i = mm.r.find(v); return i == mm.r.end() ? defaultVal(v) : i->second; };
	size_t budget = 40;
	for (int round = 0; round < 3; ++round)
	{
		Model cur = m;
		if (round > 0)
			for (auto v : vv)
				if (rng() % 2) cur.r[v] = mpq_class(nums[rng() % 12]);
		for (auto v : vv)
		{
			for (auto c : target)
			{
				Model t = cur;
				mpq_class a, b, o;
				t.r[v] = 0; polyEval(*c->p, t.r, b);
				t.r[v] = 1; polyEval(*c->p, t.r, a);
				a -= b;
				std::vector<mpq_class> tries;
				if (a != 0)
				{
					mpq_class root = -b / a;
					if (c->mask & 2) tries.push_back(root);
					int s = sgn(a);
					if (c->mask & 4) tries.push_back(root + s);
					if (c->mask & 1) tries.push_back(root - s);
					tries.push_back(root);
				}
				tries.push_back(mpq_class(nums[rng() % 12]));
				tries.push_back(val(cur, v) + 1);
				tries.push_back(-val(cur, v));
				for (auto& q : tries)
				{
					t.r[v] = q;
					if (evalCond(*c, t) != 1) continue;
					if (budget-- == 0) return false;
					if (allTrue(cs, t)) { m = t; return true; }
				}
			}
		}
	}
	return false;
}
static bool numeral(const z3::expr& v, mpq_class& out)
{
	if (v.is_numeral())
	{
		std::string s = v.get_decimal_string(0);
		s = Z3_get_numeral_string(ZC, v);
		out = mpq_class(s);
		out.canonicalize();
		return true;
	}
	if (v.is_algebraic())
	{
		z3::expr a = z3::expr(ZC, Z3_get_algebraic_number_upper(ZC, v, 40));
		out = mpq_class(Z3_get_numeral_string(ZC, a));
		out.canonicalize();
		return false;
	}
	out = 0;
	return false;
}
static Res solveHere(const std::vector<const Cond*>& sl, const std::set<uint32_t>& vs, bool lin, bool anyReal, bool anyBv, unsigned timeoutMs, Model& part)
{
	Res r = UNKNOWN;
	for (int attempt = 0; attempt < 2 && r == UNKNOWN; ++attempt)
	{
		try
		{
			z3::solver s = (anyReal && !anyBv) ? (lin ? z3::solver(ZC, "QF_LRA") : attempt == 0 ? z3::solver(ZC, "QF_NRA") : z3::solver(ZC))
				: (anyBv && !anyReal ? (attempt == 0 ? z3::solver(ZC) : z3::solver(ZC, z3::solver::simple())) : z3::solver(ZC));
			z3::params pr(ZC);
			pr.set("timeout", timeoutMs);
			s.set(pr);
			for (auto c : sl) s.add(c->expr());
			if (getenv("SX_DUMPQ") && attempt == 0)
				fprintf(stderr, "%s\n", s.to_smt2().c_str());
			z3::check_result cr = s.check();
			if (cr == z3::unsat) r = UNSAT;
			else if (cr == z3::sat)
			{
				r = SAT;
				z3::model zm = s.get_model();
				for (uint32_t v : vs)
				{
					if (v & BVTOK)
					{
						auto it = gBvVars.find(v);
						if (it == gBvVars.end()) continue;
						z3::expr x = zm.eval(it->second.e, true);
						uint64_t val = 0;
						if (it->second.fp)
						{
							z3::expr bv = z3::expr(ZC, Z3_mk_fpa_to_ieee_bv(ZC, x)).simplify();
							if (bv.is_numeral()) val = bv.get_numeral_uint64();
							else val = it->second.width == 64 ? 0x7ff8000000000000ull : 0x7fc00000ull; // NaN
						}
						else if (x.is_bool()) val = x.is_true();
						else val = x.get_numeral_uint64();
						part.b[v] = val;
					}
					else
					{
						z3::expr x = zm.eval(realVar(v), true);
						mpq_class q;
						if (!numeral(x, q) && v < SQRTBASE) part.valid = false;
						part.r[v] = q;
					}
				}
			}
		}
		catch (z3::exception& ex)
		{
			if (getenv("SX_DEBUG")) fprintf(stderr, "z3: %s\n", ex.msg());
		}
		if (lin && anyReal && !anyBv) break;
	}
	return r;
}
// z3 may overrun its time limit on large polynomials: ask in a child process that can be ended
static Res solveApart(const std::vector<const Cond*>& sl, const std::set<uint32_t>& vs, bool lin, bool anyReal, bool anyBv, unsigned timeoutMs, Model& part)
{
	int fd[2];
	if (pipe(fd)) return UNKNOWN;
	pid_t pid = fork();
	if (pid < 0) { close(fd[0]); close(fd[1]); return UNKNOWN; }
	if (pid == 0)
	{
		close(fd[0]);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		Model m;
		Res r = solveHere(sl, vs, lin, anyReal, anyBv, timeoutMs, m);
		std::ostringstream o;
		o << (int)r << " " << m.valid << " " << m.r.size() << " " << m.b.size() << "\n";
		for (auto& k : m.r) o << k.first << " " << k.second.get_str() << "\n";
		for (auto& k : m.b) o << k.first << " " << k.second << "\n";
		std::string s = o.str();
		size_t at = 0;
		while (at < s.size()) { ssize_t w = write(fd[1], s.data() + at, s.size() - at); if (w <= 0) break; at += (size_t)w; }
		_exit(0);
	}
	close(fd[1]);
	std::string s;
	auto t0 = std::chrono::steady_clock::now();
	for (;;)
	{
		long left = 2L * timeoutMs + 1000 - (long)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
		if (left <= 0) { s.clear(); break; }
		pollfd pf{fd[0], POLLIN, 0};
		int k = poll(&pf, 1, (int)left);
		if (k < 0 && errno == EINTR) continue;
		if (k <= 0) { s.clear(); break; }
		char buf[4096];
		ssize_t n = read(fd[0], buf, sizeof buf);
		if (n <= 0) break;
		s.append(buf, (size_t)n);
	}
	kill(pid, SIGKILL);
	waitpid(pid, nullptr, 0);
	close(fd[0]);
	std::istringstream i(s);
	int r = UNKNOWN;
	size_t nr = 0, nb = 0;
	if (!(i >> r >> part.valid >> nr >> nb)) { part = Model(); return UNKNOWN; }
	for (size_t k = 0; k < nr; ++k) { uint32_t v; std::string q; if (!(i >> v >> q)) { part = Model(); return UNKNOWN; } part.r[v] = mpq_class(q); }
	for (size_t k = 0; k < nb; ++k) { uint32_t v; uint64_t q; if (!(i >> v >> q)) { part = Model(); return UNKNOWN; } part.b[v] = q; }
	return (Res)r;
}
Res solve(const std::vector<CondP>& path, const Model& base, const std::vector<CondP>& extra, unsigned timeoutMs, Model& out, bool whole)
{
	// independence slice
	std::vector<const Cond*> sl, tg;
	std::set<uint32_t> vs;
	for (auto& c : extra) { sl.push_back(c.get()); tg.push_back(c.get()); vs.insert(c->vars.begin(), c->vars.end()); }
	std::vector<bool> used(path.size(), false);
	bool ch = true;
	while (ch)
	{
		ch = false;
		for (size_t i = 0; i < path.size(); ++i)
		{
			if (used[i]) continue;
			bool hit = whole;
			for (uint32_t v : path[i]->vars) if (vs.count(v)) { hit = true; break; }
			if (hit)
			{
				used[i] = true;
				sl.push_back(path[i].get());
				vs.insert(path[i]->vars.begin(), path[i]->vars.end());
				ch = true;
			}
		}
	}
	if (base.valid)
	{
		Model t = base;
		if (quickSat(sl, tg, t)) { gStats.quick++; out = t; return SAT; }
	}
	std::vector<std::string> keys;
	bool lin = true, anyReal = false, anyBv = false;
	for (auto c : sl)
	{
		if (c->p)
		{
			PP q = gPolys.intern(c->p);
			keys.push_back("p" + std::to_string(q->id) + "m" + std::to_string(c->mask));
			if (q->degree() > 1) lin = false;
			anyReal = true;
		}
		else
		{
			keepAlive.emplace(c->e.id(), c->e); // ids are recycled once an ast is freed
			keys.push_back("e" + std::to_string(c->e.id()));
			for (uint32_t v : c->vars) { if (v & BVTOK) anyBv = true; else { anyReal = true; lin = false; } }
		}
	}
	std::sort(keys.begin(), keys.end());
	keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
	std::string key;
	for (auto& k : keys) key += k + ",";
	auto merge = [&](const Model& part) {
		out = base;
		for (auto& k : part.r) out.r[k.first] = k.second;
		for (auto& k : part.b) out.b[k.first] = k.second;
		out.valid = base.valid && part.valid;
	};
	auto hit = gCache.find(key);
	if (hit != gCache.end() && hit->second.first != UNKNOWN)
	{
		gStats.cache++;
		if (hit->second.first == SAT) merge(hit->second.second);
		return hit->second.first;
	}
	auto t0 = std::chrono::steady_clock::now();
	Res r = UNKNOWN;
	Model part;
	gStats.queries++;
	size_t terms = 0;
	for (auto c : sl) if (c->p && c->p->degree() > 1) terms += c->p->t.size();
	if (terms > 400) r = solveApart(sl, vs, lin, anyReal, anyBv, timeoutMs, part);
	else r = solveHere(sl, vs, lin, anyReal, anyBv, timeoutMs, part);
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	gStats.time += dt;
	if (dt > gStats.maxTime) gStats.maxTime = dt;
	if (r == SAT) gStats.sat++;
	else if (r == UNSAT) gStats.unsat++;
	else gStats.unknown++;
	if (r != UNKNOWN) gCache.emplace(key, std::make_pair(r, part));
	if (r == SAT) merge(part);
	return r;
}

RatFun ratReduce(RatFun r)
{
	if (gSqrt.arg.empty()) return r;
	for (int guard = 0; guard < 200; ++guard)
	{
		uint32_t best = 0;
		bool inDen = false;
		for (auto& t : r.num->t)
			for (auto& q : t.m)
				if (q.first >= SQRTBASE && q.second >= 2 && q.first > best) { best = q.first; inDen = false; }
		for (auto& d : r.den)
			if (d.first->t.size() == 1 && d.first->t[0].m.size() == 1 && d.first->t[0].m[0].first >= SQRTBASE && d.first->t[0].m[0].first > best)
			{ best = d.first->t[0].m[0].first; inDen = true; }
		if (!best) return r;
		const RatFun A = gSqrt.arg.at(best);
		if (inDen)
		{
			RatFun o;
			int e = 0;
			for (auto& d : r.den)
			{
				if (d.first->t.size() == 1 && d.first->t[0].m.size() == 1 && d.first->t[0].m[0].first == best) e = d.second;
				else o.den.push_back(d);
			}
			o.num = polyMul(r.num, polyPow(polyVar(best), e));
			RatFun inv = ratInv(A);
			for (int i = 0; i < e; ++i) o = ratMul(o, inv);
			r = o;
			continue;
		}
		std::map<uint32_t, Poly> parts;
		for (auto& t : r.num->t)
		{
			uint32_t k = 0;
			Term u;
			u.c = t.c;
			for (auto& q : t.m)
			{
				if (q.first == best) k = q.second;
				else u.m.push_back(q);
			}
			parts[k].t.push_back(u);
		}
		RatFun sum = ratConst(0);
		for (auto& kv : parts)
		{
			Poly pp = kv.second;
			std::sort(pp.t.begin(), pp.t.end(), [](const Term& a, const Term& b) { return monoCmp(a.m, b.m) > 0; });
			RatFun x{mkPoly(std::move(pp)), {}};
			for (uint32_t i = 0; i < kv.first / 2; ++i) x = ratMul(x, A);
			if (kv.first % 2) x.num = polyMul(x.num, polyVar(best));
			sum = ratAdd(sum, x);
		}
		RatFun rest{polyConst(1), r.den};
		r = ratMul(sum, rest);
	}
	return r;
}
