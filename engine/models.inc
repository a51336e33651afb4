// ---------------------------------------------------------------- models of external functions
static Str cstr(State& S, uint64_t a)
{
	Str r;
	for (;; ++a)
	{
		Obj* o = access(S, a, 1, false);
		Val v = loadVal(o, (uint32_t)(a - o->base), 1, 8, false);
		if (v.k != K_INT || v.lo == 0) break;
		r += (char)v.lo;
	}
	return r;
}
static bool mNop(State&, CI&, std::vector<Val>&, Val&) { return true; }
static bool mRet0(State&, CI& ci, std::vector<Val>&, Val& r) { r = Val::I(0, ci.w ? ci.w : 32); return true; }
static bool mArg0(State&, CI&, std::vector<Val>& a, Val& r) { r = a[0]; return true; }
static bool mMalloc(State& S, CI&, std::vector<Val>& a, Val& r)
{
	uint64_t n = concretize(S, a[0]);
	if (n > (1ull << 40)) { raiseStd(S, "_ZTISt9bad_alloc"); }
	r = Val::I(alloc(S, n, 'h'), 64);
	return true;
}
static bool mNewArr(State& S, CI&, std::vector<Val>& a, Val& r)
{
	uint64_t n = concretize(S, a[0]);
	if (n > (1ull << 40)) { raiseStd(S, "_ZTISt20bad_array_new_length"); }
	uint64_t p = alloc(S, n, 'h');
	S.mem[p]->name = "[]";
	r = Val::I(p, 64);
	return true;
}
static bool mCalloc(State& S, CI&, std::vector<Val>& a, Val& r)
{
	uint64_t n = concretize(S, a[0]) * concretize(S, a[1]);
	r = Val::I(alloc(S, n, 'h', true), 64);
	return true;
}
static void freeImpl(State& S, uint64_t p, bool arr, bool anyKind)
{
	if (!p) return;
	auto it = S.mem.find(p);
	if (it == S.mem.end() || (it->second->kind != 'h' && it->second->kind != 'e')) violation(S, "memory", "release of a pointer that was not allocated");
	if (!it->second->alive) violation(S, "memory", "double release of heap memory");
	if (!anyKind && (it->second->name == "[]") != arr) violation(S, "memory", "mismatched new/delete forms");
	if (it->second->kind == 'h') S.liveHeap--;
	release(S, p);
}
static bool mFree(State& S, CI&, std::vector<Val>& a, Val&) { freeImpl(S, concretize(S, a[0]), false, true); return true; }
static bool mDel(State& S, CI&, std::vector<Val>& a, Val&) { freeImpl(S, concretize(S, a[0]), false, false); return true; }
static bool mDelArr(State& S, CI&, std::vector<Val>& a, Val&) { freeImpl(S, concretize(S, a[0]), true, false); return true; }
static bool mMemcpy(State& S, CI&, std::vector<Val>& a, Val& r)
{
	uint64_t n = concretize(S, a[2]), d = concretize(S, a[0]), s = concretize(S, a[1]);
	copyMem(S, d, s, n);
	r = a[0];
	return true;
}
static bool mMemset(State& S, CI&, std::vector<Val>& a, Val& r)
{
	uint64_t n = concretize(S, a[2]), d = concretize(S, a[0]);
	r = a[0];
	if (n == 0) return true;
	Obj* o = access(S, d, n, true);
	uint32_t off = (uint32_t)(d - o->base);
	shatter(o, off, (uint32_t)n);
	Val v = asInt(a[1]);
	if (v.k == K_UNDEF) memset(&o->st[off], 0, n);
	else if (v.k == K_INT) { memset(&o->data[off], (int)(v.lo & 255), n); memset(&o->st[off], 1, n); }
	else
	{
		Val b = v.w == 8 ? v : mkBV(bvE(v).extract(7, 0), 8);
		for (uint64_t i = 0; i < n; ++i) storeVal(o, off + i, b, 1);
	}
	return true;
}
static bool mAbort(State& S, CI&, std::vector<Val>&, Val&) { violation(S, "abort", "library assertion failed (abort)"); return true; }
static bool mTerminate(State& S, CI&, std::vector<Val>&, Val&) { violation(S, "exception", "std::terminate called"); return true; }
static bool mTrap(State& S, CI&, std::vector<Val>&, Val&) { violation(S, "crash", "trap reached"); return true; }
static bool mUnexpected(State& S, CI&, std::vector<Val>&, Val&) { violation(S, "exception", "exception outside the declared ones"); return true; }
static bool mPure(State& S, CI&, std::vector<Val>&, Val&) { violation(S, "crash", "pure virtual call"); return true; }
template<int K> static bool mThrowStd(State& S, CI&, std::vector<Val>&, Val&)
{
	static const char* t[] = {"_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt16invalid_argument", "_ZTISt9bad_alloc", "_ZTISt20bad_array_new_length", "_ZTISt13runtime_error", "_ZTISt8bad_cast", "_ZTISt17bad_function_call"};
	raiseStd(S, t[K]);
	return false;
}
static bool mCxaAlloc(State& S, CI&, std::vector<Val>& a, Val& r) { r = Val::I(alloc(S, std::max<uint64_t>(a[0].lo, 1), 'e'), 64); return true; }
static bool mCxaFree(State& S, CI&, std::vector<Val>& a, Val&) { release(S, a[0].lo); return true; }
static Str typeAt(uint64_t a)
{
	auto it = addrGv.find(a);
	return it == addrGv.end() ? "?" : it->second->getName().str();
}
static void setExcType(State& S, uint64_t o, const Str& t)
{
	auto& p = S.mem[o];
	if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
	p->name = t;
}
static bool mCxaThrow(State& S, CI&, std::vector<Val>& a, Val&)
{
	Str t = typeAt(a[1].lo);
	setExcType(S, a[0].lo, t);
	raise(S, a[0].lo, t);
	return false;
}
static bool mBeginCatch(State& S, CI&, std::vector<Val>& a, Val& r)
{
	S.caught.emplace_back(a[0].lo, S.excType);
	r = a[0];
	return true;
}
static bool mEndCatch(State& S, CI&, std::vector<Val>&, Val&)
{
	if (!S.caught.empty()) S.caught.pop_back();
	return true;
}
static bool mRethrow(State& S, CI&, std::vector<Val>&, Val&)
{
	if (S.caught.empty()) violation(S, "exception", "rethrow without exception");
	auto c = S.caught.back();
	raise(S, c.first, typeNames[c.second]);
	return false;
}
static bool mTypeid(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	r = Val::I(typeIdx(a[0].lo ? typeAt(a[0].lo) : "*"), 32);
	return true;
}
static bool mFabs(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	Val v = a[0];
	if (v.k == K_UNDEF) { r = v; return true; }
	if (gFp) { r = v.k == K_FLT ? mkFlt(fabs(fltD(v)), v.w) : mkFpE(z3::expr(ZC, Z3_mk_fpa_abs(ZC, fpE(v))), v.w); return true; }
	v = fixReal(v);
	if (v.k == K_SPEC) { r = mkSpec(fabs(specD(v)), v.w); return true; }
	if (v.n->rf.isConst()) { r = mkRealC(abs(v.n->rf.constVal()), v.w); return true; }
	if (v.n->abs) { r = v; return true; }
	Cond c = signCond(S, v.n->rf, 6);
	int k = factCheck(S, c);
	if (k == 1) { r = v; return true; }
	if (k == 0) { r = mkReal(ratNeg(v.n->rf), v.w); return true; }
	r = mkReal(v.n->rf, v.w, true);
	return true;
}
static bool mSqrt(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp)
	{
		if (a[0].k == K_FLT) { r = mkFlt(a[0].w == 32 ? sqrtf((float)fltD(a[0])) : sqrt(fltD(a[0])), a[0].w); return true; }
		r = mkFpE(z3::expr(ZC, Z3_mk_fpa_sqrt(ZC, rne(), fpE(a[0]))), a[0].w);
		return true;
	}
	r = realSqrt(S, a[0]);
	return true;
}
template<bool MAX> static bool mMinMax(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp)
	{
		r = mkFpE(z3::expr(ZC, MAX ? Z3_mk_fpa_max(ZC, fpE(a[0]), fpE(a[1])) : Z3_mk_fpa_min(ZC, fpE(a[0]), fpE(a[1]))), a[0].w);
		return true;
	}
	Val x = fixReal(a[0]), y = fixReal(a[1]);
	if (x.k == K_SPEC && std::isnan(specD(x))) { r = y; return true; }
	if (y.k == K_SPEC && std::isnan(specD(y))) { r = x; return true; }
	bool lt = decideBool(S, realCmp(S, CmpInst::FCMP_OLT, x, y));
	r = (lt == MAX) ? y : x;
	return true;
}
static bool mFma(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp) { r = fpArith(Instruction::FAdd, fpArith(Instruction::FMul, a[0], a[1]), a[2]); return true; }
	r = realArith(S, Instruction::FAdd, realArith(S, Instruction::FMul, a[0], a[1]), a[2]);
	return true;
}
static bool mCopysign(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp) throw Unsup{"copysign fp"};
	Val m;
	std::vector<Val> t{a[0]};
	mFabs(S, ci, t, m);
	Val s = fixReal(a[1]);
	bool neg = s.k == K_SPEC ? std::signbit(specD(s)) : decideSign(S, asReal(S, s), 1);
	if (!neg) { r = m; return true; }
	r = m.k == K_SPEC ? mkSpec(-specD(m), m.w) : mkReal(ratNeg(asReal(S, m)), m.w);
	return true;
}
template<int K> static bool mRound(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp && a[0].k == K_FLT)
	{
		double d = fltD(a[0]);
		r = mkFlt(K == 0 ? floor(d) : K == 1 ? ceil(d) : K == 2 ? trunc(d) : round(d), a[0].w);
		return true;
	}
	if (gFp) throw Unsup{"rounding on symbolic fp"};
	Val v = fixReal(a[0]);
	RatFun x = asReal(S, v);
	if (!x.isConst()) throw Unsup{"rounding on symbolic real"};
	mpq_class q = x.constVal();
	mpz_class fl;
	mpz_fdiv_q(fl.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
	mpz_class z = fl;
	if (K == 1 && q != mpq_class(fl)) z += 1;
	if (K == 2 && sgn(q) < 0 && q != mpq_class(fl)) z += 1;
	if (K == 3) { mpq_class t = abs(q) + mpq_class(1, 2); mpz_fdiv_q(z.get_mpz_t(), t.get_num_mpz_t(), t.get_den_mpz_t()); if (sgn(q) < 0) z = -z; }
	r = mkRealC(mpq_class(z), v.w);
	return true;
}
static Val realPowI(State& S, const Val& b, long e)
{
	Val r = mkRealC(1, b.w);
	for (long i = 0; i < std::labs(e); ++i) r = realArith(S, Instruction::FMul, r, b);
	if (e < 0) r = realArith(S, Instruction::FDiv, mkRealC(1, b.w), r);
	return r;
}
static bool mPow(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp)
	{
		if (a[0].k == K_FLT && a[1].k == K_FLT) { r = mkFlt(pow(fltD(a[0]), fltD(a[1])), a[0].w); return true; }
		throw Unsup{"pow fp"};
	}
	Val e = fixReal(a[1]);
	if (e.k != K_REAL || !e.n->rf.isConst()) throw Unsup{"pow with symbolic exponent"};
	mpq_class q = e.n->rf.constVal();
	if (q == mpq_class(1, 2)) { r = realSqrt(S, a[0]); return true; }
	if (q.get_den() != 1 || abs(q) > 64) throw Unsup{"pow exponent"};
	r = realPowI(S, a[0], q.get_num().get_si());
	return true;
}
static bool mPowi(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	uint64_t e = concretize(S, a[1]);
	if (gFp) throw Unsup{"powi fp"};
	r = realPowI(S, a[0], (long)sext(e, a[1].w));
	return true;
}
static bool mHypot(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp) throw Unsup{"hypot fp"};
	Val x = realArith(S, Instruction::FMul, a[0], a[0]), y = realArith(S, Instruction::FMul, a[1], a[1]);
	r = realSqrt(S, realArith(S, Instruction::FAdd, x, y), true);
	return true;
}
// complex multiplication and division of compiler-rt: exact formulas
static Val agg2(const Val& x, const Val& y)
{
	Val v; v.k = K_AGG;
	auto n = std::make_shared<Node>();
	n->agg.push_back(x); n->agg.push_back(y);
	v.n = n;
	return v;
}
static bool mMuldc(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	auto mul = [&](const Val& x, const Val& y) { return gFp ? fpArith(Instruction::FMul, x, y) : realArith(S, Instruction::FMul, x, y); };
	auto ad = [&](const Val& x, const Val& y) { return gFp ? fpArith(Instruction::FAdd, x, y) : realArith(S, Instruction::FAdd, x, y); };
	auto sb = [&](const Val& x, const Val& y) { return gFp ? fpArith(Instruction::FSub, x, y) : realArith(S, Instruction::FSub, x, y); };
	r = agg2(sb(mul(a[0], a[2]), mul(a[1], a[3])), ad(mul(a[0], a[3]), mul(a[1], a[2])));
	return true;
}
static bool mDivdc(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp) throw Unsup{"complex division fp"};
	auto op = [&](unsigned o, const Val& x, const Val& y) { return realArith(S, o, x, y); };
	Val d = op(Instruction::FAdd, op(Instruction::FMul, a[2], a[2]), op(Instruction::FMul, a[3], a[3]));
	Val re = op(Instruction::FAdd, op(Instruction::FMul, a[0], a[2]), op(Instruction::FMul, a[1], a[3]));
	Val im = op(Instruction::FSub, op(Instruction::FMul, a[1], a[2]), op(Instruction::FMul, a[0], a[3]));
	Val x = op(Instruction::FDiv, re, d), y = op(Instruction::FDiv, im, d);
	r = agg2(x, y);
	return true;
}
static bool mIsClass(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	unsigned m = (unsigned)a[1].lo;
	// bits: 0 snan 1 qnan 2 -inf 3 -norm 4 -sub 5 -0 6 +0 7 +sub 8 +norm 9 +inf
	if (gFp)
	{
		if (a[0].k == K_UNDEF) { r = Val::U(1); return true; }
		z3::expr x = fpE(a[0]), e = ZC.bool_val(false);
		auto add = [&](Z3_ast t) { e = e || z3::expr(ZC, t); };
		auto sgnd = [&](Z3_ast t, bool neg) { z3::expr q(ZC, t); z3::expr n(ZC, Z3_mk_fpa_is_negative(ZC, x)); e = e || (q && (neg ? n : !n)); };
		if (m & 3) add(Z3_mk_fpa_is_nan(ZC, x));
		if (m & 4) sgnd(Z3_mk_fpa_is_infinite(ZC, x), true);
		if (m & 512) sgnd(Z3_mk_fpa_is_infinite(ZC, x), false);
		if (m & 8) sgnd(Z3_mk_fpa_is_normal(ZC, x), true);
		if (m & 256) sgnd(Z3_mk_fpa_is_normal(ZC, x), false);
		if (m & 16) sgnd(Z3_mk_fpa_is_subnormal(ZC, x), true);
		if (m & 128) sgnd(Z3_mk_fpa_is_subnormal(ZC, x), false);
		if (m & 32) sgnd(Z3_mk_fpa_is_zero(ZC, x), true);
		if (m & 64) sgnd(Z3_mk_fpa_is_zero(ZC, x), false);
		r = mkBV(e, 1);
		return true;
	}
	Val v = fixReal(a[0]);
	if (v.k == K_UNDEF) { r = Val::U(1); return true; }
	if (v.k == K_SPEC)
	{
		double d = specD(v);
		bool b = std::isnan(d) ? (m & 3) : d > 0 ? (m & 512) : (m & 4);
		r = Val::I(b, 1);
		return true;
	}
	RatFun x = asReal(S, v);
	uint8_t mask = ((m & 8) ? 1 : 0) | ((m & 64) ? 2 : 0) | ((m & 256) ? 4 : 0);
	if (x.isConst()) { int s = sgn(x.constVal()); r = Val::I((mask & (s < 0 ? 1 : s == 0 ? 2 : 4)) ? 1 : 0, 1); return true; }
	r = mkCondVal(signCond(S, x, mask));
	return true;
}
template<unsigned OP, bool SIGNED> static bool mOverflow(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	unsigned w = a[0].w;
	Val x = asInt(a[0]), y = asInt(a[1]);
	Val res = intOp(S, OP, x, y, w);
	Val ov;
	if (x.k == K_UNDEF || y.k == K_UNDEF) ov = Val::U(1);
	else if (x.k == K_INT && y.k == K_INT && w <= 64)
	{
		__int128 t, u = SIGNED ? (__int128)sext(x.lo, w) : (__int128)x.lo, v = SIGNED ? (__int128)sext(y.lo, w) : (__int128)y.lo;
		bool big = false;
		if (OP == Instruction::Add) t = u + v; else if (OP == Instruction::Sub) t = u - v;
		else big = __builtin_mul_overflow(u, v, &t);
		__int128 back = SIGNED ? (__int128)sext(res.lo, w) : (__int128)res.lo;
		ov = Val::I(big || t != back, 1);
	}
	else
	{
		unsigned e = OP == Instruction::Mul ? w : 1;
		z3::expr p = SIGNED ? z3::sext(bvE(x), e) : z3::zext(bvE(x), e), q = SIGNED ? z3::sext(bvE(y), e) : z3::zext(bvE(y), e);
		z3::expr t = OP == Instruction::Add ? p + q : OP == Instruction::Sub ? p - q : p * q;
		z3::expr back = SIGNED ? z3::sext(bvE(res), e) : z3::zext(bvE(res), e);
		ov = mkBV(t != back, 1);
	}
	r = agg2(res, ov);
	return true;
}
template<int K> static bool mIntMinMax(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	CmpInst::Predicate p = K == 0 ? CmpInst::ICMP_ULT : K == 1 ? CmpInst::ICMP_UGT : K == 2 ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
	Val c = intCmp(S, p, a[0], a[1]);
	if (c.k == K_UNDEF) { r = Val::U(ci.w); return true; }
	if (c.k == K_INT) r = c.lo ? a[0] : a[1];
	else r = mkBV(z3::ite(bvE(c), bvE(asInt(a[0])), bvE(asInt(a[1]))), ci.w);
	return true;
}
static bool mIabs(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	Val x = asInt(a[0]);
	if (x.k == K_UNDEF) { r = Val::U(ci.w); return true; }
	if (x.k == K_INT) { int64_t s = sext(x.lo, ci.w); r = Val::I((uint64_t)(s < 0 ? -s : s), ci.w); return true; }
	r = mkBV(z3::ite(bvE(x) < ZC.bv_val(0, ci.w), -bvE(x), bvE(x)), ci.w);
	return true;
}
template<int K> static bool mCount(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	uint64_t x = concretize(S, a[0]);
	unsigned w = ci.w;
	uint64_t n = 0;
	if (K == 0) { n = 0; for (int i = w - 1; i >= 0 && !((x >> i) & 1); --i) ++n; }
	else if (K == 1) { n = 0; for (unsigned i = 0; i < w && !((x >> i) & 1); ++i) ++n; }
	else n = __builtin_popcountll(x);
	r = Val::I(n, w);
	return true;
}
template<bool LEFT> static bool mFsh(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	unsigned w = ci.w;
	uint64_t s = concretize(S, a[2]) % w;
	if (s == 0) { r = LEFT ? a[0] : a[1]; return true; }
	unsigned ls = LEFT ? s : w - s;
	r = intOp(S, Instruction::Or, intOp(S, Instruction::Shl, a[0], Val::I(ls, w), w), intOp(S, Instruction::LShr, a[1], Val::I(w - ls, w), w), w);
	return true;
}
static bool mObjSize(State&, CI& ci, std::vector<Val>& a, Val& r) { r = Val::I((a[1].lo & 1) ? 0 : ~0ull, ci.w); return true; }
static bool mExpect(State&, CI&, std::vector<Val>& a, Val& r) { r = a[0]; return true; }
static bool mUSubSat(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	Val c = intCmp(S, CmpInst::ICMP_ULT, a[0], a[1]);
	if (decideBool(S, c)) r = Val::I(0, ci.w);
	else r = intOp(S, Instruction::Sub, a[0], a[1], ci.w);
	return true;
}

// ---------------------------------------------------------------- harness interface
static bool svReal(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	Str nm = cstr(S, a[0].lo);
	Input in; in.name = nm;
	if (gFp)
	{
		uint32_t tok = BVTOK | (S.nbv++);
		unsigned w = ci.w;
		Str z = "b" + std::to_string(tok & ~BVTOK) + "f" + std::to_string(w);
		auto it = gBvVars.find(tok);
		uint32_t t2 = tok;
		// the same ordinal may have another type on another path: use a type-specific token
		t2 = BVTOK | ((tok & ~BVTOK) * 8 + (w == 32 ? 1 : 2));
		auto jt = gBvVars.find(t2);
		if (jt == gBvVars.end())
		{
			z3::expr e = ZC.constant(("b" + std::to_string(t2 & ~BVTOK)).c_str(), fpSort(w));
			jt = gBvVars.emplace(t2, VarInfo(e, w, true)).first;
		}
		(void)it;
		auto n = std::make_shared<Node>();
		n->e = jt->second.e;
		Val v; v.k = K_FP; v.w = w; v.n = n;
		in.kind = 'f';
		in.v = v; in.v.lo = t2;
		S.inputs.push_back(in);
		r = v;
		return true;
	}
	uint32_t id = S.nreal++;
	in.kind = 'r';
	in.v = mkReal(RatFun{polyVar(id), {}}, ci.w);
	S.inputs.push_back(in);
	r = in.v;
	return true;
}
static bool svU64(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	Str nm = cstr(S, a[0].lo);
	uint64_t lo = concretize(S, a[1]), hi = concretize(S, a[2]);
	Input in; in.name = nm; in.kind = 'u';
	if (lo == hi) { in.v = Val::I(lo, 64); S.inputs.push_back(in); r = in.v; return true; }
	uint32_t tok = BVTOK | (S.nbv++ * 8);
	auto jt = gBvVars.find(tok);
	if (jt == gBvVars.end())
		jt = gBvVars.emplace(tok, VarInfo(ZC.bv_const(("b" + std::to_string(tok & ~BVTOK)).c_str(), 64), 64, false)).first;
	z3::expr e = jt->second.e;
	S.model.b[tok] = lo;
	bool sg = a.size() > 3 && a[3].lo;
	if (!(lo == 0 && hi == ~0ull))
	{
		z3::expr c = sg ? (e >= ZC.bv_val((uint64_t)lo, 64) && e <= ZC.bv_val((uint64_t)hi, 64)) : (z3::uge(e, ZC.bv_val((uint64_t)lo, 64)) && z3::ule(e, ZC.bv_val((uint64_t)hi, 64)));
		addCond(S, prep(Cond::ex(c)));
	}
	auto n = std::make_shared<Node>();
	n->e = e;
	Val v; v.k = K_BV; v.w = 64; v.n = n;
	in.v = v; in.v.lo = tok;
	S.inputs.push_back(in);
	r = v;
	return true;
}
static bool svByte(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	Str nm = cstr(S, a[0].lo);
	Input in; in.name = nm; in.kind = 'u';
	uint32_t tok = BVTOK | (S.nbv++ * 8 + 4);
	auto jt = gBvVars.find(tok);
	if (jt == gBvVars.end())
		jt = gBvVars.emplace(tok, VarInfo(ZC.bv_const(("b" + std::to_string(tok & ~BVTOK)).c_str(), 8), 8, false)).first;
	S.model.b[tok] = 0;
	auto n = std::make_shared<Node>();
	n->e = jt->second.e;
	Val v; v.k = K_BV; v.w = 8; v.n = n;
	in.v = v; in.v.lo = tok;
	S.inputs.push_back(in);
	r = v;
	r.w = 8;
	if (ci.w != 8) r = mkBV(z3::zext(bvE(v), ci.w - 8), ci.w);
	return true;
}
static bool svChoice(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	uint64_t n = concretize(S, a[1]);
	if (n == 0) throw PathStop{"pruned"};
	if (S.choicePrefix.empty())
	{
		if (n > 1) throw NeedChoice{(unsigned)n};
		S.choicePrefix.push_back(0);
	}
	uint64_t v = S.choicePrefix.back();
	S.choicePrefix.pop_back();
	Input in; in.name = cstr(S, a[0].lo); in.kind = 'u'; in.v = Val::I(v, 64);
	S.inputs.push_back(in);
	r = Val::I(v, ci.w);
	return true;
}
static bool svAssume(State& S, CI&, std::vector<Val>& a, Val&)
{
	Val v = a[0];
	if (v.k == K_INT) { if (!(v.lo & 1)) throw PathStop{"pruned"}; return true; }
	if (v.k == K_UNDEF) violation(S, "uninit", "assumption on an uninitialised value");
	if (v.w != 1) { v = intCmp(S, CmpInst::ICMP_NE, v, Val::I(0, v.w)); if (v.k == K_INT) { if (!v.lo) throw PathStop{"pruned"}; return true; } }
	Cond c = condOf(v);
	int f = factCheck(S, c);
	if (f == 0) throw PathStop{"pruned"};
	if (f == 1) return true;
	CondP ct = prep(c);
	int ev = evalCond(*ct, S.model);
	if (ev != 1)
	{
		Model m;
		Res r = solve(S.path, S.model, {ct}, gBranchTo * 3, m);
		if (r == UNSAT) throw PathStop{"pruned"};
		if (r == SAT) S.model = m; else S.model.valid = false;
	}
	addCond(S, ct);
	return true;
}
static bool svAssert(State& S, CI&, std::vector<Val>& a, Val&)
{
	nAsserts++;
	Val v = a[0];
	Str msg = cstr(S, a[1].lo);
	if (v.k == K_INT)
	{
		if (v.lo & 1) return true;
		violation(S, "assert", msg);
	}
	if (v.k == K_UNDEF) violation(S, "uninit", msg + " (depends on an uninitialised value)");
	if (v.w != 1) { v = intCmp(S, CmpInst::ICMP_NE, v, Val::I(0, v.w)); if (v.k == K_INT) { if (v.lo) return true; violation(S, "assert", msg); } }
	Cond c = condOf(v);
	int f = factCheck(S, c);
	if (f == 1) return true;
	if (f == 0) violation(S, "assert", msg);
	CondP cn = prep(c.neg());
	gStats.assertQueries++;
	Model m;
	Res r = evalCond(*cn, S.model) == 1 ? SAT : solve(S.path, S.model, {cn}, gAssertTo, m);
	if (r == UNSAT) { addCond(S, prep(c)); return true; }
	if (r == UNKNOWN)
	{
		nInconclusive++;
		if (inconclusive.size() < 20) inconclusive.push_back("assert: " + msg);
		return true;
	}
	violation(S, "assert", msg, cn);
	return true;
}
static bool svEq(State& S, CI&, std::vector<Val>& a, Val&)
{
	nAsserts++;
	nEq++;
	Str msg = cstr(S, a[2].lo);
	if (gFp)
	{
		if (a[0].k == K_UNDEF || a[1].k == K_UNDEF) violation(S, "uninit", msg + " (uninitialised value)");
		z3::expr x = fpE(a[0]), y = fpE(a[1]);
		// identical value (bitwise up to NaN payload)
		z3::expr c = x == y;
		CondP cn = prep(Cond::ex((!c).simplify()));
		if (cn->e.is_false()) { nEqSyn++; return true; }
		gStats.assertQueries++;
		Model m;
		Res r = solve(S.path, S.model, {cn}, gAssertTo, m);
		if (r == UNSAT) return true;
		if (r == UNKNOWN) { nInconclusive++; if (inconclusive.size() < 20) inconclusive.push_back("eq: " + msg); return true; }
		violation(S, "assert", msg, cn);
	}
	Val x = fixReal(a[0]), y = fixReal(a[1]);
	if (x.k == K_UNDEF || y.k == K_UNDEF) violation(S, "uninit", msg + " (uninitialised value)");
	if (x.k == K_SPEC || y.k == K_SPEC)
	{
		if (x.k == K_SPEC && y.k == K_SPEC)
		{
			double p = specD(x), q = specD(y);
			if (p == q || (std::isnan(p) && std::isnan(q))) return true;
		}
		violation(S, "assert", msg + " (not a finite number)");
	}
	if (x.n->abs && y.n->abs)
	{
		// |p| == |q|
		RatFun d2 = ratAdd(ratMul(x.n->rf, x.n->rf), ratMul(y.n->rf, y.n->rf), true);
		if (d2.isZero()) { nEqSyn++; return true; }
	}
	RatFun d = ratAdd(asReal(S, x), asReal(S, y), true);
	if (d.isZero()) { nEqSyn++; return true; }
	Cond c = signCond(S, d, 2);
	int f = factCheck(S, c);
	if (f == 1) return true;
	CondP cn = prep(c.neg());
	gStats.assertQueries++;
	Model m;
	Res r = (f == 0 || evalCond(*cn, S.model) == 1) ? SAT : solve(S.path, S.model, {cn}, gAssertTo, m);
	if (r == UNSAT) { return true; }
	if (r == UNKNOWN)
	{
		nInconclusive++;
		if (inconclusive.size() < 20) inconclusive.push_back("eq: " + msg);
		return true;
	}
	violation(S, "assert", msg, cn, &d);
	return true;
}
// sv_leq(a,b): a <= b on every value
static bool svLeq(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	Val c = gFp ? fpCmp(CmpInst::FCMP_OLE, a[0], a[1]) : realCmp(S, CmpInst::FCMP_OLE, a[0], a[1]);
	std::vector<Val> b{c, a[2]};
	return svAssert(S, ci, b, r);
}
static bool svReach(State& S, CI&, std::vector<Val>& a, Val&) { S.reach.push_back(cstr(S, a[0].lo)); return true; }
static bool svLive(State& S, CI&, std::vector<Val>&, Val& r) { r = Val::I((uint64_t)S.liveHeap, 64); return true; }
static bool svParam(State& S, CI&, std::vector<Val>& a, Val& r)
{
	uint64_t i = a[0].lo;
	r = Val::I(i < gParams.size() ? (uint64_t)gParams[i] : 0, 64);
	return true;
}
static bool svSym(State&, CI& ci, std::vector<Val>&, Val& r) { r = Val::I(1, ci.w); return true; }
static bool svFail(State& S, CI&, std::vector<Val>& a, Val&) { violation(S, "assert", cstr(S, a[0].lo)); return true; }
static bool svStop(State&, CI&, std::vector<Val>&, Val&) { throw PathStop{"done"}; }
static bool svPrint(State& S, CI&, std::vector<Val>& a, Val&)
{
	if (!gDebug) return true;
	fprintf(stderr, "[%s]", cstr(S, a[0].lo).c_str());
	Val v = a[1];
	if (v.k == K_REAL) fprintf(stderr, " %s%s (den %zu)", v.n->abs ? "abs " : "", polyExpr(v.n->rf.num).to_string().c_str(), v.n->rf.den.size());
	else if (v.k == K_INT) fprintf(stderr, " %lu", v.lo);
	else if (v.k == K_SPEC) fprintf(stderr, " %g", specD(v));
	else if (v.k == K_BV || v.k == K_FP) fprintf(stderr, " %s", (v.n->cp ? Cond::poly(v.n->cp, v.n->cmask).expr() : v.n->e).to_string().c_str());
	else fprintf(stderr, " kind %d", v.k);
	fprintf(stderr, "\n");
	return true;
}
static bool svConcrete(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	r = Val::I(concretize(S, a[0]), ci.w);
	return true;
}
static bool svIsConst(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	r = Val::I(a[0].k == K_INT || a[0].k == K_FLT || (a[0].k == K_REAL && a[0].n->rf.isConst()), ci.w);
	return true;
}
// decimal literal text -> number, exact (used by the stream shim)
static bool svParseDec(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	uint64_t p = a[0].lo, n = concretize(S, a[1]);
	Str s, key;
	bool symb = false;
	for (uint64_t i = 0; i < n; ++i)
	{
		Val v = asInt(loadT(S, Type::getInt8Ty(LC), p + i));
		if (!gFp && v.k == K_BV)
		{
			auto it = S.conc.find(v.n->e.id());
			if (it != S.conc.end()) { s += (char)it->second; key += s.back(); continue; }
			// the value of unknown digits: one unknown number per text
			symb = true;
			key += "{" + v.n->e.to_string() + "}";
			continue;
		}
		s += (char)concretize(S, v);
		key += s.back();
	}
	if (symb)
	{
		auto it = S.parsed.find(key);
		if (it == S.parsed.end()) it = S.parsed.emplace(key, mkReal(RatFun{polyVar(S.nreal++), {}}, 64)).first;
		r = it->second;
		return true;
	}
	if (gFp) { r = mkFlt(strtod(s.c_str(), nullptr), 64); return true; }
	// exact decimal
	mpq_class q = 0;
	bool neg = false;
	size_t i = 0;
	if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	int frac = -1;
	for (; i < s.size() && (isdigit(s[i]) || s[i] == '.'); ++i)
	{
		if (s[i] == '.') { frac = 0; continue; }
		q = q * 10 + (s[i] - '0');
		if (frac >= 0) ++frac;
	}
	long e = 0;
	if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) e = strtol(s.c_str() + i + 1, nullptr, 10);
	if (frac > 0) e -= frac;
	if (labs(e) > 400) throw Unsup{"decimal exponent"};
	for (; e > 0; --e) q *= 10;
	for (; e < 0; ++e) q /= 10;
	r = mkRealC(neg ? mpq_class(-q) : q, 64);
	return true;
}

// mathematical functions of concrete arguments: what the C library computes
template<double (*F)(double)> static bool mLibm1(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	if (gFp)
	{
		if (a[0].k != K_FLT) throw Unsup{"library function of a symbolic fp"};
		r = mkFlt(F(fltD(a[0])), ci.w);
		return true;
	}
	Val v = fixReal(a[0]);
	if (v.k == K_SPEC) { double d = F(specD(v)); if (d == d && d - d == 0) r = mkRealC(mpq_class(d), v.w); else r = mkSpec(d, v.w); return true; }
	if (v.k != K_REAL || !v.n->rf.isConst()) throw Unsup{"library function of a symbolic real"};
	double d = F(v.n->rf.constVal().get_d());
	if (d == d && d - d == 0) r = mkRealC(mpq_class(d), v.w); else r = mkSpec(d, v.w);
	return true;
}
template<double (*F)(double, double)> static bool mLibm2(State& S, CI& ci, std::vector<Val>& a, Val& r)
{
	double x[2];
	for (int i = 0; i < 2; ++i)
	{
		if (gFp)
		{
			if (a[i].k != K_FLT) throw Unsup{"library function of a symbolic fp"};
			x[i] = fltD(a[i]);
			continue;
		}
		Val v = fixReal(a[i]);
		if (v.k == K_SPEC) x[i] = specD(v);
		else if (v.k == K_REAL && v.n->rf.isConst()) x[i] = v.n->rf.constVal().get_d();
		else throw Unsup{"library function of a symbolic real"};
	}
	double d = F(x[0], x[1]);
	if (gFp) r = mkFlt(d, ci.w);
	else if (d == d && d - d == 0) r = mkRealC(mpq_class(d), ci.w);
	else r = mkSpec(d, ci.w);
	return true;
}

static void initModels()
{
	auto& m = models;
#define SX_M1(f) m[#f] = mLibm1<::f>;
#define SX_M2(f) m[#f] = mLibm2<::f>;
	SX_M1(sin) SX_M1(cos) SX_M1(tan) SX_M1(asin) SX_M1(acos) SX_M1(atan) SX_M1(exp) SX_M1(exp2) SX_M1(expm1) SX_M1(log) SX_M1(log2) SX_M1(log10) SX_M1(log1p)
	SX_M1(sinh) SX_M1(cosh) SX_M1(tanh) SX_M1(cbrt) SX_M1(tgamma) SX_M1(lgamma) SX_M1(erf) SX_M1(rint) SX_M1(nearbyint) SX_M1(logb)
	SX_M2(atan2) SX_M2(fmod) SX_M2(remainder) SX_M2(nextafter) SX_M2(fdim)
#undef SX_M1
#undef SX_M2
	m["llvm.sin"] = mLibm1<::sin>; m["llvm.cos"] = mLibm1<::cos>; m["llvm.exp"] = mLibm1<::exp>; m["llvm.exp2"] = mLibm1<::exp2>;
	m["llvm.log"] = mLibm1<::log>; m["llvm.log2"] = mLibm1<::log2>; m["llvm.log10"] = mLibm1<::log10>; m["llvm.rint"] = mLibm1<::rint>; m["llvm.nearbyint"] = mLibm1<::nearbyint>;
	m["llvm.threadlocal.address"] = mArg0;
	m["carg"] = [](State& S, CI& ci, std::vector<Val>& a, Val& r) { std::vector<Val> t{a[1], a[0]}; return mLibm2<::atan2>(S, ci, t, r); };
	for (const char* s : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.invariant.start", "llvm.invariant.end", "llvm.prefetch", "llvm.stackrestore", "llvm.va_end",
			"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12length_errorC1EPKc", "_ZNSt16invalid_argumentC1EPKc",
			"_ZNSt12domain_errorC1EPKc", "_ZNSt11range_errorC1EPKc", "_ZNSt14overflow_errorC1EPKc", "_ZNSt15underflow_errorC1EPKc",
			"_ZNSt12domain_errorD1Ev", "_ZNSt11range_errorD1Ev", "_ZNSt14overflow_errorD1Ev", "_ZNSt15underflow_errorD1Ev", "_ZNSt12length_errorD1Ev", "_ZNSt16invalid_argumentD1Ev",
			"_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt12out_of_rangeD1Ev",
			"__cxa_guard_release", "__cxa_guard_abort"})
		m[s] = mNop;
	for (const char* c : {"11logic_error", "13runtime_error", "12out_of_range", "12length_error", "16invalid_argument", "12domain_error", "11range_error", "14overflow_error", "15underflow_error"})
		for (const char* k : {"C1", "C2"}) m[Str("_ZNSt") + c + k + "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"] = mNop;
	for (const char* s : {"__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "printf", "puts", "putchar", "fflush", "llvm.is.constant"}) m[s] = mRet0;
	m["__cxa_guard_acquire"] = [](State& S, CI& ci, std::vector<Val>& a, Val& r) {
		Obj* o = access(S, a[0].lo, 1, true);
		uint32_t off = (uint32_t)(a[0].lo - o->base);
		bool done = o->st[off] == 1 && o->data[off] == 1;
		storeVal(o, off, Val::I(1, 8), 1);
		r = Val::I(done ? 0 : 1, 32);
		return true;
	};
	for (const char* s : {"llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ptr.annotation", "llvm.annotation", "llvm.ssa.copy"}) m[s] = mArg0;
	m["llvm.stacksave"] = mRet0;
	m["malloc"] = m["_Znwm"] = mMalloc;
	m["_ZnwmRKSt9nothrow_t"] = mMalloc;
	m["_Znam"] = mNewArr;
	m["calloc"] = mCalloc;
	m["free"] = mFree;
	m["_ZdlPv"] = m["_ZdlPvm"] = mDel;
	m["_ZdaPv"] = m["_ZdaPvm"] = mDelArr;
	for (const char* s : {"llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memcpy.inline"}) m[s] = mMemcpy;
	m["llvm.memset"] = m["memset"] = mMemset;
	m["abort"] = mAbort;
	m["__assert_fail"] = mAbort;
	m["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [](State& S, CI&, std::vector<Val>& a, Val&) {
		violation(S, "abort", "standard library precondition violated: " + cstr(S, a[3].lo));
		return true;
	};
	m["_ZSt9terminatev"] = mTerminate;
	m["__clang_call_terminate"] = mTerminate;
	m["llvm.trap"] = m["llvm.debugtrap"] = m["llvm.ubsantrap"] = mTrap;
	m["__cxa_pure_virtual"] = mPure;
	m["_ZSt20__throw_length_errorPKc"] = mThrowStd<0>;
	m["_ZSt20__throw_out_of_rangePKc"] = mThrowStd<1>;
	m["_ZSt24__throw_out_of_range_fmtPKcz"] = mThrowStd<1>;
	m["_ZSt19__throw_logic_errorPKc"] = mThrowStd<2>;
	m["_ZSt24__throw_invalid_argumentPKc"] = mThrowStd<3>;
	m["_ZSt17__throw_bad_allocv"] = mThrowStd<4>;
	m["_ZSt28__throw_bad_array_new_lengthv"] = mThrowStd<5>;
	m["_ZSt21__throw_runtime_errorPKc"] = mThrowStd<6>;
	m["_ZSt16__throw_bad_castv"] = mThrowStd<7>;
	m["_ZSt25__throw_bad_function_callv"] = mThrowStd<8>;
	m["__cxa_throw_bad_array_new_length"] = mThrowStd<5>;
	m["__cxa_allocate_exception"] = mCxaAlloc;
	m["__cxa_free_exception"] = mCxaFree;
	m["__cxa_throw"] = mCxaThrow;
	m["__cxa_begin_catch"] = mBeginCatch;
	m["__cxa_get_exception_ptr"] = mArg0;
	m["__cxa_end_catch"] = mEndCatch;
	m["__cxa_rethrow"] = mRethrow;
	m["__cxa_call_unexpected"] = mUnexpected;
	m["llvm.eh.typeid.for"] = mTypeid;
	for (const char* s : {"llvm.fabs", "fabs", "fabsf", "fabsl"}) m[s] = mFabs;
	for (const char* s : {"llvm.sqrt", "sqrt", "sqrtf", "sqrtl"}) m[s] = mSqrt;
	for (const char* s : {"llvm.maxnum", "fmax", "fmaxf"}) m[s] = mMinMax<true>;
	for (const char* s : {"llvm.minnum", "fmin", "fminf"}) m[s] = mMinMax<false>;
	m["llvm.fmuladd"] = m["llvm.fma"] = mFma;
	m["llvm.copysign"] = mCopysign;
	m["llvm.floor"] = m["floorf"] = m["floor"] = mRound<0>;
	m["llvm.ceil"] = m["ceilf"] = m["ceil"] = mRound<1>;
	m["llvm.trunc"] = m["truncf"] = m["trunc"] = mRound<2>;
	m["llvm.round"] = m["roundf"] = m["round"] = mRound<3>;
	m["llvm.pow"] = m["pow"] = m["powf"] = mPow;
	m["llvm.powi"] = mPowi;
	m["hypot"] = m["hypotf"] = m["cabs"] = m["cabsf"] = mHypot;
	m["__muldc3"] = mMuldc;
	m["__divdc3"] = mDivdc;
	m["llvm.is.fpclass"] = mIsClass;
	m["llvm.uadd.with.overflow"] = mOverflow<Instruction::Add, false>;
	m["llvm.sadd.with.overflow"] = mOverflow<Instruction::Add, true>;
	m["llvm.usub.with.overflow"] = mOverflow<Instruction::Sub, false>;
	m["llvm.ssub.with.overflow"] = mOverflow<Instruction::Sub, true>;
	m["llvm.umul.with.overflow"] = mOverflow<Instruction::Mul, false>;
	m["llvm.smul.with.overflow"] = mOverflow<Instruction::Mul, true>;
	m["llvm.umin"] = mIntMinMax<0>;
	m["llvm.umax"] = mIntMinMax<1>;
	m["llvm.smin"] = mIntMinMax<2>;
	m["llvm.smax"] = mIntMinMax<3>;
	m["llvm.abs"] = mIabs;
	m["llvm.ctlz"] = mCount<0>;
	m["llvm.cttz"] = mCount<1>;
	m["llvm.ctpop"] = mCount<2>;
	m["llvm.fshl"] = mFsh<true>;
	m["llvm.fshr"] = mFsh<false>;
	m["llvm.objectsize"] = mObjSize;
	m["llvm.expect"] = mExpect;
	m["llvm.usub.sat"] = mUSubSat;
	m["sv_real_"] = svReal;
	m["sv_f32_"] = svReal;
	m["sv_u64_"] = svU64;
	m["sv_byte_"] = svByte;
	m["sv_choice_"] = svChoice;
	m["sv_assume_"] = svAssume;
	m["sv_assert_"] = svAssert;
	m["sv_eq_"] = svEq;
	m["sv_leq_"] = svLeq;
	m["sv_reach_"] = svReach;
	m["sv_live_"] = svLive;
	m["sv_param_"] = svParam;
	m["sv_symbolic_"] = svSym;
	m["sv_fail_"] = svFail;
	m["sv_stop_"] = svStop;
	m["sv_print_"] = svPrint;
	m["sv_concrete_"] = svConcrete;
	m["sv_isconst_"] = svIsConst;
	m["sv_parse_dec_"] = svParseDec;
}

// ---------------------------------------------------------------- driver
static void initConst(State& S, uint64_t a, const Constant* c)
{
	if (isa<UndefValue>(c)) return;
	Type* t = c->getType();
	if (isa<ConstantAggregateZero>(c)) return;
	if (auto* st = dyn_cast<StructType>(t))
	{
		auto* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i) initConst(S, a + sl->getElementOffset(i), c->getAggregateElement(i));
		return;
	}
	if (t->isArrayTy() || t->isVectorTy())
	{
		Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
		uint64_t sz = DL->getTypeAllocSize(et);
		uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
		for (uint64_t i = 0; i < n; ++i) initConst(S, a + i * sz, c->getAggregateElement(i));
		return;
	}
	Val v = constVal(c);
	storeT(S, t, a, v);
}
// run S until its path ends; new states are pushed to `work`
static unsigned gTick = 0;
static int nUnsup = 0;
static const bool gForkLog = getenv("SX_FORKS");
static std::map<Str, long> forkAt;
static void runPath(State S)
{
	long start = S.instr;
	for (;;)
	{
		if ((++gTick & 15) == 0 && elapsed() > gTimeout) throw OutOfTime();
		try
		{
			for (int i = 0; i < 1024; ++i) step(S);
			if (S.instr - 0 > gMaxInstr) violation(S, "nonterm", "step bound of the path exceeded");
		}
		catch (Raised&) {}
		catch (Unsup& u)
		{
			if (!nUnsup++) gFatal = u.what + " in " + where(S).substr(0, 900);
			if (nUnsup > 200) throw;
			return;
		}
		catch (NeedFork& nf)
		{
			nForks++;
			if (gForkLog) { Str w = where(S); forkAt[w.substr(0, w.find("\n"))]++; }
			State T = S;
			addCond(S, nf.c);
			S.model = nf.mt;
			Cond n = nf.c->neg();
			addCond(T, prep(n));
			T.model = nf.mf;
			if (!S.model.valid && T.model.valid) std::swap(S, T);
			work.push_back(std::move(T));
		}
		catch (NeedChoice& nc)
		{
			nForks += nc.n - 1;
			for (unsigned i = nc.n; i-- > 1;)
			{
				State T = S;
				T.choicePrefix.push_back(i);
				work.push_back(std::move(T));
			}
			S.choicePrefix.push_back(0);
		}
		catch (PathStop& ps)
		{
			if (ps.kind == "done")
			{
				nPaths++;
				for (auto& r : S.reach) reachCount[r]++;
				if ((samples.size() < 6 || (nPaths % 97 == 0 && samples.size() < 16)) && S.model.valid) samples.push_back(inputsOf(S, S.model));
			}
			else if (ps.kind == "pruned") nPruned++;
			return;
		}
	}
	(void)start;
}

int main(int argc, char** argv)
{
	T0 = std::chrono::steady_clock::now();
	Str out, entry;
	std::vector<Str> files;
	for (int i = 1; i < argc; ++i)
	{
		Str a = argv[i];
		auto nx = [&]() { return Str(argv[++i]); };
		if (a == "--entry") entry = nx();
		else if (a == "--out") out = nx();
		else if (a == "--param") { std::stringstream ss(nx()); Str t; while (std::getline(ss, t, ',')) gParams.push_back(atol(t.c_str())); }
		else if (a == "--fp") gFp = true;
		else if (a == "--timeout") gTimeout = atof(nx().c_str());
		else if (a == "--branch-ms") gBranchTo = atoi(nx().c_str());
		else if (a == "--assert-ms") gAssertTo = atoi(nx().c_str());
		else if (a == "--max-instr") gMaxInstr = atol(nx().c_str());
		else if (a == "--max-viol") gStop = atoi(nx().c_str());
		else if (a == "--debug") gDebug = true;
		else files.push_back(a);
	}
	z3::context ctx;
	gCtx = &ctx;
	SMDiagnostic err;
	for (auto& f : files)
	{
		auto m = parseIRFile(f, err, LC);
		if (!m) { err.print("sx", errs()); return 2; }
		if (!M) M = std::move(m);
		else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed\n"); return 2; }
	}
	DL = &M->getDataLayout();
	initModels();
	Str status = "ok";
	try
	{
		uint64_t fa = 0x10000;
		for (auto& F : *M) { fnAddr[&F] = fa; addrFn[fa] = &F; fa += 16; }
		State S;
		for (auto& g : M->globals())
		{
			uint64_t n = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : 64;
			if (g.isDeclaration()) n = std::max<uint64_t>(n, 128);
			uint64_t a = alloc(S, n, 'g', true);
			S.mem[a]->name = g.getName().str();
			gvAddr[&g] = a;
			addrGv[a] = &g;
		}
		for (auto& g : M->globals())
		{
			if (!g.hasInitializer() || g.getName().starts_with("llvm.")) continue;
			try { initConst(S, gvAddr[&g], g.getInitializer()); }
			catch (Unsup& u) { if (gDebug) fprintf(stderr, "global %s: %s\n", g.getName().str().c_str(), u.what.c_str()); }
		}
		// constants are shared between states
		for (auto& g : M->globals())
			if (g.isConstant() || g.isDeclaration())
			{
				uint64_t a = gvAddr[&g];
				auto p = S.mem[a];
				p->ro = g.isConstant();
				gShared[a] = p;
				S.mem.erase(a);
			}
		Function* E = M->getFunction(entry);
		if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
		// static constructors
		if (auto* gc = M->getNamedGlobal("llvm.global_ctors"))
			if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
				for (auto& o : ca->operands())
				{
					auto* F = cast<Function>(cast<ConstantStruct>(o)->getOperand(1));
					pushFrame(S, F, {});
					bool done = false;
					while (!done)
					{
						try { step(S); }
						catch (PathStop& p) { done = true; }
					}
					S.st.clear();
				}
		S.liveHeap = 0;
		pushFrame(S, E, {});
		work.push_back(std::move(S));
		while (!work.empty())
		{
			State s = std::move(work.back());
			work.pop_back();
			runPath(std::move(s));
			if ((int)viols.size() >= gStop) { status = "violation"; break; }
		}
		if (!viols.empty()) status = "violation";
		else if (nUnsup) status = "unsupported";
		else if (nInconclusive) status = "inconclusive";
	}
	catch (Unsup& u) { status = "unsupported"; if (gFatal.empty()) gFatal = u.what; }
	catch (OutOfTime&) { status = viols.empty() ? "timeout" : "violation"; }
	catch (PolyLimit&) { status = viols.empty() ? "limit" : "violation"; gFatal = "polynomial size limit"; }
	catch (z3::exception& e) { status = "error"; gFatal = Str("z3: ") + e.msg(); }
	for (auto& f : forkAt) fprintf(stderr, "fork %ld %s\n", f.second, f.first.c_str());
	std::ostringstream js;
	js << "{\"entry\":\"" << entry << "\",\"params\":[";
	for (size_t i = 0; i < gParams.size(); ++i) js << (i ? "," : "") << gParams[i];
	js << "],\"status\":\"" << status << "\",\"fatal\":\"" << jesc(gFatal) << "\",\"mode\":\"" << (gFp ? "fp" : "real") << "\"";
	js << ",\"paths\":" << nPaths << ",\"pruned\":" << nPruned << ",\"violating_paths\":" << nViolPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInstr
	   << ",\"asserts\":" << nAsserts << ",\"eq_asserts\":" << nEq << ",\"eq_normal_form\":" << nEqSyn << ",\"inconclusive\":" << nInconclusive;
	js << ",\"solver\":{\"queries\":" << gStats.queries << ",\"sat\":" << gStats.sat << ",\"unsat\":" << gStats.unsat << ",\"unknown\":" << gStats.unknown << ",\"cache\":" << gStats.cache << ",\"quick_sat\":" << gStats.quick
	   << ",\"assert_queries\":" << gStats.assertQueries << ",\"branch_unknown\":" << gStats.unknownBranch << ",\"time\":" << gStats.time << ",\"max\":" << gStats.maxTime << "}";
	js << ",\"wall\":" << elapsed();
	struct rusage ru;
	getrusage(RUSAGE_SELF, &ru);
	js << ",\"rss_kb\":" << ru.ru_maxrss;
	js << ",\"reach\":{";
	bool fst = true;
	for (auto& k : reachCount) { js << (fst ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; fst = false; }
	js << "},\"functions\":[";
	fst = true;
	std::set<Str> fns;
	for (auto& k : cfs)
	{
		if (!k.second || !k.second->hits) continue;
		if (k.second->repo) fns.insert(k.second->dem.substr(0, 160));
		// code of the repository inlined into it
		for (auto& c : k.second->code)
			if (auto* d = c.I ? c.I->getDebugLoc().get() : nullptr)
				for (const llvm::DILocation* l = d; l; l = l->getInlinedAt())
					if (auto* sp = l->getScope()->getSubprogram())
						if (l->getInlinedAt() && isRepo(sp->getFilename()))
						{
							Str f = sp->getFilename().str();
							fns.insert(sp->getName().str() + " (" + f.substr(f.find("/src/") == Str::npos ? 0 : f.find("/src/") + 1) + ":" + std::to_string(sp->getLine()) + ")");
						}
	}
	for (auto& f : fns) { js << (fst ? "" : ",") << "\"" << jesc(f) << "\""; fst = false; }
	js << "],\"inconclusive_msgs\":[";
	for (size_t i = 0; i < inconclusive.size(); ++i) js << (i ? "," : "") << "\"" << jesc(inconclusive[i]) << "\"";
	auto ins = [&](const std::vector<std::pair<Str, Str>>& v) {
		js << "[";
		for (size_t i = 0; i < v.size(); ++i) js << (i ? "," : "") << "[\"" << jesc(v[i].first) << "\",\"" << v[i].second << "\"]";
		js << "]";
	};
	js << "],\"samples\":[";
	for (size_t i = 0; i < samples.size(); ++i) { if (i) js << ","; ins(samples[i]); }
	js << "],\"violations\":[";
	for (size_t i = 0; i < viols.size(); ++i)
	{
		auto& v = viols[i];
		js << (i ? "," : "") << "{\"msg\":\"" << jesc(v.msg) << "\",\"kind\":\"" << v.kind << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":[";
		for (size_t j = 0; j < v.cands.size(); ++j) { if (j) js << ","; ins(v.cands[j]); }
		js << "]}";
	}
	js << "]}\n";
	if (out.empty()) std::cout << js.str();
	else { std::ofstream o(out); o << js.str(); }
	fflush(stdout);
	_Exit(0);
}
