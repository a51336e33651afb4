// ---------------------------------------------------------------- function compilation
typedef bool (*Model_t)(State& S, CI& ci, std::vector<Val>& a, Val& ret);
static Val agg2(const Val& x, const Val& y);
static std::unordered_map<Str, Model_t> models;
static std::vector<Model_t> modelTab{nullptr};
static std::unordered_map<Str, int> modelIdx;

static bool isRepo(StringRef f) { return f.find("/src/lib/") != StringRef::npos || f.find("/src/objloader/") != StringRef::npos; }
static bool isRepoFn(const Function* F, const Str& dem)
{
	if (auto* sp = F->getSubprogram())
	{
		Str f = sp->getFilename().str();
		if (f.find("/repo/") != Str::npos || f.find("../repo/") != Str::npos) return true;
		Str d = sp->getDirectory().str();
		if (d.find("/repo/") != Str::npos) return true;
	}
	return false;
}
static CF* getCF(const Function* F)
{
	auto& p = cfs[F];
	if (p) return p.get();
	p = std::make_unique<CF>();
	CF& f = *p;
	f.F = F;
	f.dem = demang(F->getName());
	f.repo = isRepoFn(F, f.dem);
	std::unordered_map<const Value*, int> reg;
	int n = 0;
	for (auto& a : F->args()) reg[&a] = n++;
	std::unordered_map<const BasicBlock*, int> bbi;
	int b = 0;
	for (auto& BB : *F)
	{
		bbi[&BB] = b++;
		for (auto& I : BB) if (!I.getType()->isVoidTy()) reg[&I] = n++;
	}
	f.nregs = n;
	auto op = [&](const Value* v) -> Opn {
		Opn o; o.reg = -1;
		if (auto* c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
		if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
		o.reg = reg.at(v);
		return o;
	};
	std::vector<std::pair<size_t, const BasicBlock*>> fix;
	f.bbStart.resize(b);
	for (auto& BB : *F)
	{
		f.bbStart[bbi[&BB]] = f.code.size();
		for (auto& I : BB)
		{
			if (isa<DbgInfoIntrinsic>(I)) continue;
			CI ci;
			ci.I = &I;
			ci.op = I.getOpcode();
			ci.bb = bbi[&BB];
			if (!I.getType()->isVoidTy()) { ci.dst = reg[&I]; ci.w = bitsOf(I.getType()); }
			if (auto* ph = dyn_cast<PHINode>(&I))
			{
				for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) ci.phi[bbi[ph->getIncomingBlock(i)]] = op(ph->getIncomingValue(i));
			}
			else if (auto* br = dyn_cast<BranchInst>(&I))
			{
				if (br->isConditional()) ci.ops.push_back(op(br->getCondition()));
				for (unsigned i = 0; i < br->getNumSuccessors(); ++i) ci.tgt.push_back(bbi[br->getSuccessor(i)]);
			}
			else if (auto* sw = dyn_cast<SwitchInst>(&I))
			{
				ci.ops.push_back(op(sw->getCondition()));
				ci.tgt.push_back(bbi[sw->getDefaultDest()]);
				for (auto c : sw->cases()) { ci.cases.push_back(c.getCaseValue()->getZExtValue()); ci.tgt.push_back(bbi[c.getCaseSuccessor()]); }
			}
			else if (auto* cb = dyn_cast<CallBase>(&I))
			{
				for (auto& a : cb->args()) ci.ops.push_back(op(a.get()));
				const Value* cv = cb->getCalledOperand()->stripPointerCasts();
				if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
				ci.callee = dyn_cast<Function>(cv);
				if (!ci.callee) ci.ops.push_back(op(cb->getCalledOperand()));
				else
				{
					Str nm = ci.callee->getName().str();
					if (ci.callee->isIntrinsic())
					{
						// strip the type suffix
						Str base = llvm::Intrinsic::getBaseName(ci.callee->getIntrinsicID()).str();
						nm = base;
					}
					auto it = models.find(nm);
					if (it != models.end())
					{
						int& ix = modelIdx[nm];
						if (!ix) { ix = modelTab.size(); modelTab.push_back(it->second); }
						ci.model = ix;
					}
				}
				if (auto* inv = dyn_cast<InvokeInst>(&I)) { ci.tgt.push_back(bbi[inv->getNormalDest()]); ci.tgt.push_back(bbi[inv->getUnwindDest()]); }
			}
			else if (auto* gep = dyn_cast<GetElementPtrInst>(&I))
			{
				ci.ops.push_back(op(gep->getPointerOperand()));
				for (auto gti = gep_type_begin(gep); gti != gep_type_end(gep); ++gti)
				{
					Value* ix = gti.getOperand();
					if (StructType* st = gti.getStructTypeOrNull())
						ci.gconst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					else
					{
						int64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
						if (auto* k = dyn_cast<ConstantInt>(ix)) ci.gconst += k->getSExtValue() * sz;
						else { ci.gvar.emplace_back((int)ci.ops.size(), sz); ci.ops.push_back(op(ix)); }
					}
				}
			}
			else
				for (auto& o : I.operands()) ci.ops.push_back(op(o.get()));
			f.code.push_back(std::move(ci));
		}
	}
	return p.get();
}

// ---------------------------------------------------------------- control
static Val& reg(State& S, int r) { return S.st.back().regs[r]; }
static Val get(State& S, const Opn& o) { return o.reg < 0 ? o.c : S.st.back().regs[o.reg]; }
static void gotoBB(State& S, unsigned bb)
{
	Frame& f = S.st.back();
	f.prev = f.bb;
	f.bb = bb;
	f.ip = f.f->bbStart[bb];
	// phis in parallel
	unsigned n = 0;
	while (f.f->code[f.ip + n].op == Instruction::PHI) ++n;
	if (n == 0) return;
	std::vector<Val> vs(n);
	for (unsigned i = 0; i < n; ++i) vs[i] = get(S, f.f->code[f.ip + i].phi.at(f.prev));
	for (unsigned i = 0; i < n; ++i) f.regs[f.f->code[f.ip + i].dst] = vs[i];
	f.ip += n;
}
static void popFrame(State& S)
{
	for (uint64_t a : S.st.back().allocas)
	{
		auto it = S.mem.find(a);
		if (it != S.mem.end()) release(S, a);
	}
	S.st.pop_back();
}
static void pushFrame(State& S, const Function* F, const std::vector<Val>& args)
{
	if (S.st.size() > 400) violation(S, "nonterm", "unbounded recursion");
	CF* cf = getCF(F);
	cf->hits++;
	Frame f;
	f.f = cf;
	f.regs.resize(cf->nregs);
	size_t na = F->arg_size();
	for (size_t i = 0; i < na && i < args.size(); ++i) f.regs[i] = args[i];
	for (size_t i = na; i < args.size(); ++i) f.va.push_back(args[i]);
	f.ip = cf->bbStart[0];
	f.bb = 0;
	// byval arguments
	for (size_t i = 0; i < na; ++i)
		if (F->getArg(i)->hasByValAttr())
		{
			uint64_t n = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
			uint64_t a = alloc(S, n, 'a');
			copyMem(S, a, f.regs[i].lo, n);
			f.regs[i] = Val::I(a, 64);
			f.allocas.push_back(a);
		}
	S.st.push_back(std::move(f));
}
// finish a call instruction of the current frame
static void finishCall(State& S, const Val& ret)
{
	Frame& f = S.st.back();
	CI& ci = f.f->code[f.ip];
	if (ci.dst >= 0) f.regs[ci.dst] = ret;
	if (ci.op == Instruction::Invoke) gotoBB(S, ci.tgt[0]);
	else f.ip++;
}

// ---------------------------------------------------------------- exceptions
static std::vector<Str> typeNames{""};
static uint64_t typeIdx(const Str& n)
{
	for (size_t i = 1; i < typeNames.size(); ++i) if (typeNames[i] == n) return i;
	typeNames.push_back(n);
	return typeNames.size() - 1;
}
static bool derivesFrom(const Str& d, const Str& b, int depth = 0)
{
	if (d == b) return true;
	if (depth > 20) return false;
	static const std::map<Str, Str> stdBase = {
		{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"},
		{"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
		{"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"},
		{"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
		{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}};
	auto it = stdBase.find(d);
	if (it != stdBase.end()) return derivesFrom(it->second, b, depth + 1);
	auto* gv = M->getNamedGlobal(d);
	if (!gv || !gv->hasInitializer()) return false;
	auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer());
	if (!cs) return false;
	for (unsigned i = 2; i < cs->getNumOperands(); ++i)
		if (auto* g = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()))
			if (g->getName().starts_with("_ZTI") && derivesFrom(g->getName().str(), b, depth + 1)) return true;
	return false;
}
static int landingMatch(const LandingPadInst* lp, const Str& type, bool& enter)
{
	enter = lp->isCleanup();
	for (unsigned i = 0; i < lp->getNumClauses(); ++i)
	{
		if (lp->isCatch(i))
		{
			const Value* c = lp->getClause(i)->stripPointerCasts();
			if (isa<ConstantPointerNull>(c)) { enter = true; return (int)typeIdx("*"); }
			Str n = cast<GlobalValue>(c)->getName().str();
			if (derivesFrom(type, n)) { enter = true; return (int)typeIdx(n); }
		}
		else
		{
			// filter (dynamic exception specification): entered by types it does not list
			bool listed = false;
			if (auto* arr = dyn_cast<ConstantArray>(lp->getClause(i)))
				for (unsigned k = 0; k < arr->getNumOperands(); ++k)
					if (auto* g = dyn_cast<GlobalValue>(arr->getOperand(k)->stripPointerCasts()))
						listed = listed || derivesFrom(type, g->getName().str());
			if (listed) continue;
			enter = true;
			return -1;
		}
	}
	return 0;
}
static void unwind(State& S)
{
	Str type = typeNames[S.excType];
	while (!S.st.empty())
	{
		Frame& f = S.st.back();
		CI& ci = f.f->code[f.ip];
		if (ci.op == Instruction::Invoke)
		{
			unsigned bb = ci.tgt[1];
			unsigned ip = f.f->bbStart[bb];
			while (f.f->code[ip].op == Instruction::PHI) ++ip;
			auto* lp = cast<LandingPadInst>(f.f->code[ip].I);
			bool enter;
			int sel = landingMatch(lp, type, enter);
			if (enter)
			{
				gotoBB(S, bb);
				Val v; v.k = K_AGG;
				auto n = std::make_shared<Node>();
				n->agg.push_back(Val::I(S.excObj, 64));
				n->agg.push_back(Val::I((uint64_t)(int64_t)sel, 32));
				v.n = n;
				S.st.back().regs[S.st.back().f->code[S.st.back().ip].dst] = v;
				S.st.back().ip++;
				return;
			}
		}
		if (S.st.size() == 1) violation(S, "exception", "uncaught exception " + demang(type));
		popFrame(S);
	}
}
static void raise(State& S, uint64_t obj, const Str& type)
{
	{
		auto& p = S.mem[obj];
		if (p && p->name != type)
		{
			if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
			p->name = type;
		}
	}
	S.excObj = obj;
	S.excType = typeIdx(type);
	unwind(S);
	throw Raised();
}
static void raiseStd(State& S, const char* type)
{
	uint64_t o = alloc(S, 16, 'e', true);
	raise(S, o, type);
}

// ---------------------------------------------------------------- integer operations
static Val intOp(State& S, unsigned op, const Val& a0, const Val& b0, unsigned w)
{
	Val a = a0, b = b0;
	if (a.k != K_INT || b.k != K_INT)
	{
		// bit tricks on reals
		if (a.k == K_REAL && b.k == K_INT && w == 64)
		{
			if (op == Instruction::And && b.lo == 0x7fffffffffffffffull) return mkReal(a.n->rf, 64, true);
			if (op == Instruction::Xor && b.lo == 0x8000000000000000ull) return mkReal(ratNeg(asReal(S, a)), 64);
		}
		a = asInt(a); b = asInt(b);
	}
	if (a.k == K_UNDEF || b.k == K_UNDEF)
	{
		const Val& o = a.k == K_UNDEF ? b : a;
		uint64_t ones = w >= 64 ? ~0ull : (1ull << w) - 1;
		if (op == Instruction::And && o.k == K_INT && o.lo == 0) return o;
		if (op == Instruction::Or && o.k == K_INT && o.lo == ones) return o;
		if (op == Instruction::Mul && o.k == K_INT && o.lo == 0) return o;
		return Val::U(w);
	}
	if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)
	{
		if (b.k == K_INT) { if (b.lo == 0) violation(S, "crash", "integer division by zero"); }
		else if (decide(S, Cond::ex(b.n->e == ZC.bv_val(0, w)))) violation(S, "crash", "integer division by zero");
	}
	if (a.k == K_INT && b.k == K_INT && w <= 64)
	{
		uint64_t x = a.lo, y = b.lo;
		int64_t sx = sext(x, w), sy = sext(y, w);
		switch (op)
		{
		case Instruction::Add: return Val::I(x + y, w);
		case Instruction::Sub: return Val::I(x - y, w);
		case Instruction::Mul: return Val::I(x * y, w);
		case Instruction::UDiv: return Val::I(x / y, w);
		case Instruction::URem: return Val::I(x % y, w);
		case Instruction::SDiv: if (sy == -1) return Val::I(0 - x, w); return Val::I((uint64_t)(sx / sy), w);
		case Instruction::SRem: if (sy == -1) return Val::I(0, w); return Val::I((uint64_t)(sx % sy), w);
		case Instruction::And: return Val::I(x & y, w);
		case Instruction::Or: return Val::I(x | y, w);
		case Instruction::Xor: return Val::I(x ^ y, w);
		case Instruction::Shl: return y >= w ? Val::U(w) : Val::I(x << y, w);
		case Instruction::LShr: return y >= w ? Val::U(w) : Val::I(x >> y, w);
		case Instruction::AShr: return y >= w ? Val::U(w) : Val::I((uint64_t)(sx >> y), w);
		}
		throw Unsup{"int op"};
	}
	if (w == 1)
	{
		if (a.k == K_INT) std::swap(a, b); // commutative ops only below
		if (b.k == K_INT)
		{
			bool k = b.lo & 1;
			switch (op)
			{
			case Instruction::And: return k ? a : b;
			case Instruction::Or: return k ? b : a;
			case Instruction::Xor: case Instruction::Add: case Instruction::Sub:
				if (!k) return a;
				if (a.n->cp) return mkPolyCond(a.n->cp, a.n->cmask ^ 7);
				return mkBV(!a.n->e, 1);
			}
		}
		if (a.n && b.n && a.n->cp && b.n->cp && gPolys.intern(a.n->cp)->id == gPolys.intern(b.n->cp)->id)
		{
			if (op == Instruction::And) return mkPolyCond(a.n->cp, a.n->cmask & b.n->cmask);
			if (op == Instruction::Or) return mkPolyCond(a.n->cp, a.n->cmask | b.n->cmask);
		}
		z3::expr x = bvE(a), y = bvE(b);
		switch (op)
		{
		case Instruction::And: return mkBV(x && y, 1);
		case Instruction::Or: return mkBV(x || y, 1);
		case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkBV(x != y, 1);
		case Instruction::Mul: return mkBV(x && y, 1);
		}
		throw Unsup{"bool op"};
	}
	z3::expr x = bvE(a), y = bvE(b);
	switch (op)
	{
	case Instruction::Add: return mkBV(x + y, w);
	case Instruction::Sub: return mkBV(x - y, w);
	case Instruction::Mul: return mkBV(x * y, w);
	case Instruction::UDiv: return mkBV(z3::udiv(x, y), w);
	case Instruction::URem: return mkBV(z3::urem(x, y), w);
	case Instruction::SDiv: return mkBV(x / y, w);
	case Instruction::SRem: return mkBV(z3::srem(x, y), w);
	case Instruction::And: return mkBV(x & y, w);
	case Instruction::Or: return mkBV(x | y, w);
	case Instruction::Xor: return mkBV(x ^ y, w);
	case Instruction::Shl: return mkBV(z3::shl(x, y), w);
	case Instruction::LShr: return mkBV(z3::lshr(x, y), w);
	case Instruction::AShr: return mkBV(z3::ashr(x, y), w);
	}
	throw Unsup{"bv op"};
}
static Val intCmp(State& S, CmpInst::Predicate p, const Val& a0, const Val& b0)
{
	Val a = a0, b = b0;
	if (a.k == K_REAL && b.k == K_INT && a.w == 64 && !a.n->abs)
	{
		// sign bit tests
		if (p == CmpInst::ICMP_SLT && b.lo == 0) return mkCondVal(signCond(S, a.n->rf, 1));
		if (p == CmpInst::ICMP_SGT && b.lo == ~0ull) return mkCondVal(signCond(S, a.n->rf, 6));
	}
	a = asInt(a); b = asInt(b);
	if (a.k == K_UNDEF || b.k == K_UNDEF) return Val::U(1);
	unsigned w = a.w;
	if (a.k == K_INT && b.k == K_INT)
	{
		uint64_t x = a.lo, y = b.lo;
		int64_t sx = sext(x, w), sy = sext(y, w);
		bool r = false;
		switch (p)
		{
		case CmpInst::ICMP_EQ: r = x == y; break;
		case CmpInst::ICMP_NE: r = x != y; break;
		case CmpInst::ICMP_ULT: r = x < y; break;
		case CmpInst::ICMP_ULE: r = x <= y; break;
		case CmpInst::ICMP_UGT: r = x > y; break;
		case CmpInst::ICMP_UGE: r = x >= y; break;
		case CmpInst::ICMP_SLT: r = sx < sy; break;
		case CmpInst::ICMP_SLE: r = sx <= sy; break;
		case CmpInst::ICMP_SGT: r = sx > sy; break;
		case CmpInst::ICMP_SGE: r = sx >= sy; break;
		default: throw Unsup{"icmp"};
		}
		return Val::I(r, 1);
	}
	if (w == 1)
	{
		z3::expr x = bvE(a), y = bvE(b);
		if (p == CmpInst::ICMP_EQ) return mkBV(x == y, 1);
		if (p == CmpInst::ICMP_NE) return mkBV(x != y, 1);
		if (p == CmpInst::ICMP_ULT) return mkBV(!x && y, 1);
		throw Unsup{"bool icmp"};
	}
	z3::expr x = bvE(a), y = bvE(b);
	switch (p)
	{
	case CmpInst::ICMP_EQ: return mkBV(x == y, 1);
	case CmpInst::ICMP_NE: return mkBV(x != y, 1);
	case CmpInst::ICMP_ULT: return mkBV(z3::ult(x, y), 1);
	case CmpInst::ICMP_ULE: return mkBV(z3::ule(x, y), 1);
	case CmpInst::ICMP_UGT: return mkBV(z3::ugt(x, y), 1);
	case CmpInst::ICMP_UGE: return mkBV(z3::uge(x, y), 1);
	case CmpInst::ICMP_SLT: return mkBV(x < y, 1);
	case CmpInst::ICMP_SLE: return mkBV(x <= y, 1);
	case CmpInst::ICMP_SGT: return mkBV(x > y, 1);
	case CmpInst::ICMP_SGE: return mkBV(x >= y, 1);
	default: throw Unsup{"icmp"};
	}
}
static z3::expr rne() { return z3::expr(ZC, Z3_mk_fpa_rne(ZC)); }
static Val fpArith(unsigned op, const Val& a, const Val& b)
{
	unsigned w = a.w;
	if (a.k == K_UNDEF || b.k == K_UNDEF) return Val::U(w);
	if ((a.k == K_FLT || a.k == K_INT) && (b.k == K_FLT || b.k == K_INT))
	{
		double x = fltD(a), y = fltD(b);
		if (w == 32)
		{
			float fx = (float)x, fy = (float)y, r = 0;
			switch (op) { case Instruction::FAdd: r = fx + fy; break; case Instruction::FSub: r = fx - fy; break; case Instruction::FMul: r = fx * fy; break; case Instruction::FDiv: r = fx / fy; break; default: r = fmodf(fx, fy); }
			return mkFlt(r, 32);
		}
		double r = 0;
		switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
		return mkFlt(r, 64);
	}
	z3::expr x = fpE(a), y = fpE(b), m = rne();
	switch (op)
	{
	case Instruction::FAdd: return mkFpE(z3::expr(ZC, Z3_mk_fpa_add(ZC, m, x, y)), w);
	case Instruction::FSub: return mkFpE(z3::expr(ZC, Z3_mk_fpa_sub(ZC, m, x, y)), w);
	case Instruction::FMul: return mkFpE(z3::expr(ZC, Z3_mk_fpa_mul(ZC, m, x, y)), w);
	case Instruction::FDiv: return mkFpE(z3::expr(ZC, Z3_mk_fpa_div(ZC, m, x, y)), w);
	}
	throw Unsup{"frem"};
}
static Val fpCmp(CmpInst::Predicate p, const Val& a, const Val& b)
{
	if (p == CmpInst::FCMP_TRUE) return Val::I(1, 1);
	if (p == CmpInst::FCMP_FALSE) return Val::I(0, 1);
	if (a.k == K_UNDEF || b.k == K_UNDEF) return Val::U(1);
	if ((a.k == K_FLT || a.k == K_INT) && (b.k == K_FLT || b.k == K_INT))
	{
		double x = fltD(a), y = fltD(b);
		bool u = std::isnan(x) || std::isnan(y), r = false;
		switch (p)
		{
		case CmpInst::FCMP_ORD: r = !u; break;
		case CmpInst::FCMP_UNO: r = u; break;
		case CmpInst::FCMP_OEQ: r = x == y; break;
		case CmpInst::FCMP_UEQ: r = u || x == y; break;
		case CmpInst::FCMP_ONE: r = !u && x != y; break;
		case CmpInst::FCMP_UNE: r = u || x != y; break;
		case CmpInst::FCMP_OLT: r = x < y; break;
		case CmpInst::FCMP_ULT: r = u || x < y; break;
		case CmpInst::FCMP_OLE: r = x <= y; break;
		case CmpInst::FCMP_ULE: r = u || x <= y; break;
		case CmpInst::FCMP_OGT: r = x > y; break;
		case CmpInst::FCMP_UGT: r = u || x > y; break;
		case CmpInst::FCMP_OGE: r = x >= y; break;
		case CmpInst::FCMP_UGE: r = u || x >= y; break;
		default: throw Unsup{"fcmp"};
		}
		return Val::I(r, 1);
	}
	z3::expr x = fpE(a), y = fpE(b);
	z3::expr u = z3::expr(ZC, Z3_mk_fpa_is_nan(ZC, x)) || z3::expr(ZC, Z3_mk_fpa_is_nan(ZC, y));
	z3::expr eq(ZC, Z3_mk_fpa_eq(ZC, x, y)), lt(ZC, Z3_mk_fpa_lt(ZC, x, y)), le(ZC, Z3_mk_fpa_leq(ZC, x, y)), gt(ZC, Z3_mk_fpa_gt(ZC, x, y)), ge(ZC, Z3_mk_fpa_geq(ZC, x, y));
	switch (p)
	{
	case CmpInst::FCMP_ORD: return mkBV(!u, 1);
	case CmpInst::FCMP_UNO: return mkBV(u, 1);
	case CmpInst::FCMP_OEQ: return mkBV(eq, 1);
	case CmpInst::FCMP_UEQ: return mkBV(u || eq, 1);
	case CmpInst::FCMP_ONE: return mkBV(!u && !eq, 1);
	case CmpInst::FCMP_UNE: return mkBV(!eq, 1);
	case CmpInst::FCMP_OLT: return mkBV(lt, 1);
	case CmpInst::FCMP_ULT: return mkBV(u || lt, 1);
	case CmpInst::FCMP_OLE: return mkBV(le, 1);
	case CmpInst::FCMP_ULE: return mkBV(u || le, 1);
	case CmpInst::FCMP_OGT: return mkBV(gt, 1);
	case CmpInst::FCMP_UGT: return mkBV(u || gt, 1);
	case CmpInst::FCMP_OGE: return mkBV(ge, 1);
	case CmpInst::FCMP_UGE: return mkBV(u || ge, 1);
	default: throw Unsup{"fcmp"};
	}
}
static Val fneg(State& S, const Val& a)
{
	if (a.k == K_UNDEF) return a;
	if (gFp)
	{
		if (a.k == K_FLT) return mkFlt(-fltD(a), a.w);
		return mkFpE(z3::expr(ZC, Z3_mk_fpa_neg(ZC, fpE(a))), a.w);
	}
	Val v = fixReal(a);
	if (v.k == K_SPEC) return mkSpec(-specD(v), v.w);
	return mkReal(ratNeg(asReal(S, v)), v.w);
}
template<class Fn> static Val lanes(const Val& a, const Val& b, Type* t, Fn fn)
{
	Val v; v.k = K_AGG;
	auto n = std::make_shared<Node>();
	unsigned c = cast<FixedVectorType>(t)->getNumElements();
	unsigned w = bitsOf(cast<FixedVectorType>(t)->getElementType());
	for (unsigned i = 0; i < c; ++i)
		n->agg.push_back(fn(a.k == K_UNDEF ? Val::U(w) : a.n->agg[i], b.k == K_UNDEF ? Val::U(w) : b.n->agg[i]));
	v.n = n;
	return v;
}
static Val castOp(State& S, unsigned op, const Val& a0, Type* from, Type* to)
{
	unsigned w = bitsOf(to);
	Val a = a0;
	switch (op)
	{
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
		if (a.k == K_REAL && w == a.w) return a;
		a = asInt(a);
		if (a.k == K_UNDEF) return Val::U(w);
		if (a.k == K_INT && w <= 64)
		{
			if (op == Instruction::SExt) return Val::I((uint64_t)sext(a.lo, a.w), w);
			return Val::I(a.lo, w);
		}
		if (a.k == K_BV && a.w == 1 && a.n->cp && w > 1)
			return Val::I(decideBool(S, a) ? (op == Instruction::SExt ? ~0ull : 1) : 0, w);
		if (w == a.w) return a;
		if (w < a.w)
		{
			if (w == 1) return mkBV(bvE(a).extract(0, 0) == ZC.bv_val(1, 1), 1);
			return mkBV(bvE(a).extract(w - 1, 0), w);
		}
		if (a.w == 1)
			return mkBV(z3::ite(bvE(a), op == Instruction::SExt ? ZC.bv_val(-1, w) : ZC.bv_val(1, w), ZC.bv_val(0, w)), w);
		return mkBV(op == Instruction::SExt ? z3::sext(bvE(a), w - a.w) : z3::zext(bvE(a), w - a.w), w);
	case Instruction::BitCast:
		if (from->isVectorTy() || to->isVectorTy())
		{
			if (from == to) return a;
			// <2 x float> <-> double and similar go through memory
			uint64_t n = DL->getTypeStoreSize(from);
			uint64_t t = alloc(S, n, 'a');
			storeT(S, from, t, a);
			Val r = loadT(S, to, t);
			S.mem.erase(t);
			return r;
		}
		if (to->isFloatingPointTy())
		{
			if (a.k == K_INT) return realFromBits(a.lo, w);
			if (a.k == K_BV && gFp) return mkFpE(fpE(a), w);
			if (a.k == K_BV) throw Unsup{"bitcast of symbolic bits to real"};
			return a;
		}
		return a;
	case Instruction::FPTrunc: case Instruction::FPExt:
		if (a.k == K_UNDEF) return Val::U(w);
		if (gFp)
		{
			if (a.k == K_FLT) return mkFlt(fltD(a), w);
			return mkFpE(z3::expr(ZC, Z3_mk_fpa_to_fp_float(ZC, rne(), fpE(a), fpSort(w))), w);
		}
		a = fixReal(a);
		a.w = w;
		return a;
	case Instruction::UIToFP: case Instruction::SIToFP:
	{
		a = asInt(a);
		if (a.k == K_UNDEF) return Val::U(w);
		if (a.k == K_BV && gFp)
		{
			z3::expr e = bvE(a);
			if (a.w == 1) e = z3::ite(e, ZC.bv_val(1, 8), ZC.bv_val(0, 8));
			return mkFpE(z3::expr(ZC, op == Instruction::UIToFP ? Z3_mk_fpa_to_fp_unsigned(ZC, rne(), e, fpSort(w)) : Z3_mk_fpa_to_fp_signed(ZC, rne(), e, fpSort(w))), w);
		}
		uint64_t v = concretize(S, a);
		if (gFp) return mkFlt(op == Instruction::UIToFP ? (double)v : (double)sext(v, a.w), w);
		mpz_class z;
		if (op == Instruction::UIToFP) z = (unsigned long)v; else z = (long)sext(v, a.w);
		return mkRealC(mpq_class(z), w);
	}
	case Instruction::FPToUI: case Instruction::FPToSI:
	{
		if (a.k == K_UNDEF) return Val::U(w);
		if (gFp)
		{
			if (a.k == K_FLT) { double d = fltD(a); return Val::I(op == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d, w); }
			throw Unsup{"fptoint on symbolic fp"};
		}
		a = fixReal(a);
		if (a.k != K_REAL) throw Unsup{"fptoint on special"};
		RatFun r = asReal(S, a);
		if (!r.isConst()) throw Unsup{"fptoint on symbolic real"};
		mpq_class q = r.constVal();
		mpz_class z = q.get_num() / q.get_den();
		return Val::I((uint64_t)(int64_t)z.get_si(), w);
	}
	}
	throw Unsup{"cast"};
}

static bool isFPish(Type* t) { return t->isFPOrFPVectorTy(); }

// ---------------------------------------------------------------- step
static void step(State& S)
{
	Frame& f = S.st.back();
	CI& ci = f.f->code[f.ip];
	S.instr++;
	nInstr++;
	const Instruction* I = ci.I;
	switch (ci.op)
	{
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
	case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
	case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
	{
		Val a = get(S, ci.ops[0]), b = get(S, ci.ops[1]);
		if (I->getType()->isVectorTy())
		{
			unsigned w = bitsOf(cast<VectorType>(I->getType())->getElementType());
			f.regs[ci.dst] = lanes(a, b, I->getType(), [&](const Val& x, const Val& y) { return intOp(S, ci.op, x, y, w); });
		}
		else f.regs[ci.dst] = intOp(S, ci.op, a, b, ci.w);
		f.ip++;
		break;
	}
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
	{
		Val a = get(S, ci.ops[0]), b = get(S, ci.ops[1]);
		auto one = [&](const Val& x, const Val& y) { return gFp ? fpArith(ci.op, x, y) : realArith(S, ci.op, x, y); };
		f.regs[ci.dst] = I->getType()->isVectorTy() ? lanes(a, b, I->getType(), one) : one(a, b);
		f.ip++;
		break;
	}
	case Instruction::FNeg:
	{
		Val a = get(S, ci.ops[0]);
		f.regs[ci.dst] = I->getType()->isVectorTy() ? lanes(a, a, I->getType(), [&](const Val& x, const Val&) { return fneg(S, x); }) : fneg(S, a);
		f.ip++;
		break;
	}
	case Instruction::ICmp:
	{
		Val a = get(S, ci.ops[0]), b = get(S, ci.ops[1]);
		auto p = cast<CmpInst>(I)->getPredicate();
		f.regs[ci.dst] = I->getType()->isVectorTy() ? lanes(a, b, I->getOperand(0)->getType(), [&](const Val& x, const Val& y) { return intCmp(S, p, x, y); }) : intCmp(S, p, a, b);
		f.ip++;
		break;
	}
	case Instruction::FCmp:
	{
		Val a = get(S, ci.ops[0]), b = get(S, ci.ops[1]);
		auto p = cast<CmpInst>(I)->getPredicate();
		auto one = [&](const Val& x, const Val& y) { return gFp ? fpCmp(p, x, y) : realCmp(S, p, x, y); };
		f.regs[ci.dst] = I->getType()->isVectorTy() ? lanes(a, b, I->getOperand(0)->getType(), one) : one(a, b);
		f.ip++;
		break;
	}
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt:
	case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI:
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
	{
		Val a = get(S, ci.ops[0]);
		Type *ft = I->getOperand(0)->getType(), *tt = I->getType();
		if (ft->isVectorTy() && ci.op != Instruction::BitCast)
			f.regs[ci.dst] = lanes(a, a, ft, [&](const Val& x, const Val&) { return castOp(S, ci.op, x, ft->getScalarType(), tt->getScalarType()); });
		else f.regs[ci.dst] = castOp(S, ci.op, a, ft, tt);
		f.ip++;
		break;
	}
	case Instruction::GetElementPtr:
	{
		Val p = get(S, ci.ops[0]);
		Val off = Val::I((uint64_t)ci.gconst, 64);
		for (auto& g : ci.gvar)
		{
			Val ix = asInt(get(S, ci.ops[g.first]));
			if (ix.w < 64 && ix.k != K_UNDEF) ix = ix.k == K_INT ? Val::I((uint64_t)sext(ix.lo, ix.w), 64) : mkBV(z3::sext(bvE(ix), 64 - ix.w), 64);
			off = intOp(S, Instruction::Add, off, intOp(S, Instruction::Mul, ix, Val::I((uint64_t)g.second, 64), 64), 64);
		}
		f.regs[ci.dst] = intOp(S, Instruction::Add, p, off, 64);
		f.ip++;
		break;
	}
	case Instruction::Alloca:
	{
		auto* ai = cast<AllocaInst>(I);
		uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
		if (ai->isArrayAllocation()) n *= concretize(S, get(S, ci.ops[0]));
		uint64_t a = alloc(S, n, 'a');
		f.allocas.push_back(a);
		f.regs[ci.dst] = Val::I(a, 64);
		f.ip++;
		break;
	}
	case Instruction::Load:
	{
		uint64_t a = concretize(S, get(S, ci.ops[0]));
		f.regs[ci.dst] = loadT(S, I->getType(), a);
		f.ip++;
		break;
	}
	case Instruction::Store:
	{
		uint64_t a = concretize(S, get(S, ci.ops[1]));
		Val v = get(S, ci.ops[0]);
		if (v.k == K_BV && v.w == 1 && v.n->cp) v = Val::I(decideBool(S, v), 1);
		storeT(S, I->getOperand(0)->getType(), a, v);
		f.ip++;
		break;
	}
	case Instruction::Fence: f.ip++; break;
	case Instruction::AtomicRMW:
	{
		auto* A = cast<AtomicRMWInst>(I);
		uint64_t a = concretize(S, get(S, ci.ops[0]));
		Val v = get(S, ci.ops[1]), old = loadT(S, I->getType(), a), nw;
		switch (A->getOperation())
		{
		case AtomicRMWInst::Xchg: nw = v; break;
		case AtomicRMWInst::Add: nw = intOp(S, Instruction::Add, asInt(old), asInt(v), ci.w); break;
		case AtomicRMWInst::Sub: nw = intOp(S, Instruction::Sub, asInt(old), asInt(v), ci.w); break;
		case AtomicRMWInst::And: nw = intOp(S, Instruction::And, asInt(old), asInt(v), ci.w); break;
		case AtomicRMWInst::Or: nw = intOp(S, Instruction::Or, asInt(old), asInt(v), ci.w); break;
		case AtomicRMWInst::Xor: nw = intOp(S, Instruction::Xor, asInt(old), asInt(v), ci.w); break;
		default: throw Unsup{"atomicrmw"};
		}
		storeT(S, I->getType(), a, nw);
		f.regs[ci.dst] = old;
		f.ip++;
		break;
	}
	case Instruction::AtomicCmpXchg:
	{
		uint64_t a = concretize(S, get(S, ci.ops[0]));
		Type* T = I->getOperand(1)->getType();
		Val want = get(S, ci.ops[1]), old = loadT(S, T, a);
		bool eq = decideBool(S, intCmp(S, CmpInst::ICMP_EQ, asInt(old), asInt(want)));
		if (eq) storeT(S, T, a, get(S, ci.ops[2]));
		f.regs[ci.dst] = agg2(old, Val::I(eq, 1));
		f.ip++;
		break;
	}
	case Instruction::Br:
		if (ci.ops.empty()) gotoBB(S, ci.tgt[0]);
		else
		{
			bool c = decideBool(S, get(S, ci.ops[0]));
			gotoBB(S, ci.tgt[c ? 0 : 1]);
		}
		break;
	case Instruction::Switch:
	{
		Val v = asInt(get(S, ci.ops[0]));
		unsigned t = 0;
		if (v.k == K_INT || S.conc.count(v.n ? v.n->e.id() : 0))
		{
			uint64_t x = concretize(S, v);
			for (size_t i = 0; i < ci.cases.size(); ++i) if (ci.cases[i] == x) t = i + 1;
		}
		else if (v.k == K_UNDEF) violation(S, "uninit", "switch on an uninitialised value");
		else
			for (size_t i = 0; i < ci.cases.size(); ++i)
				if (decide(S, Cond::ex(v.w == 1 ? (ci.cases[i] ? bvE(v) : !bvE(v)) : bvE(v) == ZC.bv_val((uint64_t)ci.cases[i], v.w)))) { t = i + 1; break; }
		gotoBB(S, ci.tgt[t]);
		break;
	}
	case Instruction::Select:
	{
		Val c = get(S, ci.ops[0]), a = get(S, ci.ops[1]), b = get(S, ci.ops[2]);
		if (c.k == K_AGG)
		{
			Val v; v.k = K_AGG;
			auto n = std::make_shared<Node>();
			for (size_t i = 0; i < c.n->agg.size(); ++i) n->agg.push_back(decideBool(S, c.n->agg[i]) ? a.n->agg[i] : b.n->agg[i]);
			v.n = n;
			f.regs[ci.dst] = v;
		}
		else if (c.k == K_INT) f.regs[ci.dst] = (c.lo & 1) ? a : b;
		else if (c.k == K_UNDEF) f.regs[ci.dst] = Val::U(ci.w);
		else if (c.k == K_BV && ci.w == 1 && (a.k == K_INT || a.k == K_BV) && (b.k == K_INT || b.k == K_BV))
		{
			// short-circuit forms keep structure
			if (b.k == K_INT && !(b.lo & 1)) f.regs[ci.dst] = intOp(S, Instruction::And, c, a, 1);
			else if (a.k == K_INT && (a.lo & 1)) f.regs[ci.dst] = intOp(S, Instruction::Or, c, b, 1);
			else f.regs[ci.dst] = mkBV(z3::ite(bvE(c), bvE(a), bvE(b)), 1);
		}
		else if (c.k == K_BV && !c.n->cp && I->getType()->isIntegerTy() && (a.k == K_INT || a.k == K_BV) && (b.k == K_INT || b.k == K_BV))
			f.regs[ci.dst] = mkBV(z3::ite(bvE(c), bvE(a), bvE(b)), ci.w);
		else f.regs[ci.dst] = decideBool(S, c) ? a : b;
		f.ip++;
		break;
	}
	case Instruction::ExtractValue:
	{
		Val a = get(S, ci.ops[0]);
		for (unsigned i : cast<ExtractValueInst>(I)->getIndices())
		{
			if (a.k == K_UNDEF) break;
			Val b = a.n->agg[i];
			a = b;
		}
		if (a.k == K_UNDEF) a = undefOf(I->getType());
		f.regs[ci.dst] = a;
		f.ip++;
		break;
	}
	case Instruction::InsertValue:
	{
		Val a = get(S, ci.ops[0]), b = get(S, ci.ops[1]);
		if (a.k == K_UNDEF) a = undefOf(I->getType());
		auto idx = cast<InsertValueInst>(I)->getIndices();
		std::function<Val(const Val&, unsigned)> ins = [&](const Val& x, unsigned d) -> Val {
			if (d == idx.size()) return b;
			auto n = std::make_shared<Node>(*x.n);
			n->agg[idx[d]] = ins(x.n->agg[idx[d]], d + 1);
			Val r; r.k = K_AGG; r.n = n;
			return r;
		};
		f.regs[ci.dst] = ins(a, 0);
		f.ip++;
		break;
	}
	case Instruction::ExtractElement:
	{
		Val a = get(S, ci.ops[0]);
		uint64_t i = concretize(S, get(S, ci.ops[1]));
		f.regs[ci.dst] = a.k == K_UNDEF ? Val::U(ci.w) : a.n->agg.at(i);
		f.ip++;
		break;
	}
	case Instruction::InsertElement:
	{
		Val a = get(S, ci.ops[0]), b = get(S, ci.ops[1]);
		uint64_t i = concretize(S, get(S, ci.ops[2]));
		if (a.k == K_UNDEF) a = undefOf(I->getType());
		auto n = std::make_shared<Node>(*a.n);
		n->agg.at(i) = b;
		Val r; r.k = K_AGG; r.n = n;
		f.regs[ci.dst] = r;
		f.ip++;
		break;
	}
	case Instruction::ShuffleVector:
	{
		Val a = get(S, ci.ops[0]), b = get(S, ci.ops[1]);
		auto* sv = cast<ShuffleVectorInst>(I);
		unsigned na = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements();
		unsigned w = bitsOf(cast<FixedVectorType>(I->getType())->getElementType());
		auto n = std::make_shared<Node>();
		for (int m : sv->getShuffleMask())
		{
			if (m < 0) n->agg.push_back(Val::U(w));
			else if ((unsigned)m < na) n->agg.push_back(a.k == K_UNDEF ? Val::U(w) : a.n->agg[m]);
			else n->agg.push_back(b.k == K_UNDEF ? Val::U(w) : b.n->agg[m - na]);
		}
		Val r; r.k = K_AGG; r.n = n;
		f.regs[ci.dst] = r;
		f.ip++;
		break;
	}
	case Instruction::Freeze:
	{
		Val a = get(S, ci.ops[0]);
		f.regs[ci.dst] = a; // stays undefined: branching on it is reported
		f.ip++;
		break;
	}
	case Instruction::Ret:
	{
		Val r;
		if (!ci.ops.empty()) r = get(S, ci.ops[0]);
		if (S.st.size() == 1)
		{
			throw PathStop{"done"};
		}
		popFrame(S);
		finishCall(S, r);
		break;
	}
	case Instruction::Call: case Instruction::Invoke:
	{
		std::vector<Val> args;
		size_t n = ci.ops.size() - (ci.callee ? 0 : 1);
		args.reserve(n);
		for (size_t i = 0; i < n; ++i) args.push_back(get(S, ci.ops[i]));
		const Function* F = ci.callee;
		int mdl = ci.model;
		if (!F)
		{
			if (cast<CallBase>(I)->isInlineAsm()) { finishCall(S, Val::U(ci.w)); break; }
			uint64_t a = concretize(S, get(S, ci.ops.back()));
			auto it = addrFn.find(a);
			if (it == addrFn.end()) violation(S, "memory", "call through an invalid function pointer");
			F = it->second;
			auto mi = models.find(F->getName().str());
			if (mi != models.end())
			{
				int& ix = modelIdx[mi->first];
				if (!ix) { ix = modelTab.size(); modelTab.push_back(mi->second); }
				mdl = ix;
			}
		}
		if (mdl)
		{
			Val ret = Val::U(ci.w);
			if (modelTab[mdl](S, ci, args, ret)) finishCall(S, ret);
			break;
		}
		if (F->isDeclaration()) throw Unsup{"call to external function " + demang(F->getName())};
		pushFrame(S, F, args);
		break;
	}
	case Instruction::Resume:
		if (S.st.size() == 1) violation(S, "exception", "uncaught exception " + demang(typeNames[S.excType]));
		{
			// resume unwinding in the caller; the exception is the one passed along
			Val v = get(S, ci.ops[0]);
			S.excObj = v.n->agg[0].lo;
			{
				auto it = S.mem.find(S.excObj);
				if (it != S.mem.end() && it->second->kind == 'e') S.excType = typeIdx(it->second->name);
			}
			popFrame(S);
			unwind(S);
		}
		break;
	case Instruction::Unreachable:
		violation(S, "crash", "reached an unreachable instruction (undefined behaviour)");
		break;
	case Instruction::PHI: throw Unsup{"stray phi"};
	default:
		throw Unsup{Str("instruction ") + I->getOpcodeName()};
	}
}

#include "models.inc"
