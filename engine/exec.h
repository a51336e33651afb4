// Symbolic executor for LLVM IR.
#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/LLVMContext.h>

struct Val;
struct Node
{
	z3::expr e;           // BV / Bool / FP
	PP cp; uint8_t cmask = 0; // polynomial sign condition (1-bit values)
	RatFun rf; bool abs = false; // exact real, optionally with pending absolute value
	std::vector<Val> agg;
	Node() : e(*gCtx) {}
};
enum Kind : uint8_t { K_UNDEF, K_INT, K_BV, K_REAL, K_SPEC, K_FLT, K_FP, K_AGG, K_FRAG };// K_FRAG: bytes of symbolic reals, only movable; agg = one value per byte, single byte: agg[0] = whole value, lo = offset
struct Val
{
	Kind k = K_UNDEF;
	uint16_t w = 0;
	uint64_t lo = 0;
	std::shared_ptr<const Node> n;
	static Val I(uint64_t v, unsigned w)
	{
		Val r; r.k = K_INT; r.w = w; r.lo = w >= 64 ? v : v & ((1ull << w) - 1);
		return r;
	}
	static Val U(unsigned w) { Val r; r.w = w; return r; }
};

struct Obj
{
	uint64_t base = 0, size = 0;
	bool alive = true, ro = false;
	char kind = 'h'; // h heap, a stack, g global, e exception
	std::string name;
	std::vector<uint8_t> data, st; // st: 0 undef 1 concrete 2 symbolic
	std::map<uint32_t, std::pair<Val, uint32_t>> sym; // offset -> value, byte size
};

struct Opn { int reg; Val c; };
struct CI
{
	const llvm::Instruction* I;
	unsigned op;
	int dst = -1;
	unsigned w = 0;
	std::vector<Opn> ops;
	// gep
	int64_t gconst = 0;
	std::vector<std::pair<int, int64_t>> gvar; // operand index, scale
	// branches: target code offsets
	std::vector<unsigned> tgt;
	std::vector<uint64_t> cases;
	const llvm::Function* callee = nullptr;
	int model = 0;
	// phi: per predecessor block index
	std::map<int, Opn> phi;
	unsigned bb = 0;
};
struct CF
{
	const llvm::Function* F;
	std::string dem;
	std::vector<CI> code;
	std::vector<unsigned> bbStart;
	unsigned nregs = 0;
	bool repo = false;
	long hits = 0;
};
struct Frame
{
	CF* f;
	unsigned ip = 0;
	int bb = 0, prev = -1;
	std::vector<Val> regs;
	std::vector<uint64_t> allocas;
	std::vector<Val> va;
};
struct Input { std::string name; char kind; Val v; };
struct State
{
	std::vector<Frame> st;
	std::map<uint64_t, std::shared_ptr<Obj>> mem;
	uint64_t brk = 0x100000000ull;
	std::vector<CondP> path;
	std::unordered_map<uint32_t, uint8_t> facts; // poly id -> possible signs
	std::unordered_map<unsigned, bool> bfacts;   // z3 bool ast id -> truth
	std::unordered_map<unsigned, uint64_t> conc; // z3 bv ast id -> value
	Model model;
	std::vector<Input> inputs;
	std::vector<uint32_t> sqrts;
	unsigned nreal = 0, nbv = 0;
	long liveHeap = 0;
	long instr = 0;
	// exceptions
	uint64_t excObj = 0, excType = 0;
	std::vector<std::pair<uint64_t, uint64_t>> caught; // exception object, type
	std::vector<std::string> reach;
	int mode = 0;
	std::vector<uint64_t> choicePrefix;
	std::map<std::string, Val> parsed; // text with symbolic characters read as a number
};
