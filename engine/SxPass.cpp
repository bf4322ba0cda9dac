// SxPass: LLVM 18 pass plugin that turns ordinary code into concolic code.
//
// Every SSA value gets a parallel "shadow" (a pointer to an expression node of the runtime,
// null = concrete).  All operations with a symbolic operand build a term in the runtime; all
// conditional control flow on a symbolic condition is reported to the runtime, which asks the
// solver for the other side.  Anything the pass has no term for is concretised through
// __sx_conc (an explored multi-way branch), never silently dropped.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/StringSet.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>

using namespace llvm;

namespace {

// Runtime operation codes, kept in step with sxrt.cpp
enum Op : unsigned {
	O_ADD = 2, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
	O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
	O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM,
	O_FCMP = 32,  // + predicate 0..15
	O_ZEXT = 50, O_SEXT, O_TRUNC, O_FPEXT, O_FPTRUNC, O_FPTOUI, O_FPTOSI, O_UITOFP, O_SITOFP, O_FNEG, O_BITCAST,
	O_UMIN = 70, O_UMAX, O_SMIN, O_SMAX, O_ABS, O_CTPOP, O_CTLZ, O_CTTZ, O_BSWAP, O_USUBSAT, O_UADDSAT,
	O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO, O_FABS
};

struct Ctx {
	Module& M;
	LLVMContext& C;
	const DataLayout& DL;
	PointerType* P;
	IntegerType *I1, *I8, *I32, *I64;
	Type* V;
	GlobalVariable *gArgs, *gTok, *gRet, *gRetTok, *gFlags;
	FunctionCallee fBin, fUn, fIte, fLoad, fStore, fBranch, fSwitch, fConc, fMemcpy, fMemset, fClear, fNative, fByval, fSel;
	StringSet<> safe;
	FunctionCallee fNatptr;

	Ctx(Module& M)
	  : M(M), C(M.getContext()), DL(M.getDataLayout()) {
		P = PointerType::getUnqual(C);
		I1 = Type::getInt1Ty(C);
		I8 = Type::getInt8Ty(C);
		I32 = Type::getInt32Ty(C);
		I64 = Type::getInt64Ty(C);
		V = Type::getVoidTy(C);
		auto g = [&](const char* n, Type* t) {
			auto gv = cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
			return gv;
		};
		gArgs = g("__sx_args", ArrayType::get(P, 64));
		gTok = g("__sx_tok", P);
		gRet = g("__sx_ret", ArrayType::get(P, 8));
		gRetTok = g("__sx_rettok", P);
		gFlags = g("__sx_pageflags", ArrayType::get(I8, 1 << 20));
		fBin = M.getOrInsertFunction("__sx_bin", P, I32, P, P, I64, I64, I32);
		fUn = M.getOrInsertFunction("__sx_un", P, I32, P, I32, I32);
		fIte = M.getOrInsertFunction("__sx_ite", P, P, P, P, I64, I64, I32, I1);
		fLoad = M.getOrInsertFunction("__sx_load", P, P, I32, I32);
		fStore = M.getOrInsertFunction("__sx_store", V, P, P, I32, I32);
		fBranch = M.getOrInsertFunction("__sx_branch", V, P, I1);
		fSwitch = M.getOrInsertFunction("__sx_switch", V, P, I64, P, I32);
		fConc = M.getOrInsertFunction("__sx_conc", V, P, I64, P);
		fMemcpy = M.getOrInsertFunction("__sx_memcpy", V, P, P, I64);
		fMemset = M.getOrInsertFunction("__sx_memset", V, P, P, I64);
		fClear = M.getOrInsertFunction("__sx_clear", V, P, I64);
		fNative = M.getOrInsertFunction("__sx_native", V, P);
		fByval = M.getOrInsertFunction("__sx_byval", V, P, P, I64);
		fNatptr = M.getOrInsertFunction("__sx_natptr", V, P, P);
	}
};

static void loadList(const char* env, StringSet<>& out) {
	if (const char* fn = getenv(env)) {
		std::ifstream f(fn);
		std::string l;
		while (std::getline(f, l))
			if (!l.empty() && l[0] != '#')
				out.insert(l);
	}
}

// "u_strlen_74" -> "u_strlen"
static std::string baseName(StringRef n) {
	std::string s = n.str();
	size_t p = s.rfind('_');
	if (p != std::string::npos && p + 1 < s.size()) {
		bool dig = true;
		for (size_t i = p + 1; i < s.size(); ++i)
			dig &= isdigit((unsigned char)s[i]) != 0;
		if (dig)
			return s.substr(0, p);
	}
	return s;
}

struct FnPass {
	Ctx& X;
	Function& F;
	typedef SmallVector<Value*, 2> Sh;
	DenseMap<Value*, Sh> sh;
	DenseSet<Value*> maybe;
	Constant* Null;
	MDNode* unlikely;

	FnPass(Ctx& X, Function& F)
	  : X(X), F(F) {
		Null = ConstantPointerNull::get(X.P);
		unlikely = MDBuilder(X.C).createBranchWeights(1, 1000);
	}

	static void leaves(Type* T, SmallVectorImpl<Type*>& out) {
		if (auto S = dyn_cast<StructType>(T)) {
			for (auto e : S->elements())
				leaves(e, out);
		}
		else if (auto A = dyn_cast<ArrayType>(T)) {
			for (uint64_t i = 0; i < A->getNumElements(); ++i)
				leaves(A->getElementType(), out);
		}
		else if (auto Vt = dyn_cast<FixedVectorType>(T)) {
			for (uint64_t i = 0; i < Vt->getNumElements(); ++i)
				leaves(Vt->getElementType(), out);
		}
		else if (!T->isVoidTy()) {
			out.push_back(T);
		}
	}
	static unsigned nleaves(Type* T) {
		SmallVector<Type*, 4> o;
		leaves(T, o);
		return o.size();
	}
	static unsigned leafIndex(Type* T, ArrayRef<unsigned> idx) {
		unsigned off = 0;
		for (auto i : idx) {
			if (auto S = dyn_cast<StructType>(T)) {
				for (unsigned k = 0; k < i; ++k)
					off += nleaves(S->getElementType(k));
				T = S->getElementType(i);
			}
			else if (auto A = dyn_cast<ArrayType>(T)) {
				off += i * nleaves(A->getElementType());
				T = A->getElementType();
			}
		}
		return off;
	}

	bool scalarOk(Type* T) {
		if (T->isIntegerTy())
			return T->getIntegerBitWidth() <= 64;
		return T->isPointerTy() || T->isDoubleTy() || T->isFloatTy();
	}
	unsigned width(Type* T) {
		if (T->isPointerTy())
			return 64;
		return T->getPrimitiveSizeInBits();
	}

	Sh& get(Value* v) {
		auto it = sh.find(v);
		if (it != sh.end())
			return it->second;
		Sh s(nleaves(v->getType()), Null);
		return sh[v] = s;
	}
	Value* get1(Value* v) {
		auto& s = get(v);
		return s.empty() ? (Value*)Null : s[0];
	}
	void set1(Value* v, Value* e) {
		Sh s;
		s.push_back(e);
		sh[v] = s;
	}
	bool isNull(Value* e) { return e == Null; }

	// value as i64
	Value* bits(IRBuilder<>& B, Value* v) {
		Type* T = v->getType();
		if (T->isPointerTy())
			return B.CreatePtrToInt(v, X.I64);
		if (T->isDoubleTy())
			return B.CreateBitCast(v, X.I64);
		if (T->isFloatTy())
			return B.CreateZExt(B.CreateBitCast(v, X.I32), X.I64);
		if (T->isIntegerTy()) {
			if (T->getIntegerBitWidth() < 64)
				return B.CreateZExt(v, X.I64);
			if (T->getIntegerBitWidth() == 64)
				return v;
			return B.CreateTrunc(v, X.I64);
		}
		return ConstantInt::get(X.I64, 0);
	}

	Value* anyOf(IRBuilder<>& B, ArrayRef<Value*> es) {
		Value* r = nullptr;
		SmallPtrSet<Value*, 8> seen;
		for (auto e : es) {
			if (isNull(e) || !seen.insert(e).second)
				continue;
			Value* c = B.CreateICmpNE(e, Null);
			r = r ? B.CreateOr(r, c) : c;
		}
		return r;
	}

	// Emit fn(B) guarded by "any shadow non-null", before `at`; returns phi(result, null) or nullptr
	template<typename Fn>
	Value* guarded(Instruction* at, ArrayRef<Value*> es, Fn fn, bool hasResult = true) {
		IRBuilder<> B(at);
		Value* c = anyOf(B, es);
		if (!c)
			return Null;
		Instruction* term = SplitBlockAndInsertIfThen(c, at, false, unlikely);
		IRBuilder<> T(term);
		Value* r = fn(T);
		if (!hasResult)
			return nullptr;
		BasicBlock* thenB = term->getParent();
		BasicBlock* head = thenB->getSinglePredecessor();
		IRBuilder<> E(at);
		PHINode* phi = E.CreatePHI(X.P, 2);
		phi->addIncoming(r, thenB);
		phi->addIncoming(Null, head);
		return phi;
	}

	Constant* fname(StringRef n) {
		static std::map<std::pair<Module*, std::string>, Constant*> cache;
		auto& c = cache[{ &X.M, n.str() }];
		if (!c) {
			auto s = ConstantDataArray::getString(X.C, n);
			auto g = new GlobalVariable(X.M, s->getType(), true, GlobalValue::PrivateLinkage, s);
			c = g;
		}
		return c;
	}

	void conc(Instruction* at, Value* v, const char* why) {
		// concretise every symbolic leaf of v
		auto s = get(v);
		SmallVector<Type*, 4> ts;
		leaves(v->getType(), ts);
		for (unsigned i = 0; i < s.size(); ++i) {
			if (isNull(s[i]))
				continue;
			Value* vv = v;
			guarded(
			  at, { s[i] }, [&](IRBuilder<>& B) -> Value* {
				  Value* leaf = nullptr;
				  if (!v->getType()->isAggregateType() && !v->getType()->isVectorTy())
					  leaf = v;
				  else if (auto VT = dyn_cast<FixedVectorType>(v->getType()))
					  leaf = B.CreateExtractElement(v, (uint64_t)i);
				  else if (auto ST = dyn_cast<StructType>(v->getType())) {
					  if (nleaves(ST) == ST->getNumElements())
						  leaf = B.CreateExtractValue(v, { i });
				  }
				  Value* b = leaf ? bits(B, leaf) : (Value*)ConstantInt::get(X.I64, 0);
				  B.CreateCall(X.fConc, { s[i], b, fname(why) });
				  return nullptr;
			  },
			  false);
			(void)vv;
		}
	}

	bool isMaybe(Value* v) { return maybe.count(v); }

	void computeMaybe() {
		bool ch = true;
		for (auto& A : F.args())
			if (nleaves(A.getType()))
				maybe.insert(&A);
		while (ch) {
			ch = false;
			for (auto& I : instructions(F)) {
				if (maybe.count(&I) || I.getType()->isVoidTy())
					continue;
				bool m = false;
				if (isa<LoadInst>(I) || isa<VAArgInst>(I)) {
					m = true;
				}
				else if (isa<AllocaInst>(I) || isa<LandingPadInst>(I)) {
					m = false;
				}
				else if (auto CB = dyn_cast<CallBase>(&I)) {
					m = true;
					if (auto II = dyn_cast<IntrinsicInst>(CB)) {
						m = false;
						for (auto& a : II->args())
							m |= maybe.count(a) > 0;
					}
				}
				else {
					for (auto& o : I.operands())
						if (maybe.count(o)) {
							m = true;
							break;
						}
				}
				if (m) {
					maybe.insert(&I);
					ch = true;
				}
			}
		}
	}

	Value* flagAt(IRBuilder<>& B, Value* addr) {
		Value* a = B.CreatePtrToInt(addr, X.I64);
		a = B.CreateAnd(B.CreateLShr(a, 12), ConstantInt::get(X.I64, (1 << 20) - 1));
		Value* g = B.CreateInBoundsGEP(X.gFlags->getValueType(), X.gFlags, { ConstantInt::get(X.I64, 0), a });
		return B.CreateICmpNE(B.CreateLoad(X.I8, g), ConstantInt::get(X.I8, 0));
	}

	Value* doLoad(Instruction* at, Value* addr, uint64_t off, Type* T) {
		if (!scalarOk(T))
			return Null; // handled as bytes in the runtime only if <=64 bits
		IRBuilder<> B(at);
		Value* a = off ? B.CreateInBoundsGEP(X.I8, addr, ConstantInt::get(X.I64, off)) : addr;
		Value* c = flagAt(B, a);
		Instruction* term = SplitBlockAndInsertIfThen(c, at, false, unlikely);
		IRBuilder<> T2(term);
		Value* r = T2.CreateCall(X.fLoad, { a, ConstantInt::get(X.I32, X.DL.getTypeStoreSize(T)), ConstantInt::get(X.I32, width(T)) });
		BasicBlock* thenB = term->getParent();
		BasicBlock* head = thenB->getSinglePredecessor();
		IRBuilder<> E(at);
		PHINode* phi = E.CreatePHI(X.P, 2);
		phi->addIncoming(r, thenB);
		phi->addIncoming(Null, head);
		return phi;
	}
	void doStore(Instruction* at, Value* addr, uint64_t off, Type* T, Value* e) {
		IRBuilder<> B(at);
		Value* a = off ? B.CreateInBoundsGEP(X.I8, addr, ConstantInt::get(X.I64, off)) : addr;
		Value* c = flagAt(B, a);
		if (!isNull(e))
			c = B.CreateOr(c, B.CreateICmpNE(e, Null));
		Instruction* term = SplitBlockAndInsertIfThen(c, at, false, unlikely);
		IRBuilder<> T2(term);
		T2.CreateCall(X.fStore, { a, e, ConstantInt::get(X.I32, X.DL.getTypeStoreSize(T)), ConstantInt::get(X.I32, scalarOk(T) ? width(T) : 0) });
	}
	void leafOffsets(Type* T, uint64_t base, SmallVectorImpl<uint64_t>& out) {
		if (auto S = dyn_cast<StructType>(T)) {
			auto L = X.DL.getStructLayout(S);
			for (unsigned i = 0; i < S->getNumElements(); ++i)
				leafOffsets(S->getElementType(i), base + L->getElementOffset(i), out);
		}
		else if (auto A = dyn_cast<ArrayType>(T)) {
			for (uint64_t i = 0; i < A->getNumElements(); ++i)
				leafOffsets(A->getElementType(), base + i * X.DL.getTypeAllocSize(A->getElementType()), out);
		}
		else if (auto Vt = dyn_cast<FixedVectorType>(T)) {
			for (uint64_t i = 0; i < Vt->getNumElements(); ++i)
				leafOffsets(Vt->getElementType(), base + i * X.DL.getTypeStoreSize(Vt->getElementType()), out);
		}
		else
			out.push_back(base);
	}

	Value* bin(Instruction* at, unsigned op, Value* ea, Value* eb, Value* a, Value* b, unsigned w) {
		return guarded(at, { ea, eb }, [&](IRBuilder<>& B) -> Value* {
			return B.CreateCall(X.fBin, { ConstantInt::get(X.I32, op), ea, eb, bits(B, a), bits(B, b), ConstantInt::get(X.I32, w) });
		});
	}
	Value* un(Instruction* at, unsigned op, Value* ea, unsigned wf, unsigned wt) {
		return guarded(at, { ea }, [&](IRBuilder<>& B) -> Value* {
			return B.CreateCall(X.fUn, { ConstantInt::get(X.I32, op), ea, ConstantInt::get(X.I32, wf), ConstantInt::get(X.I32, wt) });
		});
	}

	Instruction* next(Instruction* I) { return I->getNextNode(); }

	void visit(Instruction* I) {
		if (auto L = dyn_cast<LoadInst>(I)) {
			conc(I, L->getPointerOperand(), "load address");
			SmallVector<Type*, 4> ts;
			SmallVector<uint64_t, 4> offs;
			leaves(L->getType(), ts);
			leafOffsets(L->getType(), 0, offs);
			Sh s;
			for (unsigned i = 0; i < ts.size(); ++i)
				s.push_back(doLoad(next(I), L->getPointerOperand(), offs[i], ts[i]));
			sh[I] = s;
			return;
		}
		if (auto S = dyn_cast<StoreInst>(I)) {
			conc(I, S->getPointerOperand(), "store address");
			Type* T = S->getValueOperand()->getType();
			SmallVector<Type*, 4> ts;
			SmallVector<uint64_t, 4> offs;
			leaves(T, ts);
			leafOffsets(T, 0, offs);
			auto s = get(S->getValueOperand());
			for (unsigned i = 0; i < ts.size(); ++i)
				doStore(next(I), S->getPointerOperand(), offs[i], ts[i], s[i]);
			return;
		}
		if (auto BO = dyn_cast<BinaryOperator>(I)) {
			if (!isMaybe(I))
				return;
			Type* T = I->getType();
			if (T->isVectorTy() || !scalarOk(T)) {
				conc(I, BO->getOperand(0), "wide binop");
				conc(I, BO->getOperand(1), "wide binop");
				return;
			}
			unsigned op = 0;
			switch (BO->getOpcode()) {
			case Instruction::Add: op = O_ADD; break;
			case Instruction::Sub: op = O_SUB; break;
			case Instruction::Mul: op = O_MUL; break;
			case Instruction::UDiv: op = O_UDIV; break;
			case Instruction::SDiv: op = O_SDIV; break;
			case Instruction::URem: op = O_UREM; break;
			case Instruction::SRem: op = O_SREM; break;
			case Instruction::Shl: op = O_SHL; break;
			case Instruction::LShr: op = O_LSHR; break;
			case Instruction::AShr: op = O_ASHR; break;
			case Instruction::And: op = O_AND; break;
			case Instruction::Or: op = O_OR; break;
			case Instruction::Xor: op = O_XOR; break;
			case Instruction::FAdd: op = O_FADD; break;
			case Instruction::FSub: op = O_FSUB; break;
			case Instruction::FMul: op = O_FMUL; break;
			case Instruction::FDiv: op = O_FDIV; break;
			default:
				conc(I, BO->getOperand(0), "binop");
				conc(I, BO->getOperand(1), "binop");
				return;
			}
			set1(I, bin(next(I), op, get1(BO->getOperand(0)), get1(BO->getOperand(1)), BO->getOperand(0), BO->getOperand(1), width(T)));
			return;
		}
		if (auto CI = dyn_cast<CmpInst>(I)) {
			if (!isMaybe(I))
				return;
			Type* T = CI->getOperand(0)->getType();
			if (T->isVectorTy() || !scalarOk(T)) {
				conc(I, CI->getOperand(0), "wide cmp");
				conc(I, CI->getOperand(1), "wide cmp");
				return;
			}
			unsigned op = 0;
			if (isa<FCmpInst>(CI)) {
				op = O_FCMP + (unsigned)CI->getPredicate();
			}
			else {
				switch (CI->getPredicate()) {
				case CmpInst::ICMP_EQ: op = O_EQ; break;
				case CmpInst::ICMP_NE: op = O_NE; break;
				case CmpInst::ICMP_ULT: op = O_ULT; break;
				case CmpInst::ICMP_ULE: op = O_ULE; break;
				case CmpInst::ICMP_UGT: op = O_UGT; break;
				case CmpInst::ICMP_UGE: op = O_UGE; break;
				case CmpInst::ICMP_SLT: op = O_SLT; break;
				case CmpInst::ICMP_SLE: op = O_SLE; break;
				case CmpInst::ICMP_SGT: op = O_SGT; break;
				default: op = O_SGE; break;
				}
			}
			set1(I, bin(next(I), op, get1(CI->getOperand(0)), get1(CI->getOperand(1)), CI->getOperand(0), CI->getOperand(1), width(T)));
			return;
		}
		if (auto CA = dyn_cast<CastInst>(I)) {
			if (!isMaybe(I))
				return;
			Type *ST = CA->getSrcTy(), *DT = CA->getDestTy();
			if (!scalarOk(ST) || !scalarOk(DT)) {
				conc(I, CA->getOperand(0), "wide cast");
				return;
			}
			Value* e = get1(CA->getOperand(0));
			unsigned wf = width(ST), wt = width(DT), op = 0;
			switch (CA->getOpcode()) {
			case Instruction::ZExt: op = O_ZEXT; break;
			case Instruction::SExt: op = O_SEXT; break;
			case Instruction::Trunc: op = O_TRUNC; break;
			case Instruction::PtrToInt:
			case Instruction::IntToPtr:
				if (wf == wt) {
					set1(I, e);
					return;
				}
				op = wf < wt ? O_ZEXT : O_TRUNC;
				break;
			case Instruction::BitCast: set1(I, e); return;
			case Instruction::FPExt: op = O_FPEXT; break;
			case Instruction::FPTrunc: op = O_FPTRUNC; break;
			case Instruction::FPToUI: op = O_FPTOUI; break;
			case Instruction::FPToSI: op = O_FPTOSI; break;
			case Instruction::UIToFP: op = O_UITOFP; break;
			case Instruction::SIToFP: op = O_SITOFP; break;
			default: conc(I, CA->getOperand(0), "cast"); return;
			}
			set1(I, un(next(I), op, e, wf, wt));
			return;
		}
		if (auto U = dyn_cast<UnaryOperator>(I)) {
			if (!isMaybe(I))
				return;
			if (!scalarOk(U->getType())) {
				conc(I, U->getOperand(0), "wide unop");
				return;
			}
			set1(I, un(next(I), O_FNEG, get1(U->getOperand(0)), width(U->getType()), width(U->getType())));
			return;
		}
		if (auto G = dyn_cast<GetElementPtrInst>(I)) {
			if (!isMaybe(I))
				return;
			if (G->getType()->isVectorTy())
				return;
			SmallVector<Value*, 4> es;
			for (auto& o : G->operands())
				es.push_back(get1(o));
			Instruction* at = next(I);
			Value* r = guarded(at, es, [&](IRBuilder<>& B) -> Value* {
				// acc = base + sum(idx * scale)
				Value* accE = get1(G->getPointerOperand());
				Value* accV = B.CreatePtrToInt(G->getPointerOperand(), X.I64);
				auto add = [&](Value* e, Value* v) {
					accE = B.CreateCall(X.fBin, { ConstantInt::get(X.I32, O_ADD), accE, e, accV, v, ConstantInt::get(X.I32, 64) });
					accV = B.CreateAdd(accV, v);
				};
				Type* T = nullptr;
				bool first = true;
				for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
					Value* idx = gi.getOperand();
					if (auto* st = gi.getStructTypeOrNull()) {
						uint64_t off = X.DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
						if (off)
							add(Null, ConstantInt::get(X.I64, off));
						continue;
					}
					uint64_t sz = X.DL.getTypeAllocSize(gi.getIndexedType());
					if (auto ci = dyn_cast<ConstantInt>(idx)) {
						if (!ci->isZero())
							add(Null, ConstantInt::get(X.I64, ci->getSExtValue() * (int64_t)sz));
						continue;
					}
					Value* e = get1(idx);
					Value* v = idx;
					unsigned w = width(idx->getType());
					if (w < 64) {
						v = B.CreateSExt(idx, X.I64);
						if (!isNull(e))
							e = B.CreateCall(X.fUn, { ConstantInt::get(X.I32, O_SEXT), e, ConstantInt::get(X.I32, w), ConstantInt::get(X.I32, 64) });
					}
					if (sz != 1) {
						if (!isNull(e))
							e = B.CreateCall(X.fBin, { ConstantInt::get(X.I32, O_MUL), e, Null, v, ConstantInt::get(X.I64, sz), ConstantInt::get(X.I32, 64) });
						v = B.CreateMul(v, ConstantInt::get(X.I64, sz));
					}
					add(e, v);
				}
				(void)T;
				(void)first;
				return accE;
			});
			set1(I, r);
			return;
		}
		if (auto S = dyn_cast<SelectInst>(I)) {
			if (!isMaybe(I))
				return;
			if (S->getCondition()->getType()->isVectorTy()) {
				conc(I, S->getCondition(), "vector select");
				conc(I, S->getTrueValue(), "vector select");
				conc(I, S->getFalseValue(), "vector select");
				return;
			}
			Value* ec = get1(S->getCondition());
			if (!scalarOk(S->getType())) {
				conc(I, S->getCondition(), "aggregate select");
				auto a = get(S->getTrueValue());
				auto b = get(S->getFalseValue());
				Sh r;
				IRBuilder<> B(next(I));
				for (unsigned i = 0; i < a.size(); ++i)
					r.push_back(a[i] == b[i] ? a[i] : B.CreateSelect(S->getCondition(), a[i], b[i]));
				sh[I] = r;
				return;
			}
			Value *ea = get1(S->getTrueValue()), *eb = get1(S->getFalseValue());
			Value* r = guarded(next(I), { ec, ea, eb }, [&](IRBuilder<>& B) -> Value* {
				return B.CreateCall(X.fIte, { ec, ea, eb, bits(B, S->getTrueValue()), bits(B, S->getFalseValue()), ConstantInt::get(X.I32, width(S->getType())), S->getCondition() });
			});
			set1(I, r);
			return;
		}
		if (auto EV = dyn_cast<ExtractValueInst>(I)) {
			auto s = get(EV->getAggregateOperand());
			unsigned off = leafIndex(EV->getAggregateOperand()->getType(), EV->getIndices());
			unsigned n = nleaves(EV->getType());
			Sh r;
			for (unsigned i = 0; i < n; ++i)
				r.push_back(s[off + i]);
			sh[I] = r;
			return;
		}
		if (auto IV = dyn_cast<InsertValueInst>(I)) {
			Sh r = get(IV->getAggregateOperand());
			auto s = get(IV->getInsertedValueOperand());
			unsigned off = leafIndex(IV->getAggregateOperand()->getType(), IV->getIndices());
			for (unsigned i = 0; i < s.size(); ++i)
				r[off + i] = s[i];
			sh[I] = r;
			return;
		}
		if (auto EE = dyn_cast<ExtractElementInst>(I)) {
			if (auto ci = dyn_cast<ConstantInt>(EE->getIndexOperand()))
				set1(I, get(EE->getVectorOperand())[ci->getZExtValue()]);
			else {
				conc(I, EE->getVectorOperand(), "extractelement");
				conc(I, EE->getIndexOperand(), "extractelement");
			}
			return;
		}
		if (auto IE = dyn_cast<InsertElementInst>(I)) {
			if (auto ci = dyn_cast<ConstantInt>(IE->getOperand(2))) {
				Sh r = get(IE->getOperand(0));
				r[ci->getZExtValue()] = get1(IE->getOperand(1));
				sh[I] = r;
			}
			else {
				for (auto& o : IE->operands())
					conc(I, o, "insertelement");
			}
			return;
		}
		if (auto SV = dyn_cast<ShuffleVectorInst>(I)) {
			auto a = get(SV->getOperand(0));
			auto b = get(SV->getOperand(1));
			Sh r;
			for (int m : SV->getShuffleMask()) {
				if (m < 0)
					r.push_back(Null);
				else if ((unsigned)m < a.size())
					r.push_back(a[m]);
				else
					r.push_back(b[m - a.size()]);
			}
			sh[I] = r;
			return;
		}
		if (isa<FreezeInst>(I)) {
			sh[I] = get(I->getOperand(0));
			return;
		}
		if (auto BR = dyn_cast<BranchInst>(I)) {
			if (BR->isConditional()) {
				Value* e = get1(BR->getCondition());
				guarded(
				  I, { e }, [&](IRBuilder<>& B) -> Value* {
					  B.CreateCall(X.fBranch, { e, BR->getCondition() });
					  return nullptr;
				  },
				  false);
			}
			return;
		}
		if (auto SW = dyn_cast<SwitchInst>(I)) {
			Value* e = get1(SW->getCondition());
			if (isNull(e))
				return;
			SmallVector<Constant*, 8> cs;
			for (auto& c : SW->cases())
				cs.push_back(ConstantInt::get(X.I64, c.getCaseValue()->getZExtValue()));
			auto AT = ArrayType::get(X.I64, cs.size());
			auto g = new GlobalVariable(X.M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs));
			guarded(
			  I, { e }, [&](IRBuilder<>& B) -> Value* {
				  B.CreateCall(X.fSwitch, { e, bits(B, SW->getCondition()), g, ConstantInt::get(X.I32, cs.size()) });
				  return nullptr;
			  },
			  false);
			return;
		}
		if (auto R = dyn_cast<ReturnInst>(I)) {
			Value* rv = R->getReturnValue();
			if (!rv)
				return;
			if (R->getParent()->getTerminatingMustTailCall())
				return;
			auto s = get(rv);
			bool anyM = false;
			for (auto e : s)
				anyM |= !isNull(e);
			IRBuilder<> B(I);
			if (s.size() > 8 || !anyM) {
				if (s.size() > 8)
					conc(I, rv, "big return");
				IRBuilder<> B2(I);
				B2.CreateStore(Null, X.gRetTok);
				return;
			}
			Value* c = anyOf(B, s);
			B.CreateStore(B.CreateSelect(c, &F, Null), X.gRetTok);
			for (unsigned i = 0; i < s.size(); ++i)
				B.CreateStore(s[i], B.CreateConstInBoundsGEP2_64(X.gRet->getValueType(), X.gRet, 0, i));
			return;
		}
		if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) {
			for (auto& o : I->operands())
				conc(I, o, "atomic");
			IRBuilder<> B(next(I));
			Type* T = isa<AtomicRMWInst>(I) ? I->getType() : cast<AtomicCmpXchgInst>(I)->getNewValOperand()->getType();
			B.CreateCall(X.fClear, { I->getOperand(isa<AtomicRMWInst>(I) ? 0 : 0), ConstantInt::get(X.I64, X.DL.getTypeStoreSize(T)) });
			return;
		}
		if (auto A = dyn_cast<AllocaInst>(I)) {
			if (A->isArrayAllocation())
				conc(I, A->getArraySize(), "alloca size");
			Instruction* at = next(I);
			while (isa<AllocaInst>(at))
				at = at->getNextNode();
			IRBuilder<> B(at);
			if (auto sz = A->getAllocationSize(X.DL))
				B.CreateCall(X.fClear, { A, ConstantInt::get(X.I64, sz->getFixedValue()) });
			return;
		}
		if (auto CB = dyn_cast<CallBase>(I)) {
			visitCall(CB);
			return;
		}
		if (isa<PHINode>(I))
			return;
		if (isa<IndirectBrInst>(I)) {
			conc(I, I->getOperand(0), "indirectbr");
			return;
		}
		if (isa<LandingPadInst>(I) || isa<ResumeInst>(I) || isa<UnreachableInst>(I) || isa<FenceInst>(I))
			return;
		for (auto& o : I->operands())
			if (nleaves(o->getType()))
				conc(I, o, "other instruction");
	}

	void visitIntrinsic(IntrinsicInst* II) {
		auto id = II->getIntrinsicID();
		switch (id) {
		case Intrinsic::dbg_declare:
		case Intrinsic::dbg_value:
		case Intrinsic::dbg_label:
		case Intrinsic::assume:
		case Intrinsic::lifetime_end:
		case Intrinsic::lifetime_start:
		case Intrinsic::experimental_noalias_scope_decl:
		case Intrinsic::trap:
		case Intrinsic::vastart:
		case Intrinsic::vaend:
		case Intrinsic::vacopy:
		case Intrinsic::stacksave:
		case Intrinsic::stackrestore:
		case Intrinsic::eh_typeid_for:
		case Intrinsic::is_constant:
		case Intrinsic::objectsize:
		case Intrinsic::prefetch:
			return;
		case Intrinsic::expect:
		case Intrinsic::launder_invariant_group:
		case Intrinsic::strip_invariant_group:
			sh[II] = get(II->getArgOperand(0));
			return;
		case Intrinsic::memcpy:
		case Intrinsic::memcpy_inline:
		case Intrinsic::memmove: {
			for (unsigned i = 0; i < 3; ++i)
				conc(II, II->getArgOperand(i), "memcpy argument");
			IRBuilder<> B(II);
			B.CreateCall(X.fMemcpy, { II->getArgOperand(0), II->getArgOperand(1), B.CreateZExtOrTrunc(II->getArgOperand(2), X.I64) });
			return;
		}
		case Intrinsic::memset: {
			conc(II, II->getArgOperand(0), "memset argument");
			conc(II, II->getArgOperand(2), "memset argument");
			IRBuilder<> B(II->getNextNode());
			B.CreateCall(X.fMemset, { II->getArgOperand(0), get1(II->getArgOperand(1)), B.CreateZExtOrTrunc(II->getArgOperand(2), X.I64) });
			return;
		}
		default: break;
		}
		if (!isMaybe(II)) {
			return;
		}
		Type* T = II->getType();
		auto a0 = II->arg_size() > 0 ? II->getArgOperand(0) : nullptr;
		auto a1 = II->arg_size() > 1 ? II->getArgOperand(1) : nullptr;
		auto w = a0 && scalarOk(a0->getType()) ? width(a0->getType()) : 0;
		unsigned op = 0;
		if (w && !a0->getType()->isVectorTy()) {
			switch (id) {
			case Intrinsic::umin: op = O_UMIN; break;
			case Intrinsic::umax: op = O_UMAX; break;
			case Intrinsic::smin: op = O_SMIN; break;
			case Intrinsic::smax: op = O_SMAX; break;
			case Intrinsic::usub_sat: op = O_USUBSAT; break;
			case Intrinsic::uadd_sat: op = O_UADDSAT; break;
			default: break;
			}
			if (op) {
				set1(II, bin(II->getNextNode(), op, get1(a0), get1(a1), a0, a1, w));
				return;
			}
			switch (id) {
			case Intrinsic::abs: op = O_ABS; break;
			case Intrinsic::ctpop: op = O_CTPOP; break;
			case Intrinsic::ctlz: op = O_CTLZ; break;
			case Intrinsic::cttz: op = O_CTTZ; break;
			case Intrinsic::bswap: op = O_BSWAP; break;
			case Intrinsic::fabs: op = O_FABS; break;
			default: break;
			}
			if (op) {
				set1(II, un(II->getNextNode(), op, get1(a0), w, w));
				return;
			}
			unsigned base = 0;
			switch (id) {
			case Intrinsic::uadd_with_overflow: op = O_UADDO; base = O_ADD; break;
			case Intrinsic::usub_with_overflow: op = O_USUBO; base = O_SUB; break;
			case Intrinsic::umul_with_overflow: op = O_UMULO; base = O_MUL; break;
			case Intrinsic::sadd_with_overflow: op = O_SADDO; base = O_ADD; break;
			case Intrinsic::ssub_with_overflow: op = O_SSUBO; base = O_SUB; break;
			case Intrinsic::smul_with_overflow: op = O_SMULO; base = O_MUL; break;
			default: break;
			}
			if (op) {
				Sh s;
				s.push_back(bin(II->getNextNode(), base, get1(a0), get1(a1), a0, a1, w));
				s.push_back(bin(II->getNextNode(), op, get1(a0), get1(a1), a0, a1, w));
				// keep insertion order consistent: both computed before later users
				sh[II] = s;
				return;
			}
			if (id == Intrinsic::fshl || id == Intrinsic::fshr) {
				auto a2 = II->getArgOperand(2);
				if (auto ci = dyn_cast<ConstantInt>(a2)) {
					unsigned k = ci->getZExtValue() % w;
					if (id == Intrinsic::fshr)
						k = (w - k) % w;
					if (k == 0) {
						set1(II, get1(id == Intrinsic::fshl ? a0 : a1));
						return;
					}
					Value *e0 = get1(a0), *e1 = get1(a1);
					set1(II, guarded(II->getNextNode(), { e0, e1 }, [&](IRBuilder<>& B) -> Value* {
						auto W = ConstantInt::get(X.I32, w);
						auto W64 = [&](uint64_t v) { return ConstantInt::get(X.I64, v); };
						Value* v0 = bits(B, a0);
						Value* v1 = bits(B, a1);
						Value* h = B.CreateCall(X.fBin, { ConstantInt::get(X.I32, O_SHL), e0, Null, v0, W64(k), W });
						Value* l = B.CreateCall(X.fBin, { ConstantInt::get(X.I32, O_LSHR), e1, Null, v1, W64(w - k), W });
						uint64_t mask = w == 64 ? ~0ull : ((1ull << w) - 1);
						Value* hv = B.CreateAnd(B.CreateShl(v0, W64(k)), W64(mask));
						Value* lv = B.CreateLShr(v1, W64(w - k));
						return B.CreateCall(X.fBin, { ConstantInt::get(X.I32, O_OR), h, l, hv, lv, W });
					}));
					return;
				}
			}
		}
		(void)T;
		for (auto& a : II->args())
			if (nleaves(a->getType()))
				conc(II, a, "intrinsic");
	}

	bool isSafe(StringRef n) {
		if (n.starts_with("sxapi_") || n.starts_with("__sx") || n.starts_with("cg3_") || n.contains("3CG3"))
			return true;
		// cg3's functions outside of its name space
		if (n.starts_with("_Z") && (n.contains("u_fget") || n.contains("u_fprintf") || n.contains("u_fput") || n.contains("u_fflush") || n.contains("9read_utf8")))
			return true;
		if (n.starts_with("_ZNSt18_Rb_tree") || n.starts_with("_ZSt18_Rb_tree") || n.starts_with("_ZSt20__throw") || n.starts_with("_ZSt17__throw") || n.starts_with("_ZSt16__throw") || n.starts_with("_ZSt19__throw") || n.starts_with("_ZSt24__throw") || n.starts_with("_ZSt28__throw") || n.starts_with("_ZSt25__throw"))
			return true;
		return X.safe.contains(baseName(n)) || X.safe.contains(n);
	}

	void visitCall(CallBase* CB) {
		if (auto II = dyn_cast<IntrinsicInst>(CB)) {
			visitIntrinsic(II);
			return;
		}
		if (CB->isInlineAsm()) {
			for (auto& a : CB->args())
				conc(CB, a, "inline asm");
			return;
		}
		Value* callee = CB->getCalledOperand();
		if (auto CF = dyn_cast<Function>(callee->stripPointerCasts())) {
			if (CF->getName().starts_with("__sx_") || CF->getName().starts_with("__cxa_") || CF->getName().starts_with("_ZSt9terminate") || CF->getName() == "__clang_call_terminate")
				return;
		}
		conc(CB, callee, "call target");
		if (auto CF = dyn_cast<Function>(callee); CF && CF->isDeclaration() && !isSafe(CF->getName())) {
			// a native function that may read memory: everything its pointer arguments reach at one
			// level is made concrete first
			IRBuilder<> B(CB);
			for (unsigned i = 0; i < CB->arg_size(); ++i) {
				Value* a = CB->getArgOperand(i);
				if (!a->getType()->isPointerTy() || isa<ConstantPointerNull>(a))
					continue;
				if (auto K = dyn_cast<Constant>(a)) {
					auto G = dyn_cast<GlobalVariable>(K->stripInBoundsOffsets());
					if (!G || G->isConstant())
						continue;
				}
				if (CB->paramHasAttr(i, Attribute::StructRet))
					B.CreateCall(X.fClear, { a, ConstantInt::get(X.I64, X.DL.getTypeAllocSize(CB->getParamStructRetType(i))) });
				else
					B.CreateCall(X.fNatptr, { a, fname(("native " + CF->getName()).str()) });
			}
		}
		// collect arg leaves
		unsigned nfixed = CB->getFunctionType()->getNumParams();
		SmallVector<std::pair<unsigned, Value*>, 8> as;
		SmallVector<Value*, 8> es;
		SmallVector<std::pair<unsigned, Value*>, 2> byvals;
		unsigned slot = 0;
		for (unsigned i = 0; i < CB->arg_size(); ++i) {
			Value* a = CB->getArgOperand(i);
			unsigned n = nleaves(a->getType());
			if (i >= nfixed) {
				conc(CB, a, "variadic argument");
				continue;
			}
			if (CB->isByValArgument(i)) {
				byvals.push_back({ slot, a });
				slot += 1;
				continue;
			}
			if (slot + n > 64) {
				conc(CB, a, "too many arguments");
				slot += n;
				continue;
			}
			auto s = get(a);
			for (unsigned k = 0; k < n; ++k) {
				as.push_back({ slot + k, s[k] });
				if (!isNull(s[k]))
					es.push_back(s[k]);
			}
			slot += n;
		}
		Value* symArgs = nullptr;
		auto emit = [&](IRBuilder<>& B) -> Value* {
			for (auto& p : as)
				B.CreateStore(p.second, B.CreateConstInBoundsGEP2_64(X.gArgs->getValueType(), X.gArgs, 0, p.first));
			for (auto& p : byvals)
				B.CreateStore(p.second, B.CreateConstInBoundsGEP2_64(X.gArgs->getValueType(), X.gArgs, 0, p.first));
			B.CreateStore(callee, X.gTok);
			return nullptr;
		};
		if (!byvals.empty()) {
			IRBuilder<> B(CB);
			emit(B);
			symArgs = ConstantInt::getTrue(X.C);
		}
		else if (!es.empty()) {
			IRBuilder<> B(CB);
			symArgs = anyOf(B, es);
			Instruction* term = SplitBlockAndInsertIfThen(symArgs, CB, false, unlikely);
			IRBuilder<> T(term);
			emit(T);
		}
		// after the call
		Instruction* after = nullptr;
		if (auto INV = dyn_cast<InvokeInst>(CB)) {
			BasicBlock* ND = INV->getNormalDest();
			if (!ND->getSinglePredecessor() || isa<PHINode>(ND->front())) {
				BasicBlock* nb = BasicBlock::Create(X.C, "", &F, ND);
				BranchInst* br = BranchInst::Create(ND, nb);
				INV->setNormalDest(nb);
				ND->replacePhiUsesWith(INV->getParent(), nb);
				after = br;
			}
			else {
				after = &*ND->getFirstInsertionPt();
			}
		}
		else if (isa<CallInst>(CB)) {
			if (cast<CallInst>(CB)->isMustTailCall())
				return;
			after = CB->getNextNode();
		}
		if (!after)
			return;
		bool internal = false;
		if (auto CF = dyn_cast<Function>(callee))
			internal = !CF->isDeclaration();
		unsigned rn = nleaves(CB->getType());
		if (rn && rn <= 8 && !CB->use_empty()) {
			IRBuilder<> B(after);
			Value* ok = B.CreateICmpEQ(B.CreateLoad(X.P, X.gRetTok), callee);
			Sh r;
			for (unsigned i = 0; i < rn; ++i) {
				Value* v = B.CreateLoad(X.P, B.CreateConstInBoundsGEP2_64(X.gRet->getValueType(), X.gRet, 0, i));
				r.push_back(B.CreateSelect(ok, v, Null));
			}
			sh[CB] = r;
		}
		if (symArgs && !internal) {
			IRBuilder<> B(after);
			Value* c = B.CreateICmpEQ(B.CreateLoad(X.P, X.gTok), callee);
			c = B.CreateAnd(c, symArgs);
			Instruction* term = SplitBlockAndInsertIfThen(c, after, false, unlikely);
			IRBuilder<> T(term);
			// native callee: it used the concrete values of these arguments
			unsigned slot2 = 0;
			std::string nm = "call ";
			if (auto CF = dyn_cast<Function>(callee))
				nm += CF->getName().str();
			else
				nm += "indirect";
			for (unsigned i = 0; i < CB->arg_size() && i < nfixed; ++i) {
				Value* a = CB->getArgOperand(i);
				if (CB->isByValArgument(i))
					continue;
				auto s = get(a);
				if (s.size() == 1 && !isNull(s[0]) && scalarOk(a->getType()))
					T.CreateCall(X.fConc, { s[0], bits(T, a), fname(nm) });
				slot2 += s.size();
			}
			T.CreateStore(Null, X.gTok);
		}
	}

	void run() {
		computeMaybe();
		SmallVector<Instruction*, 256> work;
		SmallVector<PHINode*, 64> phis;
		{
			ReversePostOrderTraversal<Function*> RPOT(&F);
			for (auto BB : RPOT)
				for (auto& I : *BB)
					work.push_back(&I);
		}
		// shadow phis
		for (auto I : work) {
			if (auto Ph = dyn_cast<PHINode>(I)) {
				if (!isMaybe(Ph))
					continue;
				unsigned n = nleaves(Ph->getType());
				Sh s;
				for (unsigned i = 0; i < n; ++i)
					s.push_back(PHINode::Create(X.P, Ph->getNumIncomingValues(), "", Ph));
				sh[Ph] = s;
				phis.push_back(Ph);
			}
		}
		// prologue: arguments
		{
			Instruction* at = &*F.getEntryBlock().getFirstInsertionPt();
			while (isa<AllocaInst>(at))
				at = at->getNextNode();
			bool anyArg = false;
			for (auto& A : F.args())
				anyArg |= nleaves(A.getType()) > 0;
			if (anyArg && !F.getName().starts_with("main")) {
				IRBuilder<> B(at);
				Value* tok = B.CreateLoad(X.P, X.gTok);
				Value* c = B.CreateICmpEQ(tok, &F);
				Instruction* term = SplitBlockAndInsertIfThen(c, at, false, unlikely);
				IRBuilder<> T(term);
				BasicBlock* thenB = term->getParent();
				BasicBlock* head = thenB->getSinglePredecessor();
				unsigned slot = 0;
				for (auto& A : F.args()) {
					unsigned n = nleaves(A.getType());
					Sh s;
					if (A.hasByValAttr()) {
						Value* src = T.CreateLoad(X.P, T.CreateConstInBoundsGEP2_64(X.gArgs->getValueType(), X.gArgs, 0, slot));
						T.CreateCall(X.fByval, { &A, src, ConstantInt::get(X.I64, X.DL.getTypeAllocSize(A.getParamByValType())) });
						slot += 1;
						s.push_back(Null);
						sh[&A] = s;
						continue;
					}
					if (slot + n > 64) {
						slot += n;
						continue;
					}
					for (unsigned k = 0; k < n; ++k) {
						Value* v = T.CreateLoad(X.P, T.CreateConstInBoundsGEP2_64(X.gArgs->getValueType(), X.gArgs, 0, slot + k));
						s.push_back(v);
					}
					slot += n;
					sh[&A] = s;
				}
				T.CreateStore(Null, X.gTok);
				IRBuilder<> E(at);
				for (auto& A : F.args()) {
					auto it = sh.find(&A);
					if (it == sh.end())
						continue;
					for (auto& v : it->second) {
						if (isNull(v))
							continue;
						PHINode* phi = E.CreatePHI(X.P, 2);
						phi->addIncoming(v, thenB);
						phi->addIncoming(Null, head);
						v = phi;
					}
				}
			}
		}
		for (auto I : work)
			visit(I);
		for (auto Ph : phis) {
			auto s = sh[Ph];
			for (unsigned i = 0; i < Ph->getNumIncomingValues(); ++i) {
				auto in = get(Ph->getIncomingValue(i));
				for (unsigned k = 0; k < s.size(); ++k)
					cast<PHINode>(s[k])->addIncoming(in[k], Ph->getIncomingBlock(i));
			}
		}
	}
};

// Early: redirect modelled external functions and abstracted hash functions.
struct SxEarly : PassInfoMixin<SxEarly> {
	PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
		StringSet<> redir, over;
		if (!getenv("SX_NO_REDIRECT"))
			loadList("SX_REDIRECT", redir);
		loadList("SX_OVERRIDE", over);
		bool useOver = !getenv("SX_NO_REDIRECT");
		SmallVector<Function*, 16> fs;
		for (auto& F : M)
			fs.push_back(&F);
		for (auto F : fs) {
			if (F->isIntrinsic())
				continue;
			if (over.contains(F->getName())) {
				// callers go to __sxo_<name>; the original is kept, not instrumented, for the model to call
				F->addFnAttr(Attribute::NoInline);
				F->removeFnAttr(Attribute::AlwaysInline);
				F->addFnAttr("sx_native");
				if (!F->isDeclaration() && F->hasLinkOnceLinkage())
					F->setLinkage(GlobalValue::WeakODRLinkage);
				if (useOver) {
					auto nf = M.getOrInsertFunction(("__sxo_" + F->getName()).str(), F->getFunctionType(), AttributeList());
					F->replaceUsesWithIf(nf.getCallee(), [](Use& U) { return !isa<GlobalAlias>(U.getUser()); });
				}
			}
			else if (F->isDeclaration()) {
				auto b = baseName(F->getName());
				if (redir.contains(b)) {
					auto nf = M.getOrInsertFunction("__sxm_" + b, F->getFunctionType(), AttributeList());
					F->replaceAllUsesWith(nf.getCallee());
				}
			}
		}
		return PreservedAnalyses::none();
	}
	static bool isRequired() { return true; }
};

struct SxPass : PassInfoMixin<SxPass> {
	PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
		Ctx X(M);
		loadList("SX_SAFE", X.safe);
		SmallVector<Function*, 64> fs;
		for (auto& F : M) {
			// our runtime calls give every function memory effects
			F.removeFnAttr(Attribute::Memory);
			F.removeFnAttr(Attribute::Speculatable);
			F.removeFnAttr(Attribute::WillReturn);
			F.removeFnAttr(Attribute::NoFree);
			F.removeFnAttr(Attribute::NoSync);
			if (F.isDeclaration())
				continue;
			for (auto& I : instructions(F)) {
				// values left open by the compiler are the same in every run
				for (auto& U : I.operands()) {
					if (isa<UndefValue>(U.get()) && (U->getType()->isIntegerTy() || U->getType()->isPointerTy() || U->getType()->isFloatingPointTy()))
						U.set(Constant::getNullValue(U->getType()));
				}
				if (auto CB = dyn_cast<CallBase>(&I)) {
					if (!isa<IntrinsicInst>(CB)) {
						CB->removeFnAttr(Attribute::Memory);
						CB->removeFnAttr(Attribute::WillReturn);
						if (auto CI = dyn_cast<CallInst>(CB))
							if (CI->isTailCall() && !CI->isMustTailCall())
								CI->setTailCallKind(CallInst::TCK_None);
					}
				}
			}
			if (F.getName().starts_with("__sx_") || F.hasFnAttribute(Attribute::Naked) || F.hasFnAttribute("sx_native"))
				continue;
			fs.push_back(&F);
		}
		for (auto F : fs) {
			FnPass fp(X, *F);
			fp.run();
		}
		return PreservedAnalyses::none();
	}
	static bool isRequired() { return true; }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
	return { LLVM_PLUGIN_API_VERSION, "Sx", "1", [](PassBuilder& PB) {
		        PB.registerPipelineStartEPCallback([](ModulePassManager& PM, OptimizationLevel) { PM.addPass(SxEarly()); });
		        PB.registerOptimizerLastEPCallback([](ModulePassManager& PM, OptimizationLevel) { PM.addPass(SxPass()); });
	        } };
}
