// LLVM bitcode -> internal instruction arrays.
#include "nsym.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

std::vector<Func*> gFuncs; std::unordered_map<u64,Func*> gFuncByAddr; std::unordered_map<std::string,Func*> gFuncByName;
std::unordered_map<std::string,u64> gGlobalAddr;
u64 gRoLo=0, gRoHi=0;
static const DataLayout *DL; static Module *M;
static std::unordered_map<const Function*, Func*> fmap;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static std::unordered_map<const BasicBlock*, u64> bbaddr;
u64 externVarAddr(const std::string &name, u64 size);

static unsigned nslots(Type *t){
	if(t->isVoidTy()) return 0;
	if(auto *s = dyn_cast<StructType>(t)){ unsigned n=0; for(Type *e: s->elements()) n += nslots(e); return n; }
	if(auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements()*nslots(a->getElementType());
	return 1;
}
static unsigned widthOf(Type *t){
	if(t->isIntegerTy()) return t->getIntegerBitWidth();
	if(t->isPointerTy()) return 64;
	if(t->isDoubleTy()) return 64;
	if(t->isFloatTy()) return 32;
	return 0;
}
static void leaves(Type *t, u64 off, std::vector<std::pair<Type*,u64>> &out){
	if(auto *s = dyn_cast<StructType>(t)){ auto *sl = DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) leaves(s->getElementType(i), off+sl->getElementOffset(i), out); }
	else if(auto *a = dyn_cast<ArrayType>(t)){ u64 sz = DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) leaves(a->getElementType(), off+i*sz, out); }
	else if(!t->isVoidTy()) out.push_back({t,off});
}
static u64 bbAddr(const BasicBlock *b){ auto it=bbaddr.find(b); if(it!=bbaddr.end()) return it->second; u64 a = BBASE + bbaddr.size()*16; bbaddr[b]=a; return a; }

static bool constScalar(const Constant *c, u64 &v){
	if(auto *i = dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()>64) return false; v = i->getZExtValue(); return true; }
	if(isa<ConstantPointerNull>(c) || isa<UndefValue>(c)){ v=0; return true; }
	if(isa<ConstantAggregateZero>(c)){ v=0; return true; }
	if(auto *f = dyn_cast<ConstantFP>(c)){ v = f->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
	if(auto *f = dyn_cast<Function>(c)){ v = fmap[f]->addr; return true; }
	if(auto *g = dyn_cast<GlobalVariable>(c)){ v = gaddr[g]; return true; }
	if(auto *g = dyn_cast<GlobalAlias>(c)) return constScalar(g->getAliasee(), v);
	if(auto *b = dyn_cast<BlockAddress>(c)){ v = bbAddr(b->getBasicBlock()); return true; }
	if(auto *e = dyn_cast<ConstantExpr>(c)){
		u64 a,b;
		switch(e->getOpcode()){
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
			if(!constScalar(e->getOperand(0),a)) return false; v = a & maskw(widthOf(e->getType())); return true;
		case Instruction::Trunc: if(!constScalar(e->getOperand(0),a)) return false; v = a & maskw(widthOf(e->getType())); return true;
		case Instruction::GetElementPtr: {
			auto *g = cast<GEPOperator>(e); if(!constScalar(cast<Constant>(g->getPointerOperand()),a)) return false;
			APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) return false; v = a + off.getSExtValue(); return true; }
		case Instruction::Add: if(!constScalar(e->getOperand(0),a)||!constScalar(e->getOperand(1),b)) return false; v=(a+b)&maskw(widthOf(e->getType())); return true;
		case Instruction::Sub: if(!constScalar(e->getOperand(0),a)||!constScalar(e->getOperand(1),b)) return false; v=(a-b)&maskw(widthOf(e->getType())); return true;
		case Instruction::Mul: case Instruction::Shl: case Instruction::LShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::AShr: {
			if(!constScalar(e->getOperand(0),a)||!constScalar(e->getOperand(1),b)) return false; unsigned w=widthOf(e->getType());
			switch(e->getOpcode()){ case Instruction::Mul: v=a*b; break; case Instruction::Shl: v=b<64?a<<b:0; break; case Instruction::LShr: v=b<64?(a&maskw(w))>>b:0; break; case Instruction::AShr: v=(u64)(sextw(a,w)>>(b<63?b:63)); break; case Instruction::And: v=a&b; break; case Instruction::Or: v=a|b; break; default: v=a^b; }
			v&=maskw(w); return true; }
		case Instruction::ZExt: if(!constScalar(e->getOperand(0),v)) return false; return true;
		case Instruction::SExt: if(!constScalar(e->getOperand(0),a)) return false; v=(u64)sextw(a,widthOf(e->getOperand(0)->getType()))&maskw(widthOf(e->getType())); return true;
		}
	}
	return false;
}
static void writeInit(const Constant *c, u64 addr){
	Type *t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
	if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if(auto *d = dyn_cast<ConstantDataSequential>(c)){ StringRef s = d->getRawDataValues(); memcpy((void*)addr, s.data(), s.size()); return; }
	if(auto *a = dyn_cast<ConstantArray>(c)){ u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) writeInit(a->getOperand(i), addr+i*es); return; }
	if(auto *s = dyn_cast<ConstantStruct>(c)){ auto *sl = DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<s->getNumOperands();i++) writeInit(s->getOperand(i), addr+sl->getElementOffset(i)); return; }
	u64 v; if(!constScalar(c,v)){ errs() << "bad init: " << *c << "\n"; exit(2); }
	memcpy((void*)addr,&v,sz);
}

namespace {
struct FB {
	Func *F; const Function *fn; std::unordered_map<const Value*, i32> slot; std::unordered_map<u64,i32> cidx; u32 n=0;
	std::unordered_map<const BasicBlock*, int> bbi;
	i32 konst(u64 v){ auto it=cidx.find(v); if(it!=cidx.end()) return it->second; F->consts.push_back(V{v,nullptr}); i32 r = -(i32)F->consts.size(); cidx[v]=r; return r; }
	i32 alloc(const Value *v){ auto it = slot.find(v); if(it!=slot.end()) return it->second; unsigned k = nslots(v->getType()); i32 r = n; n += k; slot[v]=r; return r; }
	// operand for the idx-th scalar of v
	i32 op(const Value *v, unsigned idx=0){
		if(auto *c = dyn_cast<Constant>(v)){
			const Constant *e = c; 
			if(c->getType()->isAggregateType()){
				std::vector<const Constant*> lv; flat(c, lv); e = lv[idx]; if(!e) return konst(0);
			}
			u64 x; if(!constScalar(e,x)){ errs() << "unsupported constant " << *e << " in " << fn->getName() << "\n"; return konst(0xdeadbeef); }
			return konst(x);
		}
		return alloc(v)+idx;
	}
	void flat(const Constant *c, std::vector<const Constant*> &o){
		Type *t = c->getType();
		if(!t->isAggregateType()){ o.push_back(c); return; }
		unsigned k = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for(unsigned i=0;i<k;i++) flat(c->getAggregateElement(i), o);
	}
	Ins &emit(u16 o, u32 line){ F->code.push_back(Ins{}); Ins &i = F->code.back(); i.op=o; i.line=line; return i; }
	Edge edge(const BasicBlock *from, const BasicBlock *to){
		Edge e; e.bb = bbi[to];
		for(auto &phi: to->phis()){
			unsigned k = nslots(phi.getType()); const Value *v = phi.getIncomingValueForBlock(from);
			i32 d = alloc(&phi);
			for(unsigned i=0;i<k;i++) e.copies.push_back({op(v,i), d+(i32)i});
		}
		return e;
	}
};
}
static unsigned aggOffset(Type *t, ArrayRef<unsigned> idx){
	unsigned o=0;
	for(unsigned i: idx){
		if(auto *s = dyn_cast<StructType>(t)){ for(unsigned k=0;k<i;k++) o += nslots(s->getElementType(k)); t = s->getElementType(i); }
		else { auto *a = cast<ArrayType>(t); o += i*nslots(a->getElementType()); t = a->getElementType(); }
	}
	return o;
}
static int intrinOf(Intrinsic::ID id){
	switch(id){
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return IN_MEMCPY; case Intrinsic::memmove: return IN_MEMMOVE; case Intrinsic::memset: return IN_MEMSET;
	case Intrinsic::fabs: return IN_FABS; case Intrinsic::floor: return IN_FLOOR; case Intrinsic::ceil: return IN_CEIL; case Intrinsic::trunc: return IN_TRUNC;
	case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return IN_RINT; case Intrinsic::round: return IN_ROUND; case Intrinsic::sqrt: return IN_SQRT;
	case Intrinsic::ctpop: return IN_CTPOP; case Intrinsic::ctlz: return IN_CTLZ; case Intrinsic::cttz: return IN_CTTZ; case Intrinsic::bswap: return IN_BSWAP;
	case Intrinsic::smin: return IN_SMIN; case Intrinsic::smax: return IN_SMAX; case Intrinsic::umin: return IN_UMIN; case Intrinsic::umax: return IN_UMAX; case Intrinsic::abs: return IN_ABS;
	case Intrinsic::fshl: return IN_FSHL; case Intrinsic::fshr: return IN_FSHR;
	case Intrinsic::uadd_with_overflow: return IN_UADDO; case Intrinsic::usub_with_overflow: return IN_USUBO; case Intrinsic::umul_with_overflow: return IN_UMULO;
	case Intrinsic::sadd_with_overflow: return IN_SADDO; case Intrinsic::ssub_with_overflow: return IN_SSUBO; case Intrinsic::smul_with_overflow: return IN_SMULO;
	case Intrinsic::trap: case Intrinsic::debugtrap: return IN_TRAP; case Intrinsic::vastart: return IN_VASTART; case Intrinsic::vaend: return IN_VAEND; case Intrinsic::vacopy: return IN_VACOPY;
	case Intrinsic::minnum: return IN_FMIN; case Intrinsic::maxnum: return IN_FMAX; case Intrinsic::ssub_sat: return IN_SSUBSAT; case Intrinsic::sadd_sat: return IN_SADDSAT;
	case Intrinsic::copysign: return IN_COPYSIGN; case Intrinsic::usub_sat: return IN_USUBSAT; case Intrinsic::uadd_sat: return IN_UADDSAT;
	case Intrinsic::objectsize: return IN_OBJSIZE; case Intrinsic::stacksave: return IN_STACKSAVE; case Intrinsic::stackrestore: return IN_STACKRESTORE;
	case Intrinsic::bitreverse: return IN_BITREV; case Intrinsic::fmuladd: case Intrinsic::fma: return IN_FMULADD;
	default: return -1;
	}
}
static void doFunc(Func *F, const Function *fn){
	FB b; b.F=F; b.fn=fn;
	if(auto *sp = fn->getSubprogram()) F->file = sp->getFilename().str();
	for(auto &a: fn->args()){
		ArgI ai{}; ai.n = nslots(a.getType()); ai.op = b.alloc(&a); ai.byval = a.hasByValAttr(); ai.size = ai.byval ? DL->getTypeAllocSize(a.getParamByValType()) : 0;
		F->params.push_back(ai);
	}
	F->vararg = fn->isVarArg();
	int k=0; for(auto &bb: *fn) b.bbi[&bb] = k++;
	F->bbStart.resize(k);
	for(auto &bb: *fn){
		F->bbStart[b.bbi[&bb]] = F->code.size();
		for(auto &I: bb){
			u32 line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
			Type *T = I.getType(); unsigned w = widthOf(T);
			auto bin=[&](u16 o){ Ins &i=b.emit(o,line); i.w=w; i.a=b.op(I.getOperand(0)); i.b=b.op(I.getOperand(1)); i.d=b.alloc(&I); };
			auto gen=[&](EOp e){ Ins &i=b.emit(I_BIN,line); i.imm=e; i.w=w; i.a=b.op(I.getOperand(0)); i.b=b.op(I.getOperand(1)); i.d=b.alloc(&I); };
			auto fb=[&](EOp e){ Ins &i=b.emit(I_FBIN,line); i.imm=e; i.w=w; i.a=b.op(I.getOperand(0)); i.b=b.op(I.getOperand(1)); i.d=b.alloc(&I); };
			auto cast1=[&](u16 o){ Ins &i=b.emit(o,line); i.w=w; i.w2=widthOf(I.getOperand(0)->getType()); i.a=b.op(I.getOperand(0)); i.d=b.alloc(&I); };
			auto unsup=[&](){ std::string s; raw_string_ostream os(s); os << I; Ins &i=b.emit(I_UNSUPPORTED,line); i.p = strdup(s.c_str()); };
			bool bad = T->isVectorTy() || (T->isIntegerTy() && w>64) || T->isX86_FP80Ty() || T->isFP128Ty();
			for(auto &o: I.operands()) if(o->getType()->isVectorTy() || (o->getType()->isIntegerTy() && widthOf(o->getType())>64) || o->getType()->isX86_FP80Ty()) bad=true;
			if(bad){ unsup(); if(I.isTerminator()) {} continue; }
			switch(I.getOpcode()){
			case Instruction::Add: bin(I_ADD); break; case Instruction::Sub: bin(I_SUB); break; case Instruction::Mul: bin(I_MUL); break;
			case Instruction::And: bin(I_AND); break; case Instruction::Or: bin(I_OR); break; case Instruction::Xor: bin(I_XOR); break;
			case Instruction::Shl: bin(I_SHL); break; case Instruction::LShr: bin(I_LSHR); break; case Instruction::AShr: bin(I_ASHR); break;
			case Instruction::UDiv: gen(E_UDIV); break; case Instruction::SDiv: gen(E_SDIV); break; case Instruction::URem: gen(E_UREM); break; case Instruction::SRem: gen(E_SREM); break;
			case Instruction::FAdd: fb(E_FADD); break; case Instruction::FSub: fb(E_FSUB); break; case Instruction::FMul: fb(E_FMUL); break; case Instruction::FDiv: fb(E_FDIV); break;
			case Instruction::FRem: bin(I_FREM); break;
			case Instruction::FNeg: { Ins &i=b.emit(I_FNEG,line); i.w=w; i.a=b.op(I.getOperand(0)); i.d=b.alloc(&I); break; }
			case Instruction::ICmp: {
				auto &c = cast<ICmpInst>(I); u16 o=0;
				switch(c.getPredicate()){
				case CmpInst::ICMP_EQ:o=I_EQ;break;case CmpInst::ICMP_NE:o=I_NE;break;case CmpInst::ICMP_ULT:o=I_ULT;break;case CmpInst::ICMP_ULE:o=I_ULE;break;
				case CmpInst::ICMP_UGT:o=I_UGT;break;case CmpInst::ICMP_UGE:o=I_UGE;break;case CmpInst::ICMP_SLT:o=I_SLT;break;case CmpInst::ICMP_SLE:o=I_SLE;break;
				case CmpInst::ICMP_SGT:o=I_SGT;break;case CmpInst::ICMP_SGE:o=I_SGE;break; default: break; }
				Ins &i=b.emit(o,line); i.w=widthOf(I.getOperand(0)->getType()); i.a=b.op(I.getOperand(0)); i.b=b.op(I.getOperand(1)); i.d=b.alloc(&I); break; }
			case Instruction::FCmp: { auto &c = cast<FCmpInst>(I); Ins &i=b.emit(I_FCMP,line); i.imm=c.getPredicate(); i.w=widthOf(I.getOperand(0)->getType()); i.a=b.op(I.getOperand(0)); i.b=b.op(I.getOperand(1)); i.d=b.alloc(&I); break; }
			case Instruction::ZExt: cast1(I_ZEXT); break; case Instruction::SExt: cast1(I_SEXT); break; case Instruction::Trunc: cast1(I_TRUNC); break;
			case Instruction::FPToSI: cast1(I_FTOSI); break; case Instruction::FPToUI: cast1(I_FTOUI); break; case Instruction::SIToFP: cast1(I_SITOF); break; case Instruction::UIToFP: cast1(I_UITOF); break;
			case Instruction::FPExt: cast1(I_FEXT); break; case Instruction::FPTrunc: cast1(I_FTRUNC); break;
			case Instruction::PtrToInt: case Instruction::IntToPtr: {
				unsigned w2 = widthOf(I.getOperand(0)->getType()); Ins &i=b.emit(w<w2?I_TRUNC:w>w2?I_ZEXT:I_COPY,line); i.w=w; i.w2=w2; i.a=b.op(I.getOperand(0)); i.d=b.alloc(&I); break; }
			case Instruction::BitCast: case Instruction::AddrSpaceCast: cast1(I_COPY); break;
			case Instruction::Freeze: { unsigned ns=nslots(T); i32 d=b.alloc(&I); for(unsigned q=0;q<ns;q++){ i32 s=b.op(I.getOperand(0),q); Ins &i=b.emit(I_COPY,line); i.w=64; i.a=s; i.d=d+q; } break; }
			case Instruction::Load: {
				i32 p=b.op(I.getOperand(0)); std::vector<std::pair<Type*,u64>> lv; leaves(T,0,lv); i32 d=b.alloc(&I);
				for(size_t q=0;q<lv.size();q++){ Ins &i=b.emit(I_LOAD,line); i.w=widthOf(lv[q].first); i.w2=DL->getTypeStoreSize(lv[q].first); i.a=p; i.imm=lv[q].second; i.d=d+q; }
				break; }
			case Instruction::Store: {
				i32 p=b.op(I.getOperand(1)); std::vector<std::pair<Type*,u64>> lv; leaves(I.getOperand(0)->getType(),0,lv);
				for(size_t q=0;q<lv.size();q++){ i32 s=b.op(I.getOperand(0),q); Ins &i=b.emit(I_STORE,line); i.w=widthOf(lv[q].first); i.w2=DL->getTypeStoreSize(lv[q].first); i.a=p; i.imm=lv[q].second; i.b=s; }
				break; }
			case Instruction::GetElementPtr: {
				auto *g = cast<GEPOperator>(&I); i32 base=b.op(g->getPointerOperand()); i32 d=b.alloc(&I); i64 off=0; std::vector<std::tuple<i32,u64,unsigned>> var;
				for(auto it=gep_type_begin(g), e=gep_type_end(g); it!=e; ++it){
					Value *ix = it.getOperand();
					if(StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					else { u64 sz = DL->getTypeAllocSize(it.getIndexedType());
						if(auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue()*(i64)sz; else var.push_back({b.op(ix),sz,widthOf(ix->getType())}); }
				}
				i32 cur=base;
				for(auto &v: var){ Ins &i=b.emit(I_GEPI,line); i.a=cur; i.b=std::get<0>(v); i.imm=std::get<1>(v); i.w2=std::get<2>(v); i.d=d; cur=d; }
				if(off || var.empty()){ Ins &i=b.emit(I_GEP,line); i.a=cur; i.imm=off; i.d=d; }
				break; }
			case Instruction::Select: {
				unsigned ns=nslots(T); i32 d=b.alloc(&I); std::vector<std::pair<Type*,u64>> lv; leaves(T,0,lv);
				for(unsigned q=0;q<ns;q++){ i32 c=b.op(I.getOperand(0)), x=b.op(I.getOperand(1),q), y=b.op(I.getOperand(2),q); Ins &i=b.emit(I_SELECT,line); i.w=widthOf(lv[q].first); i.a=x; i.b=y; i.c=c; i.d=d+q; }
				break; }
			case Instruction::ExtractValue: { auto &e=cast<ExtractValueInst>(I); unsigned o=aggOffset(e.getAggregateOperand()->getType(), e.getIndices()); unsigned ns=nslots(T); i32 d=b.alloc(&I);
				for(unsigned q=0;q<ns;q++){ i32 s=b.op(e.getAggregateOperand(),o+q); Ins &i=b.emit(I_COPY,line); i.w=64; i.a=s; i.d=d+q; } break; }
			case Instruction::InsertValue: { auto &e=cast<InsertValueInst>(I); unsigned o=aggOffset(T, e.getIndices()); unsigned ns=nslots(T), ni=nslots(e.getInsertedValueOperand()->getType()); i32 d=b.alloc(&I);
				for(unsigned q=0;q<ns;q++){ i32 s = (q>=o && q<o+ni) ? b.op(e.getInsertedValueOperand(),q-o) : b.op(e.getAggregateOperand(),q); Ins &i=b.emit(I_COPY,line); i.w=64; i.a=s; i.d=d+q; } break; }
			case Instruction::Alloca: { auto &a=cast<AllocaInst>(I); Ins &i=b.emit(I_ALLOCA,line); i.imm=DL->getTypeAllocSize(a.getAllocatedType()); i.a=b.op(a.getArraySize()); i.w2=std::max<u64>(16,a.getAlign().value()); i.d=b.alloc(&I); break; }
			case Instruction::PHI: b.alloc(&I); break;
			case Instruction::Br: { auto &br=cast<BranchInst>(I);
				if(br.isUnconditional()){ Edge *e=new Edge(b.edge(&bb,br.getSuccessor(0))); Ins &i=b.emit(I_BR,line); i.p=e; }
				else { CbrI *c=new CbrI; c->t=b.edge(&bb,br.getSuccessor(0)); c->f=b.edge(&bb,br.getSuccessor(1)); i32 o=b.op(br.getCondition()); Ins &i=b.emit(I_CBR,line); i.a=o; i.p=c; }
				break; }
			case Instruction::Switch: { auto &s=cast<SwitchInst>(I); SwI *si=new SwI; for(auto &c: s.cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), b.edge(&bb,c.getCaseSuccessor())}); si->def=b.edge(&bb,s.getDefaultDest());
				i32 o=b.op(s.getCondition()); Ins &i=b.emit(I_SWITCH,line); i.a=o; i.w=widthOf(s.getCondition()->getType()); i.p=si; break; }
			case Instruction::IndirectBr: { auto &s=cast<IndirectBrInst>(I); IndI *ii=new IndI; for(unsigned q=0;q<s.getNumDestinations();q++){ bool dup=false; u64 a=bbAddr(s.getDestination(q)); for(auto &t: ii->targets) if(t.first==a) dup=true; if(!dup) ii->targets.push_back({a,b.edge(&bb,s.getDestination(q))}); }
				std::sort(ii->targets.begin(), ii->targets.end(), [](const auto&x,const auto&y){return x.first<y.first;});
				i32 o=b.op(s.getAddress()); Ins &i=b.emit(I_INDBR,line); i.a=o; i.p=ii; break; }
			case Instruction::Ret: { auto &r=cast<ReturnInst>(I); Ins i{}; i.op=I_RET; i.line=line; i.w2=0; if(r.getReturnValue()){ unsigned ns=nslots(r.getReturnValue()->getType()); std::vector<i32> *v=new std::vector<i32>; for(unsigned q=0;q<ns;q++) v->push_back(b.op(r.getReturnValue(),q)); i.p=v; i.w2=ns; } F->code.push_back(i); break; }
			case Instruction::Unreachable: b.emit(I_UNREACHABLE,line); break;
			case Instruction::Call: {
				auto &c=cast<CallInst>(I);
				if(c.isInlineAsm()){ unsup(); break; }
				const Function *cf = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
				if(cf && cf->isIntrinsic()){
					Intrinsic::ID id=cf->getIntrinsicID();
					switch(id){ case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: continue; default: break; }
					if(id==Intrinsic::expect){ i32 s=b.op(c.getArgOperand(0)); i32 d=b.alloc(&I); Ins &i=b.emit(I_COPY,line); i.w=64; i.a=s; i.d=d; break; }
					if(id==Intrinsic::is_constant){ i32 s=b.konst(0); i32 d=b.alloc(&I); Ins &i=b.emit(I_COPY,line); i.w=64; i.a=s; i.d=d; break; }
					int in=intrinOf(id); if(in<0){ unsup(); break; }
					i32 o[3]={0,0,0}; for(unsigned q=0;q<3 && q<c.arg_size();q++) if(!c.getArgOperand(q)->getType()->isMetadataTy()) o[q]=b.op(c.getArgOperand(q));
					i32 d=T->isVoidTy()?0:b.alloc(&I);
					Ins &i=b.emit(I_INTRIN,line); i.imm=in; i.a=o[0]; i.b=o[1]; i.c=o[2]; i.d=d; i.w = T->isStructTy() ? widthOf(T->getStructElementType(0)) : w; break; }
				CallI *ci=new CallI{}; ci->nret=nslots(T); ci->retw=w; ci->vararg = c.getFunctionType()->isVarArg(); ci->nfixed=c.getFunctionType()->getNumParams();
				for(unsigned q=0;q<c.arg_size();q++){ ArgI a{}; a.n=nslots(c.getArgOperand(q)->getType()); a.byval=c.isByValArgument(q); a.size=a.byval?DL->getTypeAllocSize(c.getParamByValType(q)):0; 
					if(a.n==1) a.op=b.op(c.getArgOperand(q)); else { // aggregate argument: materialise consecutive slots
						if(isa<Constant>(c.getArgOperand(q))){ i32 base=b.n; b.n+=a.n; for(unsigned z=0;z<a.n;z++){ i32 s=b.op(c.getArgOperand(q),z); Ins &i=b.emit(I_COPY,line); i.w=64; i.a=s; i.d=base+z; } a.op=base; } else a.op=b.op(c.getArgOperand(q)); }
					ci->args.push_back(a); }
				i32 d=ci->nret?b.alloc(&I):0;
				if(cf){ ci->f=fmap[cf]; Ins &i=b.emit(I_CALL,line); i.d=d; i.p=ci; }
				else { ci->fp=b.op(c.getCalledOperand()); Ins &i=b.emit(I_CALLI,line); i.d=d; i.p=ci; i.a=ci->fp; }
				break; }
			default: unsup();
			}
		}
	}
	F->nregs = b.n + 1;
	// resolve edges
	for(auto &i: F->code){
		auto fix=[&](Edge &e){ e.target = &F->code[F->bbStart[e.bb]]; };
		switch(i.op){ case I_BR: fix(*(Edge*)i.p); break; case I_CBR: fix(((CbrI*)i.p)->t); fix(((CbrI*)i.p)->f); break;
		case I_SWITCH: for(auto &c: ((SwI*)i.p)->cases) fix(c.second); fix(((SwI*)i.p)->def); break;
		case I_INDBR: for(auto &c: ((IndI*)i.p)->targets) fix(c.second); break; }
	}
}
bool loadModule(const char *path){
	LLVMContext *C = new LLVMContext; SMDiagnostic err;
	auto mod = parseIRFile(path, err, *C); if(!mod){ err.print("nsym", errs()); return false; }
	M = mod.release(); DL = &M->getDataLayout();
	u32 id=0;
	for(auto &f: *M){ if(f.isIntrinsic()) continue; Func *F=new Func(); F->name=f.getName().str(); F->id=id; F->defined=!f.isDeclaration(); F->addr=FBASE+16*(u64)(id+1); id++; F->builtin=-1; F->retw = f.getReturnType()->isVoidTy()?0:widthOf(f.getReturnType());
		gFuncs.push_back(F); gFuncByAddr[F->addr]=F; gFuncByName[F->name]=F; fmap[&f]=F; }
	// constants first, in one contiguous read-only range
	for(int pass=0;pass<2;pass++){
		for(auto &g: M->globals()){
			bool ro = g.isConstant() && !g.isDeclaration();
			if(ro != (pass==0)) continue;
			u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
			u64 a = g.isDeclaration() ? externVarAddr(g.getName().str(), sz) : gAlloc(sz, std::max<u64>(16, g.getAlign().valueOrOne().value()), 'g', g.getName().str());
			if(ro){ if(!gRoLo) gRoLo=a; gRoHi=a+sz; }
			gaddr[&g]=a; gGlobalAddr[g.getName().str()]=a;
		}
	}
	for(auto &g: M->globals()) if(!g.isDeclaration() && g.hasInitializer()) writeInit(g.getInitializer(), gaddr[&g]);
	for(auto &f: *M) if(!f.isDeclaration()) doFunc(fmap[&f], &f);
	// the LLVM module is intentionally leaked: it is never touched again
	return true;
}
