// vpengine: symbolic execution of LLVM IR with symbolic inputs, schedules and crash points.
//   vpengine prep IN.bc OUT.bc              rename modelled externals, adapt varargs
//   vpengine instr IN.bc OUT.bc             insert the event hook used by the native replay
//   vpengine run IN.bc ENTRY [options]      explore; JSON report on stdout
#include "state.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <functional>
#include <chrono>
#include <algorithm>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
typedef std::string str;
static LLVMContext Ctx; static std::unique_ptr<Module> Mod; static const DataLayout *DL;

//------------------------------------------------------------------ options / statistics
struct Opt { int witN=0; str witOut; int spinK=1, stuckLimit=2, unwind=3; u64 maxDepth=2000; double timeBudget=600; u64 maxInstr=3000000; bool merge=true, heat=true, subsume=true; u64 maxRestart=200; str replayFile; str cexOut; int maxViol=1; bool verbose=false; u64 maxStates=3000000; unsigned solverMs=60000; str params; bool sysonly=false; std::vector<std::pair<str,str>> stubs; } opt;
static std::map<str,u64> gParam; static std::set<str> gStubHits;
struct Stats { u64 instrs=0, transitions=0, states=0, merges=0, forks=0, paths=0, asserts=0, assertsSolver=0, assertsConst=0, crashes=0, rounds=0, maxDepth=0, stuckStates=0, hangHits=0, peakFrontier=0, subsumed=0, symStates=0, cuts=0; } st;
static std::map<str,u64> gReach, gAssertSeen; static std::set<str> gFns; static std::map<str,u64> gCaps;
static bool gIncomplete=false; static str gIncompleteWhy;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double gT0;
struct Fatal { str msg; };
[[noreturn]] static void fatal(const str&m){ throw Fatal{m}; }

//------------------------------------------------------------------ replay
static bool gReplay=false; static std::map<str,u64> gReplayVals;
struct Seg { int tid; u64 ev; bool crash; }; static std::vector<Seg> gTrace; static std::vector<std::pair<int,std::pair<str,u64>>> gTraceVals;
static std::vector<str> gNotes;

//------------------------------------------------------------------ compiled functions
enum XOp : u8 { XBin, XICmp, XSel, XLoad, XStore, XGEP, XCast, XBr, XCondBr, XSwitch, XRet, XCall, XPhi, XAlloca, XCmpXchg, XRMW, XExtractV, XInsertV, XUnreach, XFreeze, XNop, XBad };
struct CI { XOp op; Instruction *I; int dst=-1; std::vector<int> ops; u64 imm=0; unsigned w=0, w2=0; std::vector<std::pair<int,u64>> gep; std::vector<u32> succ; u32 bb=0; FnInfo *callee=nullptr; int builtin=-1; std::vector<u64> cases; std::vector<std::pair<u32,int>> phi; int sub=0; };
struct FnInfo { Function *F; str name; bool compiled=false, inRepo=false, model=false; u32 nregs=0; std::vector<CI> code; std::vector<Val> consts; std::vector<u32> bbStart; std::vector<std::vector<bool>> bbLiveIn; std::map<u32,std::vector<bool>> live; u64 addr=0; int builtin=-1; };
static std::unordered_map<Function*,FnInfo*> fnTab; static std::unordered_map<u64,FnInfo*> fnByAddr;
static std::unordered_map<const GlobalValue*,u64> gAddr; static std::map<u64,ObjRef> roObjs; // read-only globals
static std::vector<std::pair<u64,ObjRef>> initGlobals; static std::set<u64> kernelGlobals;

enum Bi { B_NONE=-1, B_ZERO=0, B_LASTW, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_SYM, B_ASSUME, B_ASSERT, B_REACH, B_SPAWN, B_RUN, B_SELF, B_VISIBLE, B_SHARED, B_MAP, B_UNMAP, B_GUARD, B_STATUS, B_CRASHABLE, B_DIE, B_FAIL, B_MERGE, B_PROC, B_CONC, B_PARAM, B_FORKPROC, B_NOTE, B_KILLPROC, B_MAPPED, B_INTRIN, B_NORETFAIL, B_MODEL, B_KNOWN, B_ISSYM, B_CAP,B_ONLY, B_CRASHCOPY };
static const std::map<str,int> biTab={
 {"malloc",B_MALLOC},{"_Znwm",B_MALLOC},{"_Znam",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"_ZdlPv",B_FREE},{"_ZdlPvm",B_FREE},{"_ZdaPv",B_FREE},{"_ZdaPvm",B_FREE},
 {"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},
 {"vp_sym",B_SYM},{"vp_assume",B_ASSUME},{"vp_assert",B_ASSERT},{"vp_reach",B_REACH},{"vp_spawn",B_SPAWN},{"vp_run",B_RUN},{"vp_self",B_SELF},{"vp_visible",B_VISIBLE},{"vp_shared",B_SHARED},{"vp_map",B_MAP},{"vp_unmap",B_UNMAP},{"vp_guard",B_GUARD},{"vp_status",B_STATUS},{"vp_crashable",B_CRASHABLE},{"vp_crashcopy",B_CRASHCOPY},{"vp_lastw",B_LASTW},{"vp_die",B_DIE},{"vp_fail",B_FAIL},{"vp_merge",B_MERGE},{"vp_proc",B_PROC},{"vp_conc",B_CONC},{"vp_param",B_PARAM},{"vp_spawn_proc",B_FORKPROC},{"vp_note",B_NOTE},{"vp_mapped",B_MAPPED},{"vp_model",B_MODEL},{"vp_cap",B_CAP},{"vp_only",B_ONLY},
 {"__cxa_atexit",B_ZERO},{"_ZSt21ios_base_library_initv",B_ZERO},{"_ZNSt8ios_base4InitC1Ev",B_ZERO},{"_ZNSt8ios_base4InitD1Ev",B_ZERO},{"__cxa_pure_virtual",B_NORETFAIL},
 {"_ZSt17__throw_bad_allocv",B_NORETFAIL},{"_ZSt20__throw_length_errorPKc",B_NORETFAIL},{"_ZSt19__throw_logic_errorPKc",B_NORETFAIL},{"_ZSt24__throw_out_of_range_fmtPKcz",B_NORETFAIL},{"_ZSt20__throw_out_of_rangePKc",B_NORETFAIL},{"_ZSt28__throw_bad_array_new_lengthv",B_NORETFAIL},{"_ZSt16__throw_bad_castv",B_NORETFAIL},{"_ZSt21__glibcxx_assert_failPKciS0_S0_",B_NORETFAIL},{"_ZSt9terminatev",B_NORETFAIL},{"abort",B_NORETFAIL},{"__assert_fail",B_NORETFAIL},{"_ZSt25__throw_bad_function_callv",B_NORETFAIL},
};
static unsigned tyBits(Type*t){ if(t->isPointerTy()) return 64; if(t->isIntegerTy()) return t->getIntegerBitWidth(); return 0; }
static FnInfo *getFn(Function*F){ auto &p=fnTab[F]; if(!p){ p=new FnInfo(); p->F=F; p->name=F->getName().str(); if(auto*sp=F->getSubprogram()){ str fl=(sp->getDirectory()+"/"+sp->getFilename()).str(); p->inRepo= fl.find("/repo/lib/")!=str::npos; }
    p->addr=0x30000000+16*fnTab.size(); fnByAddr[p->addr]=p;
    auto it=biTab.find(p->name); if(it!=biTab.end()&&(F->isDeclaration()||p->name.compare(0,3,"vp_")==0)) p->builtin=it->second; else if(F->isIntrinsic()) p->builtin=B_INTRIN;
    p->model=p->name.compare(0,4,"vpm_")==0; }
  return p; }
static E constE(Constant*C){
  if(auto*ci=dyn_cast<ConstantInt>(C)){ if(ci->getBitWidth()>64) return mkConst(ci->getValue().trunc(64).getZExtValue(),64); return mkConst(ci->getZExtValue(),ci->getBitWidth()); }
  if(isa<ConstantPointerNull>(C)) return mkConst(0,64);
  if(isa<UndefValue>(C)){ unsigned w=tyBits(C->getType()); return w?mkConst(0,w):nullptr; }
  if(auto*F=dyn_cast<Function>(C)) return mkConst(getFn(F)->addr,64);
  if(auto*A=dyn_cast<GlobalAlias>(C)) return constE(A->getAliasee());
  if(auto*G=dyn_cast<GlobalValue>(C)){ auto it=gAddr.find(G); if(it==gAddr.end()) fatal("unknown global "+G->getName().str()); return mkConst(it->second,64); }
  if(auto*ce=dyn_cast<ConstantExpr>(C)){
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr: { APInt off(64,0); auto*g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,off)) fatal("const gep"); return mkConst(constE(cast<Constant>(g->getPointerOperand()))->val+off.getZExtValue(),64); }
    case Instruction::PtrToInt: return mkTrunc(constE(ce->getOperand(0)),tyBits(ce->getType()));
    case Instruction::IntToPtr: return mkZExt(constE(ce->getOperand(0)),64);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return constE(ce->getOperand(0));
    case Instruction::Trunc: return mkTrunc(constE(ce->getOperand(0)),tyBits(ce->getType()));
    case Instruction::Add: return mkBin(OAdd,constE(ce->getOperand(0)),constE(ce->getOperand(1)));
    case Instruction::Sub: return mkBin(OSub,constE(ce->getOperand(0)),constE(ce->getOperand(1)));
    default: fatal(str("const expr ")+ce->getOpcodeName()); } }
  if(isa<ConstantAggregate>(C)||isa<ConstantAggregateZero>(C)||isa<ConstantDataSequential>(C)) return nullptr;
  if(auto*cf=dyn_cast<ConstantFP>(C)) return mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(),cf->getType()->getPrimitiveSizeInBits());
  str s; raw_string_ostream o(s); C->print(o); fatal("constant "+s);
}
static Val constVal(Constant*C){ Val v; if(C->getType()->isStructTy()){ auto*sty=cast<StructType>(C->getType()); if(sty->getNumElements()==2&&!isa<UndefValue>(C)){ v.e=constE(C->getAggregateElement(0u)); v.f=constE(C->getAggregateElement(1u)); } return v; } v.e=constE(C); return v; }
static void initMem(Obj*o,u64 off,Constant*C){
  Type*t=C->getType();
  if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)) return;
  if(auto*s=dyn_cast<ConstantStruct>(C)){ auto*sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) initMem(o,off+sl->getElementOffset(i),s->getOperand(i)); return; }
  if(auto*a=dyn_cast<ConstantArray>(C)){ u64 es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) initMem(o,off+es*i,a->getOperand(i)); return; }
  if(auto*a=dyn_cast<ConstantDataSequential>(C)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(unsigned i=0;i<a->getNumElements();i++) initMem(o,off+es*i,a->getElementAsConstant(i)); return; }
  E e=constE(C); unsigned n=DL->getTypeStoreSize(t); e=mkZExt(e,n*8); objWrite(o,off,e);
}
static void layoutGlobals(){
  u64 a=0x10000000,r=0x20000000;
  for(auto&G:Mod->globals()){ u64 sz=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()):64; if(G.isDeclaration()&&sz<64) sz=64; if(!sz) sz=1;
    if(G.getName().starts_with("llvm.")) continue;
    bool ro=G.isConstant()&&G.hasInitializer(); u64&p=ro?r:a; u64 al=G.getSection()=="vpk"?4096:64; p=(p+al-1)/al*al; gAddr[&G]=p; p+=sz+64; }
  for(auto&F:*Mod) getFn(&F);
  for(auto&G:Mod->globals()){ auto it=gAddr.find(&G); if(it==gAddr.end()) continue; u64 sz=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()):64; if(G.isDeclaration()&&sz<64) sz=64; if(!sz) sz=1;
    ObjRef o(new Obj(it->second,sz)); if(G.hasInitializer()) initMem(o.p,0,G.getInitializer());
    if(G.getSection()=="vpk"){ o->shared=true; o->kernel=!G.getName().starts_with("vps_"); kernelGlobals.insert(it->second); }
    if(G.isConstant()&&G.hasInitializer()) roObjs[it->second]=o; else initGlobals.push_back({it->second,o}); }
}
static void compile(FnInfo*f){
  if(f->compiled) return; f->compiled=true; Function&F=*f->F;
  std::unordered_map<const Value*,int> reg; std::unordered_map<const BasicBlock*,u32> bbi; std::unordered_map<Constant*,int> cidx;
  u32 n=0; for(auto&A:F.args()) reg[&A]=n++;
  u32 b=0; for(auto&B:F){ bbi[&B]=b++; for(auto&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++; }
  f->nregs=n; f->bbStart.resize(b);
  auto opnd=[&](Value*v)->int{ if(auto*c=dyn_cast<Constant>(v)){ auto it=cidx.find(c); if(it!=cidx.end()) return it->second; int k=-(int)f->consts.size()-1; f->consts.push_back(constVal(c)); cidx[c]=k; return k; }
    auto it=reg.find(v); if(it==reg.end()) fatal("operand in "+f->name); return it->second; };
  for(auto&B:F){ f->bbStart[bbi[&B]]=f->code.size();
    for(auto&I:B){ CI c; c.I=&I; c.bb=bbi[&B]; c.dst=I.getType()->isVoidTy()?-1:reg[&I]; c.w=tyBits(I.getType()); c.op=XBad;
      if(isa<DbgInfoIntrinsic>(I)) { c.op=XNop; f->code.push_back(c); continue; }
      if(auto*bo=dyn_cast<BinaryOperator>(&I)){ c.op=XBin; static const std::map<unsigned,Op> m={{Instruction::Add,OAdd},{Instruction::Sub,OSub},{Instruction::Mul,OMul},{Instruction::UDiv,OUDiv},{Instruction::SDiv,OSDiv},{Instruction::URem,OURem},{Instruction::SRem,OSRem},{Instruction::And,OAnd},{Instruction::Or,OOr},{Instruction::Xor,OXor},{Instruction::Shl,OShl},{Instruction::LShr,OLShr},{Instruction::AShr,OAShr}}; auto it=m.find(bo->getOpcode()); if(it==m.end()) c.op=XBad; else c.sub=it->second; c.ops={opnd(bo->getOperand(0)),opnd(bo->getOperand(1))}; if(c.w>64||!c.w) c.op=XBad; }
      else if(auto*ic=dyn_cast<ICmpInst>(&I)){ c.op=XICmp; c.sub=ic->getPredicate(); c.ops={opnd(ic->getOperand(0)),opnd(ic->getOperand(1))}; c.w2=tyBits(ic->getOperand(0)->getType()); }
      else if(auto*s=dyn_cast<SelectInst>(&I)){ c.op=XSel; c.ops={opnd(s->getCondition()),opnd(s->getTrueValue()),opnd(s->getFalseValue())}; }
      else if(auto*l=dyn_cast<LoadInst>(&I)){ c.op=XLoad; c.ops={opnd(l->getPointerOperand())}; c.imm=DL->getTypeStoreSize(l->getType()); if(!c.w||c.w>64) c.op=XBad; }
      else if(auto*s=dyn_cast<StoreInst>(&I)){ c.op=XStore; c.ops={opnd(s->getPointerOperand()),opnd(s->getValueOperand())}; c.imm=DL->getTypeStoreSize(s->getValueOperand()->getType()); unsigned w=tyBits(s->getValueOperand()->getType()); if(!w||w>64) c.op=XBad; }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ c.op=XGEP; c.ops={opnd(g->getPointerOperand())}; u64 off=0; for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*sty=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 es=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*k=dyn_cast<ConstantInt>(ix)) off+=es*(u64)k->getSExtValue(); else c.gep.push_back({opnd(ix),es}); } } c.imm=off; }
      else if(auto*k=dyn_cast<CastInst>(&I)){ c.op=XCast; c.sub=k->getOpcode(); c.ops={opnd(k->getOperand(0))}; c.w2=tyBits(k->getOperand(0)->getType()); if(!c.w||!c.w2||c.w>64||c.w2>64) c.op=XBad; }
      else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ c.op=XCondBr; c.ops={opnd(br->getCondition())}; c.succ={bbi[br->getSuccessor(0)],bbi[br->getSuccessor(1)]}; } else { c.op=XBr; c.succ={bbi[br->getSuccessor(0)]}; } }
      else if(auto*sw=dyn_cast<SwitchInst>(&I)){ c.op=XSwitch; c.ops={opnd(sw->getCondition())}; c.succ={bbi[sw->getDefaultDest()]}; for(auto&cs:sw->cases()){ c.cases.push_back(cs.getCaseValue()->getZExtValue()); c.succ.push_back(bbi[cs.getCaseSuccessor()]); } }
      else if(auto*r=dyn_cast<ReturnInst>(&I)){ c.op=XRet; if(r->getReturnValue()) c.ops={opnd(r->getReturnValue())}; }
      else if(auto*cb=dyn_cast<CallBase>(&I)){ c.op=XCall; if(isa<InvokeInst>(cb)) c.succ={bbi[cast<InvokeInst>(cb)->getNormalDest()]};
        Function*cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(!cf) if(auto*ga=dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf=dyn_cast<Function>(ga->getAliaseeObject());
        if(cf&&!opt.stubs.empty()){ str dn=demangle(cf->getName().str()); for(auto&q:opt.stubs) if(dn.compare(0,q.first.size()+1,q.first+"(")==0){ Function*m=Mod->getFunction(q.second); if(!m) fatal("stub "+q.second); gStubHits.insert(q.first); cf=m; } }
        if(cf){ c.callee=getFn(cf); c.builtin=c.callee->builtin; if(c.builtin==B_INTRIN) c.sub=cf->getIntrinsicID(); }
        else if(cb->isInlineAsm()) c.op=XBad; else c.imm=1;
        if(c.imm==1) c.ops.push_back(opnd(cb->getCalledOperand()));
        if(c.op==XCall) for(auto&a:cb->args()){ if(isa<MetadataAsValue>(a.get())) continue; c.ops.push_back(opnd(a.get())); } }
      else if(auto*p=dyn_cast<PHINode>(&I)){ c.op=XPhi; for(unsigned i=0;i<p->getNumIncomingValues();i++) c.phi.push_back({bbi[p->getIncomingBlock(i)],opnd(p->getIncomingValue(i))}); }
      else if(auto*al=dyn_cast<AllocaInst>(&I)){ c.op=XAlloca; c.imm=DL->getTypeAllocSize(al->getAllocatedType()); c.ops={opnd(al->getArraySize())}; }
      else if(auto*cx=dyn_cast<AtomicCmpXchgInst>(&I)){ c.op=XCmpXchg; c.ops={opnd(cx->getPointerOperand()),opnd(cx->getCompareOperand()),opnd(cx->getNewValOperand())}; c.w=tyBits(cx->getCompareOperand()->getType()); c.imm=c.w/8; }
      else if(auto*rm=dyn_cast<AtomicRMWInst>(&I)){ c.op=XRMW; c.sub=rm->getOperation(); c.ops={opnd(rm->getPointerOperand()),opnd(rm->getValOperand())}; c.w=tyBits(rm->getType()); c.imm=c.w/8; }
      else if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ c.op=XExtractV; c.ops={opnd(ev->getAggregateOperand())}; c.imm=ev->getIndices()[0]; if(ev->getNumIndices()!=1||c.imm>1) c.op=XBad; }
      else if(auto*iv=dyn_cast<InsertValueInst>(&I)){ c.op=XInsertV; c.ops={opnd(iv->getAggregateOperand()),opnd(iv->getInsertedValueOperand())}; c.imm=iv->getIndices()[0]; if(iv->getNumIndices()!=1||c.imm>1) c.op=XBad; }
      else if(isa<UnreachableInst>(&I)) c.op=XUnreach;
      else if(isa<FreezeInst>(&I)){ c.op=XFreeze; c.ops={opnd(I.getOperand(0))}; }
      else if(isa<FenceInst>(&I)) c.op=XNop;
      f->code.push_back(c); } }
  // liveness
  u32 nb=b; f->bbLiveIn.assign(nb,std::vector<bool>(n,false)); std::vector<std::vector<u32>> succ(nb); std::vector<BasicBlock*> bbs; for(auto&B:F) bbs.push_back(&B);
  for(u32 i=0;i<nb;i++) for(auto*s:successors(bbs[i])) succ[i].push_back(bbi[s]);
  auto bend=[&](u32 i){ return i+1<nb? f->bbStart[i+1]:(u32)f->code.size(); };
  bool ch=true; while(ch){ ch=false; for(int i=nb-1;i>=0;i--){ std::vector<bool> L(n,false);
      for(u32 s:succ[i]){ std::vector<bool> in=f->bbLiveIn[s]; for(u32 k=f->bbStart[s];k<bend(s);k++){ auto&c=f->code[k]; if(c.op!=XPhi) break; in[c.dst]=false; }
        for(u32 k=f->bbStart[s];k<bend(s);k++){ auto&c=f->code[k]; if(c.op!=XPhi) break; for(auto&p:c.phi) if(p.first==(u32)i&&p.second>=0) L[p.second]=true; }
        for(u32 x=0;x<n;x++) if(in[x]) L[x]=true; }
      for(int k=(int)bend(i)-1;k>=(int)f->bbStart[i];k--){ auto&c=f->code[k]; if(c.dst>=0) L[c.dst]=false; if(c.op==XPhi) continue; for(int o:c.ops) if(o>=0) L[o]=true; for(auto&g:c.gep) if(g.first>=0) L[g.first]=true; }
      for(u32 k=f->bbStart[i];k<bend(i);k++){ auto&c=f->code[k]; if(c.op!=XPhi) break; }
      if(L!=f->bbLiveIn[i]){ f->bbLiveIn[i]=L; ch=true; } } }
}
// registers live before executing pc
static const std::vector<bool>&liveAt(FnInfo*f,u32 pc){
  auto it=f->live.find(pc); if(it!=f->live.end()) return it->second;
  u32 bb=f->code[pc].bb; u32 nb=f->bbStart.size(); u32 end= bb+1<nb? f->bbStart[bb+1]:f->code.size(); u32 n=f->nregs; std::vector<bool> L(n,false);
  BasicBlock*B=f->code[pc].I->getParent();
  std::unordered_map<const BasicBlock*,u32> bbi; { u32 k=0; for(auto&x:*f->F) bbi[&x]=k++; }
  for(auto*s:successors(B)){ u32 si=bbi[s]; u32 se= si+1<nb? f->bbStart[si+1]:f->code.size(); std::vector<bool> in=f->bbLiveIn[si]; for(u32 k=f->bbStart[si];k<se;k++){ auto&c=f->code[k]; if(c.op!=XPhi) break; in[c.dst]=false; for(auto&p:c.phi) if(p.first==bb&&p.second>=0) L[p.second]=true; } for(u32 x=0;x<n;x++) if(in[x]) L[x]=true; }
  for(int k=(int)end-1;k>=(int)pc;k--){ auto&c=f->code[k]; if(c.dst>=0) L[c.dst]=false; if(c.op==XPhi) continue; for(int o:c.ops) if(o>=0) L[o]=true; for(auto&g:c.gep) if(g.first>=0) L[g.first]=true; }
  return f->live[pc]=L;
}
//------------------------------------------------------------------ exploration context
typedef std::unique_ptr<State> SP;
struct Viol { str msg, where; std::map<str,u64> vals; u64 depth; };
static std::vector<Viol> gViol; static std::set<str> gViolSeen;
static u32 gDepth=0; static std::map<str,E> gSymByName;
static std::vector<SP> *gOut=nullptr; static std::vector<SP> *gWork=nullptr;
// visibility refinement
struct CellInfo { u64 mask=~0ULL; u32 rd=0, wr=0; };
static std::unordered_map<u64,CellInfo> gCells; static std::unordered_set<u64> gVis; static bool gVisGrown=false; static std::map<u64,int> gGuards; // cell -> guard index

// merge heat: locations whose merged values decide control flow are kept apart by later merges
static std::unordered_map<E,std::vector<u32>> gOrigin; static std::vector<std::tuple<bool,u64,u32,u32>> gOriginTab; static std::map<std::tuple<bool,u64,u32,u32>,u32> gOriginIx; static std::set<u32> gHot; static bool gHotGrown=false; static u64 gRestarts=0; static std::unordered_map<u64,std::vector<std::pair<u32,u32>>> gHotMem; static std::unordered_map<FnInfo*,std::vector<u32>> gHotReg;
static u32 originId(bool mem,u64 a,u32 b,u32 w){ auto k=std::make_tuple(mem,a,b,w); auto it=gOriginIx.find(k); if(it!=gOriginIx.end()) return it->second; u32 i=gOriginTab.size(); gOriginTab.push_back(k); gOriginIx[k]=i; return i; }
static void setOrigin(E e,u32 id){ if(isC(e)) return; auto&v=gOrigin[e]; if(v.size()<4&&std::find(v.begin(),v.end(),id)==v.end()) v.push_back(id); }
static void propOrigin(E r,E x){ if(!r||!x||isC(r)||isC(x)||r==x) return; auto it=gOrigin.find(x); if(it==gOrigin.end()) return; auto src=it->second; for(u32 i:src) setOrigin(r,i); }
static void heat(E e){ auto it=gOrigin.find(e); if(it==gOrigin.end()) return; for(u32 i:it->second){ if(!opt.heat||!gHot.insert(i).second) continue; gHotGrown=true; auto&t=gOriginTab[i]; if(std::get<0>(t)) gHotMem[std::get<1>(t)].push_back({std::get<2>(t),std::get<3>(t)}); else gHotReg[(FnInfo*)std::get<1>(t)].push_back(std::get<2>(t)); } }
static std::vector<u64> gSymTag; static int gCurTid=0;
static E newSym(State&s,int tid,const str&label,unsigned w){
  str nm=label+"@"+std::to_string(gDepth)+"."+std::to_string(tid)+"."+std::to_string(s.symIdx++);
  if(gReplay){ u64 v=0; auto it=gReplayVals.find(nm); if(it!=gReplayVals.end()) v=it->second; return mkConst(v,w); }
  auto&e=gSymByName[nm]; if(!e){ e=mkSym(nm,w); if(gSymTag.size()<=e->val) gSymTag.resize(e->val+64,0); gSymTag[e->val]=((u64)gDepth<<8|tid)+1; } return e;
}
struct HH { size_t operator()(const H128&h)const{ return (size_t)h^(size_t)(h>>64); } };
static std::unordered_map<u64,int> qcache;
static str (*gCurWhere)(State&)=nullptr;
static bool evalW(State&s,E c){ return s.wit && evalE(c,*s.wit); }
// Only the conjuncts that share symbols (transitively) with c matter: the witness satisfies the others.
static std::vector<std::vector<u32>*> gSymsOf;
static const std::vector<u32>*symsOf(E e){
  if(e->id<gSymsOf.size()&&gSymsOf[e->id]) return gSymsOf[e->id]; std::unordered_set<E> seen; std::vector<E> stk{e}; std::set<u32> r;
  while(!stk.empty()){ E x=stk.back(); stk.pop_back(); if(x->op==OConst||!seen.insert(x).second) continue; if(x->op==OSym){ r.insert((u32)x->val); continue; } if(x!=e&&x->id<gSymsOf.size()&&gSymsOf[x->id]){ for(u32 v:*gSymsOf[x->id]) r.insert(v); continue; } if(x->a) stk.push_back(x->a); if(x->b) stk.push_back(x->b); if(x->c) stk.push_back(x->c); }
  if(e->id>=gSymsOf.size()) gSymsOf.resize(gNumExprs+4096,nullptr); return gSymsOf[e->id]=new std::vector<u32>(r.begin(),r.end()); }
struct SliceRes { int r; std::vector<std::pair<u32,u64>> v; };
static std::unordered_map<H128,SliceRes,HH> gSlice;
static int sliceSearch(State&s,E c,ModelP*out){
  if(!s.wit) return -1; std::vector<E> cj(s.lits); if(s.rest&&!isC(s.rest)) cj.push_back(s.rest); std::vector<char> in(cj.size(),0); std::set<u32> sy; for(u32 v:*symsOf(c)) sy.insert(v); std::vector<E> use{c};
  for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<cj.size();i++) if(!in[i]){ auto*q=symsOf(cj[i]); bool hit=false; for(u32 v:*q) if(sy.count(v)){ hit=true; break; } if(hit){ in[i]=1; ch=true; use.push_back(cj[i]); for(u32 v:*q) sy.insert(v); } } }
  std::vector<u32> ids; for(E e:use) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end()); Hash h; for(u32 i:ids) h.add(i);
  auto it=gSlice.find(h.get()); if(it!=gSlice.end()){ gSolver.cacheHits++; if(!it->second.r) return 0; auto m=std::make_shared<Model>(*s.wit); if(m->v.size()<gSyms.size()) m->v.resize(gSyms.size(),0); for(auto&p:it->second.v) m->v[p.first]=p.second; m->touch(); *out=m; return 1; }
  ModelP m; int r=solveSmall(use,&m,s.wit.get()); if(r<0) return -1; SliceRes q; q.r=r; if(r) for(u32 v:sy) q.v.push_back({v,m->v[v]}); gSlice[h.get()]=q; if(r) *out=m; return r; }
// may c be true in s? on success optionally returns a witness
static bool may(State&s,E c,ModelP*w=nullptr){
  if(isC(c)){ if(c->val&&w) *w=s.wit; return c->val; }
  if(evalW(s,c)){ gSolver.modelHits++; if(w) *w=s.wit; return true; }
  for(E l:s.lits){ if(l==c){ if(w) *w=s.wit; return true; } if(l==mkNot(c)) return false; }
  u64 k=((u64)s.guard->id<<32)|c->id; auto it=qcache.find(k); if(it!=qcache.end()&&it->second==0){ gSolver.cacheHits++; return false; }
  ModelP m; { int fs=sliceSearch(s,c,&m); if(fs==0) return false; if(fs==1){ if(w) *w=m; return true; } }
  double q0=now(); int r=solveSat({s.guard,c},&m); if(opt.verbose&&now()-q0>0.2) fprintf(stderr,"slow query %.2fs r=%d depth %u at %s\n",now()-q0,r,gDepth,gCurWhere?gCurWhere(s).c_str():""); if(r<0) fatal("solver returned unknown (timeout)"); if(r==0) qcache[k]=0; if(r==1&&w) *w=m; return r==1;
}
static void addC(State&s,E c,ModelP w){ if(isC(c)) return; s.guard=mkAndB(s.guard,c); s.lits.push_back(c); s.stepLits.push_back(c); if(w) s.wit=w; }
static E simpLits(State&s,E e,int d=0){ // resolve ite conditions already decided on this path
  while(e->op==OIte&&!isC(e)){ E c=e->a; int dec=-1; for(E l:s.lits){ if(l==c){dec=1;break;} if(l->op==ONot&&l->a==c){dec=0;break;} } if(dec<0) break; e=dec?e->b:e->c; }
  return e;
}
static str where(State&s,int tid){ str r; auto&T=*s.th[tid]; for(int i=T.fr.size()-1,k=0;i>=0&&k<6;i--,k++){ auto&f=T.fr[i]; u32 pc=f.pc; if(i<(int)T.fr.size()-1&&pc>0) pc--; if(pc>=f.fn->code.size()) continue; auto*I=f.fn->code[pc].I; auto dl=I->getDebugLoc(); r+=(k?" < ":"")+demangle(f.fn->name); if(dl) r+=":"+std::to_string(dl.getLine()); } return r; }
static std::map<str,u64> modelVals(ModelP m){ std::map<str,u64> r; for(size_t i=0;i<gSyms.size();i++) r[gSyms[i].name]= i<m->v.size()? m->v[i]&maskw(gSyms[i].w):0; return r; }
static void report(State&s,int tid,const str&msg,ModelP m){
  str w=tid>=0?where(s,tid):""; if(!gViolSeen.insert(msg).second) return; Viol v; v.msg=msg; v.where=w; v.depth=gDepth; if(m) v.vals=modelVals(m); gViol.push_back(v);
  if(opt.verbose) fprintf(stderr,"violation: %s at %s\n",msg.c_str(),w.c_str());
}
// The state fails on all of its paths.
static void failState(State&s,int tid,const str&msg){ if(gReplay){ report(s,tid,msg,nullptr); return; } ModelP m=s.wit; if(!m){ if(solveSat({s.guard},&m)!=1) return; } report(s,tid,msg,m); }

struct Loc { bool ok=false; bool stack=false; int slot=-1; int idx=0; int owner=0; u32 off=0; const Obj*o=nullptr; u64 cell=0; bool ro=false; };
static const u64 STK=0x7f0000000000ULL, STKSZ=1ULL<<32;
static Loc resolve(State&s,int tid,u64 a,u32 n){
  Loc L; Thread&T=*s.th[tid];
  if(a>=STK&&a<STK+64*STKSZ){ int ow=(a-STK)/STKSZ; if(ow>=(int)s.th.size()) return L; auto&stk=s.th[ow]->stack; int lo=0,hi=stk.size(); while(lo<hi){ int m=(lo+hi)/2; if(stk[m]->base<=a) lo=m+1; else hi=m; } if(!lo) return L; auto&o=stk[lo-1]; if(a+n>o->base+o->size) return L; L.ok=true; L.stack=true; L.owner=ow; L.idx=lo-1; L.off=a-o->base; L.o=o.p; return L; }
  auto&M=*s.procs[T.proc]; auto it=M.upper_bound(a); if(it!=M.begin()){ --it; if(a+n<=it->first+it->second.size){ L.ok=true; L.slot=it->second.slot; L.off=a-it->first+it->second.off; L.o=s.slots[L.slot].p; u64 base=L.o->base; L.cell=(base+L.off)/8*8 | (L.o->shared?7:(u64)(T.proc%7)); if(L.o->kernel) L.cell=0; return L; } }
  auto r=roObjs.upper_bound(a); if(r!=roObjs.begin()){ --r; if(a+n<=r->first+r->second->size){ L.ok=true; L.ro=true; L.off=a-r->first; L.o=r->second.p; return L; } }
  return L;
}
static Obj*mutObj(State&s,const Loc&L){ if(L.stack) return s.T(L.owner).stack[L.idx].mut(); return s.slots[L.slot].mut(); }

static str curWhere(State&s){ return where(s,gCurTid); }
static std::vector<std::tuple<u64,u64,u64>> gCrashCopy; // copied when a caller dies
struct Exec {
  State *s; int tid; Thread*T; bool ended=false;
  void load(State*x){ s=x; T=&s->T(tid); }
  Frame&F(){ return T->fr.top(); }
  Val&val(Frame&f,int o){ return o>=0? f.r[o]:f.fn->consts[-o-1]; }
  E ev(int o){ E e=val(F(),o).e; if(!e){ e=nullptr; } return e; }
  // ensure concrete value for operand; forks. returns false if a fork consumed (never) 
  u64 concrete(E e,const char*what){
    if(isC(e)) return e->val; heat(e); E e0=e; e=simpLits(*s,e); if(isC(e)){ subst(e0,e->val); return e->val; }
    for(auto&k:s->known) if(k.first==e) return k.second;
    std::vector<u64> vals; 
    if(e->ctree){ std::vector<u64> lv; leavesOf(e,lv); std::sort(lv.begin(),lv.end()); lv.erase(std::unique(lv.begin(),lv.end()),lv.end()); vals=lv; }
    else { // enumerate feasible values with the solver
      E excl=eTrue; for(int i=0;;i++){ ModelP m; if(i==0&&s->wit&&true){ vals.push_back(evalE(e,*s->wit)); } else { E c=excl; if(!may(*s,c,&m)) break; if(!m) fatal("no model"); vals.push_back(evalE(e,*m)); }
        excl=mkAndB(excl,mkNot(mkEq(e,mkConst(vals.back(),e->w)))); if(vals.size()>512) fatal(str("too many concrete values for symbolic ")+what+" at "+where(*s,tid)); } }
    std::vector<std::pair<u64,ModelP>> feas; for(u64 v:vals){ ModelP m; if(may(*s,mkEq(e,mkConst(v,e->w)),&m)) feas.push_back({v,m}); }
    if(feas.empty()) fatal("no feasible value");
    for(size_t i=1;i<feas.size();i++){ SP n(new State(*s)); addC(*n,mkEq(e,mkConst(feas[i].first,e->w)),feas[i].second); n->known.push_back({e,feas[i].first}); if(e0!=e) n->known.push_back({e0,feas[i].first}); st.forks++; gWork->push_back(std::move(n)); }
    T=&s->T(tid); addC(*s,mkEq(e,mkConst(feas[0].first,e->w)),feas[0].second); s->known.push_back({e,feas[0].first}); if(e0!=e) s->known.push_back({e0,feas[0].first}); subst(e,feas[0].first); if(e0!=e) subst(e0,feas[0].first); return feas[0].first;
  }
  void subst(E e,u64 v){ E k=mkConst(v,e->w); for(auto&x:F().r){ if(x.e==e) x.e=k; } }
  int conc_save=0;
  void setDst(const CI&c,Val v){ if(c.dst>=0) F().r[c.dst]=v; }
  void jump(u32 bb,u32 from){ Frame&f=F(); u32 pc=f.fn->bbStart[bb]; // phis
    Val tmp[64]; int k=0; u32 p=pc; while(p<f.fn->code.size()&&f.fn->code[p].op==XPhi){ auto&c=f.fn->code[p]; bool ok=false; for(auto&x:c.phi) if(x.first==from){ if(k>=64) fatal("too many phis"); tmp[k++]=val(f,x.second); ok=true; break; } if(!ok) fatal("phi"); p++; }
    for(int i=0;i<k;i++) f.r[f.fn->code[pc+i].dst]=tmp[i]; f.pc=p; }
  void pushFrame(FnInfo*fn,const std::vector<Val>&args,int retDst){
    compile(fn); if(fn->code.empty()) fatal("call of undefined function "+demangle(fn->name)+" from "+where(*s,tid));
    if(fn->inRepo) gFns.insert(fn->name); if(T->fr.size()>200) fatal("call depth");
    Frame f; f.fn=fn; f.pc=0; f.retDst=retDst; f.sp=T->sp; f.stackN=T->stack.size(); f.r.resize(fn->nregs); for(size_t i=0;i<fn->F->arg_size()&&i<args.size();i++) f.r[i]=args[i]; T->fr.push(std::move(f)); }
  u64 allocHeap(u64 n){ u64 lo=0x600000000000ULL+((u64)tid<<36); AMap&M=s->M(T->proc); if(n==0) n=1; if(n>(1<<24)) fatal("huge allocation"); u64 p=lo; auto it=M.lower_bound(lo); while(it!=M.end()&&it->first<lo+(1ULL<<36)){ if(it->first>=p+n+32) break; p=(it->first+it->second.size+32+15)/16*16; ++it; }
    ObjRef o(new Obj(p,n)); o->kind=1; for(int g=0;g<1;g++){} int slot=-1; for(size_t i=0;i<s->slots.size();i++) if(!s->slots[i].p){ slot=i; break; } if(slot<0){ slot=s->slots.size(); s->slots.push_back(o); } else s->slots[slot]=o; M[p]={(u32)n,slot,0}; return p; }
  bool memFail(u64 a,u32 n,const char*k){ char b[128]; snprintf(b,sizeof b,"invalid memory %s of %u bytes at 0x%llx",k,n,(unsigned long long)a); 
    failState(*s,tid,str(b).substr(0,str(b).find(" at 0x"))+" in "+(T->fr.empty()?str(""):demangle(F().fn->name))); return false; }
  // visibility handling. returns true if thread must park before this access
  void track(const Loc&L,bool wr,bool atomic){
    if(!s->multi||opt.sysonly||T->inModel||!L.cell||L.ro||L.stack) return; CellInfo&c=gCells[L.cell]; c.mask&=T->held; c.rd|=1u<<tid; if(wr) c.wr|=1u<<tid;
    if(gVis.count(L.cell)) return;
    u32 all=c.rd|c.wr; bool two=(all&(all-1))!=0; if(two&&c.wr&&c.mask==0){ gVis.insert(L.cell); gVisGrown=true; if(opt.verbose) fprintf(stderr,"visible cell %llx (+%u of %llx) at %s\n",(unsigned long long)L.cell,L.off,(unsigned long long)L.o->base,where(*s,tid).c_str()); }
  }
  void trackR(Loc L,u64 n,bool wr){ if(!s->multi||T->inModel||!L.cell||L.stack||L.ro) return; u64 tag=L.cell&7,c0=L.cell&~7ULL; for(u64 i=0;i<n;i+=8){ L.cell=(c0+i)|tag; track(L,wr,false); } }
  int othersAlive(){ int n=0; for(auto&t:s->th) if(t->id!=tid&&(t->st==T_RUN||t->st==T_MERGE)) n++; return n; }
  // called before a visible access is performed; true: the thread parks before it
  bool visible(u64 cell){
    if(!s->multi) return false;
    if(T->consumed&&(othersAlive()||T->solo>=16)) return parkAt(cell);
    T->solo++; if(noteVisit(cell)){ if(ended) return true; T->yielded=true; T->visited.clear(); T->vnext=0; return true; }
    if(T->crashable&&!T->consumed){ crashFork(); if(ended) return true; }
    T->consumed=true; return false;
  }
  // loop detection on visible accesses (called when executing one); returns true if spinning
  u64 visitHash(u64 cell){ u64 h=cell*0x9E3779B97F4A7C15ULL; for(auto&fp:T->fr.v){ auto&f=*fp; h^=((u64)(size_t)f.fn+f.pc*131)+0x9E3779B97F4A7C15ULL+(h<<6)+(h>>2); h*=0xff51afd7ed558ccdULL; h^=h>>31; } return h; }
  bool parkAt(u64 cell){ u64 h=visitHash(cell); T->vnext=0; for(auto&v:T->visited) if(v.first==h) T->vnext=v.second; return true; }
  bool noteVisit(u64 cell){ u64 h=visitHash(cell);
    for(auto&v:T->rounds) if(v.first==h&&v.second>opt.unwind){ st.cuts++; s->guard=eFalse; ended=true; return true; }
    for(auto&v:T->visited) if(v.first==h){ return ++v.second>opt.spinK; }
    T->visited.push_back({h,1}); return false; }
  bool isVis(const Loc&L,bool atomic){ if(!s->multi||opt.sysonly||T->inModel||!L.cell||L.stack||L.ro) return false; if(atomic) { if(!gVis.count(L.cell)) { gVis.insert(L.cell); auto it=gCells.find(L.cell); if(it!=gCells.end()&&(it->second.rd|it->second.wr)) gVisGrown=true; } return true; } return gVis.count(L.cell); }
  void wrote(u64 a=1){ if(T->crashable) T->lastW=a; T->visited.clear(); T->rounds.clear(); T->vnext=0; T->wroteF=true; }
  static void snap(State&s){ for(auto&c:gCrashCopy) for(u64 i=0;i<std::get<2>(c);i+=8){ Loc S=resolve(s,0,std::get<1>(c)+i,8), D=resolve(s,0,std::get<0>(c)+i,8); if(!S.ok||!D.ok) fatal("crash copy"); E e=objRead(S.o,S.off,8); objWrite(mutObj(s,D),D.off,e); } }
  // crash fork before a shared write: pushes the crashed twin to gOut
  void crashFork(){
    if(!s->multi||!T->crashable||s->crashLeft<=0) return;
    E c=newSym(*s,tid,"crash",1);
    if(gReplay){ if(c->val) die(true); return; }
    SP n(new State(*s)); ModelP w; if(n->wit){ w=std::make_shared<Model>(*n->wit); u64 ix=c->val; if(w->v.size()<=ix) w->v.resize(ix+1,0); w->v[ix]=1; w->touch(); }
    n->guard=mkAndB(n->guard,c); n->lits.push_back(c); n->stepLits.push_back(c); n->wit=w; n->crashLeft--; Thread&D=n->T(tid); kill(D); snap(*n); n->twin=true; st.crashes++; gOut->push_back(std::move(n));
    s->guard=mkAndB(s->guard,mkNot(c)); s->lits.push_back(mkNot(c)); s->stepLits.push_back(mkNot(c)); T=&s->T(tid);
  }
  static void kill(Thread&D){ D.st=T_DEAD; D.fr.clear(); D.stack.clear(); D.visited.clear(); D.rounds.clear(); D.held=0; D.yielded=false; D.consumed=false; }
  void die(bool crash){ if(gReplay) gTrace.push_back({tid,T->ev,true}); kill(*T); snap(*s); T=&s->T(tid); s->crashLeft-=crash; ended=true; }
  bool run(); // executes until parked / ended. state stays in s
  bool call(const CI&c); void guardWrite(const Loc&L,E v);
  bool builtin(const CI&c,int b,const std::vector<Val>&a,FnInfo*cal);
  void finishCall(const CI&c,Val r){ setDst(c,r); F().pc++; if(!c.succ.empty()) { F().pc--; jump(c.succ[0],c.bb); } }
  void assertB(E cond,const str&msg);
  str cstr(u64 a){ str r; for(;;){ Loc L=resolve(*s,tid,a,1); if(!L.ok) break; E e=objRead(L.o,L.off,1); if(!isC(e)) break; if(!e->val) break; r+=(char)e->val; a++; } return r; }
};
void Exec::assertB(E cond,const str&msg){
  st.asserts++; gAssertSeen[msg]++;
  if(isTrue(cond)){ st.assertsConst++; return; }
  if(gReplay){ if(!cond->val) report(*s,tid,msg,nullptr); return; }
  st.assertsSolver++; ModelP m; E neg=mkNot(cond);
  if(isC(neg)){ failState(*s,tid,msg); return; }
  if(may(*s,neg,&m)) { report(*s,tid,msg,m?m:s->wit); ModelP m2; if(may(*s,cond,&m2)) addC(*s,cond,m2); else ended=true; }
}
static Val V(E e){ Val v; v.e=e; return v; }
bool Exec::builtin(const CI&c,int b,const std::vector<Val>&a,FnInfo*cal){
  auto A=[&](int i){ return a[i].e; };
  Val r; unsigned w=tyBits(cal->F->getReturnType());
  switch(b){
  case B_ZERO: if(w) r=V(mkConst(0,w)); break;
  case B_MALLOC: r=V(mkConst(allocHeap(concrete(A(0),"malloc size")),64)); break;
  case B_CALLOC: r=V(mkConst(allocHeap(concrete(A(0),"calloc")*concrete(A(1),"calloc")),64)); break;
  case B_REALLOC: { u64 p=concrete(A(0),"realloc"),n=concrete(A(1),"realloc"); u64 q=allocHeap(n); if(p){ Loc L=resolve(*s,tid,p,1); if(!L.ok) { memFail(p,1,"realloc"); ended=true; return true; } u32 k=std::min<u64>(n,L.o->size); Loc D=resolve(*s,tid,q,1); for(u32 i=0;i<k;i++){ E e=objRead(s->slots[L.slot].p,i,1); objWrite(s->slots[D.slot].mut(),i,e);} s->slots[L.slot]=ObjRef(); s->M(T->proc).erase(p); } r=V(mkConst(q,64)); break; }
  case B_FREE: { u64 p=concrete(A(0),"free"); if(p){ AMap&M=s->M(T->proc); auto it=M.find(p); if(it==M.end()||s->slots[it->second.slot]->kind!=1){ memFail(p,1,"free"); ended=true; return true; } s->slots[it->second.slot]=ObjRef(); M.erase(it);} break; }
  case B_MEMCPY: case B_MEMSET: {
    u64 d=concrete(A(0),"memcpy dst"); u64 n=concrete(A(2),"memcpy len"); if(n>(1u<<22)) fatal("huge memcpy");
    T->ev++; if(n){ Loc D=resolve(*s,tid,d,n); if(!D.ok||D.ro){ memFail(d,n,"write"); ended=true; return true; } 
      bool sharedDst=!D.stack&&s->slots[D.slot]->shared; if(sharedDst&&!s->slots[D.slot]->kernel) { crashFork(); if(ended) return true; D=resolve(*s,tid,d,n); }
      trackR(D,n,true); if(sharedDst&&s->multi) wrote(d);
      if(b==B_MEMSET){ E v=mkTrunc(A(1),8); Obj*o=mutObj(*s,D); for(u64 i=0;i<n;i++) objWrite(o,D.off+i,v); }
      else { u64 sr=concrete(A(1),"memcpy src"); Loc S=resolve(*s,tid,sr,n); if(!S.ok){ memFail(sr,n,"read"); ended=true; return true; } trackR(S,n,false); ObjRef so(const_cast<Obj*>(S.o)); u64 i=0; std::vector<std::pair<u64,E>> parts; while(i<n){ u32 k=(n-i>=8)?8:(n-i>=4)?4:1; parts.push_back({i,objRead(so.p,S.off+i,k)}); i+=k; } so=ObjRef(); Obj*o=mutObj(*s,D); for(auto&p:parts) objWrite(o,D.off+p.first,p.second); } }
    r=A(0)?V(mkConst(d,64)):Val(); if(!w) r=Val(); break; }
  case B_SYM: { str nm=cstr(concrete(A(0),"name")); unsigned bits=concrete(A(1),"bits"); E e=newSym(*s,tid,nm,bits); if(gReplay) gTraceVals.push_back({tid,{nm,e->val}}); r=V(mkZExt(e,64)); break; }
  case B_ASSUME: { E e=mkNot(mkEq(A(0),mkConst(0,A(0)->w))); if(isC(e)){ if(!e->val){ ended=true; s->stuck=true; s->guard=eFalse; return true; } break; } ModelP m; if(!may(*s,e,&m)){ ended=true; s->guard=eFalse; return true; } addC(*s,e,m); break; }
  case B_ASSERT: { str msg=cstr(concrete(A(1),"msg")); E e=mkNot(mkEq(A(0),mkConst(0,A(0)->w))); e=simpLits(*s,e); assertB(e,msg); if(ended){ s->guard=eFalse; return true; } break; }
  case B_FAIL: { str msg=cstr(concrete(A(0),"msg")); st.asserts++; failState(*s,tid,msg); ended=true; s->guard=eFalse; return true; }
  case B_NORETFAIL: { failState(*s,tid,"runtime failure "+demangle(cal->name)+" called from "+demangle(F().fn->name)); ended=true; s->guard=eFalse; return true; }
  case B_REACH: gReach[cstr(concrete(A(0),"msg"))]++; break;
  case B_NOTE: if(gReplay){ str m=cstr(concrete(A(0),"msg")); gNotes.push_back("t"+std::to_string(tid)+": "+m+" "+(isC(A(1))?std::to_string((i64)A(1)->val):str("?"))); } break;
  case B_CAP: { gCaps[cstr(concrete(A(0),"msg"))]++; s->guard=eFalse; ended=true; return true; }
  case B_SPAWN: case B_FORKPROC: { u64 fn=concrete(A(0),"fn"); auto it=fnByAddr.find(fn); if(it==fnByAddr.end()) fatal("spawn fn"); auto nt=std::make_shared<Thread>(); nt->id=s->th.size(); nt->proc=T->proc; nt->sp=STK+nt->id*STKSZ+0x1000; if(nt->id>=32) fatal("too many threads");
      if(b==B_FORKPROC){ auto nm=std::make_shared<AMap>(*s->procs[T->proc]); int np=s->procs.size(); for(auto&e:*nm){ ObjRef o=s->slots[e.second.slot]; if(o->shared) continue; s->slots.push_back(o); e.second.slot=s->slots.size()-1; } s->procs.push_back(nm); nt->proc=np; }
      s->th.push_back(nt); int me=tid; tid=nt->id; T=nt.get(); pushFrame(it->second,{a[1]},-1); tid=me; T=&s->T(tid); r=V(mkConst(s->th.size()-1,32)); break; }
  case B_RUN: { if(tid!=0) fatal("vp_run outside main"); F().pc++; T->st=T_JOIN; s->multi=true; for(auto&t:s->th) if(t->id&&t->st==T_RUN){ Thread&X=s->T(t->id); X.consumed=false; X.yielded=false; X.visited.clear(); X.rounds.clear(); } s->stuckRounds=0; s->stuck=false; s->runNo++;
      T=&s->T(0); T->runDst=c.dst; return true; }
  case B_MERGE: { F().pc++; T->st=T_MERGE; return true; }
  case B_SELF: r=V(mkConst(tid,32)); break;
  case B_PROC: r=V(mkConst(T->proc,32)); break;
  case B_ONLY: { s->only=(int)concrete(A(0),"only"); break; }
  case B_VISIBLE: { if(visible(1)) return true; T->ev++; if(s->multi&&concrete(A(0),"vis")) wrote(); break; }
  case B_SHARED: { Loc L=resolve(*s,tid,concrete(A(0),"p"),1); if(!L.ok||L.slot<0) fatal("vp_shared"); s->slots[L.slot].mut()->shared=true; break; }
  case B_MAP: { u64 p=concrete(A(0),"p"),n=concrete(A(1),"n"); Loc L=resolve(*s,tid,p,n); if(!L.ok||L.slot<0){ fatal("vp_map range"); } u64 lo=0x500000000000ULL+((u64)T->proc<<36)+((u64)T->proc*0x3000); u64 q=lo; AMap&M=s->M(T->proc); while(M.count(q)) q+=1<<24; M[q]={(u32)n,L.slot,L.off}; r=V(mkConst(q,64)); break; }
  case B_UNMAP: { u64 p=concrete(A(0),"p"); AMap&M=s->M(T->proc); r=V(mkConst(M.erase(p)?1:0,32)); break; }
  case B_MAPPED: { Loc L=resolve(*s,tid,concrete(A(0),"p"),concrete(A(1),"n")); r=V(mkConst(L.ok,32)); break; }
  case B_GUARD: { Loc L=resolve(*s,tid,concrete(A(0),"p"),8); if(!L.ok) fatal("vp_guard"); if(!gGuards.count(L.cell)){ int k=gGuards.size(); gGuards[L.cell]=k; } gVis.insert(L.cell); break; }
  case B_STATUS: { u64 t=concrete(A(0),"t"); TS x=t<s->th.size()?s->th[t]->st:T_DEAD; r=V(mkConst(x==T_DEAD?2:x==T_DONE?1:0,32)); break; }
  case B_CRASHABLE: { s->T(concrete(A(0),"t")).crashable=true; s->crashLeft=concrete(A(1),"n"); T=&s->T(tid); break; }
  case B_LASTW: { u64 t=concrete(A(0),"t"); u64 v=(t<s->th.size()?s->th[t]->lastW:0)-concrete(A(1),"base"); if(gReplay) gTraceVals.push_back({tid,{"lastw",v}}); r=V(mkConst(v,64)); break; }
  case B_CRASHCOPY: { auto t=std::make_tuple(concrete(A(0),"d"),concrete(A(1),"s"),concrete(A(2),"n")); if(std::find(gCrashCopy.begin(),gCrashCopy.end(),t)==gCrashCopy.end()) gCrashCopy.push_back(t); break; }
  case B_DIE: { die(false); return true; }
  case B_CONC: r=V(mkConst(concrete(A(0),"conc"),64)); break;
  case B_PARAM: { str nm=cstr(concrete(A(0),"name")); auto it=gParam.find(nm); r=V(it==gParam.end()?A(1):mkConst(it->second,64)); break; }
  case B_MODEL: T->inModel=concrete(A(0),"model")!=0; break;
  case B_INTRIN: {
    unsigned ww=c.w;
    switch(c.sub){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::var_annotation: break;
    case Intrinsic::stacksave: r=V(mkConst(0,64)); break;
    case Intrinsic::memcpy: case Intrinsic::memmove: return builtin(c,B_MEMCPY,a,cal);
    case Intrinsic::memset: return builtin(c,B_MEMSET,a,cal);
    case Intrinsic::umin: r=V(mkIte(mkBin(OUlt,A(0),A(1)),A(0),A(1))); break; case Intrinsic::umax: r=V(mkIte(mkBin(OUlt,A(0),A(1)),A(1),A(0))); break;
    case Intrinsic::smin: r=V(mkIte(mkBin(OSlt,A(0),A(1)),A(0),A(1))); break; case Intrinsic::smax: r=V(mkIte(mkBin(OSlt,A(0),A(1)),A(1),A(0))); break;
    case Intrinsic::abs: r=V(mkIte(mkBin(OSlt,A(0),mkConst(0,ww)),mkBin(OSub,mkConst(0,ww),A(0)),A(0))); break;
    case Intrinsic::usub_sat: r=V(mkIte(mkBin(OUlt,A(0),A(1)),mkConst(0,ww),mkBin(OSub,A(0),A(1)))); break;
    case Intrinsic::uadd_sat: { E sm=mkBin(OAdd,A(0),A(1)); r=V(mkIte(mkBin(OUlt,sm,A(0)),mkConst(~0ULL,ww),sm)); break; }
    case Intrinsic::uadd_with_overflow: { E sm=mkBin(OAdd,A(0),A(1)); r.e=sm; r.f=mkBin(OUlt,sm,A(0)); break; }
    case Intrinsic::usub_with_overflow: { r.e=mkBin(OSub,A(0),A(1)); r.f=mkBin(OUlt,A(0),A(1)); break; }
    case Intrinsic::umul_with_overflow: { E m=mkBin(OMul,A(0),A(1)); r.e=m; unsigned q=A(0)->w; r.f=isC(A(1))&&A(1)->val? mkBin(OUlt,mkConst(maskw(q)/A(1)->val,q),A(0)) : mkAndB(mkNot(mkEq(A(1),mkConst(0,q))),mkNot(mkEq(mkBin(OUDiv,m,A(1)),A(0)))); break; }
    case Intrinsic::expect: r=V(A(0)); break; case Intrinsic::is_constant: r=V(eFalse); break; case Intrinsic::objectsize: r=V(mkConst(~0ULL,ww)); break;
    case Intrinsic::fshl: { if(!isC(A(2))) fatal("fshl"); unsigned k=A(2)->val%ww; r=V(k? mkBin(OOr,mkBin(OShl,A(0),mkConst(k,ww)),mkBin(OLShr,A(1),mkConst(ww-k,ww))):A(0)); break; }
    case Intrinsic::fshr: { if(!isC(A(2))) fatal("fshr"); unsigned k=A(2)->val%ww; r=V(k? mkBin(OOr,mkBin(OShl,A(0),mkConst(ww-k,ww)),mkBin(OLShr,A(1),mkConst(k,ww))):A(1)); break; }
    case Intrinsic::bswap: { E o=nullptr; for(unsigned i=0;i<ww/8;i++){ E x=mkExtract(A(0),8*i,8); o=o?mkConcat(o,x):x; } r=V(o); break; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { u64 v=concrete(A(0),"ctX"); u64 k=0; if(c.sub==Intrinsic::ctpop) k=__builtin_popcountll(v); else if(c.sub==Intrinsic::ctlz){ k=ww; for(int i=ww-1;i>=0;i--) if(v>>i&1){ k=ww-1-i; break; } } else { k=ww; for(unsigned i=0;i<ww;i++) if(v>>i&1){ k=i; break; } } r=V(mkConst(k,ww)); break; }
    case Intrinsic::trap: failState(*s,tid,"trap in "+demangle(F().fn->name)); ended=true; s->guard=eFalse; return true;
    case Intrinsic::eh_typeid_for: r=V(mkConst(0,32)); break;
    default: fatal("intrinsic "+cal->name); }
    break; }
  default: fatal("builtin"); }
  finishCall(c,r); return false;
}
//------------------------------------------------------------------ interpreter loop
static E cmpE(int pred,E a,E b){
  switch(pred){
  case ICmpInst::ICMP_EQ: return mkEq(a,b); case ICmpInst::ICMP_NE: return mkNot(mkEq(a,b));
  case ICmpInst::ICMP_ULT: return mkBin(OUlt,a,b); case ICmpInst::ICMP_ULE: return mkBin(OUle,a,b);
  case ICmpInst::ICMP_UGT: return mkBin(OUlt,b,a); case ICmpInst::ICMP_UGE: return mkBin(OUle,b,a);
  case ICmpInst::ICMP_SLT: return mkBin(OSlt,a,b); case ICmpInst::ICMP_SLE: return mkBin(OSle,a,b);
  case ICmpInst::ICMP_SGT: return mkBin(OSlt,b,a); case ICmpInst::ICMP_SGE: return mkBin(OSle,b,a); }
  fatal("icmp predicate");
}
bool Exec::call(const CI&c){
  FnInfo*f=c.callee; std::vector<Val> args; size_t k=0;
  if(c.imm==1){ u64 a=concrete(ev(c.ops[0]),"call target"); auto it=fnByAddr.find(a); if(it==fnByAddr.end()){ memFail(a,1,"call"); ended=true; s->guard=eFalse; return true; } f=it->second; k=1; }
  for(;k<c.ops.size();k++) args.push_back(val(F(),c.ops[k]));
  int b=c.imm==1?f->builtin:c.builtin; if(b>=0){ CI cc=c; if(c.imm==1&&b==B_INTRIN) cc.sub=f->F->getIntrinsicID(); return builtin(cc,b,args,f); }
  pushFrame(f,args,c.dst); return false;
}
void Exec::guardWrite(const Loc&L,E v){
  auto it=gGuards.find(L.cell); if(it==gGuards.end()) return; u64 bit=1ULL<<it->second;
  if(isC(v)&&v->val==0){ T->held&=~bit; return; }
  for(auto&t:s->th) if(t->id!=tid&&t->st==T_RUN&&(t->held&bit)){ failState(*s,tid,"an internal table guard is held by two live threads at once"); ended=true; s->guard=eFalse; return; }
  T->held|=bit;
}
bool Exec::run(){ gCurTid=tid; gCurWhere=curWhere;
  u64 budget=opt.maxInstr;
  while(!ended&&T->st==T_RUN){
    if(!--budget){ failState(*s,tid,"a call never returns: endless loop in "+demangle(F().fn->name)); s->guard=eFalse; ended=true; return true; }
    st.instrs++; Frame&f=F(); const CI&c=f.fn->code[f.pc];
    switch(c.op){
    case XNop: f.pc++; break;
    case XBin: { E a=ev(c.ops[0]),b=ev(c.ops[1]); if(c.sub==OUDiv||c.sub==OSDiv||c.sub==OURem||c.sub==OSRem){ E z=mkEq(b,mkConst(0,b->w)); ModelP m; if(!isFalse(z)&&may(*s,z,&m)){ report(*s,tid,"division by zero in "+demangle(f.fn->name),m); if(isTrue(z)){ ended=true; s->guard=eFalse; break; } ModelP m2; if(!may(*s,mkNot(z),&m2)){ ended=true; s->guard=eFalse; break; } addC(*s,mkNot(z),m2); } }
      { E r=mkBin((Op)c.sub,a,b); propOrigin(r,a); propOrigin(r,b); setDst(c,V(r)); } F().pc++; break; }
    case XICmp: { E a=ev(c.ops[0]),b=ev(c.ops[1]); E r=cmpE(c.sub,a,b); propOrigin(r,a); propOrigin(r,b); setDst(c,V(r)); f.pc++; break; }
    case XSel: { E cd=ev(c.ops[0]); Val a=val(f,c.ops[1]),b=val(f,c.ops[2]); if(isC(cd)){ setDst(c,cd->val?a:b); } else { Val r; r.e=mkIte(cd,a.e,b.e); propOrigin(r.e,cd); propOrigin(r.e,a.e); propOrigin(r.e,b.e); if(a.f&&b.f) r.f=mkIte(cd,a.f,b.f); setDst(c,r); } f.pc++; break; }
    case XCast: { E a=ev(c.ops[0]); E r; if(c.sub==Instruction::SExt) r=mkSExt(a,c.w); else r= c.w>c.w2? mkZExt(a,c.w): c.w<c.w2? mkTrunc(a,c.w):a; propOrigin(r,a); setDst(c,V(r)); f.pc++; break; }
    case XFreeze: setDst(c,val(f,c.ops[0])); f.pc++; break;
    case XGEP: { E a=ev(c.ops[0]); u64 off=c.imm; E sum=nullptr; std::vector<E> src{a}; for(auto&g:c.gep){ E i=ev(g.first); src.push_back(i); i=mkSExt(i,64); if(i->w>64) i=mkTrunc(i,64); E t=mkBin(OMul,i,mkConst(g.second,64)); if(isC(t)) off+=t->val; else sum=sum?mkBin(OAdd,sum,t):t; } if(sum) a=mkBin(OAdd,a,sum); E r=mkBin(OAdd,a,mkConst(off,64)); for(E x:src) propOrigin(r,x); setDst(c,V(r)); f.pc++; break; }
    case XBr: jump(c.succ[0],c.bb); break;
    case XCondBr: { E e=ev(c.ops[0]);
      E braw=e; if(!isC(e)){ for(E l:s->lits){ if(l==e){ e=eTrue; break; } if(l==mkNot(e)){ e=eFalse; break; } } }
      if(!isC(e)){ E o=e; e=simpLits(*s,e); (void)o; }
      if(isC(e)){ jump(c.succ[e->val?0:1],c.bb); break; }
      ModelP mt,mf; bool wt=evalW(*s,e); bool t,fl; if(wt){ t=true; mt=s->wit; fl=may(*s,mkNot(e),&mf); } else { fl=true; mf=s->wit; t=may(*s,e,&mt); }
      heat(braw); if(t&&fl){ SP n(new State(*s)); st.forks++; addC(*n,mkNot(e),mf); Exec x; x.s=n.get(); x.tid=tid; x.T=&n->T(tid); x.jump(c.succ[1],c.bb); gWork->push_back(std::move(n)); T=&s->T(tid); addC(*s,e,mt); jump(c.succ[0],c.bb); }
      else jump(c.succ[t?0:1],c.bb);
      break; }
    case XSwitch: { E se=ev(c.ops[0]); bool kn=isC(se)||se->ctree; if(!kn) for(auto&k:s->known) if(k.first==se) kn=true;
      if(!kn){ std::vector<std::pair<u32,E>> tg; E none=eTrue; auto grp=[&](u32 d,E k){ for(auto&x:tg) if(x.first==d){ x.second=mkNot(mkAndB(mkNot(x.second),mkNot(k))); return; } tg.push_back({d,k}); };
        for(size_t i=0;i<c.cases.size();i++){ E k=mkEq(se,mkConst(c.cases[i],se->w)); grp(c.succ[i+1],k); none=mkAndB(none,mkNot(k)); } grp(c.succ[0],none);
        std::vector<std::tuple<u32,E,ModelP>> ok; for(auto&x:tg){ ModelP m; if(may(*s,x.second,&m)) ok.push_back({x.first,x.second,m}); } if(ok.empty()) fatal("no feasible switch target"); heat(se);
        for(size_t i=1;i<ok.size();i++){ SP n(new State(*s)); st.forks++; addC(*n,std::get<1>(ok[i]),std::get<2>(ok[i])); Exec x; x.s=n.get(); x.tid=tid; x.T=&n->T(tid); x.jump(std::get<0>(ok[i]),c.bb); gWork->push_back(std::move(n)); }
        T=&s->T(tid); addC(*s,std::get<1>(ok[0]),std::get<2>(ok[0])); jump(std::get<0>(ok[0]),c.bb); break; }
      u64 v=concrete(se,"switch"); u32 d=c.succ[0]; for(size_t i=0;i<c.cases.size();i++) if(c.cases[i]==v){ d=c.succ[i+1]; break; } jump(d,c.bb); break; }
    case XRet: { Val r; if(!c.ops.empty()) r=val(f,c.ops[0]); T->sp=f.sp; T->stack.resize(f.stackN); T->fr.pop_back(); if(T->fr.empty()){ T->st=T_DONE; break; } const CI&cc=F().fn->code[F().pc]; finishCall(cc,r); break; }
    case XCall: if(call(c)) { if(!ended&&T->st==T_RUN) return true; } break;
    case XAlloca: { u64 n=concrete(ev(c.ops[0]),"alloca")*c.imm; if(!n) n=1; u64 a=(T->sp+31)/16*16; ObjRef o(new Obj(a,n)); o->kind=2; T->stack.push_back(o); T->sp=a+n+16; setDst(c,V(mkConst(a,64))); F().pc++; break; }
    case XLoad: { u64 a=concrete(ev(c.ops[0]),"load address"); Loc L=resolve(*s,tid,a,c.imm); if(!L.ok){ memFail(a,c.imm,"read"); ended=true; s->guard=eFalse; break; }
      bool v=isVis(L,cast<LoadInst>(c.I)->isAtomic()); if(v){ if(visible(L.cell^((u64)(L.off&7)<<56))){ if(ended) break; return true; } } else track(L,false,false);
      L=resolve(*s,tid,a,c.imm); E e=objRead(L.o,L.off,c.imm); if(!isC(e)&&!gOrigin.count(e)) for(u32 i=0;i<c.imm;i++){ E x=L.o->at((L.off+i)>>6)->sym((L.off+i)&63); if(x) propOrigin(e,x); }
      if(e->w!=c.w) e=mkTrunc(e,c.w); if(!isC(e)) for(auto&k:s->known) if(k.first==e){ e=mkConst(k.second,e->w); break; }
      T->ev++; setDst(c,V(e)); F().pc++; break; }
    case XStore: { u64 a=concrete(ev(c.ops[0]),"store address"); E v=ev(c.ops[1]); Loc L=resolve(*s,tid,a,c.imm); if(!L.ok||L.ro){ memFail(a,c.imm,"write"); ended=true; s->guard=eFalse; break; }
      bool vis=isVis(L,cast<StoreInst>(c.I)->isAtomic()); bool sh=!L.stack&&s->slots[L.slot]->shared&&!L.o->kernel;
      if(vis){ if(visible(L.cell^((u64)(L.off&7)<<56))){ if(ended) break; return true; } wrote(a); } else { track(L,true,false); if(sh&&s->multi){ crashFork(); if(ended) break; wrote(a); } }
      L=resolve(*s,tid,a,c.imm); guardWrite(L,v); if(ended) break; objWrite(mutObj(*s,L),L.off,mkZExt(v,c.imm*8)); T->ev++; F().pc++; break; }
    case XCmpXchg: { u64 a=concrete(ev(c.ops[0]),"cas address"); Loc L=resolve(*s,tid,a,c.imm); if(!L.ok||L.ro){ memFail(a,c.imm,"write"); ended=true; s->guard=eFalse; break; }
      bool vis=isVis(L,true); if(vis&&T->consumed&&othersAlive()) return parkAt(L.cell);
      E old=objRead(L.o,L.off,c.imm); E cmp=ev(c.ops[1]),nw=ev(c.ops[2]); E eq=mkEq(old,cmp); propOrigin(eq,old); propOrigin(eq,cmp); u64 ok=concrete(eq,"cas"); 
      if(vis){ if(visible(L.cell^((u64)(L.off&7)<<56))){ if(ended) break; return true; } if(ok&&!(isC(nw)&&isC(cmp)&&nw==cmp)) wrote(a); }
      L=resolve(*s,tid,a,c.imm); if(ok){ guardWrite(L,nw); if(ended) break; objWrite(mutObj(*s,L),L.off,nw); if(isC(cmp)) old=cmp; }
      if(!isC(old)) for(auto&k:s->known) if(k.first==old){ old=mkConst(k.second,old->w); break; }
      Val r; r.e=old; r.f=mkConst(ok,1); T->ev++; setDst(c,r); F().pc++; break; }
    case XRMW: { u64 a=concrete(ev(c.ops[0]),"rmw address"); Loc L=resolve(*s,tid,a,c.imm); if(!L.ok||L.ro){ memFail(a,c.imm,"write"); ended=true; s->guard=eFalse; break; }
      if(isVis(L,true)){ if(visible(L.cell^((u64)(L.off&7)<<56))){ if(ended) break; return true; } wrote(a); } L=resolve(*s,tid,a,c.imm);
      E old=objRead(L.o,L.off,c.imm),v=ev(c.ops[1]),n; switch(c.sub){ case AtomicRMWInst::Add: n=mkBin(OAdd,old,v); break; case AtomicRMWInst::Sub: n=mkBin(OSub,old,v); break; case AtomicRMWInst::Xchg: n=v; break; case AtomicRMWInst::And: n=mkBin(OAnd,old,v); break; case AtomicRMWInst::Or: n=mkBin(OOr,old,v); break; case AtomicRMWInst::Xor: n=mkBin(OXor,old,v); break; default: fatal("rmw"); }
      guardWrite(L,n); if(ended) break; objWrite(mutObj(*s,L),L.off,n); T->ev++; setDst(c,V(old)); F().pc++; break; }
    case XExtractV: { Val a=val(f,c.ops[0]); E e=c.imm?a.f:a.e; if(!e) e=mkConst(0,c.w?c.w:64); setDst(c,V(e)); f.pc++; break; }
    case XInsertV: { Val a=val(f,c.ops[0]); if(c.imm) a.f=ev(c.ops[1]); else a.e=ev(c.ops[1]); setDst(c,a); f.pc++; break; }
    case XUnreach: failState(*s,tid,"unreachable code executed in "+demangle(f.fn->name)); ended=true; s->guard=eFalse; break;
    default: { str t; raw_string_ostream o(t); c.I->print(o); fatal("cannot encode instruction in "+demangle(f.fn->name)+": "+t); }
    }
  }
  return true;
}
//------------------------------------------------------------------ merging
static const Hash&mapHash(AMap&m){ if(!m.hv){ Hash x; x.add(m.size()); for(auto&e:m){ x.add(e.first); x.add((u64)e.second.size<<32|(u32)e.second.slot); x.add(e.second.off); } m.h=x; m.hv=true; } return m.h; }
static const Hash&frameHash(Frame&f,bool inCall,bool&symb){ if(!f.hv){ Hash x; f.symb=false; auto&L=liveAt(f.fn,f.pc); int dst=inCall?f.fn->code[f.pc].dst:-1; for(u32 r=0;r<f.r.size();r++) if(L[r]&&(int)r!=dst){ x.add(r); if(f.r[r].e){ x.add(f.r[r].e->id); if(!isC(f.r[r].e)) f.symb=true; } if(f.r[r].f){ x.add((u64)f.r[r].f->id+(1ULL<<40)); if(!isC(f.r[r].f)) f.symb=true; } } f.h=x; f.hv=true; } symb|=f.symb; return f.h; }
static Hash keyOf(State&s){
  Hash k; k.add(s.th.size()); k.add((u64)s.crashLeft<<32|(u32)s.stuckRounds); k.add((u64)s.stuck|s.multi<<1|(u64)s.runNo<<8);
  k.add(s.only); for(auto&t:s.th){ k.add((u64)t->st|(u64)t->yielded<<8|(u64)t->crashable<<10|(u64)t->vnext<<11|(u64)t->proc<<16|(u64)(t->runDst+1)<<32); k.add(t->held); if(t->crashable) k.add(t->lastW); k.add(t->sp); k.add(t->fr.size()); for(size_t i=0;i<t->fr.size();i++){ auto&f=t->fr[i]; k.add((u64)f.fn); k.add(f.pc|(u64)f.stackN<<32); } for(auto&o:t->stack) k.add(o->base^((u64)o->size<<48)); }
  for(auto&p:s.procs) k.add(mapHash(*p)); k.add(s.slots.size()); for(auto&o:s.slots) k.add(o.p?o->base*2+o->shared:0);
  if(!gHot.empty()){
    auto hm=[&](const Obj*o){ auto it=gHotMem.find(o->base); if(it==gHotMem.end()) return; for(auto&x:it->second) if(x.first+x.second<=o->size) k.add((u64)objRead(o,x.first,x.second)); };
    for(auto&o:s.slots) if(o.p) hm(o.p);
    for(auto&t:s.th){ for(auto&o:t->stack) hm(o.p); for(size_t i=0;i<t->fr.size();i++){ auto&f=t->fr[i]; auto it=gHotReg.find(f.fn); if(it==gHotReg.end()) continue; auto&L=liveAt(f.fn,f.pc); bool inCall=i+1<t->fr.size(); for(u32 r:it->second){ if(!L[r]||(inCall&&(int)r==f.fn->code[f.pc].dst)) continue; k.add((u64)f.r[r].e); } } } }
  return k;
}
// Whole content of a state: equal hashes mean equal futures. symb: some content is not a constant, so the guard matters.
static Hash contentOf(State&s,bool&symb){ Hash k; symb=false; for(auto&o:s.slots) if(o.p){ k.add(o->hash()); symb|=o->symb; } for(auto&t:s.th){ for(auto&o:t->stack){ k.add(o->hash()); symb|=o->symb; } for(size_t i=0;i<t->fr.size();i++) k.add(frameHash(*t->fr.v[i],i+1<t->fr.size(),symb)); } return k; }
static void mergeObj(ObjRef&a,const ObjRef&b,E g){
  if(a.p==b.p) return; if(!a.p||!b.p||a->size!=b->size) fatal("merge of different objects");
  u32 n=a->nchunks(); for(u32 i=0;i<n;i++){ if(i%PGC==0&&a->pg[i/PGC]==b->pg[i/PGC]){ i+=PGC-1; continue; } const Chunk*x=a->at(i),*y=b->at(i); if(x==y) continue;
    auto same=[&](u32 k){ E p=x->sym(k),q=y->sym(k); if(p||q) return p==q&&x->six(k)==y->six(k); return x->c[k]==y->c[k]; };
    bool all=true; bool d[64]; for(u32 k=0;k<64;k++){ d[k]=!same(k); if(d[k]) all=false; } if(all) continue;
    a.mut(); u32 lim=std::min<u32>(64,a->size-i*64);
    for(u32 k=0;k<lim;){ u32 w; bool any=false; if(k%8==0&&k+8<=lim){ for(u32 j=0;j<8;j++) any|=d[k+j]; if(!any){ k+=8; continue; } bool lo=d[k]||d[k+1]||d[k+2]||d[k+3],hi=d[k+4]||d[k+5]||d[k+6]||d[k+7];
        if(lo&&hi){ E p=objRead(a.p,i*64+k,8),q=objRead(b.p,i*64+k,8); E z=mkIte(g,p,q); setOrigin(z,originId(true,a->base,i*64+k,8)); objWrite(a.p,i*64+k,z); } else { u32 o=lo?0:4; E p=objRead(a.p,i*64+k+o,4),q=objRead(b.p,i*64+k+o,4); E z=mkIte(g,p,q); setOrigin(z,originId(true,a->base,i*64+k+o,4)); objWrite(a.p,i*64+k+o,z); }
        k+=8; continue; }
      w= (k%4==0&&k+4<=lim)?4:1; for(u32 j=0;j<w;j++) any|=d[k+j]; if(any){ E p=objRead(a.p,i*64+k,w),q=objRead(b.p,i*64+k,w); E z=mkIte(g,p,q); setOrigin(z,originId(true,a->base,i*64+k,w)); objWrite(a.p,i*64+k,z); } k+=w; } }
}
static E mergeE(E a,E b,E g){ if(a==b||!b) return a; if(!a) return b; if(a->w!=b->w) return a; return mkIte(g,a,b); }
static void mergeInto(State&a,State&b){
  st.merges++; E g=a.guard;
  for(size_t i=0;i<a.slots.size();i++) mergeObj(a.slots[i],b.slots[i],g);
  for(size_t t=0;t<a.th.size();t++){ if(a.th[t]==b.th[t]) continue; Thread&x=a.T(t); Thread&y=*b.th[t]; x.ev=std::max(x.ev,y.ev);
    std::vector<std::pair<u64,int>> vv; for(auto&p:x.visited) for(auto&q:y.visited) if(p.first==q.first) vv.push_back({p.first,std::min(p.second,q.second)}); x.visited=vv; vv.clear(); for(auto&p:x.rounds) for(auto&q:y.rounds) if(p.first==q.first) vv.push_back({p.first,std::min(p.second,q.second)}); x.rounds=vv;
    for(size_t i=0;i<x.stack.size();i++) mergeObj(x.stack[i],y.stack[i],g);
    for(size_t k=0;k<x.fr.size();k++){ if(x.fr.v[k]==y.fr.v[k]) continue; auto&f=x.fr.mut(k); auto&h=y.fr[k]; u32 pc=f.pc; bool inCall=k+1<x.fr.size(); const std::vector<bool>&L=liveAt(f.fn,pc); const CI&ci=f.fn->code[pc]; 
      for(u32 r=0;r<f.r.size();r++){ bool live=L[r]; if(inCall){ live=L[r]; if((int)r==ci.dst) live=false; } if(!live){ f.r[r]=Val(); continue; } { E o=f.r[r].e; f.r[r].e=mergeE(o,h.r[r].e,g); if(f.r[r].e!=o&&f.r[r].e) setOrigin(f.r[r].e,originId(false,(u64)f.fn,r,0)); } f.r[r].f=mergeE(f.r[r].f,h.r[r].f,g); } } }
  std::vector<E> l; { std::unordered_set<E> sa(a.lits.begin(),a.lits.end()),sb(b.lits.begin(),b.lits.end()); E ra=a.rest?a.rest:eTrue, rb=b.rest?b.rest:eTrue; for(E x:a.lits){ if(sb.count(x)) l.push_back(x); else ra=mkAndB(ra,x); } for(E x:b.lits) if(!sa.count(x)) rb=mkAndB(rb,x); a.lits=l; a.rest=mkOrB(ra,rb); }
  std::vector<std::pair<E,u64>> kn; for(auto&x:a.known) for(auto&y:b.known) if(x==y){ kn.push_back(x); break; } a.known=kn;
  a.guard=mkOrB(a.guard,b.guard);
}
//------------------------------------------------------------------ driver
static std::vector<std::map<str,u64>> gWits; static int gWitN=0;
static std::unordered_map<H128,SP,HH> gNext2; static std::vector<H128> gOrder;
static std::unordered_set<H128,HH> gSeen;
// A state all of whose content is constant, with the same control state (including the revisit count of each parked access), has been explored before.
static bool subsumed(State&s,const Hash&k,H128&id){ bool symb; Hash c=contentOf(s,symb); id=0; if(symb){ st.symStates++; return false; } c.add(k); id=c.get(); return !gSeen.insert(id).second; }
// State graph of the concurrent phase: a state from which no continuation (crashes aside) ever completes is a deadlock or livelock.
static std::vector<std::pair<u32,u32>> gEdge; static std::vector<char> gFin; static std::vector<H128> gNodeHash; static std::unordered_map<H128,u32,HH> gNodeOf; static std::unordered_map<H128,u32,HH> gNextNode; static u32 gCurNode=0; static std::unordered_set<H128,HH> gHangHash; static u32 gHangNode=0; static bool gHangOn=false; static u64 gHangs=0;
static u32 newNode(H128 h){ gFin.push_back(0); gNodeHash.push_back(h); return gFin.size()-1; }
static void finNode(u32 n){ if(n<gFin.size()) gFin[n]=1; }
static void place(SP s){ // deposit a parked state into the next frontier
  if(isFalse(s->guard)){ finNode(gCurNode); return; } bool twin=s->twin; s->twin=false; bool mainDone=s->th[0]->st==T_DONE||s->th[0]->st==T_DEAD; if(mainDone){ st.paths++; if(s->wit&&!gReplay&&(gWitN++<opt.witN/2||gWits.size()<(size_t)opt.witN)) gWits.push_back(modelVals(s->wit)); else if(s->wit&&!gReplay&&opt.witN) gWits.back()=modelVals(s->wit); return; }
  Hash kh=keyOf(*s); H128 id=0; bool multi=s->multi&&!gReplay; u32 from=gCurNode; auto edge=[&](u32 to){ if(multi&&!twin&&from) gEdge.push_back({from,to}); };
  if(opt.subsume&&!gReplay&&subsumed(*s,kh,id)){ st.subsumed++; auto it=gNodeOf.find(id); if(multi){ if(it!=gNodeOf.end()) edge(it->second); else finNode(from); } return; }
  H128 k=kh.get(); if(!opt.merge) k+=gOrder.size(); auto it=gNext2.find(k); if(it!=gNext2.end()){ if(multi){ edge(it->second->node); if(id) gNodeOf[id]=it->second->node; } mergeInto(*it->second,*s); return; }
  if(gReplay){ if(gHangOn&&s->multi&&!s->hang){ bool sy; Hash c=contentOf(*s,sy); c.add(kh); if(!sy&&gHangHash.count(c.get())) s->hang=true; } }
  else if(multi){ s->node=newNode(id); if(id) gNodeOf[id]=s->node; edge(s->node); if(gHangOn&&(id?gHangHash.count(id)>0:s->node==gHangNode)) s->hang=true; } else s->node=0;
  gOrder.push_back(k); gNext2[k]=std::move(s);
}
static void post(State&s,int tid){
  Thread&t=s.T(tid); t.consumed=false; t.solo=0; bool w=t.wroteF||t.st==T_DONE||t.st==T_DEAD; t.wroteF=false; if(t.st==T_DONE||t.st==T_DEAD){ t.visited.clear(); }
  if(w){ s.stuckRounds=0; for(auto&o:s.th) if(o->id!=tid&&(o->yielded||!o->visited.empty()||o->vnext)){ Thread&x=s.T(o->id); for(auto&v:x.visited){ bool f=false; for(auto&r:x.rounds) if(r.first==v.first){ r.second++; f=true; } if(!f) x.rounds.push_back({v.first,1}); } x.yielded=false; x.visited.clear(); x.vnext=0; } }
}
static void stepState(SP s0,int tid){
  std::vector<SP> work,out; gWork=&work; gOut=&out; gCurTid=tid; s0->symIdx=0; s0->stepLits.clear(); s0->T(tid); { Thread&t=s0->T(tid); if(t.st==T_MERGE) t.st=T_RUN; }
  work.push_back(std::move(s0));
  while(!work.empty()){ SP s=std::move(work.back()); work.pop_back(); if(now()-gT0>opt.timeBudget) fatal("time budget exhausted"); Exec e; e.tid=tid; e.load(s.get()); e.run(); if(gReplay&&tid){ if(e.T->st!=T_DEAD) gTrace.push_back({tid,e.T->ev,false}); } out.push_back(std::move(s)); st.states++; if(st.states>opt.maxStates) fatal("state budget exhausted"); }
  for(auto&s:out){ post(*s,tid); place(std::move(s)); }
}
static void schedule(SP s){
  std::vector<int> c; bool main0=s->th[0]->st==T_RUN||s->th[0]->st==T_MERGE; bool alive=false,yl=false; gCurNode=main0?0:s->node;
  if(main0) c.push_back(0);
  else if(s->hang){ s->hang=false; st.hangHits++; st.stuckStates++; for(auto&t:s->th) if(t->id&&(t->st==T_RUN||t->st==T_MERGE)){ Thread&x=s->T(t->id); x.st=T_STUCK; x.yielded=false; } s->stuck=true; }
  else { for(auto&t:s->th) if(t->st==T_RUN||t->st==T_MERGE){ alive=true; if(t->yielded) yl=true; else c.push_back(t->id); }
    if(s->only&&std::find(c.begin(),c.end(),s->only)!=c.end()) c.assign(1,s->only);
    if(c.empty()&&yl){ s->stuckRounds++; if(s->stuckRounds>opt.stuckLimit){ st.stuckStates++; if(opt.verbose) for(auto&t:s->th) if(t->id&&t->st==T_RUN) fprintf(stderr,"stuck thread %d at %s\n",t->id,where(*s,t->id).c_str()); for(auto&t:s->th) if(t->id&&t->st==T_RUN){ Thread&x=s->T(t->id); x.st=T_STUCK; x.yielded=false; } s->stuck=true; alive=false; }
      else for(auto&t:s->th) if(t->st==T_RUN&&t->yielded){ s->T(t->id).yielded=false; c.push_back(t->id); } }
  }
  if(!main0){ if(c.empty()&&!alive){ finNode(gCurNode); gCurNode=0; if(gReplay) gTrace.push_back({-1,s->stuck?1ULL:0ULL,false}); Thread&m=s->T(0); m.st=T_RUN; m.consumed=false; m.visited.clear(); if(m.runDst>=0) m.fr.top().r[m.runDst].e=mkConst(s->stuck?1:0,32); m.runDst=-1; s->multi=false; c.assign(1,0); } }
  st.transitions+=c.size();
  if(c.size()==1){ stepState(std::move(s),c[0]); return; }
  str nm="sched@"+std::to_string(gDepth);
  if(gReplay){ auto it=gReplayVals.find(nm); int v=it==gReplayVals.end()?c[0]:(int)it->second; if(std::find(c.begin(),c.end(),v)==c.end()) fatal("replay diverged"); stepState(std::move(s),v); return; }
  auto&e=gSymByName[nm]; if(!e) e=mkSym(nm,8);
  for(size_t i=0;i<c.size();i++){ SP n= i+1<c.size()? SP(new State(*s)) : std::move(s); E q=mkEq(e,mkConst(c[i],8)); 
    ModelP w; if(n->wit){ w=std::make_shared<Model>(*n->wit); if(w->v.size()<=e->val) w->v.resize(e->val+1,0); w->v[e->val]=c[i]; w->touch(); }
    n->guard=mkAndB(n->guard,q); n->wit=w; stepState(std::move(n),c[i]); }
}
static SP initialState(const str&entry){
  SP s(new State()); s->procs.push_back(std::make_shared<AMap>()); s->guard=eTrue; s->wit=std::make_shared<Model>();
  for(auto&g:initGlobals){ ObjRef o(new Obj(*g.second.p)); s->slots.push_back(o); (*s->procs[0])[g.first]={o->size,(int)s->slots.size()-1,0}; }
  auto m=std::make_shared<Thread>(); m->sp=STK+0x1000; s->th.push_back(m);
  std::vector<std::pair<u64,Function*>> ct; if(auto*g=Mod->getGlobalVariable("llvm.global_ctors")) if(auto*a=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&o:a->operands()){ auto*cs=cast<ConstantStruct>(o); ct.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
  std::stable_sort(ct.begin(),ct.end(),[](auto&a,auto&b){return a.first<b.first;});
  std::vector<SP> work,out; gWork=&work; gOut=&out;
  for(auto&c:ct){ Exec e; e.tid=0; e.load(s.get()); e.T->st=T_RUN; e.pushFrame(getFn(c.second),{},-1); e.run(); if(!work.empty()||e.T->st!=T_DONE) fatal("static constructor forks"); }
  Function*F=Mod->getFunction(entry); if(!F) fatal("no entry "+entry); Exec e; e.tid=0; e.load(s.get()); e.T->st=T_RUN; e.pushFrame(getFn(F),{},-1); return s;
}
static void exploreRound(const str&entry){
  gDepth=0; gNext2.clear(); gOrder.clear(); gSeen.clear(); gEdge.clear(); gNodeHash.clear(); gFin.clear(); gNodeOf.clear(); gCurNode=0; newNode(0); gFin[0]=1; if(!gReplay){ gWits.clear(); gWitN=0; } SP s0=initialState(entry); place(std::move(s0));
  while(!gNext2.empty()){
    auto fr=std::move(gNext2); auto ord=std::move(gOrder); gNext2.clear(); gOrder.clear(); gDepth++; st.maxDepth=std::max<u64>(st.maxDepth,gDepth); st.peakFrontier=std::max<u64>(st.peakFrontier,fr.size());
    if(gDepth>opt.maxDepth) fatal("depth budget exhausted");
    if(opt.verbose&&gDepth%20==0) fprintf(stderr,"depth %u frontier %zu exprs %llu queries %llu solver %.1fs wall %.1fs\n",gDepth,fr.size(),(unsigned long long)gNumExprs,(unsigned long long)gSolver.queries,gSolver.secs,now()-gT0);
    if(getenv("VP_DUMP")&&gDepth>=(u32)atoi(getenv("VP_DUMP"))){ State&q=*fr.begin()->second; fprintf(stderr,"D %u",gDepth); for(auto&o:q.slots) if(o.p) fprintf(stderr," g%llx=%llx",(unsigned long long)o->base,(unsigned long long)o->hash().a); for(auto&t:q.th){ for(auto&o:t->stack) fprintf(stderr," s%llx=%llx",(unsigned long long)o->base,(unsigned long long)o->hash().a); for(size_t i=0;i<t->fr.size();i++){ bool sb; fprintf(stderr," f%d.%zu:%s=%llx",t->id,i,t->fr[i].fn->name.c_str(),(unsigned long long)frameHash(*t->fr.v[i],i+1<t->fr.size(),sb).a); } } fprintf(stderr,"\n"); }
    for(auto&k:ord){ auto it=fr.find(k); SP s=std::move(it->second); fr.erase(it); schedule(std::move(s)); if((int)gViol.size()>=opt.maxViol) { return; } }
    if(!gReplay&&(gHotGrown||gVisGrown)&&gRestarts<opt.maxRestart){ gRestarts++; return; }
  }
  gHotGrown=false;
}
static str jesc(const str&s){ str r; for(char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if((u8)c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
static void writeCex(const str&file,const str&msg,const std::map<str,u64>&reach={}){
  FILE*f=fopen(file.c_str(),"w"); if(!f) return; for(auto&x:gTrace) fprintf(f,"S %d %llu %d\n",x.tid,(unsigned long long)x.ev,x.crash?1:0); for(auto&v:gTraceVals) fprintf(f,"V %d %llu %s\n",v.first,(unsigned long long)v.second.second,v.second.first.c_str()); for(auto&x:reach) fprintf(f,"L %llu %s\n",(unsigned long long)x.second,x.first.c_str()); for(auto&x:gParam) fprintf(f,"P %llu %s\n",(unsigned long long)x.second,x.first.c_str()); fprintf(f,"M %s\n",msg.c_str()); fclose(f);
}
static str gEntry;
static int doRun(){
  str err; str verdict="held"; std::vector<Viol> found;
  try {
    layoutGlobals();
    auto hangScan=[&]()->bool{ // backward reachability of completion
      if(gHangs||gFin.size()<2) return false; std::vector<char> ok(gFin); std::vector<u32> head(gFin.size()+1,0),adj(gEdge.size()); for(auto&e:gEdge) head[e.second+1]++; for(size_t i=1;i<head.size();i++) head[i]+=head[i-1]; { std::vector<u32> p(head); for(auto&e:gEdge) adj[p[e.second]++]=e.first; }
      std::vector<u32> q; for(u32 i=0;i<ok.size();i++) if(ok[i]) q.push_back(i); while(!q.empty()){ u32 x=q.back(); q.pop_back(); for(u32 k=head[x];k<head[x+1];k++) if(!ok[adj[k]]){ ok[adj[k]]=1; q.push_back(adj[k]); } }
      for(u32 i=1;i<ok.size();i++) if(!ok[i]){ gHangs++; if(gNodeHash[i]) gHangHash.insert(gNodeHash[i]); else if(!gHangNode) gHangNode=i; } gHangOn=gHangs>0; return gHangOn; };
    for(;;){ st.rounds++; gVisGrown=false; gHotGrown=false; gCells.clear(); exploreRound(gEntry); if(gViol.empty()&&gHotGrown) continue; if(!gViol.empty()&&gVisGrown){ gViol.clear(); gViolSeen.clear(); continue; } if(gViol.empty()&&!gVisGrown&&hangScan()) continue; if(!gViol.empty()||!gVisGrown) break; if(st.rounds>opt.maxRestart+40) fatal("visibility refinement does not converge"); if(opt.verbose) fprintf(stderr,"round %llu done, visible cells %zu wall %.1f\n",(unsigned long long)st.rounds,gVis.size(),now()-gT0); }
  } catch(Fatal&f){ err=f.msg; verdict="inconclusive"; }
  if(gHangs&&gViol.empty()&&err.empty()&&!st.hangHits){ err="a state without completion was not reported"; verdict="inconclusive"; }
  if(gStubHits.size()<opt.stubs.size()){ err="not encodable: a function to be abstracted was not found"; verdict="inconclusive"; gViol.clear(); }
  found=gViol; bool confirmed=false; int wits=0;
  if(found.empty()&&err.empty()&&!gWits.empty()){ // concrete re-execution of solver witnesses, written out for the native replay
    auto r0=gReach; auto a0=gAssertSeen; auto c0=gCaps; Stats s0=st;
    try { for(auto&wv:gWits){ gReplay=true; gReplayVals=wv; gTrace.clear(); gTraceVals.clear(); gNotes.clear(); gViol.clear(); gViolSeen.clear(); gReach.clear(); gVisGrown=false; gCells.clear(); gHotGrown=false; exploreRound(gEntry); if(!gViol.empty()){ err="witness re-execution violates "+gViol[0].msg; verdict="inconclusive"; break; } writeCex(opt.witOut+std::to_string(wits++),"",gReach); } } catch(Fatal&f){ err="witness: "+f.msg; verdict="inconclusive"; }
    gReach=r0; gAssertSeen=a0; gCaps=c0; st=s0; gViol.clear(); }
  if(!found.empty()){ verdict="violated"; Viol v=found[0];
    try { gReplay=true; gReplayVals=v.vals; gViol.clear(); gViolSeen.clear(); gTrace.clear(); gTraceVals.clear(); gNotes.clear(); gVisGrown=false; gCells.clear(); opt.maxViol=1; double sv=opt.timeBudget; opt.timeBudget=sv+300; exploreRound(gEntry); if(!gViol.empty()&&gViol[0].msg==v.msg) confirmed=true; } catch(Fatal&f){ err="replay: "+f.msg; }
    if(!opt.cexOut.empty()) writeCex(opt.cexOut,v.msg); }
  printf("{\"verdict\":\"%s\",\"error\":\"%s\",\"wall\":%.3f,",verdict.c_str(),jesc(err).c_str(),now()-gT0);
  printf("\"violations\":["); for(size_t i=0;i<found.size();i++) printf("%s{\"msg\":\"%s\",\"where\":\"%s\",\"depth\":%llu}",i?",":"",jesc(found[i].msg).c_str(),jesc(found[i].where).c_str(),(unsigned long long)found[i].depth); printf("],\"confirmed\":%s,\"witnesses\":%d,",confirmed?"true":"false",wits);
  printf("\"inputs\":{"); { bool first=true; for(auto&v:gTraceVals){ printf("%s\"%s\":%llu",first?"":",",jesc("t"+std::to_string(v.first)+"."+v.second.first).c_str(),(unsigned long long)v.second.second); first=false; } } printf("},\"notes\":["); for(size_t i=0;i<gNotes.size();i++) printf("%s\"%s\"",i?",":"",jesc(gNotes[i]).c_str()); printf("],");
  printf("\"stats\":{\"instructions\":%llu,\"transitions\":%llu,\"states\":%llu,\"merges\":%llu,\"forks\":%llu,\"paths\":%llu,\"crash_points\":%llu,\"rounds\":%llu,\"max_depth\":%llu,\"hanging\":%llu,\"stuck\":%llu,\"subsumed\":%llu,\"spin_cuts\":%llu,\"symbolic_states\":%llu,\"peak_frontier\":%llu,\"exprs\":%llu,\"symbols\":%zu,\"visible_cells\":%zu,\"split_cells\":%zu},",(unsigned long long)st.instrs,(unsigned long long)st.transitions,(unsigned long long)st.states,(unsigned long long)st.merges,(unsigned long long)st.forks,(unsigned long long)st.paths,(unsigned long long)st.crashes,(unsigned long long)st.rounds,(unsigned long long)st.maxDepth,(unsigned long long)gHangs,(unsigned long long)st.stuckStates,(unsigned long long)st.subsumed,(unsigned long long)st.cuts,(unsigned long long)st.symStates,(unsigned long long)st.peakFrontier,(unsigned long long)gNumExprs,gSyms.size(),gVis.size(),gHot.size());
  printf("\"asserts\":{\"checked\":%llu,\"folded\":%llu,\"to_solver\":%llu},",(unsigned long long)st.asserts,(unsigned long long)st.assertsConst,(unsigned long long)st.assertsSolver);
  printf("\"solver\":{\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"witness_hits\":%llu,\"seconds\":%.3f},",(unsigned long long)gSolver.queries,(unsigned long long)gSolver.sat,(unsigned long long)gSolver.unsat,(unsigned long long)gSolver.unknown,(unsigned long long)gSolver.modelHits,gSolver.secs);
  auto pm=[&](const char*n,std::map<str,u64>&m){ printf("\"%s\":{",n); bool f=true; for(auto&x:m){ printf("%s\"%s\":%llu",f?"":",",jesc(x.first).c_str(),(unsigned long long)x.second); f=false; } printf("}"); };
  pm("reach",gReach); printf(","); pm("caps",gCaps); printf(","); pm("assertions",gAssertSeen); printf(",\"functions\":["); { bool f=true; for(auto&x:gFns){ str d=demangle(x); printf("%s\"%s\"",f?"":",",jesc(d).c_str()); f=false; } } printf("]}\n"); fflush(stdout);
  return verdict=="held"?0:verdict=="violated"?1:2;
}
//------------------------------------------------------------------ module rewriting
static void writeMod(const str&o){ std::error_code ec; raw_fd_ostream os(o,ec); if(ec) fatal("write "+o); WriteBitcodeToFile(*Mod,os); }
static void doPrep(){
  { std::vector<std::pair<Function*,Function*>> ov; for(auto&F:*Mod) if(F.getName().starts_with("vpo_")&&!F.isDeclaration()) if(Function*o=Mod->getFunction(F.getName().drop_front(4))) ov.push_back({o,&F}); for(auto&p:ov) p.first->replaceAllUsesWith(p.second); } // a harness substitutes one library function
  std::vector<std::pair<CallBase*,Function*>> todo;
  for(auto&F:*Mod) for(auto&B:F) for(auto&I:B) if(auto*cb=dyn_cast<CallBase>(&I)){ auto*cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if(!cf||!cf->isDeclaration()) continue; Function*m=Mod->getFunction(("vpm_"+cf->getName()).str()); if(m&&!m->isDeclaration()) todo.push_back({cb,m}); }
  for(auto&p:todo){ auto*cb=p.first; Function*m=p.second; IRBuilder<> b(cb); std::vector<Value*> args; auto*ft=m->getFunctionType();
    for(unsigned i=0;i<ft->getNumParams();i++){ Type*t=ft->getParamType(i); Value*v= i<cb->arg_size()?cb->getArgOperand(i):nullptr; if(!v){ v=Constant::getNullValue(t); } else if(v->getType()!=t){ if(v->getType()->isPointerTy()&&t->isIntegerTy()) v=b.CreatePtrToInt(v,t); else if(v->getType()->isIntegerTy()&&t->isPointerTy()) v=b.CreateIntToPtr(v,t); else if(v->getType()->isIntegerTy()&&t->isIntegerTy()) v=b.CreateSExtOrTrunc(v,t); else fatal("prep arg of "+m->getName().str()); } args.push_back(v); }
    CallBase*n; if(auto*iv=dyn_cast<InvokeInst>(cb)) n=b.CreateInvoke(m,iv->getNormalDest(),iv->getUnwindDest(),args); else n=b.CreateCall(m,args);
    n->setDebugLoc(cb->getDebugLoc()); if(n->getType()!=cb->getType()&&!cb->getType()->isVoidTy()){ if(isa<InvokeInst>(cb)) fatal("prep ret type of invoke "+m->getName().str()); Value*v=n; IRBuilder<> b2(cb); if(cb->getType()->isIntegerTy()&&n->getType()->isIntegerTy()) v=b2.CreateSExtOrTrunc(n,cb->getType()); else fatal("prep ret type "+m->getName().str()); cb->replaceAllUsesWith(v); } else if(!cb->getType()->isVoidTy()) cb->replaceAllUsesWith(n);
    cb->eraseFromParent(); }
}
static void doInstr(){
  FunctionCallee ev=Mod->getOrInsertFunction("vp_ev",Type::getVoidTy(Ctx)); std::vector<Instruction*> pts;
  for(auto&F:*Mod) for(auto&B:F) for(auto&I:B){ if(isa<LoadInst>(&I)||isa<StoreInst>(&I)||isa<AtomicCmpXchgInst>(&I)||isa<AtomicRMWInst>(&I)||isa<MemIntrinsic>(&I)) pts.push_back(&I); else if(auto*cb=dyn_cast<CallBase>(&I)) if(auto*cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())){ auto n=cf->getName(); if(cf->isDeclaration()&&(n=="memcpy"||n=="memmove"||n=="memset")) pts.push_back(&I); } }
  for(auto*I:pts){ IRBuilder<> b(I); b.CreateCall(ev); }
}
static int gRc=0; static std::vector<str> gArgs;
static void *bigMain(void*){
  try {
    str cmd=gArgs[0]; SMDiagnostic d; Mod=parseIRFile(gArgs[1],d,Ctx); if(!Mod){ fprintf(stderr,"cannot read %s: %s\n",gArgs[1].c_str(),d.getMessage().str().c_str()); gRc=3; return nullptr; } DL=&Mod->getDataLayout();
    if(cmd=="prep"){ doPrep(); writeMod(gArgs[2]); return nullptr; }
    if(cmd=="instr"){ doInstr(); writeMod(gArgs[2]); return nullptr; }
    gEntry=gArgs[2]; for(size_t i=3;i<gArgs.size();i++){ str a=gArgs[i]; auto nx=[&]{ return gArgs.at(++i); };
      if(a=="--depth") opt.maxDepth=stoull(nx()); else if(a=="--time") opt.timeBudget=stod(nx()); else if(a=="--instr") opt.maxInstr=stoull(nx()); else if(a=="--no-merge") opt.merge=false; else if(a=="--cex") opt.cexOut=nx(); else if(a=="--no-subsume") opt.subsume=false; else if(a=="--no-heat") opt.heat=false; else if(a=="--restarts") opt.maxRestart=stoull(nx()); else if(a=="-v") opt.verbose=true; else if(a=="--states") opt.maxStates=stoull(nx()); else if(a=="--spin") opt.spinK=stoi(nx()); else if(a=="--witness"){ opt.witN=stoi(nx()); opt.witOut=nx(); } else if(a=="--unwind") opt.unwind=stoi(nx()); else if(a=="--stuck") opt.stuckLimit=stoi(nx()); else if(a=="--solver-ms") opt.solverMs=stoul(nx()); else if(a=="--sysonly") opt.sysonly=true; else if(a=="--stub"){ str kv=nx(); auto q=kv.find('='); opt.stubs.push_back({kv.substr(0,q),kv.substr(q+1)}); } else if(a=="-p"){ str kv=nx(); auto q=kv.find('='); gParam[kv.substr(0,q)]=strtoull(kv.c_str()+q+1,nullptr,0); } else { fprintf(stderr,"bad option %s\n",a.c_str()); gRc=3; return nullptr; } }
    exprInit(); solverInit(opt.solverMs); gRc=doRun();
  } catch(Fatal&f){ fprintf(stderr,"fatal: %s\n",f.msg.c_str()); gRc=3; }
  return nullptr;
}
int main(int ac,char**av){
  gT0=now(); for(int i=1;i<ac;i++) gArgs.push_back(av[i]); if(gArgs.size()<3){ fprintf(stderr,"usage: vpengine prep|instr|run ...\n"); return 3; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,4ULL<<30); pthread_t t; if(pthread_create(&t,&at,bigMain,nullptr)){ perror("thread"); return 3; } pthread_join(t,nullptr); fflush(stdout); _exit(gRc);
}
