// irdump: LLVM bitcode -> JSON control flow graphs for the analyses in /verif/sa.
// Inlines everything that is defined and not recursive into the entry points,
// promotes memory to SSA registers where possible, brings loops into simplified
// form (preheader, single latch) and prints blocks, instructions, loops, class
// layouts and globals. It judges nothing.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/UnifyFunctionExitNodes.h"
#include <map>
#include <set>
using namespace llvm;

static std::string tystr(Type *T){ std::string s; raw_string_ostream o(s); T->print(o,false,true); return o.str(); }

struct Dump {
  Module &M; const DataLayout &DL;
  std::map<const Value*,int> ids;
  json::OStream J;
  std::set<const GlobalVariable*> globals;
  std::set<const Function*> fns;
  Dump(Module &m, raw_ostream &o):M(m),DL(m.getDataLayout()),J(o,0){}

  void operand(const Value *V){
    if (isa<Argument>(V)) { J.array([&]{J.value("a");J.value((int64_t)cast<Argument>(V)->getArgNo());}); return; }
    if (isa<Instruction>(V)) { J.array([&]{J.value("i");J.value(ids[V]);}); return; }
    if (auto *BB=dyn_cast<BasicBlock>(V)) { J.array([&]{J.value("b");J.value(ids[BB]);}); return; }
    if (auto *C=dyn_cast<ConstantInt>(V)) { J.array([&]{J.value("c");J.value((int64_t)C->getBitWidth());SmallString<40> s; C->getValue().toStringSigned(s); if(C->getBitWidth()==1) J.value(C->isZero()?"0":"1"); else J.value(s.str());}); return; }
    if (auto *C=dyn_cast<ConstantFP>(V)) { SmallString<40> s; C->getValueAPF().toString(s,0,0); std::string t(s.begin(),s.end()); J.array([&]{J.value("d");J.value(t);}); return; }
    if (isa<ConstantPointerNull>(V)) { J.array([&]{J.value("n");}); return; }
    if (isa<PoisonValue>(V)||isa<UndefValue>(V)) { J.array([&]{J.value("u");}); return; }
    if (auto *F=dyn_cast<Function>(V)) { fns.insert(F); J.array([&]{J.value("f");J.value(F->getName());}); return; }
    if (auto *A=dyn_cast<GlobalAlias>(V)) { operand(A->getAliasee()); return; }
    if (auto *G=dyn_cast<GlobalVariable>(V)) { globals.insert(G); J.array([&]{J.value("g");J.value(G->getName());J.value(0);}); return; }
    if (isa<Constant>(V)) {
      if (isa<ConstantAggregateZero>(V)) { J.array([&]{J.value("z");J.value(tystr(V->getType()));}); return; }
      APInt off(64,0);
      const Value *B=V->stripAndAccumulateConstantOffsets(DL,off,true);
      if (auto *G=dyn_cast<GlobalVariable>(B)) { globals.insert(G); J.array([&]{J.value("g");J.value(G->getName());J.value(off.getSExtValue());}); return; }
      if (isa<Function>(B)) { operand(B); return; }
      if (isa<ConstantPointerNull>(B)) { J.array([&]{J.value("c");J.value(64);J.value(std::to_string(off.getSExtValue()));}); return; }
      if (auto *S=dyn_cast<ConstantStruct>(V)) { J.array([&]{J.value("s"); for(auto&o:S->operands()) operand(o);}); return; }
    }
    std::string s; raw_string_ostream o(s); V->printAsOperand(o,true); J.array([&]{J.value("x");J.value(o.str());});
  }
  void loc(const Instruction &I){
    auto D=I.getDebugLoc(); if(!D) return;
    J.attributeArray("loc",[&]{
      for (DILocation *L=D.get(); L; L=L->getInlinedAt()) {
        std::string fn; if (auto *sp=L->getScope()->getSubprogram()) fn=sp->getName().str();
        J.array([&]{J.value(L->getFilename());J.value((int64_t)L->getLine());J.value(fn);});
      }});
  }
  void inst(Instruction &I){
    J.object([&]{
      J.attribute("id",ids[&I]); J.attribute("op",I.getOpcodeName());
      J.attribute("ty",tystr(I.getType()));
      if (I.getType()->isSized()) J.attribute("sz",(int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue());
      if (auto *C=dyn_cast<CmpInst>(&I)) J.attribute("pred",CmpInst::getPredicateName(C->getPredicate()));
      if (auto *G=dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*,APInt> var; APInt c(64,0);
        bool ok=G->collectOffset(DL,64,var,c);
        J.attribute("ok",ok); J.attribute("inbounds",G->isInBounds()); J.attribute("coff",c.getSExtValue());
        J.attributeBegin("base"); operand(G->getPointerOperand()); J.attributeEnd();
        J.attributeArray("vars",[&]{ for(auto &p:var) J.array([&]{operand(p.first);J.value(p.second.getSExtValue());}); });
        J.attribute("srcty",tystr(G->getSourceElementType()));
      } else if (auto *P=dyn_cast<PHINode>(&I)) {
        J.attributeArray("in",[&]{ for(unsigned k=0;k<P->getNumIncomingValues();k++) J.array([&]{J.value(ids[P->getIncomingBlock(k)]);operand(P->getIncomingValue(k));}); });
      } else if (auto *C=dyn_cast<CallBase>(&I)) {
        J.attributeBegin("fn"); operand(C->getCalledOperand()); J.attributeEnd();
        J.attributeArray("args",[&]{ for(auto &a:C->args()) operand(a); });
        if (auto *F=C->getCalledFunction()) if (F->isIntrinsic()) J.attribute("intr",true);
        if (C->doesNotThrow()) J.attribute("nounwind",true);
        if (C->paramHasAttr(0,Attribute::StructRet)) J.attribute("sret",true);
        if (auto *V=dyn_cast<InvokeInst>(C)) { J.attribute("normal",ids[V->getNormalDest()]); J.attribute("unwind",ids[V->getUnwindDest()]); }
      } else if (auto *S=dyn_cast<SwitchInst>(&I)) {
        J.attributeBegin("cond"); operand(S->getCondition()); J.attributeEnd();
        J.attribute("default",ids[S->getDefaultDest()]);
        J.attributeArray("cases",[&]{ for(auto &c:S->cases()) J.array([&]{operand(c.getCaseValue());J.value(ids[c.getCaseSuccessor()]);}); });
      } else if (auto *B=dyn_cast<BranchInst>(&I)) {
        if (B->isConditional()) { J.attributeBegin("cond"); operand(B->getCondition()); J.attributeEnd(); }
        J.attributeArray("succ",[&]{ for(unsigned k=0;k<B->getNumSuccessors();k++) J.value(ids[B->getSuccessor(k)]); });
      } else if (auto *A=dyn_cast<AllocaInst>(&I)) {
        J.attribute("size",(int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue());
        J.attribute("aty",tystr(A->getAllocatedType()));
        J.attributeBegin("n"); operand(A->getArraySize()); J.attributeEnd();
      } else {
        J.attributeArray("args",[&]{ for(auto &o:I.operands()) operand(o); });
        if (auto *E=dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx",[&]{for(auto k:E->indices())J.value((int64_t)k);});
        if (auto *E=dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx",[&]{for(auto k:E->indices())J.value((int64_t)k);});
        if (isa<StoreInst>(&I)) { auto*V=I.getOperand(0); J.attribute("vty",tystr(V->getType())); J.attribute("vsz",(int64_t)DL.getTypeStoreSize(V->getType()).getFixedValue()); }
        if (isa<CastInst>(&I)) J.attribute("fty",tystr(I.getOperand(0)->getType()));
        if (auto *L=dyn_cast<LandingPadInst>(&I)) { J.attribute("cleanup",L->isCleanup()); J.attribute("clauses",(int64_t)L->getNumClauses()); }
      }
      if (auto *O=dyn_cast<OverflowingBinaryOperator>(&I)) { if(O->hasNoUnsignedWrap()) J.attribute("nuw",true); if(O->hasNoSignedWrap()) J.attribute("nsw",true); }
      loc(I);
    });
  }
  void loop(Loop *L){
    J.object([&]{
      J.attribute("header",ids[L->getHeader()]);
      J.attribute("latch",L->getLoopLatch()?ids[L->getLoopLatch()]:-1);
      J.attribute("depth",(int64_t)L->getLoopDepth());
      J.attributeArray("blocks",[&]{for(auto*b:L->blocks())J.value(ids[b]);});
      J.attributeArray("sub",[&]{for(auto*s:L->getSubLoops())loop(s);});
    });
  }
  void func(Function &F, LoopInfo &LI){
    ids.clear(); int n=0;
    for (auto &B:F) ids[&B]=n++;
    for (auto &B:F) for (auto &I:B) ids[&I]=n++;
    J.object([&]{
      J.attribute("name",F.getName());
      J.attribute("ret",tystr(F.getReturnType()));
      J.attributeArray("params",[&]{ for(auto &a:F.args()) J.object([&]{J.attribute("name",a.getName());J.attribute("ty",tystr(a.getType())); if(a.hasStructRetAttr()) J.attribute("sret",(int64_t)DL.getTypeAllocSize(a.getParamStructRetType()).getFixedValue()); if(a.hasByValAttr()) J.attribute("byval",true);}); });
      if (auto *sp=F.getSubprogram()) J.attributeArray("decl",[&]{J.value(sp->getFilename());J.value((int64_t)sp->getLine());J.value(sp->getName());});
      J.attributeArray("blocks",[&]{
        for (auto &B:F) J.object([&]{ J.attribute("id",ids[&B]);
          J.attributeArray("ins",[&]{ for(auto &I:B){ if(isa<DbgInfoIntrinsic>(&I)) continue; inst(I);} }); });
      });
      J.attributeArray("loops",[&]{ for(auto *L:LI) loop(L); });
    });
  }
  void init(const Constant *C, uint64_t off){
    // flatten initialisers to [offset,size,operand]
    if (auto *S=dyn_cast<ConstantStruct>(C)) { auto *SL=DL.getStructLayout(S->getType()); for(unsigned i=0;i<S->getNumOperands();i++) init(S->getOperand(i),off+SL->getElementOffset(i)); return; }
    if (auto *A=dyn_cast<ConstantArray>(C)) { auto es=DL.getTypeAllocSize(A->getType()->getElementType()); for(unsigned i=0;i<A->getNumOperands();i++) init(A->getOperand(i),off+i*es); return; }
    if (auto *D=dyn_cast<ConstantDataSequential>(C)) { auto es=D->getElementByteSize(); for(unsigned i=0;i<D->getNumElements();i++) init(D->getElementAsConstant(i),off+i*es); return; }
    if (isa<ConstantAggregateZero>(C)) { J.array([&]{J.value((int64_t)off);J.value((int64_t)DL.getTypeAllocSize(C->getType()).getFixedValue());J.array([&]{J.value("zero");});}); return; }
    J.array([&]{J.value((int64_t)off);J.value((int64_t)DL.getTypeStoreSize(C->getType()).getFixedValue());operand(C);});
  }
};

int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E;
  auto M=parseIRFile(argv[1],E,C); if(!M){E.print(argv[0],errs());return 2;}
  std::string prefix=argc>2?argv[2]:"h_";
  bool doinline = !(argc>3 && std::string(argv[3])=="noinline");
  // recursive functions stay calls
  std::set<Function*> rec;
  { CallGraph CG(*M);
    for (auto it=scc_begin(&CG); !it.isAtEnd(); ++it) if (it.hasCycle()) for (auto *n:*it) if (n->getFunction()) rec.insert(n->getFunction()); }
  for (auto &F:*M) {
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline);
    bool entry=F.getName().starts_with(prefix);
    if (entry||rec.count(&F)||!doinline) { if(entry) F.setLinkage(GlobalValue::ExternalLinkage); }
    else { F.addFnAttr(Attribute::AlwaysInline); }
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);PB.registerCGSCCAnalyses(CAM);PB.registerFunctionAnalyses(FAM);PB.registerLoopAnalyses(LAM);PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  // calls that are not marked inlinable because of mismatched attributes are inlined too
  ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass(false));
  MPM.run(*M,MAM);
  for (auto &F:*M) {
    if (F.isDeclaration()) continue;
    removeUnreachableBlocks(F);
    for (auto it=F.begin(); it!=F.end();) { BasicBlock *B=&*it++; MergeBlockIntoPredecessor(B); }
    FAM.invalidate(F,PreservedAnalyses::none());
    FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.run(F,FAM);
    FAM.invalidate(F,PreservedAnalyses::none());
    FunctionPassManager FPM2; FPM2.addPass(LoopSimplifyPass());
    FPM2.run(F,FAM);
    FAM.invalidate(F,PreservedAnalyses::none());
  }
  Dump D(*M,outs());
  D.J.object([&]{
    D.J.attributeArray("functions",[&]{
      for (auto &F:*M) { if(F.isDeclaration()) continue;
        DominatorTree DT(F); LoopInfo LI(DT); D.func(F,LI); }
    });
    D.J.attributeArray("declares",[&]{ for(auto &F:*M) if(F.isDeclaration()&&!F.isIntrinsic()) D.J.value(F.getName()); });
    D.J.attributeArray("globals",[&]{
      for (auto &G:M->globals()) D.J.object([&]{
        D.J.attribute("name",G.getName()); D.J.attribute("const",G.isConstant());
        D.J.attribute("size",(int64_t)(G.getValueType()->isSized()?D.DL.getTypeAllocSize(G.getValueType()).getFixedValue():0));
        if (G.hasInitializer()) { D.J.attribute("init",true); D.J.attributeArray("cells",[&]{ D.init(G.getInitializer(),0); }); }
      });
    });
    D.J.attributeArray("types",[&]{
      DebugInfoFinder F; F.processModule(*M);
      for (auto *T:F.types()) if (auto *CT=dyn_cast<DICompositeType>(T)) {
        if (CT->getTag()!=dwarf::DW_TAG_class_type&&CT->getTag()!=dwarf::DW_TAG_structure_type) continue;
        if (CT->isForwardDecl()) continue;
        D.J.object([&]{
          D.J.attribute("name",CT->getName()); D.J.attribute("id",CT->getIdentifier()); D.J.attribute("size",(int64_t)CT->getSizeInBits()/8);
          D.J.attributeArray("members",[&]{
            for (auto *e:CT->getElements()) if (auto *m=dyn_cast_or_null<DIDerivedType>(e)) {
              if (m->isStaticMember()) continue;
              if (m->getTag()!=dwarf::DW_TAG_member && m->getTag()!=dwarf::DW_TAG_inheritance) continue;
              D.J.object([&]{ D.J.attribute("name",m->getTag()==dwarf::DW_TAG_inheritance?StringRef("<base>"):m->getName()); D.J.attribute("off",(int64_t)m->getOffsetInBits()/8);
                auto *bt=m->getBaseType(); uint64_t sz=m->getSizeInBits(); if(!sz&&bt) sz=bt->getSizeInBits();
                D.J.attribute("size",(int64_t)sz/8);
                while (bt) { if (auto *d=dyn_cast<DIDerivedType>(bt)) { if (d->getTag()==dwarf::DW_TAG_typedef||d->getTag()==dwarf::DW_TAG_const_type) { bt=d->getBaseType(); continue; } } break; }
                if (bt) { D.J.attribute("tname",bt->getName()); if (auto *c=dyn_cast<DICompositeType>(bt)) D.J.attribute("tid",c->getIdentifier()); if (auto*d=dyn_cast<DIDerivedType>(bt)) D.J.attribute("ptr",d->getTag()==dwarf::DW_TAG_pointer_type); }
              });
            }});
        });
      }
    });
  });
  outs()<<"\n";
  return 0;
}
