// astdump: the type-checked program of one translation unit -> JSON facts about
// every function, variable and class of the headers below a prefix (the cest
// headers and the harness).  Calls are taken from the control flow graph of each body under the
// assumption that std::is_constant_evaluated() is true ("ce") or false ("rt").
// It judges nothing.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/QualTypeNames.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/Builtins.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <optional>
using namespace clang;
using llvm::json::Object; using llvm::json::Array; using llvm::json::Value;

static std::vector<std::string> Prefixes;

struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; Object Out;
  Array Fns, Vars, Recs, Pats;
  std::set<const Decl*> done;
  PrintingPolicy PP;
  V(ASTContext &c):C(c),SM(c.getSourceManager()),PP(c.getPrintingPolicy()){ PP.SuppressInlineNamespace=true; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string file(SourceLocation L){ auto P=SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid()?P.getFilename():""; }
  int line(SourceLocation L){ auto P=SM.getPresumedLoc(SM.getExpansionLoc(L)); return P.isValid()?P.getLine():0; }
  bool ours(const std::string &f){ for(auto&p:Prefixes) if (f.find(p)!=std::string::npos) return true; return false; }
  std::string qn(const NamedDecl *D){ std::string s; llvm::raw_string_ostream o(s); D->getNameForDiagnostic(o,PP,true); return o.str(); }
  std::string ty(QualType T){ return T.getCanonicalType().getAsString(PP); }

  // value of a condition during constant evaluation (ce) or at run time
  std::optional<bool> eval(const Expr *E, bool ce, int depth=0){
    if (!E || depth>8) return {};
    E=E->IgnoreParenImpCasts();
    if (auto *X=dyn_cast<ExprWithCleanups>(E)) return eval(X->getSubExpr(),ce,depth);
    if (auto *X=dyn_cast<ConstantExpr>(E)) return eval(X->getSubExpr(),ce,depth);
    if (auto *X=dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return eval(X->getReplacement(),ce,depth);
    if (auto *X=dyn_cast<CXXBoolLiteralExpr>(E)) return X->getValue();
    if (auto *X=dyn_cast<IntegerLiteral>(E)) return X->getValue()!=0;
    if (auto *X=dyn_cast<ExplicitCastExpr>(E)) return eval(X->getSubExpr(),ce,depth);
    if (auto *X=dyn_cast<CXXConstructExpr>(E)) { if (X->getNumArgs()==1) return eval(X->getArg(0),ce,depth); return {}; }
    if (auto *X=dyn_cast<InitListExpr>(E)) { if (X->getNumInits()==1) return eval(X->getInit(0),ce,depth); return {}; }
    if (auto *U=dyn_cast<UnaryOperator>(E)) { if (U->getOpcode()==UO_LNot) { auto r=eval(U->getSubExpr(),ce,depth+1); if (r) return !*r; } return {}; }
    if (auto *B=dyn_cast<BinaryOperator>(E)) {
      auto l=eval(B->getLHS(),ce,depth+1), r=eval(B->getRHS(),ce,depth+1);
      switch (B->getOpcode()) {
        case BO_LAnd: if ((l&&!*l)||(r&&!*r)) return false; if (l&&r) return true; return {};
        case BO_LOr: if ((l&&*l)||(r&&*r)) return true; if (l&&r) return false; return {};
        case BO_EQ: if (l&&r) return *l==*r; return {};
        case BO_NE: if (l&&r) return *l!=*r; return {};
        default: return {};
      }
    }
    if (auto *D=dyn_cast<DeclRefExpr>(E)) {
      if (auto *VD=dyn_cast<VarDecl>(D->getDecl())) if (VD->isLocalVarDecl() && VD->getInit() && !isa<ParmVarDecl>(VD) && VD->getType()->isBooleanType()) return eval(VD->getInit(),ce,depth+1);
      return {};
    }
    if (auto *K=dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F=K->getDirectCallee(); if (!F) return {};
      if (F->getBuiltinID()==Builtin::BI__builtin_is_constant_evaluated) return ce;
      if (F->getIdentifier() && F->getName()=="is_constant_evaluated" && F->isInStdNamespace()) return ce;
      const FunctionDecl *Def=nullptr;
      if (F->hasBody(Def)) if (auto *CS=dyn_cast<CompoundStmt>(Def->getBody())) if (CS->size()==1) if (auto *R=dyn_cast<ReturnStmt>(*CS->body_begin())) return eval(R->getRetValue(),ce,depth+1);
    }
    return {};
  }

  Object callee(const FunctionDecl *F, SourceLocation L, const char *kind){
    Object o; o["kind"]=kind; o["name"]=qn(F); o["file"]=file(F->getLocation()); o["dline"]=line(F->getLocation());
    o["at"]=line(L); o["atfile"]=file(L);
    const FunctionDecl *D=F->getCanonicalDecl();
    bool cx=F->isConstexpr(); for (auto *R:F->redecls()) cx|=R->isConstexpr();
    if (unsigned id=F->getBuiltinID()) { if (F->getName().starts_with("__builtin")) cx|=C.BuiltinInfo.isConstantEvaluated(id); o["builtin"]=true; }
    if (F->isTrivial()) cx=true;
    o["constexpr"]=cx;
    o["id"]=(int64_t)D->getID();
    o["implicit"]=F->isImplicit()||F->isDefaulted();
    o["noreturn"]=F->isNoReturn(); o["throwing"]=thr;
    if (auto *M=dyn_cast<CXXMethodDecl>(F)) { o["virtual"]=M->isVirtual(); o["cls"]=ty(C.getRecordType(M->getParent())); o["pure"]=M->isPureVirtual(); }
    if (F->isReservedGlobalPlacementOperator()) o["placement"]=true;
    if (F->isReplaceableGlobalAllocationFunction()) o["global"]=true;
    return o;
  }
  struct Sub : RecursiveASTVisitor<Sub> {
    V &P; Array &calls, &bad; Sub(V&p,Array&c,Array&b):P(p),calls(c),bad(b){}
  };
  void badc(Array &bad, const std::string &w, SourceLocation L){ bad.push_back(Object{{"what",w},{"at",line(L)},{"file",file(L)}}); }

  std::set<const Stmt*> inthrow; bool thr=false;
  void mark(const Stmt *S, bool in){ if (!S) return; if (in) inthrow.insert(S); bool t=in||isa<CXXThrowExpr>(S); if (isa<LambdaExpr>(S)) return; for (auto *X:S->children()) mark(X,t); }
  void stmt(const Stmt *S, Array &calls, Array &bad){
    thr=inthrow.count(S);
    if (auto *E=dyn_cast<CallExpr>(S)) {
      if (auto *F=E->getDirectCallee()) {
        Object o=callee(F,E->getBeginLoc(),"call");
        if (auto *M=dyn_cast<CXXMemberCallExpr>(E)) if (auto *ME=dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) o["qualified"]=ME->hasQualifier();
        calls.push_back(std::move(o));
      } else if (!isa<CXXPseudoDestructorExpr>(E->getCallee()->IgnoreParens())) calls.push_back(Object{{"kind","indirect"},{"at",line(E->getBeginLoc())},{"atfile",file(E->getBeginLoc())}});
    } else if (auto *E=dyn_cast<CXXConstructExpr>(S)) {
      calls.push_back(callee(E->getConstructor(),E->getBeginLoc(),"construct"));
    } else if (auto *E=dyn_cast<CXXNewExpr>(S)) {
      if (E->getNumPlacementArgs()) { std::string w="placement new"; badc(bad,w,E->getBeginLoc()); }
      else if (E->getOperatorNew() && !E->getOperatorNew()->isReplaceableGlobalAllocationFunction()) calls.push_back(callee(E->getOperatorNew(),E->getBeginLoc(),"new"));
      else calls.push_back(Object{{"kind","newexpr"},{"at",line(E->getBeginLoc())},{"atfile",file(E->getBeginLoc())}});
    } else if (auto *E=dyn_cast<CXXDeleteExpr>(S)) {
      if (E->getOperatorDelete() && !E->getOperatorDelete()->isReplaceableGlobalAllocationFunction()) calls.push_back(callee(E->getOperatorDelete(),E->getBeginLoc(),"delete"));
      else calls.push_back(Object{{"kind","deleteexpr"},{"at",line(E->getBeginLoc())},{"atfile",file(E->getBeginLoc())}});
      if (auto *RD=E->getDestroyedType()->getAsCXXRecordDecl()) if (RD->hasDefinition()) if (auto *D=RD->getDestructor()) calls.push_back(callee(D,E->getBeginLoc(),"destroy"));
    } else if (auto *E=dyn_cast<CXXReinterpretCastExpr>(S)) {
      badc(bad,"reinterpret_cast",E->getBeginLoc());
    } else if (auto *E=dyn_cast<CStyleCastExpr>(S)) {
      if (E->getCastKind()==CK_BitCast && !E->getSubExpr()->getType()->isNullPtrType() && !E->getType()->isVoidPointerType()) badc(bad,"a cast between unrelated pointer types",E->getBeginLoc());
      if (E->getCastKind()==CK_PointerToIntegral||E->getCastKind()==CK_IntegralToPointer||E->getCastKind()==CK_LValueBitCast) badc(bad,"a cast between pointers and integers",E->getBeginLoc());
    } else if (auto *E=dyn_cast<CXXStaticCastExpr>(S)) {
      if (E->getCastKind()==CK_BitCast && E->getSubExpr()->getType()->isVoidPointerType()) badc(bad,"a cast from void*",E->getBeginLoc());
    } else if (isa<GotoStmt>(S)||isa<LabelStmt>(S)) badc(bad,"goto",S->getBeginLoc());
    else if (isa<AsmStmt>(S)) badc(bad,"asm",S->getBeginLoc());
    else if (auto *DS=dyn_cast<DeclStmt>(S)) {
      for (auto *D:DS->decls()) if (auto *VD=dyn_cast<VarDecl>(D)) if (VD->isStaticLocal() && !VD->isConstexpr()) badc(bad,"a static local variable",VD->getLocation());
    } else if (auto *IC=dyn_cast<ImplicitCastExpr>(S)) {
      if (IC->getCastKind()==CK_LValueToRValue) if (auto *D=dyn_cast<DeclRefExpr>(IC->getSubExpr()->IgnoreParens())) if (auto *VD=dyn_cast<VarDecl>(D->getDecl()))
        if (VD->hasGlobalStorage() && !VD->isConstexpr() && !(VD->getType().isConstQualified() && VD->getType()->isIntegralOrEnumerationType()) && !VD->isStaticLocal()) badc(bad,"a read of the variable "+qn(VD),D->getBeginLoc());
    }
  }

  void scan(const FunctionDecl *F, bool ce, Array &calls, Array &bad){
    CFG::BuildOptions BO; BO.AddImplicitDtors=true; BO.AddTemporaryDtors=true; BO.AddInitializers=true; BO.AddCXXDefaultInitExprInCtors=true; BO.PruneTriviallyFalseEdges=false; BO.setAllAlwaysAdd();
    std::unique_ptr<CFG> G=CFG::buildCFG(F,F->getBody(),&C,BO);
    inthrow.clear(); mark(F->getBody(),false); thr=false;
    if (!G) { badc(bad,"NOCFG",F->getLocation()); return; }
    std::set<const CFGBlock*> seen; std::vector<const CFGBlock*> work{&G->getEntry()};
    std::set<const Stmt*> st;
    while(!work.empty()){
      auto *B=work.back(); work.pop_back(); if (!B||!seen.insert(B).second) continue;
      for (auto &El:*B) {
        if (auto S=El.getAs<CFGStmt>()) { if (st.insert(S->getStmt()).second) stmt(S->getStmt(),calls,bad); }
        else if (auto I=El.getAs<CFGInitializer>()) { }
        else if (auto D=El.getAs<CFGImplicitDtor>()) { if (auto *DD=D->getDestructorDecl(C)) { SourceLocation L=F->getLocation(); if (auto A=El.getAs<CFGAutomaticObjDtor>()) L=A->getVarDecl()->getLocation(); calls.push_back(callee(DD,L,"destroy")); } }
      }
      std::optional<bool> v;
      if (B->succ_size()==2 && B->getTerminatorCondition()) if (auto *E=dyn_cast<Expr>(B->getTerminatorCondition())) {
        bool cond=false; if (auto *T=B->getTerminatorStmt()) cond=isa<IfStmt>(T)||isa<ConditionalOperator>(T)||isa<BinaryOperator>(T)||isa<WhileStmt>(T)||isa<ForStmt>(T)||isa<DoStmt>(T);
        if (cond) v=eval(E,ce);
      }
      if (auto *T=dyn_cast_or_null<IfStmt>(B->getTerminatorStmt())) if (T->isConsteval() && B->succ_size()==2) v = T->isNonNegatedConsteval()?ce:!ce;
      unsigned k=0;
      for (auto it=B->succ_begin();it!=B->succ_end();++it,++k) {
        if (v && ((k==0)!=*v)) continue;
        const CFGBlock *N=it->getReachableBlock(); if (!N) N=it->getPossiblyUnreachableBlock();
        work.push_back(N);
      }
    }
  }

  bool VisitFunctionDecl(FunctionDecl *F){
    std::string f=file(F->getLocation());
    if (!ours(f)) return true;
    if (!done.insert(F).second) return true;
    if (F->isDependentContext()||F->isTemplated()) {
      Object o; o["name"]=qn(F); o["base"]=F->getNameAsString(); o["file"]=f; o["line"]=line(F->getLocation());
      bool cx=F->isConstexpr(); for (auto *R:F->redecls()) cx|=R->isConstexpr();
      o["constexpr"]=cx; o["deleted"]=F->isDeleted(); o["defaulted"]=F->isDefaulted(); o["implicit"]=F->isImplicit(); o["access"]=(int)F->getAccess(); o["inline"]=F->isInlined();
      o["guide"]=isa<CXXDeductionGuideDecl>(F); o["defined"]=(bool)F->getDefinition(); o["member"]=isa<CXXMethodDecl>(F); o["const"]=isa<CXXMethodDecl>(F)&&cast<CXXMethodDecl>(F)->isConst();
      bool lam=false; if (auto *M=dyn_cast<CXXMethodDecl>(F)) lam=M->getParent()->isLambda(); o["lambda"]=lam;
      Pats.push_back(std::move(o)); return true;
    }
    Object o; o["id"]=(int64_t)F->getCanonicalDecl()->getID(); o["name"]=qn(F); o["base"]=F->getNameAsString(); o["file"]=f; o["line"]=line(F->getLocation());
    bool cx=F->isConstexpr(); for (auto *R:F->redecls()) cx|=R->isConstexpr();
    o["constexpr"]=cx; o["inline"]=F->isInlined(); o["external"]=F->hasExternalFormalLinkage()&&F->getFormalLinkage()!=Linkage::UniqueExternal;
    o["internal"]=F->getFormalLinkage()==Linkage::Internal;
    o["inst"]=F->isTemplateInstantiation(); o["tsk"]=(int)F->getTemplateSpecializationKind();
    o["implicit"]=F->isImplicit(); o["defaulted"]=F->isDefaulted(); o["deleted"]=F->isDeleted(); o["trivial"]=F->isTrivial();
    o["defined"]=F->isThisDeclarationADefinition(); o["access"]=(int)F->getAccess();
    o["ret"]=ty(F->getReturnType());
    o["global"]=F->getDeclContext()->getRedeclContext()->isFileContext();
    o["friend"]=(bool)F->getFriendObjectKind();
    Array ps; for (auto *P:F->parameters()) ps.push_back(ty(P->getType())); o["params"]=std::move(ps);
    if (auto *M=dyn_cast<CXXMethodDecl>(F)) { o["cls"]=ty(C.getRecordType(M->getParent())); o["const"]=M->isConst(); o["static"]=M->isStatic(); o["virtual"]=M->isVirtual(); o["lambda"]=M->getParent()->isLambda(); o["union"]=M->getParent()->isUnion();
      o["clsname"]=M->getParent()->getNameAsString(); o["pure"]=M->isPureVirtual(); o["bases"]=(bool)M->getParent()->getNumVBases();
      Array ov; for (auto *X:M->overridden_methods()) ov.push_back((int64_t)X->getCanonicalDecl()->getID()); o["overrides"]=std::move(ov);
    }
    o["guide"]=isa<CXXDeductionGuideDecl>(F); o["noreturn"]=F->isNoReturn();
    o["dtor"]=isa<CXXDestructorDecl>(F); o["ctor"]=isa<CXXConstructorDecl>(F);
    if (F->doesThisDeclarationHaveABody() && F->getBody()) {
      Array c1,b1,c2,b2; scan(F,true,c1,b1); scan(F,false,c2,b2);
      if (isa<CXXConstructorDecl>(F)) {
        for (auto *I:cast<CXXConstructorDecl>(F)->inits()) (void)I;
      }
      if (auto *D=dyn_cast<CXXDestructorDecl>(F)) (void)D;
      o["ce"]=Object{{"calls",std::move(c1)},{"bad",std::move(b1)}};
      o["rt"]=Object{{"calls",std::move(c2)},{"bad",std::move(b2)}};
    }
    Fns.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *D){
    if (D->isTemplated()||D->getDeclContext()->isDependentContext()) return true;
    if (!D->hasGlobalStorage()) return true;
    std::string f=file(D->getLocation()); if (!ours(f)) return true;
    Object o; o["name"]=qn(D); o["file"]=f; o["line"]=line(D->getLocation()); o["inline"]=D->isInline(); o["constexpr"]=D->isConstexpr();
    o["const"]=D->getType().isConstQualified(); o["type"]=ty(D->getType()); o["external"]=D->hasExternalFormalLinkage();
    o["member"]=D->isStaticDataMember(); o["local"]=D->isStaticLocal(); o["def"]=D->isThisDeclarationADefinition()==VarDecl::Definition;
    o["tsk"]=(int)D->getTemplateSpecializationKind();
    bool ci=true; if (D->getInit() && !D->getInit()->isValueDependent()) ci=D->hasConstantInitialization(); o["constinit"]=ci;
    o["scope"]=D->getDeclContext()->getRedeclContext()->isFileContext();
    Vars.push_back(std::move(o)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R){
    if (!R->isThisDeclarationADefinition()||R->isDependentContext()) return true;
    std::string f=file(R->getLocation()); if (!ours(f)) return true;
    Object o; o["name"]=ty(C.getRecordType(R)); o["file"]=f; o["line"]=line(R->getLocation()); o["base"]=R->getNameAsString();
    o["literal"]=R->isLiteral(); o["cxdtor"]=R->hasConstexprDestructor(); o["vbases"]=(int64_t)R->getNumVBases(); o["lambda"]=R->isLambda(); o["agg"]=R->isAggregate();
    Array fs; for (auto *X:R->fields()) fs.push_back(Object{{"name",X->getNameAsString()},{"type",ty(X->getType())},{"mutable",X->isMutable()},{"line",line(X->getLocation())},{"access",(int)X->getAccess()}}); o["fields"]=std::move(fs);
    Recs.push_back(std::move(o)); return true;
  }
  // const_cast and C-style casts that drop const
  Array Casts;
  bool VisitExplicitCastExpr(ExplicitCastExpr *E){
    std::string f=file(E->getBeginLoc()); if (!ours(f)) return true;
    QualType from=E->getSubExpr()->getType(), to=E->getType();
    if (from->isDependentType()||to->isDependentType()) return true;
    auto pointee=[&](QualType t){ return t->isPointerType()?t->getPointeeType():t.getNonReferenceType(); };
    bool ref=E->getTypeAsWritten()->isReferenceType()||to->isPointerType();
    if (ref && pointee(from).isConstQualified() && !pointee(to).isConstQualified())
      Casts.push_back(Object{{"file",f},{"line",line(E->getBeginLoc())},{"from",ty(from)},{"to",ty(E->getTypeAsWritten())}});
    return true;
  }
};

struct Con : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override {
  V v(C); v.TraverseDecl(C.getTranslationUnitDecl());
  Object o; o["functions"]=std::move(v.Fns); o["patterns"]=std::move(v.Pats); o["vars"]=std::move(v.Vars); o["records"]=std::move(v.Recs); o["casts"]=std::move(v.Casts);
  o["errors"]=(int64_t)C.getDiagnostics().hasErrorOccurred();
  llvm::outs()<<Value(std::move(o))<<"\n"; } };
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef) override { return std::make_unique<Con>(); } };

// astdump <prefix,prefix> <source> -- flags
int main(int argc,const char**argv){
  std::string p=argv[1]; size_t i=0; while(i<=p.size()){ size_t j=p.find(',',i); if(j==std::string::npos) j=p.size(); Prefixes.push_back(p.substr(i,j-i)); i=j+1; }
  std::vector<std::string> args; for(int k=4;k<argc;++k) args.push_back(argv[k]);
  tooling::FixedCompilationDatabase DB(".",args);
  tooling::ClangTool T(DB,{argv[2]});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
