// t8x: libTooling extractor. Parses translation units with clang and writes, per TU, a JSON
// description of the resolved program: types, records, evaluated constant tables, functions with
// their (typed, callee-resolved) syntax trees and control-flow graphs.
// Nothing is decided here; the analyses in /verif/t8sa do that.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/PPCallbacks.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/MemoryBuffer.h"
#include <set>
#include <map>
#include <unordered_map>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/";
static std::vector<std::string> Roots;
static std::set<std::string> SeenHdr;  // functions from headers already emitted by this process
static bool AnyError = false;

struct Emitter {
  ASTContext &C;
  const SourceManager &SM;
  const LangOptions &LO;
  json::OStream &J;
  ASTNameGenerator NG;
  std::string MainFile;
  std::unordered_map<void *, int> TypeIdx;
  std::vector<QualType> Types;
  std::map<std::string, int> FileIdx;
  std::vector<std::string> Files;
  std::unordered_map<const Decl *, int> DeclIdx;
  int NextStmt = 0;
  std::unordered_map<const Stmt *, int> StmtIdx;
  PrintingPolicy PP;
  std::set<const RecordDecl *> Recs;
  std::vector<const RecordDecl *> RecOrder;
  std::map<const EnumDecl *, bool> Enums;

  Emitter(ASTContext &C, json::OStream &J)
    : C(C), SM(C.getSourceManager()), LO(C.getLangOpts()), J(J), NG(C), PP(C.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    if (auto FE = SM.getFileEntryRefForID(SM.getMainFileID()))
      MainFile = std::string(FE->getName());
  }

  std::string fileOf(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
    return FE ? std::string(FE->getName()) : std::string();
  }
  bool inRepo(SourceLocation L)
  {
    std::string f = fileOf(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  int fileIdx(const std::string &f)
  {
    auto it = FileIdx.find(f);
    if (it != FileIdx.end()) return it->second;
    int i = Files.size();
    FileIdx[f] = i;
    Files.push_back(f);
    return i;
  }
  int typeIdx(QualType T)
  {
    if (T.isNull()) return -1;
    void *k = T.getAsOpaquePtr();
    auto it = TypeIdx.find(k);
    if (it != TypeIdx.end()) return it->second;
    int i = Types.size();
    TypeIdx[k] = i;
    Types.push_back(T);
    return i;
  }
  int declIdx(const Decl *D)
  {
    D = D->getCanonicalDecl();
    auto it = DeclIdx.find(D);
    if (it != DeclIdx.end()) return it->second;
    int i = DeclIdx.size() + 1;
    DeclIdx[D] = i;
    return i;
  }
  std::string keyOf(const NamedDecl *D)
  {
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      if (FD->isDependentContext() || FD->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) {
        return FD->getQualifiedNameAsString() + "#" + std::to_string(FD->getNumParams()) + "@tmpl";
      }
      std::string n;
      if (C.getLangOpts().CPlusPlus)
        n = NG.getName(FD);
      if (n.empty()) n = FD->getQualifiedNameAsString();
      if (!FD->isExternallyVisible()) n += "@" + MainFile;
      return n;
    }
    if (auto *VD = dyn_cast<VarDecl>(D)) {
      std::string n = VD->getQualifiedNameAsString();
      if (!VD->isExternallyVisible()) n += "@" + MainFile;
      return n;
    }
    return D->getQualifiedNameAsString();
  }
  void loc(SourceLocation L)
  {
    SourceLocation E = SM.getExpansionLoc(L);
    J.attribute("l", (int64_t) SM.getExpansionLineNumber(E));
  }
  std::vector<std::string> macros(SourceLocation L)
  {
    std::vector<std::string> r;
    int guard = 0;
    while (L.isMacroID() && guard++ < 12) {
      StringRef n = Lexer::getImmediateMacroName(L, SM, LO);
      if (!n.empty() && (r.empty() || r.back() != n)) r.push_back(n.str());
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return r;
  }
  const Stmt *strip(const Stmt *S)
  {
    for (;;) {
      if (!S) return S;
      if (auto *E = dyn_cast<ParenExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ExprWithCleanups>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<ConstantExpr>(S)) { S = E->getSubExpr(); continue; }
      if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { S = E->getReplacement(); continue; }
      if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { S = E->getExpr(); continue; }
      if (auto *E = dyn_cast<AttributedStmt>(S)) { S = E->getSubStmt(); continue; }
      if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
        auto k = E->getCastKind();
        if (k == CK_NoOp || k == CK_FunctionToPointerDecay || k == CK_ArrayToPointerDecay || k == CK_BuiltinFnToFnPtr) {
          S = E->getSubExpr();
          continue;
        }
      }
      return S;
    }
  }
  void varDecl(const VarDecl *VD)
  {
    J.attribute("id", declIdx(VD));
    J.attribute("n", VD->getNameAsString());
    J.attribute("t", typeIdx(VD->getType()));
    if (VD->isStaticLocal()) J.attribute("static", true);
    if (isa<ParmVarDecl>(VD)) J.attribute("parm", true);
    if (isa<ParmVarDecl>(VD) && VD->hasAttr<UnusedAttr>()) J.attribute("unused", true);
  }
  std::map<std::string, std::vector<std::string>> ExtNames; // parameter names of external functions that are called
  void noteExt(const FunctionDecl *FD)
  {
    if (!FD->isExternC() || inRepo(FD->getLocation())) return;
    std::vector<std::string> v;
    for (auto *P : FD->parameters()) v.push_back(P->getNameAsString());
    ExtNames[keyOf(FD)] = v;
  }
  void declRef(const ValueDecl *D)
  {
    J.attribute("n", D->getNameAsString());
    if (auto *FD = dyn_cast<FunctionDecl>(D)) {
      J.attribute("dk", "fn");
      J.attribute("key", keyOf(FD));
      J.attribute("qn", FD->getQualifiedNameAsString());
    }
    else if (auto *VD = dyn_cast<VarDecl>(D)) {
      J.attribute("d", declIdx(VD));
      if (isa<ParmVarDecl>(VD)) J.attribute("dk", "parm");
      else if (VD->isStaticLocal()) J.attribute("dk", "slocal");
      else if (VD->isLocalVarDecl()) J.attribute("dk", "local");
      else { J.attribute("dk", "global"); J.attribute("key", keyOf(VD)); }
    }
    else if (isa<EnumConstantDecl>(D)) J.attribute("dk", "enum");
    else if (isa<BindingDecl>(D)) { J.attribute("dk", "local"); J.attribute("d", declIdx(D)); }
    else if (isa<FieldDecl>(D)) J.attribute("dk", "field");
    else J.attribute("dk", "other");
  }
  void stmt(const Stmt *S0, const std::vector<std::string> *PM = nullptr)
  {
    if (!S0) { J.value(nullptr); return; }
    const Stmt *S = strip(S0);
    int id = ++NextStmt;
    for (const Stmt *x = S0;; ) {
      StmtIdx[x] = id;
      if (x == S) break;
      const Stmt *y = nullptr;
      if (auto *E = dyn_cast<ParenExpr>(x)) y = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(x)) y = E->getSubExpr();
      else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(x)) y = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(x)) y = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(x)) y = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(x)) y = E->getReplacement();
      else if (auto *E = dyn_cast<CXXDefaultArgExpr>(x)) y = E->getExpr();
      else if (auto *E = dyn_cast<AttributedStmt>(x)) y = E->getSubStmt();
      else if (auto *E = dyn_cast<ImplicitCastExpr>(x)) y = E->getSubExpr();
      if (!y) break;
      x = y;
    }
    J.objectBegin();
    J.attribute("i", id);
    J.attribute("k", S->getStmtClassName());
    loc(S->getBeginLoc());
    std::vector<std::string> M = macros(S0->getBeginLoc());
    if (auto *CE = dyn_cast<CallExpr>(S)) {
      // a call whose callee token is inside a macro
      (void) CE;
    }
    if (!M.empty()) J.attributeArray("m", [&] { for (auto &m : M) J.value(m); });
    const Expr *E = dyn_cast<Expr>(S);
    if (E) {
      J.attribute("t", typeIdx(E->getType()));
      if (!E->getType().isNull() && !E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType()
          && !isa<InitListExpr>(E)) {
        Expr::EvalResult R;
        if (E->isPRValue() && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> s;
          R.Val.getInt().toString(s, 10);
          J.attribute("v", s.str());
        }
      }
    }
    bool children = true;
    if (auto *DS = dyn_cast<DeclStmt>(S)) {
      children = false;
      J.attributeArray("decls", [&] {
        for (auto *D : DS->decls()) {
          if (auto *VD = dyn_cast<VarDecl>(D)) {
            J.objectBegin();
            varDecl(VD);
            J.attribute("l", (int64_t) SM.getExpansionLineNumber(VD->getLocation()));
            if (VD->getInit()) { J.attributeBegin("init"); stmt(VD->getInit()); J.attributeEnd(); }
            if (auto *DD = dyn_cast<DecompositionDecl>(VD)) {
              J.attributeArray("bind", [&] { for (auto *B : DD->bindings()) {
                J.objectBegin(); J.attribute("id", declIdx(B)); J.attribute("n", B->getNameAsString()); J.attribute("t", typeIdx(B->getType())); J.objectEnd(); } });
            }
            J.objectEnd();
          }
        }
      });
    }
    else if (auto *X = dyn_cast<DeclRefExpr>(S)) declRef(X->getDecl());
    else if (auto *X = dyn_cast<MemberExpr>(S)) {
      J.attribute("n", X->getMemberDecl()->getNameAsString());
      if (X->isArrow()) J.attribute("arrow", true);
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        J.attribute("rec", FD->getParent()->getQualifiedNameAsString());
        noteRecord(FD->getParent());
      }
      else if (auto *MD = dyn_cast<CXXMethodDecl>(X->getMemberDecl())) {
        J.attribute("key", keyOf(MD));
        J.attribute("qn", MD->getQualifiedNameAsString());
      }
      else if (auto *VD = dyn_cast<VarDecl>(X->getMemberDecl())) { J.attribute("key", keyOf(VD)); J.attribute("dk", "global"); }
    }
    else if (auto *X = dyn_cast<CallExpr>(S)) {
      if (auto *FD = X->getDirectCallee()) {
        J.attribute("callee", keyOf(FD));
        noteExt(FD);
        J.attribute("cn", FD->getNameAsString());
        J.attribute("cq", FD->getQualifiedNameAsString());
        if (FD->isNoReturn() || FD->hasAttr<AnalyzerNoReturnAttr>()) J.attribute("noret", true);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
          bool qualified = false;
          if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) qualified = ME->hasQualifier();
          if (MD->isVirtual() && !qualified) J.attribute("virt", true);
          if (MD->isConst()) J.attribute("mconst", true);
        }
        if (FD->isVariadic()) J.attribute("variadic", (int) FD->getNumParams());
        std::string cp;
        for (auto *PV : FD->parameters()) {
          QualType q = PV->getType();
          QualType u = q->isReferenceType() ? q->getPointeeType() : (q->isPointerType() ? q->getPointeeType() : QualType());
          cp += u.isNull() ? '-' : (u.isConstQualified() ? 'c' : 'w');
        }
        J.attribute("cp", cp);
      }
      else {
        const Expr *ce = X->getCallee()->IgnoreParenImpCasts();
        if (auto *U = dyn_cast<UnresolvedLookupExpr>(ce)) J.attribute("cn", U->getName().getAsString());
        else if (auto *U = dyn_cast<UnresolvedMemberExpr>(ce)) J.attribute("cn", U->getMemberName().getAsString());
        else if (auto *U = dyn_cast<CXXDependentScopeMemberExpr>(ce)) J.attribute("cn", U->getMember().getAsString());
        else if (auto *U = dyn_cast<DependentScopeDeclRefExpr>(ce)) J.attribute("cn", U->getDeclName().getAsString());
        else if (auto *U = dyn_cast<DeclRefExpr>(ce)) J.attribute("cn", U->getNameInfo().getAsString());
        if (isa<UnresolvedLookupExpr>(ce) || isa<UnresolvedMemberExpr>(ce) || isa<CXXDependentScopeMemberExpr>(ce) || isa<DependentScopeDeclRefExpr>(ce))
          J.attribute("dep", true);
      }
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(S)) J.attribute("op", getOperatorSpelling(OC->getOperator()));
    }
    else if (auto *X = dyn_cast<UnresolvedLookupExpr>(S)) J.attribute("n", X->getName().getAsString());
    else if (auto *X = dyn_cast<UnresolvedMemberExpr>(S)) J.attribute("n", X->getMemberName().getAsString());
    else if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
      J.attribute("n", X->getMember().getAsString());
      if (X->isArrow()) J.attribute("arrow", true);
      if (X->isImplicitAccess()) children = false;
    }
    else if (auto *X = dyn_cast<DependentScopeDeclRefExpr>(S)) J.attribute("n", X->getDeclName().getAsString());
    else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      J.attribute("op", X->getOpcodeStr());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) J.attribute("ct", typeIdx(CA->getComputationResultType()));
    }
    else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
      if (X->isPostfix()) J.attribute("post", true);
    }
    else if (auto *X = dyn_cast<CastExpr>(S)) {
      J.attribute("ck", X->getCastKindName());
      if (auto *IC = dyn_cast<ImplicitCastExpr>(S)) { if (IC->isPartOfExplicitCast()) J.attribute("pe", true); }
    }
    else if (auto *X = dyn_cast<StringLiteral>(S)) {
      if (X->getCharByteWidth() == 1) J.attribute("s", json::fixUTF8(X->getString()));
      children = false;
    }
    else if (auto *X = dyn_cast<FloatingLiteral>(S)) {
      J.attribute("fv", X->getValueAsApproximateDouble());
    }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      J.attribute("op", X->getKind() == UETT_SizeOf ? "sizeof" : "trait");
      J.attribute("at", typeIdx(X->getTypeOfArgument()));
      if (!X->isArgumentType()) {
        children = false;
        J.attributeArray("c", [&] { stmt(X->getArgumentExpr()); });
      }
      else children = false;
    }
    else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      J.attribute("callee", keyOf(X->getConstructor()));
      J.attribute("cn", X->getConstructor()->getParent()->getQualifiedNameAsString());
      if (X->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", true);
    }
    else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      if (X->isArray()) J.attribute("arr", true);
      J.attribute("at", typeIdx(X->getAllocatedType()));
    }
    else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { if (X->isArrayForm()) J.attribute("arr", true); }
    else if (auto *X = dyn_cast<GotoStmt>(S)) J.attribute("label", X->getLabel()->getNameAsString());
    else if (auto *X = dyn_cast<LabelStmt>(S)) J.attribute("label", X->getName());
    else if (auto *X = dyn_cast<InitListExpr>(S)) {
      children = false;
      J.attributeArray("c", [&] { for (auto *I : X->inits()) stmt(I); });
      if (X->hasArrayFiller()) J.attribute("filler", true);
    }
    else if (auto *X = dyn_cast<LambdaExpr>(S)) {
      children = false;
      J.attributeArray("params", [&] { for (auto *P : X->getCallOperator()->parameters()) { J.objectBegin(); varDecl(P); J.objectEnd(); } });
      J.attributeArray("caps", [&] {
        for (auto &cp : X->captures()) {
          J.objectBegin();
          if (cp.capturesVariable()) { J.attribute("n", cp.getCapturedVar()->getNameAsString()); J.attribute("d", declIdx(cp.getCapturedVar())); }
          else if (cp.capturesThis()) J.attribute("n", "this");
          J.attribute("ref", cp.getCaptureKind() == LCK_ByRef);
          J.objectEnd();
        }
      });
      J.attribute("key", keyOf(X->getCallOperator()));
      J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
    }
    else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      children = false;
      J.attributeBegin("var");
      J.objectBegin(); varDecl(X->getLoopVariable()); J.objectEnd();
      J.attributeEnd();
      J.attributeArray("c", [&] {
        stmt(X->getRangeStmt()); stmt(X->getBeginStmt()); stmt(X->getEndStmt()); stmt(X->getCond()); stmt(X->getInc());
        stmt(X->getLoopVarStmt()); stmt(X->getBody());
      });
    }
    else if (auto *X = dyn_cast<IfStmt>(S)) {
      children = false;
      if (X->isConstexpr()) J.attribute("cexpr", true);
      J.attributeArray("c", [&] { stmt(X->getInit()); stmt(X->getConditionVariableDeclStmt()); stmt(X->getCond()); stmt(X->getThen()); stmt(X->getElse()); });
    }
    else if (auto *X = dyn_cast<ForStmt>(S)) {
      children = false;
      J.attributeArray("c", [&] { stmt(X->getInit()); stmt(X->getCond()); stmt(X->getInc()); stmt(X->getBody()); });
    }
    else if (auto *X = dyn_cast<WhileStmt>(S)) {
      children = false;
      J.attributeArray("c", [&] { stmt(X->getCond()); stmt(X->getBody()); });
    }
    else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      children = false;
      J.attribute("allenum", X->isAllEnumCasesCovered());
      J.attributeArray("c", [&] { stmt(X->getCond()); stmt(X->getBody()); });
    }
    else if (auto *X = dyn_cast<CaseStmt>(S)) {
      children = false;
      J.attributeArray("c", [&] { stmt(X->getLHS()); stmt(X->getRHS()); stmt(X->getSubStmt()); });
    }
    if (children) {
      bool any = false;
      for (auto *ch : S->children()) { if (ch) any = true; }
      if (any) J.attributeArray("c", [&] { for (auto *ch : S->children()) stmt(ch); });
    }
    J.objectEnd();
  }
  void noteRecord(const RecordDecl *R)
  {
    R = R->getDefinition();
    if (!R || R->isInvalidDecl()) return;
    if (Recs.insert(R).second) RecOrder.push_back(R);
  }
  void cfg(const FunctionDecl *FD)
  {
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.PruneTriviallyFalseEdges = false;
    BO.AddEHEdges = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(FD, FD->getBody(), &C, BO);
    if (!G) return;
    J.attributeObject("cfg", [&] {
      J.attribute("entry", (int) G->getEntry().getBlockID());
      J.attribute("exit", (int) G->getExit().getBlockID());
      J.attributeArray("b", [&] {
        for (const CFGBlock *B : *G) {
          J.objectBegin();
          J.attribute("id", (int) B->getBlockID());
          J.attributeArray("s", [&] {
            int last = -1;
            for (auto &El : *B) {
              if (auto CS = El.getAs<CFGStmt>()) {
                auto it = StmtIdx.find(CS->getStmt());
                if (it != StmtIdx.end()) { if (it->second != last) J.value(it->second); last = it->second; }
                else if (auto *DS = dyn_cast<DeclStmt>(CS->getStmt())) {
                  // CFG splits declaration groups into synthetic single-decl statements
                  for (auto *D : DS->decls()) if (isa<VarDecl>(D)) J.value(-declIdx(D));
                }
              }
            }
          });
          if (B->hasNoReturnElement()) J.attribute("noret", true);
          if (auto *T = B->getTerminatorStmt()) {
            auto it = StmtIdx.find(T);
            if (it != StmtIdx.end()) J.attribute("term", it->second);
          }
          if (auto *TC = B->getTerminatorCondition(false)) {
            auto it = StmtIdx.find(strip(TC));
            if (it == StmtIdx.end()) it = StmtIdx.find(TC);
            if (it != StmtIdx.end()) J.attribute("cond", it->second);
          }
          if (auto *L = B->getLabel()) {
            auto it = StmtIdx.find(L);
            if (it != StmtIdx.end()) J.attribute("label", it->second);
          }
          J.attributeArray("succ", [&] {
            for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
              const CFGBlock *SB = I->getReachableBlock();
              if (!SB) SB = I->getPossiblyUnreachableBlock();
              if (SB) J.value((int) SB->getBlockID());
              else J.value(nullptr);
            }
          });
          J.objectEnd();
        }
      });
    });
  }
  void function(const FunctionDecl *FD)
  {
    StmtIdx.clear();
    NextStmt = 0;
    J.objectBegin();
    J.attribute("n", FD->getNameAsString());
    J.attribute("qn", FD->getQualifiedNameAsString());
    J.attribute("key", keyOf(FD));
    J.attribute("file", fileIdx(fileOf(FD->getLocation())));
    J.attribute("l", (int64_t) SM.getExpansionLineNumber(FD->getLocation()));
    J.attribute("el", (int64_t) SM.getExpansionLineNumber(FD->getEndLoc()));
    J.attribute("ret", typeIdx(FD->getReturnType()));
    if (!FD->isExternallyVisible()) J.attribute("internal", true);
    if (FD->isDependentContext()) J.attribute("tmpl", true);
    if (FD->isTemplateInstantiation()) J.attribute("inst", true);
    if (FD->isVariadic()) J.attribute("variadic", true);
    if (FD->isExternC()) J.attribute("externc", true);
    if (FD->isNoReturn()) J.attribute("noret", true);
    auto M = macros(FD->getLocation());
    if (!M.empty()) J.attributeArray("m", [&] { for (auto &m : M) J.value(m); });
    if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
      J.attribute("cls", MD->getParent()->getQualifiedNameAsString());
      noteRecord(MD->getParent());
      if (MD->isStatic()) J.attribute("smeth", true);
      if (MD->isConst()) J.attribute("mconst", true);
      if (MD->isVirtual()) J.attribute("virt", true);
      J.attribute("acc", (int) MD->getAccess());
      J.attributeArray("over", [&] { for (auto *O : MD->overridden_methods()) J.value(keyOf(O)); });
      if (MD->getParent()->isLambda()) J.attribute("lambda", true);
      if (FD->isTemplateInstantiation() || isa<ClassTemplateSpecializationDecl>(MD->getParent())) {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto *CS = dyn_cast<ClassTemplateSpecializationDecl>(MD->getParent()))
          printTemplateArgumentList(os, CS->getTemplateArgs().asArray(), PP);
        J.attribute("targs", os.str());
      }
    }
    J.attributeArray("params", [&] { for (auto *P : FD->parameters()) { J.objectBegin(); varDecl(P); J.objectEnd(); } });
    if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
      J.attributeArray("inits", [&] {
        for (auto *I : CD->inits()) {
          J.objectBegin();
          if (I->isMemberInitializer()) J.attribute("field", I->getMember()->getNameAsString());
          else if (I->isBaseInitializer()) J.attribute("base", true);
          if (I->isWritten()) J.attribute("written", true);
          J.attributeBegin("init"); stmt(I->getInit()); J.attributeEnd();
          J.objectEnd();
        }
      });
    }
    J.attributeBegin("body"); stmt(FD->getBody()); J.attributeEnd();
    cfg(FD);
    J.objectEnd();
  }
  void apvalue(const APValue &V, QualType T)
  {
    switch (V.getKind()) {
    case APValue::Int: { llvm::SmallString<32> s; V.getInt().toString(s, 10); 
      long long x; if (!s.str().getAsInteger(10, x)) J.value((int64_t) x); else J.value(s.str()); } break;
    case APValue::Float: { llvm::APFloat f = V.getFloat(); bool li; f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); J.value(f.convertToDouble()); } break;
    case APValue::Array: {
      QualType ET;
      if (auto *AT = C.getAsArrayType(T)) ET = AT->getElementType();
      J.arrayBegin();
      unsigned n = V.getArraySize(), ni = V.getArrayInitializedElts();
      for (unsigned i = 0; i < n; i++) {
        if (i < ni) apvalue(V.getArrayInitializedElt(i), ET);
        else if (V.hasArrayFiller()) apvalue(V.getArrayFiller(), ET);
        else J.value(nullptr);
      }
      J.arrayEnd();
    } break;
    case APValue::Struct: {
      J.objectBegin();
      const RecordDecl *RD = T.isNull() ? nullptr : (T->getAsRecordDecl());
      if (RD) {
        unsigned bi = 0;
        if (auto *CR = dyn_cast<CXXRecordDecl>(RD)) for (auto &B : CR->bases()) { J.attributeBegin("base" + std::to_string(bi)); apvalue(V.getStructBase(bi), B.getType()); J.attributeEnd(); bi++; }
        for (auto *F : RD->fields()) { J.attributeBegin(F->getNameAsString().empty() ? "f" + std::to_string(F->getFieldIndex()) : F->getNameAsString()); apvalue(V.getStructField(F->getFieldIndex()), F->getType()); J.attributeEnd(); }
      }
      J.objectEnd();
    } break;
    case APValue::LValue: {
      auto B = V.getLValueBase();
      if (B && B.is<const Expr *>()) {
        if (auto *SL = dyn_cast<StringLiteral>(B.get<const Expr *>())) { J.value(json::fixUTF8(SL->getString())); break; }
      }
      if (B && B.is<const ValueDecl *>()) { J.objectBegin(); J.attribute("ref", B.get<const ValueDecl *>()->getQualifiedNameAsString()); J.objectEnd(); break; }
      J.value(nullptr);
    } break;
    default: J.value(nullptr);
    }
  }
  void global(const VarDecl *VD)
  {
    J.objectBegin();
    J.attribute("n", VD->getNameAsString());
    J.attribute("qn", VD->getQualifiedNameAsString());
    J.attribute("key", keyOf(VD));
    J.attribute("file", fileIdx(fileOf(VD->getLocation())));
    J.attribute("l", (int64_t) SM.getExpansionLineNumber(VD->getLocation()));
    J.attribute("t", typeIdx(VD->getType()));
    QualType B = VD->getType();
    QualType BE = C.getBaseElementType(B);
    J.attribute("const", BE.isConstQualified());
    if (VD->isConstexpr()) J.attribute("constexpr", true);
    if (VD->isStaticLocal()) { J.attribute("slocal", true); J.attribute("d", declIdx(VD));
      if (auto *F = dyn_cast_or_null<FunctionDecl>(VD->getParentFunctionOrMethod())) J.attribute("infn", F->getQualifiedNameAsString()); }
    if (VD->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) J.attribute("extern", true);
    if (VD->getTSCSpec() != TSCS_unspecified) J.attribute("tls", true);
    if (VD->getInit() && !VD->getType()->isDependentType() && !VD->getInit()->isValueDependent()) {
      const APValue *V = VD->evaluateValue();
      if (V) { J.attributeBegin("val"); apvalue(*V, VD->getType()); J.attributeEnd(); }
    }
    J.objectEnd();
  }
  void types()
  {
    J.attributeArray("types", [&] {
      for (size_t i = 0; i < Types.size(); i++) {  // typeIdx may grow the vector
        QualType T = Types[i];
        J.objectBegin();
        J.attribute("s", T.getAsString(PP));
        QualType CT = T.getCanonicalType();
        J.attribute("cs", CT.getAsString(PP));
        if (CT.isConstQualified()) J.attribute("const", true);
        if (CT->isReferenceType()) { J.attribute("k", "ref"); J.attribute("p", typeIdx(T->getPointeeType())); }
        else if (CT->isPointerType()) { J.attribute("k", "ptr"); J.attribute("p", typeIdx(T->getPointeeType())); }
        else if (CT->isArrayType()) {
          J.attribute("k", "arr");
          J.attribute("p", typeIdx(C.getAsArrayType(T)->getElementType()));
          if (auto *CA = C.getAsConstantArrayType(T)) J.attribute("n", (int64_t) CA->getSize().getZExtValue());
        }
        else if (CT->isBooleanType()) { J.attribute("k", "bool"); J.attribute("w", 1); }
        else if (CT->isEnumeralType()) {
          J.attribute("k", "enum");
          auto *ED = CT->castAs<EnumType>()->getDecl();
          J.attribute("rec", ED->getQualifiedNameAsString());
          J.attribute("w", (int) C.getIntWidth(CT));
          Enums[ED] = true;
        }
        else if (CT->isIntegerType()) { J.attribute("k", "int"); J.attribute("w", (int) C.getIntWidth(CT)); J.attribute("sg", CT->isSignedIntegerType()); }
        else if (CT->isFloatingType()) { J.attribute("k", "flt"); J.attribute("w", (int) C.getTypeSize(CT)); }
        else if (CT->isRecordType()) {
          J.attribute("k", "rec");
          J.attribute("rec", CT->castAs<RecordType>()->getDecl()->getQualifiedNameAsString());
          if (auto *RD = CT->castAs<RecordType>()->getDecl()->getDefinition()) { if (inRepo(RD->getLocation())) noteRecord(RD); }
        }
        else if (CT->isFunctionType()) J.attribute("k", "fn");
        else if (CT->isVoidType()) J.attribute("k", "void");
        else if (CT->isDependentType()) J.attribute("k", "dep");
        else J.attribute("k", "other");
        if (!CT->isDependentType() && !CT->isIncompleteType() && !CT->isFunctionType() && !CT->isVoidType() && !CT->isPlaceholderType() && !CT->isUndeducedType()) {
          if (CT->isReferenceType()) {}
          else J.attribute("size", (int64_t) C.getTypeSizeInChars(CT).getQuantity());
        }
        J.objectEnd();
      }
    });
  }
  void records()
  {
    J.attributeArray("records", [&] {
      for (size_t i = 0; i < RecOrder.size(); i++) {
        const RecordDecl *R = RecOrder[i];
        J.objectBegin();
        J.attribute("n", R->getQualifiedNameAsString());
        J.attribute("file", fileIdx(fileOf(R->getLocation())));
        J.attribute("l", (int64_t) SM.getExpansionLineNumber(R->getLocation()));
        if (R->isUnion()) J.attribute("union", true);
        J.attribute("dep", R->isDependentContext());
        if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
          J.attributeArray("bases", [&] {
            for (auto &B : CR->bases()) {
              if (auto *BR = B.getType()->getAsCXXRecordDecl()) J.value(BR->getQualifiedNameAsString());
              else J.value(B.getType().getAsString(PP));
            }
          });
        }
        J.attributeArray("fields", [&] {
          for (auto *F : R->fields()) {
            J.objectBegin();
            J.attribute("n", F->getNameAsString());
            J.attribute("t", typeIdx(F->getType()));
            J.attribute("l", (int64_t) SM.getExpansionLineNumber(F->getLocation()));
            J.objectEnd();
          }
        });
        J.objectEnd();
      }
    });
  }
  void enums()
  {
    J.attributeArray("enums", [&] {
      for (auto &e : Enums) {
        J.objectBegin();
        J.attribute("n", e.first->getQualifiedNameAsString());
        J.attributeArray("e", [&] {
          for (auto *c : e.first->enumerators()) {
            J.arrayBegin();
            J.value(c->getNameAsString());
            J.value((int64_t) c->getInitVal().getExtValue());
            J.arrayEnd();
          }
        });
        J.objectEnd();
      }
    });
  }
};

struct PPRec : PPCallbacks {
  const SourceManager &SM;
  struct Reg { std::string file; unsigned a, b; std::string cond; bool taken; };
  std::vector<Reg> Done;
  struct Open { SourceLocation loc; std::string cond; bool taken; };
  std::vector<Open> Stack;
  struct Def { std::string name, body, file; unsigned line; };
  std::vector<Def> Defs;
  explicit PPRec(const SourceManager &SM) : SM(SM) {}
  std::string text(SourceRange R)
  {
    bool inv = false;
    LangOptions LO;
    StringRef s = Lexer::getSourceText(CharSourceRange::getTokenRange(R), SM, LO, &inv);
    return inv ? "" : s.str();
  }
  bool repo(SourceLocation L)
  {
    auto FE = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
    if (!FE) return false;
    for (auto &r : Roots) if (FE->getName().starts_with(r)) return true;
    return false;
  }
  void If(SourceLocation L, SourceRange CR, ConditionValueKind V) override { Stack.push_back({L, text(CR), V == CVK_True}); }
  void Ifdef(SourceLocation L, const Token &T, const MacroDefinition &MD) override { Stack.push_back({L, "defined(" + T.getIdentifierInfo()->getName().str() + ")", (bool) MD}); }
  void Ifndef(SourceLocation L, const Token &T, const MacroDefinition &MD) override { Stack.push_back({L, "!defined(" + T.getIdentifierInfo()->getName().str() + ")", !MD}); }
  void close(SourceLocation L)
  {
    if (Stack.empty()) return;
    auto &o = Stack.back();
    if (repo(o.loc)) {
      auto FE = SM.getFileEntryRefForID(SM.getFileID(o.loc));
      Done.push_back({FE->getName().str(), SM.getExpansionLineNumber(o.loc), SM.getExpansionLineNumber(L), o.cond, o.taken});
    }
  }
  void Elif(SourceLocation L, SourceRange CR, ConditionValueKind V, SourceLocation) override
  {
    if (Stack.empty()) return;
    std::string prev = Stack.back().cond;
    bool t = Stack.back().taken;
    close(L);
    Stack.back() = {L, "!(" + prev + ")&&(" + text(CR) + ")", !t && V == CVK_True};
  }
  void Else(SourceLocation L, SourceLocation) override
  {
    if (Stack.empty()) return;
    std::string prev = Stack.back().cond;
    bool t = Stack.back().taken;
    close(L);
    Stack.back() = {L, "!(" + prev + ")", !t};
  }
  void Endif(SourceLocation L, SourceLocation) override
  {
    if (Stack.empty()) return;
    close(L);
    Stack.pop_back();
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  PPRec *PR;
  std::string Out;
  Consumer(CompilerInstance &CI, PPRec *PR, std::string Out) : CI(CI), PR(PR), Out(Out) {}
  struct V : RecursiveASTVisitor<V> {
    Emitter &E;
    std::vector<const FunctionDecl *> Fns;
    std::vector<const VarDecl *> Vars;
    std::vector<const FunctionDecl *> Protos;
    explicit V(Emitter &E) : E(E) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *FD)
    {
      if (!E.inRepo(FD->getLocation())) return true;
      if (FD->isThisDeclarationADefinition() && FD->hasBody() && FD->getBody() && !FD->isDefaulted()) Fns.push_back(FD);
      else if (!FD->isImplicit() && !FD->isTemplateInstantiation()) Protos.push_back(FD);
      return true;
    }
    bool VisitVarDecl(VarDecl *VD)
    {
      if (!VD->hasGlobalStorage() || isa<ParmVarDecl>(VD)) return true;
      if (!E.inRepo(VD->getLocation())) return true;
      Vars.push_back(VD);
      return true;
    }
  };
  void HandleTranslationUnit(ASTContext &Ctx) override
  {
    if (CI.getDiagnostics().hasErrorOccurred()) AnyError = true;
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    json::OStream J(OS);
    Emitter E(Ctx, J);
    V v(E);
    v.TraverseDecl(Ctx.getTranslationUnitDecl());
    J.objectBegin();
    J.attribute("main", E.MainFile);
    J.attributeArray("functions", [&] {
      for (auto *FD : v.Fns) {
        std::string f = E.fileOf(FD->getLocation());
        if (f != E.MainFile) {
          std::string k = f + ":" + E.keyOf(FD) + ":" + std::to_string(E.SM.getExpansionLineNumber(FD->getLocation()));
          // functions with internal linkage in headers are per TU, but their text is identical
          size_t at = k.find("@/");
          if (at != std::string::npos) { size_t e = k.find(':', at); k = k.substr(0, at) + k.substr(e == std::string::npos ? k.size() : e); }
          if (!SeenHdr.insert(k).second) continue;
        }
        E.function(FD);
      }
    });
    J.attributeArray("globals", [&] {
      for (auto *VD : v.Vars) {
        std::string f = E.fileOf(VD->getLocation());
        if (f != E.MainFile) {
          std::string k = "V" + f + ":" + VD->getQualifiedNameAsString() + ":" + std::to_string(E.SM.getExpansionLineNumber(VD->getLocation()));
          if (!SeenHdr.insert(k).second) continue;
        }
        E.global(VD);
      }
    });
    J.attributeArray("protos", [&] {
      for (auto *FD : v.Protos) {
        std::string f = E.fileOf(FD->getLocation());
        std::string k = "P" + f + ":" + E.keyOf(FD) + ":" + std::to_string(E.SM.getExpansionLineNumber(FD->getLocation()));
        if (!SeenHdr.insert(k).second) continue;
        J.objectBegin();
        J.attribute("n", FD->getNameAsString());
        J.attribute("qn", FD->getQualifiedNameAsString());
        J.attribute("key", E.keyOf(FD));
        J.attribute("file", E.fileIdx(f));
        J.attribute("l", (int64_t) E.SM.getExpansionLineNumber(FD->getLocation()));
        J.attribute("ret", E.typeIdx(FD->getReturnType()));
        if (FD->isExternC()) J.attribute("externc", true);
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) { J.attribute("cls", MD->getParent()->getQualifiedNameAsString()); if (MD->isPureVirtual()) J.attribute("pure", true); 
          J.attributeArray("over", [&] { for (auto *O : MD->overridden_methods()) J.value(E.keyOf(O)); }); }
        J.attributeArray("params", [&] { for (auto *P : FD->parameters()) { J.objectBegin(); E.varDecl(P); J.objectEnd(); } });
        J.objectEnd();
      }
    });
    J.attributeObject("ext", [&] {
      for (auto &x : E.ExtNames) J.attributeArray(x.first, [&] { for (auto &n : x.second) J.value(n); });
    });
    J.attributeArray("pp", [&] {
      for (auto &r : PR->Done) {
        if (r.cond.find("T8_ENABLE") == std::string::npos && r.cond.find("NDEBUG") == std::string::npos) continue;
        J.objectBegin();
        J.attribute("f", r.file); J.attribute("a", (int64_t) r.a); J.attribute("b", (int64_t) r.b);
        J.attribute("cond", json::fixUTF8(r.cond)); J.attribute("taken", r.taken);
        J.objectEnd();
      }
    });
    size_t n = 0;
    // types and records feed each other; emit records first to collect their field types
    for (size_t i = 0; i < E.Types.size(); i++) {
      QualType CT = E.Types[i].getCanonicalType();
      if (CT->isRecordType()) if (auto *RD = CT->castAs<RecordType>()->getDecl()->getDefinition()) if (E.inRepo(RD->getLocation())) E.noteRecord(RD);
      if (CT->isPointerType() || CT->isReferenceType()) E.typeIdx(E.Types[i]->getPointeeType());
      if (CT->isArrayType()) E.typeIdx(Ctx.getAsArrayType(E.Types[i])->getElementType());
    }
    (void) n;
    E.records();
    E.types();
    E.enums();
    J.attributeArray("files", [&] { for (auto &f : E.Files) J.value(f); });
    J.attribute("errors", CI.getDiagnostics().hasErrorOccurred());
    J.objectEnd();
    OS << "\n";
  }
};
static std::map<std::string, std::string> OutFor;
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override
  {
    auto P = std::make_unique<PPRec>(CI.getSourceManager());
    PPRec *p = P.get();
    CI.getPreprocessor().addPPCallbacks(std::move(P));
    return std::make_unique<Consumer>(CI, p, OutFor[F.str()]);
  }
};

// usage: t8x ROOTS(,sep) JOBFILE ; JOBFILE is JSON: [{"file":..., "out":..., "args":[...]}, ...]
int main(int argc, const char **argv)
{
  if (argc < 3) return 2;
  StringRef rs(argv[1]);
  llvm::SmallVector<StringRef> parts;
  rs.split(parts, ',');
  for (auto p : parts) Roots.push_back(p.str());
  auto Buf = llvm::MemoryBuffer::getFile(argv[2]);
  if (!Buf) return 2;
  auto Val = json::parse((*Buf)->getBuffer());
  if (!Val) { llvm::errs() << "bad job file\n"; return 2; }
  int rc = 0;
  for (auto &jv : *Val->getAsArray()) {
    auto *o = jv.getAsObject();
    std::string file = o->getString("file")->str(), out = o->getString("out")->str();
    OutFor[file] = out;
    std::vector<std::string> args;
    for (auto &a : *o->getArray("args")) args.push_back(a.getAsString()->str());
    tooling::FixedCompilationDatabase DB("/", args);
    tooling::ClangTool T(DB, {file});
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    if (T.run(tooling::newFrontendActionFactory<Action>().get())) { rc = 1; llvm::errs() << "t8x: errors in " << file << "\n"; }
  }
  return rc;
}
