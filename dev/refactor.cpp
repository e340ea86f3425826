// refactor: applies behaviour-preserving rewrites to every function of a translation unit (development aid, no check uses it).
// The checks must give the same answer on the rewritten tree: usage refactor MODE JOBFILE, rewrites the files in place.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
static std::set<std::string> Mode;
static int Stride = 1, Phase = 0;
static bool on (const char *m) { return Mode.count (m); }

struct Gen {
  ASTContext &C; const SourceManager &SM; const LangOptions &LO; FileID Main; StringRef Buf; int Count = 0, Uid = 0;
  const FunctionDecl *F = nullptr; std::string Helpers; std::set<const VarDecl *> NoSplit; bool InLambda = false; std::set<const VarDecl *> PtrVars;
  Gen (ASTContext &C): C (C), SM (C.getSourceManager ()), LO (C.getLangOpts ()), Main (SM.getMainFileID ()), Buf (SM.getBufferData (Main)) {}
  bool take () { Uid++; return Uid % Stride == Phase; }
  bool off (SourceLocation L, unsigned &o) { if (L.isInvalid () || L.isMacroID ()) return false; auto d = SM.getDecomposedLoc (L); if (d.first != Main) return false; o = d.second; return true; }
  // offsets [b,e) of a statement (without a trailing semicolon)
  bool range (const Stmt *S, unsigned &b, unsigned &e) {
    SourceLocation B = S->getBeginLoc (), E = S->getEndLoc ();
    if (B.isMacroID ()) { CharSourceRange x = SM.getExpansionRange (B); B = x.getBegin (); }
    if (E.isMacroID ()) { CharSourceRange x = SM.getExpansionRange (E); E = x.getEnd (); }
    if (!off (B, b) || !off (E, e)) return false;
    e += Lexer::MeasureTokenLength (E, SM, LO);
    return e >= b;
  }
  bool plain (const Stmt *S) { return S && !S->getBeginLoc ().isMacroID () && !S->getEndLoc ().isMacroID (); }
  std::string raw (const Stmt *S) { unsigned b, e; return range (S, b, e) ? Buf.substr (b, e - b).str () : ""; }
  bool hasPP (const Stmt *S) { std::string t = raw (S); return t.empty () || t[0] == '#' || t.find ("\n#") != std::string::npos; }
  static bool contains (const Stmt *S, bool loopToo, bool ret, bool sw = true) {
    // a continue/break that belongs to S's enclosing loop, goto, label, (return)
    if (!S) return false;
    if (isa<ContinueStmt> (S) || (sw && isa<BreakStmt> (S)) || isa<GotoStmt> (S) || isa<LabelStmt> (S)) return true;
    if (ret && isa<ReturnStmt> (S)) return true;
    if (isa<LambdaExpr> (S)) return false;
    bool inner = isa<ForStmt> (S) || isa<WhileStmt> (S) || isa<DoStmt> (S) || isa<CXXForRangeStmt> (S);
    bool isw = isa<SwitchStmt> (S);
    for (const Stmt *c : S->children ()) {
      if (!c) continue;
      if (inner && !ret) { if (hasGoto (c)) return true; continue; }
      if (inner) { if (hasGoto (c) || hasRet (c)) return true; continue; }
      if (contains (c, loopToo, ret, sw && !isw)) return true;
    }
    return false;
  }
  static bool hasGoto (const Stmt *S) { if (!S) return false; if (isa<GotoStmt> (S) || isa<LabelStmt> (S)) return true; for (auto c : S->children ()) if (hasGoto (c)) return true; return false; }
  static bool hasRet (const Stmt *S) { if (!S || isa<LambdaExpr> (S)) return false; if (isa<ReturnStmt> (S)) return true; for (auto c : S->children ()) if (hasRet (c)) return true; return false; }
  static bool hasContinue (const Stmt *S) { // of this loop
    if (!S) return false; if (isa<ContinueStmt> (S)) return true;
    if (isa<ForStmt> (S) || isa<WhileStmt> (S) || isa<DoStmt> (S) || isa<CXXForRangeStmt> (S) || isa<LambdaExpr> (S)) return false;
    for (auto c : S->children ()) if (hasContinue (c)) return true; return false; }
  static bool endsInJump (const Stmt *S) { if (auto c = dyn_cast_or_null<CompoundStmt> (S)) return !c->body_empty () && endsInJump (c->body_back ()); return S && (isa<ReturnStmt> (S) || isa<ContinueStmt> (S) || isa<BreakStmt> (S)); }

  // text of S with its children rewritten
  std::string children (const Stmt *S) {
    unsigned b, e; if (!range (S, b, e)) return "";
    std::vector<std::pair<std::pair<unsigned, unsigned>, const Stmt *>> ks;
    for (const Stmt *c : S->children ()) { unsigned x, y; if (c && range (c, x, y) && x >= b && y <= e) ks.push_back ({ { x, y }, c }); }
    std::sort (ks.begin (), ks.end (), [] (auto &p, auto &q) { return p.first < q.first; });
    std::string out; unsigned at = b;
    for (auto &k : ks) { if (k.first.first < at) continue; out += Buf.substr (at, k.first.first - at).str (); out += emit (k.second); at = k.first.second; }
    out += Buf.substr (at, e - at).str ();
    return out;
  }
  static bool braceLike (const Stmt *S) { return isa<CompoundStmt> (S) || isa<IfStmt> (S) || isa<ForStmt> (S) || isa<WhileStmt> (S) || isa<SwitchStmt> (S) || isa<CXXForRangeStmt> (S) || isa<CaseStmt> (S) || isa<DefaultStmt> (S) || isa<CXXTryStmt> (S); }
  std::string block (const Stmt *S) { if (isa<CompoundStmt> (S)) return emit (S); std::string t = emit (S); if (!braceLike (S) && !isa<DeclStmt> (S) && !isa<NullStmt> (S)) t += ";"; return "{\n" + t + "\n}"; }

  std::string emit (const Stmt *S) {
    if (!plain (S)) return raw (S);
    if (isa<LambdaExpr> (S)) return raw (S);
    if (!PtrVars.empty ()) if (auto *D = dyn_cast<DeclRefExpr> (S)) if (auto *v = dyn_cast<VarDecl> (D->getDecl ())) if (PtrVars.count (v)) return "(*" + raw (S) + ")";
    if (auto *I = dyn_cast<IfStmt> (S)) return emitIf (I);
    if (auto *L = dyn_cast<ForStmt> (S)) return emitFor (L);
    if (auto *W = dyn_cast<SwitchStmt> (S)) { std::string t = emitSwitch (W); return t.empty () ? children (S) : t; }
    if (auto *B = dyn_cast<CompoundStmt> (S)) return emitCompound (B);
    if (on ("nullcmp")) if (auto *E = dyn_cast<Expr> (S)) { std::string t = nullcmp (E); if (!t.empty ()) return t; }
    if (on ("incr")) {
      if (auto *A = dyn_cast<CompoundAssignOperator> (S)) {
        if (A->getType ()->isIntegerType () || A->getType ()->isFloatingType ()) if (!A->getLHS ()->HasSideEffects (C) && !hasPP (S) && take ()) {
          std::string op = BinaryOperator::getOpcodeStr (BinaryOperator::getOpForCompoundAssignment (A->getOpcode ())).str ();
          Count++; std::string l = raw (A->getLHS ());
          return l + " = " + l + " " + op + " (" + emit (A->getRHS ()) + ")"; } }
      if (auto *U = dyn_cast<UnaryOperator> (S)) if (U->isIncrementDecrementOp () && U->getType ()->isIntegerType () && parentIsStmt (S) && !U->getSubExpr ()->HasSideEffects (C) && take ()) {
        Count++; return raw (U->getSubExpr ()) + (U->isIncrementOp () ? " += 1" : " -= 1"); }
    }
    if (on ("cmpswap")) if (auto *B = dyn_cast<BinaryOperator> (S)) if (B->isComparisonOp () && B->getLHS ()->getType ()->isScalarType () && !hasPP (S) && take ()) {
      Count++; std::string o = B->getOpcodeStr ().str (); std::string p = o == "<" ? ">" : o == ">" ? "<" : o == "<=" ? ">=" : o == ">=" ? "<=" : o;
      return emit (B->getRHS ()) + " " + p + " " + emit (B->getLHS ()); }
    if (on ("ternary")) if (auto *Q = dyn_cast<ConditionalOperator> (S)) if (take ()) { Count++; return "!(" + emit (Q->getCond ()) + ") ? " + emit (Q->getFalseExpr ()) + " : " + emit (Q->getTrueExpr ()); }
    return children (S);
  }
  bool parentIsStmt (const Stmt *S) {
    auto P = C.getParents (*S); if (P.empty ()) return false; const Stmt *p = P[0].get<Stmt> (); if (!p) return false;
    if (isa<CompoundStmt> (p)) return true; if (auto *f = dyn_cast<ForStmt> (p)) return f->getInc () == S; return false; }
  std::string nullcmp (const Expr *E) {
    if (auto *B = dyn_cast<BinaryOperator> (E)) if (B->isEqualityOp () && !hasPP (E)) {
      const Expr *l = B->getLHS (), *r = B->getRHS ();
      if (l->getType ()->isPointerType () && r->IgnoreParenCasts ()->isNullPointerConstant (C, Expr::NPC_ValueDependentIsNotNull) && l->IgnoreParenImpCasts ()->getType ()->isPointerType () && take ()) {
        Count++; return B->getOpcode () == BO_EQ ? "!(" + emit (l) + ")" : LO.CPlusPlus && !boolCtx (E) ? "static_cast<bool> (" + emit (l) + ")" : "(" + emit (l) + ")" + (boolCtx (E) ? "" : " != 0"); } }
    if (auto *U = dyn_cast<UnaryOperator> (E)) if (U->getOpcode () == UO_LNot && U->getSubExpr ()->IgnoreParenImpCasts ()->getType ()->isPointerType () && !hasPP (E) && take ()) {
      Count++; return "(" + emit (U->getSubExpr ()) + " == NULL)"; }
    return "";
  }
  bool boolCtx (const Expr *E) {
    auto P = C.getParents (*E); if (P.empty ()) return false; const Stmt *p = P[0].get<Stmt> (); if (!p) return false;
    if (auto *i = dyn_cast<IfStmt> (p)) return i->getCond () == E;
    if (auto *i = dyn_cast<WhileStmt> (p)) return i->getCond () == E;
    if (auto *i = dyn_cast<ForStmt> (p)) return i->getCond () == E;
    if (isa<ParenExpr> (p) || isa<ImplicitCastExpr> (p)) return boolCtx (cast<Expr> (p));
    if (auto *b = dyn_cast<BinaryOperator> (p)) return b->isLogicalOp ();
    if (auto *u = dyn_cast<UnaryOperator> (p)) return u->getOpcode () == UO_LNot;
    return false; }
  std::string emitIf (const IfStmt *I) {
    if (hasPP (I) || I->isConstexpr () || I->getConditionVariable () || I->getInit () || !plain (I->getCond ()) && false) return children (I);
    std::string c = emit (I->getCond ());
    std::string pre; bool elseif = false;
    { auto P = C.getParents (*I); if (!P.empty ()) if (auto *p = P[0].get<IfStmt> ()) elseif = p->getElse () == I; 
      if (!P.empty ()) { const Stmt *p = P[0].get<Stmt> (); if (p && !isa<CompoundStmt> (p)) elseif = true; if (auto *q = dyn_cast_or_null<CompoundStmt> (p)) for (auto *x : q->body ()) if (isa<SwitchCase> (x)) elseif = true; } if (hasGoto (F->getBody ())) elseif = true; }
    if (on ("named") && !elseif && take ()) { Count++; std::string n = "named_cond_" + std::to_string (Uid); pre = std::string ("const ") + (LO.CPlusPlus ? "bool " : "int ") + n + " = " + (I->getCond ()->IgnoreParenImpCasts ()->getType ()->isRecordType () || raw (I->getCond ()).find (">>") != std::string::npos ? "static_cast<bool> (" + c + ")" : c) + ";\n"; if (!LO.CPlusPlus) pre = "const int " + n + " = " + (I->getCond ()->IgnoreParenImpCasts ()->getType ()->isPointerType () ? "(" + c + ") != NULL" : c) + ";\n"; c = n; }
    if (on ("elseif") && !I->getElse () ) {}
    if (on ("splitand") && !I->getElse ()) { const Expr *e = I->getCond ()->IgnoreParenImpCasts (); if (auto *B = dyn_cast<BinaryOperator> (e)) if (B->getOpcode () == BO_LAnd && plain (B) && take ()) {
      Count++; return "if (" + emit (B->getLHS ()) + ") {\nif (" + emit (B->getRHS ()) + ") " + block (I->getThen ()) + "\n}"; } }
    if (on ("invert") && I->getElse () && take ()) { Count++; return pre + "if (!(" + c + ")) " + block (I->getElse ()) + "\nelse " + block (I->getThen ()); }
    if (I->getElse ()) return pre + "if (" + c + ") " + block (I->getThen ()) + "\nelse " + (isa<IfStmt> (I->getElse ()) ? emit (I->getElse ()) : block (I->getElse ()));
    return pre + "if (" + c + ") " + block (I->getThen ());
  }
  std::string emitFor (const ForStmt *L) {
    if (!on ("forwhile") || hasPP (L) || hasContinue (L->getBody ()) || hasGoto (L) || L->getConditionVariable () || !take ()) return children (L);
    Count++;
    std::string o = "{\n";
    if (L->getInit ()) { o += emit (L->getInit ()); if (!isa<DeclStmt> (L->getInit ())) o += ";"; o += "\n"; }
    o += "while (" + (L->getCond () ? emit (L->getCond ()) : std::string ("1")) + ") {\n";
    std::string b = emit (L->getBody ()); if (!braceLike (L->getBody ()) && !isa<NullStmt> (L->getBody ())) b += ";";
    o += b + "\n";
    if (L->getInc ()) o += emit (L->getInc ()) + ";\n";
    return o + "}\n}";
  }
  std::string stmtText (const Stmt *s) { std::string t = emit (s); if (!plain (s) && braceLike (s)) { unsigned b, e; if (range (s, b, e)) { while (e < Buf.size () && isspace (Buf[e])) e++; if (e < Buf.size () && Buf[e] == ';') return t + ";"; } } if (!braceLike (s) && !isa<DeclStmt> (s) && !isa<NullStmt> (s)) t += ";"; return t; }
  static bool hasBreak (const Stmt *S) { if (!S) return false; if (isa<BreakStmt> (S)) return true; if (isa<ForStmt> (S) || isa<WhileStmt> (S) || isa<DoStmt> (S) || isa<CXXForRangeStmt> (S) || isa<SwitchStmt> (S)) return false; for (auto c : S->children ()) if (hasBreak (c)) return true; return false; }
  std::string emitSwitch (const SwitchStmt *W) {
    if (!on ("switchif") || hasPP (W) || hasGoto (W) || W->getConditionVariable () || W->getInit () || W->getCond ()->HasSideEffects (C) && !isa<CallExpr> (W->getCond ()->IgnoreImpCasts ())) return "";
    auto *B = dyn_cast<CompoundStmt> (W->getBody ()); if (!B) return "";
    struct G { std::vector<const Expr *> v; bool def = false; std::vector<const Stmt *> s; }; std::vector<G> gs;
    for (auto *s : B->body ()) {
      const Stmt *x = s;
      if (auto *c = dyn_cast<SwitchCase> (x)) { if (!gs.empty () && (gs.back ().s.empty () || !(isa<BreakStmt> (gs.back ().s.back ()) || hasEnd (gs.back ().s.back ())))) return ""; gs.push_back ({});
        while (auto *c2 = dyn_cast<SwitchCase> (x)) { if (auto *cs = dyn_cast<CaseStmt> (c2)) { if (cs->getRHS ()) return ""; gs.back ().v.push_back (cs->getLHS ()); } else gs.back ().def = true; x = c2->getSubStmt (); } }
      if (gs.empty ()) return ""; gs.back ().s.push_back (x); }
    for (size_t i = 0; i < gs.size (); i++) { if (gs[i].def && i + 1 != gs.size ()) return ""; auto &v = gs[i].s; if (!v.empty () && isa<BreakStmt> (v.back ())) v.pop_back (); for (auto *s : v) if (hasBreak (s)) return ""; }
    if (!take ()) return ""; Count++;
    std::string n = "selector_" + std::to_string (Uid), o = "{\n"; PrintingPolicy PP (LO); if (LO.CPlusPlus) PP.SuppressTagKeyword = true; std::string d; { llvm::raw_string_ostream os (d); W->getCond ()->IgnoreImpCasts ()->getType ().getUnqualifiedType ().print (os, PP, n); }
    o += "const " + d + " = " + emit (W->getCond ()) + ";\n"; bool first = true;
    for (auto &g : gs) { std::string body = "{\n"; for (auto *s : g.s) body += stmtText (s) + "\n"; body += "}\n";
      if (g.def) { if (first) o += body; else o += "else " + body; } else { std::string c; for (auto *e : g.v) c += (c.empty () ? "" : " || ") + n + " == " + raw (e); o += (first ? "if (" : "else if (") + c + ") " + body; } first = false; }
    return o + "}"; }
  static bool hasEnd (const Stmt *s) { if (auto *c = dyn_cast<CompoundStmt> (s)) return !c->body_empty () && hasEnd (c->body_back ()); if (auto *e = dyn_cast<CallExpr> (s)) if (auto *f = e->getDirectCallee ()) if (f->isNoReturn ()) return true; return isa<ReturnStmt> (s); }
  struct Uses : RecursiveASTVisitor<Uses> {
    std::set<const VarDecl *> used, written, own, inmacro; bool bad = false; ASTContext &C; Uses (ASTContext &C): C (C) {}
    bool VisitDeclRefExpr (DeclRefExpr *D) { if (auto *v = dyn_cast<VarDecl> (D->getDecl ())) { if (v->isLocalVarDeclOrParm ()) { if (v->isStaticLocal ()) bad = true; used.insert (v); if (D->getLocation ().isMacroID ()) inmacro.insert (v); } } else if (isa<BindingDecl> (D->getDecl ())) bad = true; return true; }
    bool VisitVarDecl (VarDecl *v) { own.insert (v); return true; }
    bool VisitCXXThisExpr (CXXThisExpr *) { bad = true; return true; }
    bool VisitLambdaExpr (LambdaExpr *) { bad = true; return true; }
    bool VisitAddrLabelExpr (AddrLabelExpr *) { bad = true; return true; }
    void mark (const Expr *e) { e = e->IgnoreParenImpCasts (); if (auto *d = dyn_cast<DeclRefExpr> (e)) { if (auto *v = dyn_cast<VarDecl> (d->getDecl ())) written.insert (v); } else if (auto *m = dyn_cast<MemberExpr> (e)) { if (!m->isArrow ()) mark (m->getBase ()); } }
    bool VisitBinaryOperator (BinaryOperator *B) { if (B->isAssignmentOp ()) mark (B->getLHS ()); return true; }
    bool VisitUnaryOperator (UnaryOperator *U) { if (U->isIncrementDecrementOp () || U->getOpcode () == UO_AddrOf) mark (U->getSubExpr ()); return true; }
    bool VisitCallExpr (CallExpr *K) { if (auto *f = K->getDirectCallee ()) { unsigned o = isa<CXXOperatorCallExpr> (K) && isa<CXXMethodDecl> (f) ? 1 : 0; for (unsigned i = 0; i < f->getNumParams () && i + o < K->getNumArgs (); i++) if (f->getParamDecl (i)->getType ()->isReferenceType ()) mark (K->getArg (i + o)); } else for (auto *a : K->arguments ()) if (a->isLValue ()) mark (a); return true; }
  };
  std::string emitCompound (const CompoundStmt *B) {
    // extraction of a loop or branch body
    if (on ("extract") && !LO.CPlusPlus && F && B != F->getBody () && B->size () >= 2 && !hasPP (B) && !contains (B, true, true) && PtrVars.empty ()) {
      Uses u (C); u.TraverseStmt (const_cast<CompoundStmt *> (B));
      bool ok = !u.bad; std::string params, args; PrintingPolicy PP (LO); std::set<const VarDecl *> pv;
      for (auto *v : u.used) { if (u.own.count (v)) continue; QualType t = v->getType ();
        if (t->isVariableArrayType ()) ok = false;
        std::string ts = t.getAsString (PP); if (ts.find ("unnamed") != std::string::npos) ok = false;
        bool arr = t->isArrayType ();
        bool byval = arr || !u.written.count (v);
        if (!byval && u.inmacro.count (v)) ok = false;
        QualType q = arr ? C.getDecayedType (t) : byval ? t.getUnqualifiedType () : C.getPointerType (t);
        if (!byval) pv.insert (v);
        std::string nm = v->getNameAsString (), decl; llvm::raw_string_ostream os (decl); q.print (os, PP, nm); os.flush ();
        if (!params.empty ()) { params += ", "; args += ", "; } params += decl; args += (byval ? "" : "&") + nm; }
      if (raw (B).find ("sizeof") != std::string::npos) ok = false;
      if (ok && take ()) { Count++; std::string n = "extracted_" + F->getNameAsString () + "_" + std::to_string (Uid);
        PtrVars = pv; std::string body = children (B); PtrVars.clear ();
        Helpers += "static void\n" + n + " (" + (params.empty () ? "void" : params) + ")\n" + body + "\n\n";
        return "{\n" + n + " (" + args + ");\n}"; }
    }
    if (on ("extract") && LO.CPlusPlus && F && !isa<CXXMethodDecl> (F) && !F->isTemplated () && B != F->getBody () && B->size () >= 2 && !hasPP (B) && !contains (B, true, true) && F->getDeclContext ()->isTranslationUnit ()) {
      Uses u (C); u.TraverseStmt (const_cast<CompoundStmt *> (B));
      bool ok = !u.bad; std::string params, args; PrintingPolicy PP (LO); PP.SuppressTagKeyword = true;
      for (auto *v : u.used) { if (u.own.count (v)) continue; QualType t = v->getType ();
        if (t->isVariableArrayType () || t->isUndeducedType () || t->isRValueReferenceType () || t->isDependentType ()) ok = false;
        std::string ts = t.getAsString (PP); if (ts.find ("lambda") != std::string::npos || ts.find ("unnamed") != std::string::npos || ts.find ("anonymous") != std::string::npos || ts.find ("type-parameter") != std::string::npos || ts.find ("value_type") != std::string::npos) ok = false;
        if (v->getTypeSourceInfo () && v->getTypeSourceInfo ()->getType ()->getContainedAutoType ()) ok = false;
        if (auto *rt = t.getNonReferenceType ()->getAsTagDecl ()) if (rt->getParentFunctionOrMethod ()) ok = false;
        if (auto *pt = t->getPointeeType ().isNull () ? nullptr : t->getPointeeType ()->getAsTagDecl ()) if (pt->getParentFunctionOrMethod ()) ok = false;
        bool byval = !u.written.count (v) && (t->isScalarType ());
        QualType q = t; std::string nm = v->getNameAsString ();
        std::string decl; llvm::raw_string_ostream os (decl);
        if (byval) { t.getUnqualifiedType ().print (os, PP, nm); }
        else if (t->isReferenceType ()) t.print (os, PP, nm);
        else C.getLValueReferenceType (t).print (os, PP, nm);
        os.flush (); if (!params.empty ()) { params += ", "; args += ", "; } params += decl; args += nm; }
      if (ok && take ()) { Count++; std::string n = "extracted_" + F->getNameAsString () + "_" + std::to_string (Uid);
        std::string body = children (B);
        Helpers += "static void\n" + n + " (" + params + ")\n" + body + "\n\n";
        return "{\n" + n + " (" + args + ");\n}"; }
    }
    if (hasPP (B)) {
      return children (B); }
    std::string o = "{\n"; int close = 0; unsigned last;
    { unsigned b, e; off (B->getLBracLoc (), b); last = b + 1; }
    bool lastDecl = false;
    auto it = B->body_begin ();
    bool isCase = false; for (auto *s : B->body ()) if (isa<SwitchCase> (s) || isa<LabelStmt> (s)) isCase = true;
    if (isCase || hasGoto (B)) return children (B);
    for (; it != B->body_end (); ++it) {
      const Stmt *s = *it; unsigned b, e; if (!range (s, b, e)) return children (B);
      std::string t;
      const IfStmt *I = dyn_cast<IfStmt> (s);
      if (on ("earlyelse") && I && plain (I) && !I->getElse () && endsInJump (I->getThen ()) && std::next (it) != B->body_end () && !isa<CompoundStmt> (s) && !I->isConstexpr () && !I->getConditionVariable () && take ()) {
        Count++; o += emitIf (I) + "\nelse {\n"; close++; continue; }
      if (on ("elseearly") && I && plain (I) && I->getElse () && endsInJump (I->getThen ()) && !isa<IfStmt> (I->getElse ()) && std::next (it) != B->body_end () && take ()) {
        Count++; o += "if (" + emit (I->getCond ()) + ") " + block (I->getThen ()) + "\n" + block (I->getElse ()) + "\n"; continue; }
      if (auto *R = dyn_cast<ReturnStmt> (s)) if (on ("retvar") && plain (s) && R->getRetValue () && F && !F->isTemplated () && !F->getReturnType ()->isReferenceType () && !F->getReturnType ()->isUndeducedType () && (F->getReturnType ()->isScalarType ()) && plain (R->getRetValue ()) && !InLambda && take ()) {
        Count++; PrintingPolicy PP (LO); if (LO.CPlusPlus) PP.SuppressTagKeyword = true; std::string n = "ret_value_" + std::to_string (Uid), d; llvm::raw_string_ostream os (d); F->getReturnType ().getUnqualifiedType ().print (os, PP, n); os.flush ();
        o += d + " = " + emit (R->getRetValue ()) + ";\nreturn " + n + ";\n"; continue; }
      if (auto *D = dyn_cast<DeclStmt> (s)) if (on ("splitdecl") && plain (s) && D->isSingleDecl ()) if (auto *V = dyn_cast<VarDecl> (D->getSingleDecl ())) {
        QualType q = V->getType ();
        if (V->hasInit () && !V->isStaticLocal () && q->isScalarType () && !q.isConstQualified () && !q->isUndeducedType () && !V->getTypeSourceInfo ()->getType ()->getContainedAutoType () && V->getInitStyle () == VarDecl::CInit && plain (V->getInit ()) && take ()) {
          unsigned x, y; if (range (V->getInit (), x, y)) { std::string h = Buf.substr (b, x - b).str (); size_t p = h.rfind ('='); if (p != std::string::npos) { Count++; o += h.substr (0, p) + ";\n" + V->getNameAsString () + " = " + emit (V->getInit ()) + ";\n"; continue; } } } }
      if (auto *K = dyn_cast<CallExpr> (s)) if (on ("hoist") && plain (s) && !isa<CXXOperatorCallExpr> (K) && K->getDirectCallee () && F && !F->isTemplated ()) {
        std::string pre, call; unsigned at, e2; bool any = false; range (s, at, e2);
        PrintingPolicy PP (LO); if (LO.CPlusPlus) PP.SuppressTagKeyword = true;
        for (auto *A : K->arguments ()) { const Expr *a = A->IgnoreImpCasts (); unsigned x, y; if (isa<CXXDefaultArgExpr> (A) || !plain (a) || !range (a, x, y) || x < at) continue;
          QualType q = a->getType (); if (!(isa<CallExpr> (a) || isa<BinaryOperator> (a) || isa<MemberExpr> (a)) || !q->isScalarType () || q->isBooleanType () && false || q->isFunctionPointerType () || A->isLValue () || a->HasSideEffects (C) && !isa<CallExpr> (a) || q->isNullPtrType () || q->isMemberPointerType ()) continue;
          if (isa<DeclRefExpr> (a)) continue; std::string ts = q.getAsString (PP); if (ts.find ("unnamed") != std::string::npos || ts.find ("lambda") != std::string::npos || ts.find ("anonymous") != std::string::npos) continue;
          if (ts.find ("pointer") != std::string::npos || ts.find ("_type") != std::string::npos || ts.find ("reference") != std::string::npos) { q = q.getCanonicalType (); }
          if (!take ()) continue; any = true; Count++; std::string n = "hoisted_" + std::to_string (Uid), d; llvm::raw_string_ostream os (d); q.getUnqualifiedType ().print (os, PP, n); os.flush ();
          pre += d + " = " + emit (a) + ";\n"; call += Buf.substr (at, x - at).str () + n; at = y; }
        if (any) { call += Buf.substr (at, e2 - at).str (); o += "{\n" + pre + call + ";\n}\n"; continue; } }
      if (on ("reorder") && std::next (it) != B->body_end ()) { const Stmt *s2 = *std::next (it);
        auto *a1 = dyn_cast<BinaryOperator> (s), *a2 = dyn_cast<BinaryOperator> (s2);
        if (a1 && a2 && plain (a1) && plain (a2) && a1->getOpcode () == BO_Assign && a2->getOpcode () == BO_Assign && !a1->getRHS ()->HasSideEffects (C) && !a2->getRHS ()->HasSideEffects (C) && !a1->getLHS ()->HasSideEffects (C) && !a2->getLHS ()->HasSideEffects (C)) {
          auto key = [&] (const Expr *e) { e = e->IgnoreParenImpCasts (); while (auto *x = dyn_cast<ArraySubscriptExpr> (e)) e = x->getBase ()->IgnoreParenImpCasts (); if (auto *m = dyn_cast<MemberExpr> (e)) return m->getMemberDecl ()->getNameAsString (); if (auto *d = dyn_cast<DeclRefExpr> (e)) return d->getDecl ()->getNameAsString (); return std::string (); };
          std::string k1 = key (a1->getLHS ()), k2 = key (a2->getLHS ());
          if (!k1.empty () && !k2.empty () && k1 != k2 && raw (a2).find (k1) == std::string::npos && raw (a1).find (k2) == std::string::npos && take ()) { Count++; o += stmtText (s2) + "\n" + stmtText (s) + "\n"; ++it; continue; } }
        auto *d1 = dyn_cast<DeclStmt> (s), *d2 = dyn_cast<DeclStmt> (s2);
        if (d1 && d2 && plain (d1) && plain (d2) && d1->isSingleDecl () && d2->isSingleDecl ()) { auto *v1 = dyn_cast<VarDecl> (d1->getSingleDecl ()), *v2 = dyn_cast<VarDecl> (d2->getSingleDecl ());
          if (v1 && v2 && (!v1->hasInit () || !v1->getInit ()->HasSideEffects (C)) && (!v2->hasInit () || !v2->getInit ()->HasSideEffects (C)) && raw (d2).find (v1->getNameAsString ()) == std::string::npos && raw (d1).find (v2->getNameAsString ()) == std::string::npos && take ()) { Count++; o += stmtText (s2) + "\n" + stmtText (s) + "\n"; ++it; continue; } } }
      t = stmtText (s);
      o += t + "\n";
    }
    for (int i = 0; i < close; i++) o += "}\n";
    return o + "}";
  }
};

struct Rename : RecursiveASTVisitor<Rename> {
  Gen &G; std::map<const VarDecl *, std::vector<unsigned>> at; std::set<const VarDecl *> bad; Rename (Gen &G): G (G) {}
  void add (const VarDecl *v, SourceLocation L) {
    if (L.isMacroID ()) { if (!G.SM.isMacroArgExpansion (L)) { bad.insert (v); return; } L = G.SM.getSpellingLoc (L); if (L.isMacroID ()) { bad.insert (v); return; } }
    unsigned o; if (!G.off (L, o)) { bad.insert (v); return; }
    if (G.Buf.substr (o, v->getName ().size ()) != v->getName ()) { bad.insert (v); return; }
    at[v].push_back (o); }
  bool VisitVarDecl (VarDecl *v) { if (v->isLocalVarDeclOrParm () && !v->getName ().empty () && !v->isImplicit ()) add (v, v->getLocation ()); return true; }
  bool VisitDeclRefExpr (DeclRefExpr *D) { if (auto *v = dyn_cast<VarDecl> (D->getDecl ())) if (v->isLocalVarDeclOrParm () && !v->getName ().empty () && !v->isImplicit ()) add (v, D->getLocation ()); return true; }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit (ASTContext &C) override {
    Gen G (C);
    std::map<unsigned, std::pair<unsigned, std::string>> edits;
    std::vector<const FunctionDecl *> fs;
    struct V : RecursiveASTVisitor<V> { std::vector<const FunctionDecl *> &fs; V (std::vector<const FunctionDecl *> &f): fs (f) {} bool VisitFunctionDecl (FunctionDecl *f) { if (f->doesThisDeclarationHaveABody () && !f->isImplicit () && !f->isDefaulted ()) fs.push_back (f); return true; } } v (fs);
    v.TraverseDecl (C.getTranslationUnitDecl ());
    std::set<unsigned> done;
    for (auto *f : fs) {
      const Stmt *b = f->getBody (); unsigned x, y;
      if (!b || !isa<CompoundStmt> (b) || !G.plain (b) || !G.range (b, x, y)) continue;
      if (auto *m = dyn_cast<CXXMethodDecl> (f)) if (m->getParent ()->isLambda ()) continue;
      if (!done.insert (x).second) continue;
      if (on ("rename")) {
        if (G.hasPP (b)) continue;
        unsigned fb; if (!G.off (f->getBeginLoc (), fb)) continue;
        bool lam = G.raw (b).find ("[&") != std::string::npos || G.raw (b).find ("[=") != std::string::npos || G.raw (b).find ("] (") != std::string::npos;
        if (lam) continue;
        Rename r (G); r.TraverseDecl (const_cast<FunctionDecl *> (f));
        for (auto &k : r.at) if (!r.bad.count (k.first)) for (unsigned o : k.second) { unsigned n = k.first->getName ().size (); edits[o + n] = { 0, "_rn" }; G.Count++; }
        continue; }
      G.F = f; G.Helpers.clear ();
      std::string t = G.emit (b);
      edits[x] = { y - x, t };
      if (!G.Helpers.empty ()) { unsigned fb; SourceLocation L = f->getBeginLoc (); if (G.off (L, fb)) { while (fb > 0 && !(G.Buf[fb - 1] == '\n' && (fb == 1 || G.Buf[fb - 2] == '\n' ))) fb--; 
          if (f->getTemplatedKind () == FunctionDecl::TK_NonTemplate) edits[fb] = { 0, G.Helpers }; } }
    }
    if (!G.Count) return;
    std::string out; unsigned at = 0;
    for (auto &e : edits) { if (e.first < at) continue; out += G.Buf.substr (at, e.first - at).str (); out += e.second.second; at = e.first + e.second.first; }
    out += G.Buf.substr (at).str ();
    std::string fn = G.SM.getFileEntryForID (G.Main)->tryGetRealPathName ().str ();
    std::ofstream (fn) << out;
    llvm::errs () << G.Count << " " << fn << "\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance &, StringRef) override { return std::make_unique<Cons> (); } };
int main (int argc, const char **argv) {
  llvm::SmallVector<StringRef> ps; StringRef (argv[1]).split (ps, ','); for (auto p : ps) Mode.insert (p.str ());
  if (argc > 3) Stride = atoi (argv[3]); if (argc > 4) Phase = atoi (argv[4]);
  auto Buf = llvm::MemoryBuffer::getFile (argv[2]); auto Val = llvm::json::parse ((*Buf)->getBuffer ());
  for (auto &jv : *Val->getAsArray ()) { auto *o = jv.getAsObject (); std::vector<std::string> args; for (auto &a : *o->getArray ("args")) args.push_back (a.getAsString ()->str ());
    tooling::FixedCompilationDatabase DB ("/", args); tooling::ClangTool T (DB, { o->getString ("file")->str () }); T.clearArgumentsAdjusters (); T.appendArgumentsAdjuster (tooling::getClangSyntaxOnlyAdjuster ());
    T.run (tooling::newFrontendActionFactory<Act> ().get ()); }
}
