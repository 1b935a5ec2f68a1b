// fvexport: dump the type-resolved syntax tree (bodies, template instantiations, records, enums) of every
// entity defined under a source prefix as compact JSON, for the analyses in /verif/fvlint.
// usage: fvexport <prefix> <source.cpp> <out.json> -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::string Prefix, OutPath;

namespace {

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;
  std::map<std::string, int> files;
  std::vector<std::string> fileList;
  std::map<const FunctionDecl *, std::string> fkeys;
  J::Object fnDecls;  // key -> info on every referenced function
  std::set<const CXXRecordDecl *> recs;
  std::vector<const CXXRecordDecl *> recQueue;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), NG(c) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[D] = n;
    return n;
  }
  int ty(QualType T) {
    std::string s = T.isNull() ? "?" : T.getCanonicalType().getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = (int)typeList.size();
    types[s] = n;
    typeList.push_back(s);
    return n;
  }
  int file(const std::string &f) {
    auto it = files.find(f);
    if (it != files.end()) return it->second;
    int n = (int)fileList.size();
    files[f] = n;
    fileList.push_back(f);
    return n;
  }
  bool inPrefix(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    return llvm::StringRef(P.getFilename()).starts_with(Prefix);
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return (int)SM.getExpansionLineNumber(L);
  }
  std::string fileName(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isInvalid() ? "" : P.getFilename();
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream o(s);
    D->getNameForDiagnostic(o, PP, true);
    return o.str();
  }
  std::string fkey(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = fkeys.find(F);
    if (it != fkeys.end()) return it->second;
    std::string m;
    if (F->isDependentContext() || F->isTemplated()) m = "";
    else if (F->getLanguageLinkage() == CLanguageLinkage) m = F->getNameAsString();
    else m = NG.getName(F);
    if (m.empty()) m = "dep:" + qname(F) + "@" + fileName(F->getLocation()) + ":" + std::to_string(line(F->getLocation()));
    if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) m += "#" + fileName(F->getLocation());
    fkeys[F] = m;
    J::Object o;
    o["name"] = F->getNameAsString();
    o["q"] = qname(F);
    o["ret"] = ty(F->getReturnType());
    J::Array ps;
    for (auto *p : F->parameters()) {
      J::Object po{{"n", p->getNameAsString()}, {"t", ty(p->getType())}};
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    o["file"] = file(fileName(F->getLocation()));
    o["line"] = line(F->getLocation());
    o["in"] = inPrefix(F->getLocation());
    if (F->isVariadic()) o["variadic"] = true;
    if (F->isNoReturn()) o["noreturn"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent());
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isPureVirtual()) o["pure"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (M->isImplicit() || M->isDefaulted()) o["implicit"] = true;
      J::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(fkey(b));
      if (!ov.empty()) o["overrides"] = std::move(ov);
    }
    fnDecls[m] = std::move(o);
    return m;
  }

  void base(J::Object &o, const Stmt *S) {
    SourceLocation B = S->getBeginLoc();
    if (auto *m = dyn_cast<CXXMemberCallExpr>(S)) B = m->getExprLoc();
    o["l"] = line(B);
    if (B.isValid() && B.isMacroID()) {
      SourceLocation L = B;
      std::string nm;
      while (L.isMacroID()) {
        nm = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
        if (SM.isMacroArgExpansion(L)) L = SM.getImmediateExpansionRange(L).getBegin();
        else L = SM.getImmediateExpansionRange(L).getBegin();
      }
      o["mac"] = nm;
    }
  }

  J::Value var(const VarDecl *V, bool withInit = true) {
    J::Object o;
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
    if (auto *AT = C.getAsConstantArrayType(V->getType())) {
      J::Array dims;
      QualType T = V->getType();
      while (auto *A = C.getAsConstantArrayType(T)) {
        dims.push_back((int64_t)A->getSize().getZExtValue());
        T = A->getElementType();
      }
      o["dims"] = std::move(dims);
      (void)AT;
    }
    if (withInit && V->hasInit()) {
      o["init"] = expr(V->getInit());
      o["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : "call";
    }
    return J::Value(std::move(o));
  }

  J::Value constVal(const Expr *E, bool &ok) {
    ok = false;
    if (E->isValueDependent() || E->isTypeDependent()) return nullptr;
    QualType T = E->getType();
    if (!(T->isIntegralOrEnumerationType())) return nullptr;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
      ok = true;
      if (R.HasSideEffects) { ok = false; return nullptr; }
      if (T->isBooleanType()) return J::Value(R.Val.getInt().getBoolValue());
      if (R.Val.getInt().getActiveBits() > 63 && !R.Val.getInt().isSigned()) { ok = false; return nullptr; }
      return J::Value((int64_t)R.Val.getInt().getExtValue());
    }
    return nullptr;
  }

  J::Value exprArr(llvm::ArrayRef<const Expr *> A) {
    J::Array a;
    for (auto *e : A) a.push_back(expr(e));
    return J::Value(std::move(a));
  }
  template <class R> J::Value args(R &&range) {
    J::Array a;
    for (const auto *e : range) a.push_back(expr(cast<Expr>(e)));
    return J::Value(std::move(a));
  }

  J::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // strip wrappers with no semantics of their own
    while (true) {
      if (auto *x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ExprWithCleanups>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<FullExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<OpaqueValueExpr>(E)) { if (x->getSourceExpr()) { E = x->getSourceExpr(); continue; } }
      if (auto *x = dyn_cast<ImplicitCastExpr>(E)) {
        switch (x->getCastKind()) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_FloatingCast:
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
        case CK_NullToPointer:
        case CK_UserDefinedConversion: case CK_ConstructorConversion: break;
        default: E = x->getSubExpr(); continue;
        }
      }
      break;
    }
    J::Object o;
    base(o, E);
    o["t"] = ty(E->getType());
    bool ok;
    J::Value cv = constVal(E, ok);
    if (ok) o["cv"] = std::move(cv);

    if (auto *x = dyn_cast<IntegerLiteral>(E)) { o["k"] = "Int"; (void)x; return o; }
    if (isa<CharacterLiteral>(E)) { o["k"] = "Int"; return o; }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "Int"; (void)x; return o; }
    if (auto *x = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "Float";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 20);
      o["v"] = s.str().str();
      // exact source spelling so that 0.1 is the rational 1/10
      SourceLocation L = SM.getSpellingLoc(x->getLocation());
      o["src"] = Lexer::getSourceText(CharSourceRange::getTokenRange(L), SM, C.getLangOpts()).str();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(E)) { o["k"] = "Str"; if (x->isOrdinary()) o["v"] = J::fixUTF8(x->getString()); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "Null"; return o; }
    if (isa<CXXThisExpr>(E)) { o["k"] = "This"; return o; }
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "FnRef"; o["fn"] = fkey(F); return o; }
      o["k"] = "Ref";
      o["id"] = id(D);
      o["n"] = D->getNameAsString();
      if (isa<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["q"] = qname(D); }
      else if (isa<ParmVarDecl>(D)) o["dk"] = "param";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDecl()) o["dk"] = V->isStaticLocal() ? "slocal" : "local";
        else { o["dk"] = "global"; o["q"] = qname(V);
          if (V->getAnyInitializer() && V->getType().isConstQualified() && V->getType()->isFloatingType() && inPrefix(V->getLocation()))
            o["ginit"] = expr(V->getAnyInitializer()); }
        if (V->getType().getNonReferenceType().isConstQualified()) o["const"] = true;
      } else o["dk"] = "other";
      return o;
    }
    if (auto *x = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = x->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "FnRef"; o["fn"] = fkey(F); o["b"] = expr(x->getBase()); return o; }
      o["k"] = "Mem";
      o["n"] = D->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(D)) { o["cls"] = qname(cast<NamedDecl>(FD->getParent())); needRec(dyn_cast<CXXRecordDecl>(FD->getParent())); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "Ref"; o["dk"] = "global"; o["q"] = qname(V); o["id"] = id(V);
         if (V->getAnyInitializer() && V->getType()->isFloatingType() && inPrefix(V->getLocation())) o["ginit"] = expr(V->getAnyInitializer()); return o; }
      o["b"] = expr(x->getBase());
      if (x->isArrow()) o["arrow"] = true;
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "Sub"; o["b"] = expr(x->getBase()); o["i"] = expr(x->getIdx()); return o; }
    if (auto *x = dyn_cast<UnaryOperator>(E)) { o["k"] = "Un"; o["op"] = (x->isPostfix() ? "post" : "") + UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["e"] = expr(x->getSubExpr()); return o; }
    if (auto *x = dyn_cast<BinaryOperator>(E)) {
      o["k"] = x->isAssignmentOp() ? "Asg" : "Bin"; o["op"] = x->getOpcodeStr().str();
      o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); return o;
    }
    if (auto *x = dyn_cast<AbstractConditionalOperator>(E)) { o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr()); return o; }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      o["k"] = "Call"; o["opc"] = std::string("operator") + getOperatorSpelling(x->getOperator());
      if (auto *F = x->getDirectCallee()) { o["fn"] = fkey(F); needRecOf(F); if (isa<CXXMethodDecl>(F)) o["memop"] = true; }
      o["args"] = args(x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      o["k"] = "Call"; 
      if (auto *F = x->getMethodDecl()) { o["fn"] = fkey(F); needRecOf(F);
        if (F->isVirtual()) {
          const auto *ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
          if (ME && ME->performsVirtualDispatch(C.getLangOpts())) o["virt"] = true;
        } }
      else o["callee"] = expr(x->getCallee());
      o["obj"] = expr(x->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) if (ME->isArrow()) o["arrow"] = true;
      o["args"] = args(x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CallExpr>(E)) {
      o["k"] = "Call";
      if (auto *F = x->getDirectCallee()) { o["fn"] = fkey(F); needRecOf(F); }
      else o["callee"] = expr(x->getCallee());
      o["args"] = args(x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "Ctor"; o["fn"] = fkey(x->getConstructor()); needRec(x->getConstructor()->getParent());
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (x->isElidable()) o["elide"] = true;
      if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
      o["args"] = args(x->arguments()); return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "New"; o["at"] = ty(x->getAllocatedType());
      if (auto sz = x->getArraySize()) o["size"] = expr(*sz);
      if (x->isArray()) o["array"] = true;
      if (x->getInitializer()) o["init"] = expr(x->getInitializer());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(E)) { o["k"] = "Delete"; o["e"] = expr(x->getArgument()); if (x->isArrayForm()) o["array"] = true; return o; }
    if (auto *x = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "Throw"; if (x->getSubExpr()) o["e"] = expr(x->getSubExpr()); return o; }
    if (auto *x = dyn_cast<InitListExpr>(E)) {
      if (!x->isSemanticForm() && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"] = "Init"; o["args"] = args(x->inits());
      return o; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "Zero"; return o; }
    if (auto *x = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "Lambda"; J::Array caps;
      for (auto &c : x->captures()) { J::Object co; co["kind"] = c.getCaptureKind() == LCK_ByRef ? "ref" : (c.getCaptureKind() == LCK_This ? "this" : "copy");
        if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); } caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps);
      if (auto *op = x->getCallOperator()) {
        J::Array ps; for (auto *p : op->parameters()) ps.push_back(var(p, false));
        o["params"] = std::move(ps); o["fn"] = fkey(op);
        if (!op->isTemplated() && op->getBody()) o["body"] = stmt(op->getBody());
      }
      return o;
    }
    if (auto *x = dyn_cast<CastExpr>(E)) {
      o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr()); if (isa<ExplicitCastExpr>(x)) o["explicit"] = true; return o; }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { o["k"] = "Sizeof"; if (x->isArgumentType()) o["at"] = ty(x->getArgumentType()); else o["at"] = ty(x->getArgumentExpr()->getType()); return o; }
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"] = "StdInit"; o["e"] = expr(x->getSubExpr()); return o; }
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "ArrInit"; o["e"] = expr(x->getCommonExpr()); return o; }
    o["k"] = "Other"; o["cls"] = E->getStmtClassName();
    J::Array ch; for (auto *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(expr(ce));
    o["args"] = std::move(ch);
    return o;
  }

  J::Value clause(const OMPClause *c) {
    J::Object o;
    o["kind"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
    J::Array vs;
    auto add = [&](const Expr *e) { vs.push_back(expr(e)); };
    if (auto *x = dyn_cast<OMPPrivateClause>(c)) for (auto *e : x->varlists()) add(e);
    else if (auto *x = dyn_cast<OMPFirstprivateClause>(c)) for (auto *e : x->varlists()) add(e);
    else if (auto *x = dyn_cast<OMPLastprivateClause>(c)) for (auto *e : x->varlists()) add(e);
    else if (auto *x = dyn_cast<OMPSharedClause>(c)) for (auto *e : x->varlists()) add(e);
    else if (auto *x = dyn_cast<OMPReductionClause>(c)) { for (auto *e : x->varlists()) add(e); o["op"] = x->getNameInfo().getAsString(); }
    else if (auto *x = dyn_cast<OMPDefaultClause>(c)) o["dk"] = (int64_t)x->getDefaultKind();
    else if (auto *x = dyn_cast<OMPIfClause>(c)) o["cond"] = expr(x->getCondition());
    else if (auto *x = dyn_cast<OMPNumThreadsClause>(c)) o["n"] = expr(x->getNumThreads());
    if (!vs.empty()) o["vars"] = std::move(vs);
    return o;
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { J::Object o; base(o, S); o["k"] = "Expr"; o["e"] = expr(E); return o; }
    J::Object o;
    base(o, S);
    if (auto *x = dyn_cast<CompoundStmt>(S)) { o["k"] = "Block"; J::Array b; for (auto *c : x->body()) b.push_back(stmt(c)); o["body"] = std::move(b); o["endl"] = line(x->getRBracLoc()); return o; }
    if (auto *x = dyn_cast<DeclStmt>(S)) { o["k"] = "Decl"; J::Array v; for (auto *d : x->decls()) if (auto *V = dyn_cast<VarDecl>(d)) v.push_back(var(V)); o["vars"] = std::move(v); return o; }
    if (auto *x = dyn_cast<IfStmt>(S)) { o["k"] = "If"; if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cvar"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = stmt(x->getElse()); return o; }
    if (auto *x = dyn_cast<ForStmt>(S)) { o["k"] = "For"; o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["inc"] = expr(x->getInc()); o["body"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<CXXForRangeStmt>(S)) { o["k"] = "ForRange"; o["var"] = var(x->getLoopVariable(), false); o["range"] = expr(x->getRangeInit()); o["body"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<WhileStmt>(S)) { o["k"] = "While"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<DoStmt>(S)) { o["k"] = "Do"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<ReturnStmt>(S)) { o["k"] = "Return"; o["e"] = expr(x->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { o["k"] = "Break"; return o; }
    if (isa<ContinueStmt>(S)) { o["k"] = "Continue"; return o; }
    if (isa<NullStmt>(S)) { o["k"] = "Nop"; return o; }
    if (auto *x = dyn_cast<SwitchStmt>(S)) { o["k"] = "Switch"; o["c"] = expr(x->getCond()); o["body"] = stmt(x->getBody()); return o; }
    if (auto *x = dyn_cast<CaseStmt>(S)) { o["k"] = "Case"; o["v"] = expr(x->getLHS()); o["body"] = stmt(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<DefaultStmt>(S)) { o["k"] = "Default"; o["body"] = stmt(x->getSubStmt()); return o; }
    if (auto *x = dyn_cast<LabelStmt>(S)) { o["k"] = "Label"; o["n"] = x->getName(); o["body"] = stmt(x->getSubStmt()); return o; }
    if (isa<GotoStmt>(S)) { o["k"] = "Goto"; return o; }
    if (auto *x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<CapturedStmt>(S)) return stmt(x->getCapturedStmt());
    if (auto *x = dyn_cast<CXXTryStmt>(S)) { o["k"] = "Try"; o["body"] = stmt(x->getTryBlock()); J::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) { auto *c = x->getHandler(i); J::Object ho; ho["l"] = line(c->getBeginLoc());
        if (c->getExceptionDecl()) { ho["var"] = var(c->getExceptionDecl(), false); } ho["ct"] = c->getCaughtType().isNull() ? J::Value("...") : J::Value(ty(c->getCaughtType()));
        ho["body"] = stmt(c->getHandlerBlock()); h.push_back(std::move(ho)); }
      o["handlers"] = std::move(h); return o; }
    if (auto *x = dyn_cast<OMPExecutableDirective>(S)) { o["k"] = "Omp"; o["dir"] = llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str();
      J::Array cl; for (auto *c : x->clauses()) cl.push_back(clause(c)); o["clauses"] = std::move(cl);
      o["l"] = line(x->getBeginLoc());
      if (auto *cd = dyn_cast<OMPCriticalDirective>(x)) o["name"] = cd->getDirectiveName().getAsString();
      if (x->hasAssociatedStmt() && x->getAssociatedStmt()) { const Stmt *b = x->getRawStmt(); o["body"] = stmt(b); }
      return o; }
    o["k"] = "OtherS"; o["cls"] = S->getStmtClassName();
    return o;
  }

  void needRecOf(const FunctionDecl *F) { if (auto *M = dyn_cast<CXXMethodDecl>(F)) needRec(M->getParent()); }
  void needRec(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition(); if (!R) return;
    if (recs.insert(R).second) recQueue.push_back(R);
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D; J::Object &fns; J::Object &records; J::Array &enums; J::Array &globals; std::vector<const FunctionDecl *> list; J::Array &patterns;
  V(Dumper &d, J::Object &f, J::Object &r, J::Array &e, J::Array &g, J::Array &p) : D(d), fns(f), records(r), enums(e), globals(g), patterns(p) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!D.inPrefix(F->getLocation())) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext() || F->isTemplated()) {
      J::Object o; o["q"] = D.qname(F); o["name"] = F->getNameAsString(); o["file"] = D.file(D.fileName(F->getLocation())); o["line"] = D.line(F->getLocation());
      patterns.push_back(std::move(o)); return true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string k = D.fkey(F);
    if (fns.get(k)) return true;
    J::Object o;
    o["q"] = D.qname(F); o["name"] = F->getNameAsString(); o["file"] = D.file(D.fileName(F->getLocation())); o["line"] = D.line(F->getLocation());
    J::Array ps; for (auto *p : F->parameters()) ps.push_back(D.var(p, false));
    o["params"] = std::move(ps); o["ret"] = D.ty(F->getReturnType());
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) {
      J::Array ini;
      for (auto *i : c->inits()) { J::Object io;
        if (i->isAnyMemberInitializer()) io["m"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = D.ty(QualType(i->getBaseClass(), 0)); else io["deleg"] = true;
        io["written"] = i->isWritten(); io["e"] = D.expr(i->getInit()); io["l"] = D.line(i->getSourceLocation()); ini.push_back(std::move(io)); }
      o["inits"] = std::move(ini);
    }
    o["body"] = D.stmt(F->getBody());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = D.qname(M->getParent()); D.needRec(M->getParent()); }
    fns[k] = std::move(o);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (D.inPrefix(R->getLocation())) D.needRec(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!D.inPrefix(E->getLocation()) || !E->isThisDeclarationADefinition()) return true;
    J::Object o; o["q"] = D.qname(E); o["file"] = D.file(D.fileName(E->getLocation())); o["line"] = D.line(E->getLocation());
    J::Array c; for (auto *e : E->enumerators()) { J::Object eo; eo["n"] = e->getNameAsString(); eo["v"] = (int64_t)e->getInitVal().getExtValue(); c.push_back(std::move(eo)); }
    o["consts"] = std::move(c); enums.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *X) {
    if (X->isLocalVarDeclOrParm() || !D.inPrefix(X->getLocation()) || X->getDeclContext()->isDependentContext() || X->isTemplated()) return true;
    J::Object o = std::move(*D.var(X).getAsObject()); o["q"] = D.qname(X); o["file"] = D.file(D.fileName(X->getLocation())); globals.push_back(std::move(o)); return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "fvexport: errors in translation unit\n"; }
    Dumper D(C);
    J::Object fns, records; J::Array enums, globals, patterns;
    V v(D, fns, records, enums, globals, patterns);
    v.TraverseDecl(C.getTranslationUnitDecl());
    for (size_t i = 0; i < D.recQueue.size(); i++) {
      auto *R = D.recQueue[i];
      if (!D.inPrefix(R->getLocation())) continue;
      J::Object o; o["q"] = D.qname(R); o["name"] = R->getNameAsString(); o["file"] = D.file(D.fileName(R->getLocation())); o["line"] = D.line(R->getLocation());
      J::Array fl; for (auto *f : R->fields()) { J::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = D.ty(f->getType()); fo["l"] = D.line(f->getLocation()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = D.expr(f->getInClassInitializer());
        if (f->getType()->isReferenceType()) fo["ref"] = true;
        if (auto *A = C.getAsConstantArrayType(f->getType())) { J::Array dims; QualType T = f->getType(); while (auto *B = C.getAsConstantArrayType(T)) { dims.push_back((int64_t)B->getSize().getZExtValue()); T = B->getElementType(); } fo["dims"] = std::move(dims); (void)A; }
        fo["scalar"] = f->getType()->isScalarType(); fl.push_back(std::move(fo)); }
      o["fields"] = std::move(fl);
      J::Array bs; for (auto &b : R->bases()) { if (auto *BR = b.getType()->getAsCXXRecordDecl()) { bs.push_back(D.qname(BR)); D.needRec(BR); } }
      o["bases"] = std::move(bs);
      o["abstract"] = R->isAbstract();
      o["agg"] = R->isAggregate();
      J::Array ms; for (auto *m : R->methods()) { if (m->isImplicit()) continue; ms.push_back(D.fkey(m)); }
      o["methods"] = std::move(ms);
      auto *ud = R->getDestructor(); o["userdtor"] = ud && ud->isUserProvided();
      o["pod"] = R->isPOD();
      records[D.qname(R)] = std::move(o);
    }
    J::Object top;
    top["fns"] = std::move(fns); top["records"] = std::move(records); top["enums"] = std::move(enums); top["globals"] = std::move(globals); top["patterns"] = std::move(patterns);
    top["decls"] = std::move(D.fnDecls);
    J::Array tl; for (auto &t : D.typeList) tl.push_back(t); top["types"] = std::move(tl);
    J::Array fl; for (auto &t : D.fileList) fl.push_back(t); top["files"] = std::move(fl);
    top["errors"] = C.getDiagnostics().hasErrorOccurred();
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec);
    os << J::Value(std::move(top));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
class Factory : public tooling::FrontendActionFactory {
public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } };
}

int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  Prefix = argv[1]; std::string src = argv[2]; OutPath = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {src});
  Factory f;
  return tool.run(&f);
}
