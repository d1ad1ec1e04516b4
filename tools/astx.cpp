// astx: dump the resolved, typed syntax of one translation unit as JSON lines.
// Only declarations whose spelling lies below --root are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/";

struct Dumper {
  ASTContext &C;
  const SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> localIds;
  json::Array out;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getNonReferenceType().getUnqualifiedType();
    T = T.getCanonicalType().getUnqualifiedType();
    return T.getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), B)) return "";
    return std::string(B.str());
  }
  int lid(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = localIds.find(D);
    if (it != localIds.end()) return it->second;
    int n = localIds.size() + 1;
    localIds[D] = n;
    return n;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  std::string pathOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFileEntryForID(SM.getFileID(L));
    if (!FE) return "";
    return std::string(FE->tryGetRealPathName());
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string p = pathOf(L);
    return p.rfind(Root, 0) == 0 && p.find("/lib/") == std::string::npos;
  }
  int line(SourceLocation L) {
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    return P.isInvalid() ? 0 : P.getLine();
  }
  json::Value declRef(const ValueDecl *D) {
    json::Object o;
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm() ) {
        o["d"] = isa<ParmVarDecl>(V) ? "parm" : (V->isStaticLocal() ? "slocal" : "local");
        o["id"] = lid(V);
      } else { o["d"] = "global"; o["u"] = usr(V); }
      o["n"] = V->getNameAsString();
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      o["d"] = "fn"; o["u"] = usr(F); o["n"] = F->getQualifiedNameAsString();
    } else if (auto *F = dyn_cast<FieldDecl>(D)) {
      o["d"] = "field"; o["u"] = usr(F); o["n"] = F->getQualifiedNameAsString();
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      o["d"] = "enum"; o["n"] = E->getQualifiedNameAsString();
      o["v"] = (int64_t)E->getInitVal().getSExtValue();
    } else { o["d"] = "other"; o["n"] = D->getQualifiedNameAsString(); }
    return std::move(o);
  }
  void addCallee(json::Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["u"] = usr(F);
    o["n"] = F->getQualifiedNameAsString();
    json::Array ref;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      if (T->isReferenceType()) ref.push_back(T->getPointeeType().isConstQualified() ? 2 : 1);
      else ref.push_back(0);
    }
    o["pr"] = std::move(ref);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["constm"] = true;
      o["cls"] = usr(M->getParent());
    }
    if (F->isNoReturn()) o["noret"] = true;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    // transparent wrappers
    if (auto *E = dyn_cast<ParenExpr>(S)) {
      // a whole macro body written in parentheses keeps the macro's name
      json::Value v = stmt(E->getSubExpr());
      if (E->getBeginLoc().isMacroID()) {
        StringRef m = Lexer::getImmediateMacroName(E->getBeginLoc(), SM, C.getLangOpts());
        if (auto *ob = v.getAsObject())
          if (!ob->get("mac")) (*ob)["mac"] = m.str();
      }
      return v;
    }
    if (auto *E = dyn_cast<ExprWithCleanups>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<ConstantExpr>(S)) return stmt(E->getSubExpr());
    if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(E->getReplacement());
    if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(E->getExpr());
    if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
      switch (E->getCastKind()) {
      case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_UserDefinedConversion:
      case CK_IntegralCast: case CK_PointerToBoolean: case CK_IntegralToBoolean:
      case CK_FloatingToBoolean: break;
      default: return stmt(E->getSubExpr());
      }
    }
    if (auto *E = dyn_cast<OMPExecutableDirective>(S)) {
      json::Object o;
      o["k"] = "OMP";
      o["dk"] = llvm::omp::getOpenMPDirectiveName(E->getDirectiveKind()).str();
      o["l"] = line(E->getBeginLoc()); o["f"] = file(E->getBeginLoc());
      json::Array cl;
      for (auto *c : E->clauses()) {
        json::Object co;
        co["c"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        json::Array vs;
        for (auto *ch : c->children())
          if (auto *dr = dyn_cast_or_null<DeclRefExpr>(ch)) vs.push_back(declRef(dr->getDecl()));
        co["vars"] = std::move(vs);
        if (auto *cc = dyn_cast<OMPCollapseClause>(c)) {
          Expr::EvalResult ev;
          if (cc->getNumForLoops() && cc->getNumForLoops()->EvaluateAsInt(ev, C)) co["n"] = ev.Val.getInt().getExtValue();
        }
        cl.push_back(std::move(co));
      }
      o["cl"] = std::move(cl);
      json::Array ch;
      if (E->hasAssociatedStmt()) ch.push_back(stmt(E->getRawStmt()));
      o["c"] = std::move(ch);
      return std::move(o);
    }
    if (auto *E = dyn_cast<CapturedStmt>(S)) return stmt(E->getCapturedStmt());
    json::Object o;
    o["k"] = S->getStmtClassName();
    o["l"] = line(S->getBeginLoc());
    if (SM.getExpansionLoc(S->getBeginLoc()).isValid()) o["f"] = file(S->getBeginLoc());
    if (S->getBeginLoc().isMacroID())
      o["mac"] = Lexer::getImmediateMacroName(S->getBeginLoc(), SM, C.getLangOpts()).str();
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"] = ty(E->getType());
      if (!E->isValueDependent() && !E->isTypeDependent() && E->isPRValue() &&
          (E->getType()->isArithmeticType())) {
        Expr::EvalResult R;
        if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
          if (R.Val.isInt()) o["cv"] = (int64_t)R.Val.getInt().getExtValue();
          else if (R.Val.isFloat()) {
            bool li; llvm::APFloat f = R.Val.getFloat();
            f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
            double d = f.convertToDouble();
            if (std::isfinite(d)) o["cv"] = d;
          }
        }
      }
    }
    json::Array ch;
    auto kids = [&](const Stmt *S) { for (auto *c : S->children()) ch.push_back(stmt(c)); };
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      o["ref"] = declRef(E->getDecl());
      if (E->refersToEnclosingVariableOrCapture()) o["cap"] = true;
    } else if (auto *E = dyn_cast<MemberExpr>(S)) {
      o["ref"] = declRef(E->getMemberDecl());
      if (E->isArrow()) o["arrow"] = true;
      ch.push_back(stmt(E->getBase()));
    } else if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      o["v"] = (int64_t)E->getValue().getSExtValue();
    } else if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      o["v"] = E->getValueAsApproximateDouble();
    } else if (auto *E = dyn_cast<clang::StringLiteral>(S)) {
      if (E->isOrdinary() || E->isUTF8()) o["s"] = json::fixUTF8(E->getString());
    } else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      o["v"] = E->getValue();
    } else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      o["op"] = E->getOpcodeStr().str(); kids(S);
    } else if (auto *E = dyn_cast<UnaryOperator>(S)) {
      o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      if (E->isPostfix()) o["post"] = true;
      kids(S);
    } else if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      o["op"] = getOperatorSpelling(E->getOperator());
      if (auto *F = E->getDirectCallee()) addCallee(o, F);
      for (auto *a : E->arguments()) ch.push_back(stmt(a));
    } else if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      if (auto *F = E->getMethodDecl()) addCallee(o, F);
      ch.push_back(stmt(E->getImplicitObjectArgument()));
      if (auto *M = dyn_cast<MemberExpr>(E->getCallee()->IgnoreParenImpCasts()))
        if (M->hasQualifier()) o["qual"] = true;
      for (auto *a : E->arguments()) ch.push_back(stmt(a));
    } else if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) addCallee(o, F);
      else o["callee"] = stmt(E->getCallee());
      for (auto *a : E->arguments()) ch.push_back(stmt(a));
    } else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      addCallee(o, E->getConstructor());
      if (E->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      for (auto *a : E->arguments()) ch.push_back(stmt(a));
    } else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      o["array"] = E->isArray();
      o["at"] = ty(E->getAllocatedType());
      if (E->isArray() && E->getArraySize()) o["size"] = stmt(*E->getArraySize());
      if (E->getInitializer()) ch.push_back(stmt(E->getInitializer()));
    } else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      o["array"] = E->isArrayForm();
      ch.push_back(stmt(E->getArgument()));
    } else if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
      ch.push_back(stmt(E->getExpr()));
    } else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      (void)E; // value is in cv
      o["ut"] = ty(E->getTypeOfArgument());
    } else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      json::Array ps;
      for (auto *P : E->getCallOperator()->parameters()) ps.push_back(param(P));
      o["params"] = std::move(ps);
      o["op_u"] = usr(E->getCallOperator());
      o["op_id"] = lid(E->getCallOperator());
      json::Array caps;
      for (auto &c : E->captures()) if (c.capturesVariable()) {
        json::Object co; co["ref"] = declRef(c.getCapturedVar());
        co["byref"] = c.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(co)); }
      o["caps"] = std::move(caps);
      o["rt"] = ty(E->getCallOperator()->getReturnType());
      ch.push_back(stmt(E->getBody()));
    } else if (auto *E = dyn_cast<InitListExpr>(S)) {
      const InitListExpr *I = E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E);
      for (auto *c : I->inits()) ch.push_back(stmt(c));
    } else if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
      o["ck"] = E->getCastKindName();
      ch.push_back(stmt(E->getSubExpr()));
    } else if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
      o["ck"] = E->getCastKindName();
      o["from"] = ty(E->getSubExpr()->getType());
      ch.push_back(stmt(E->getSubExpr()));
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      for (auto *d : D->decls()) ch.push_back(decl(d));
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      if (I->getConditionVariable()) o["cvar"] = decl(I->getConditionVariable());
      if (I->getInit()) o["init"] = stmt(I->getInit());
      ch.push_back(stmt(I->getCond())); ch.push_back(stmt(I->getThen())); ch.push_back(stmt(I->getElse()));
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      ch.push_back(stmt(F->getInit())); ch.push_back(stmt(F->getCond()));
      ch.push_back(stmt(F->getInc())); ch.push_back(stmt(F->getBody()));
    } else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      o["var"] = decl(F->getLoopVariable());
      ch.push_back(stmt(F->getRangeInit())); ch.push_back(stmt(F->getBody()));
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      ch.push_back(stmt(W->getCond())); ch.push_back(stmt(W->getBody()));
    } else if (auto *Sw = dyn_cast<SwitchStmt>(S)) {
      ch.push_back(stmt(Sw->getCond())); ch.push_back(stmt(Sw->getBody()));
    } else if (auto *Cs = dyn_cast<CaseStmt>(S)) {
      ch.push_back(stmt(Cs->getLHS())); ch.push_back(stmt(Cs->getSubStmt()));
    } else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      ch.push_back(stmt(T->getTryBlock()));
      for (unsigned i = 0; i < T->getNumHandlers(); i++) ch.push_back(stmt(T->getHandler(i)));
    } else if (auto *H = dyn_cast<CXXCatchStmt>(S)) {
      o["ct"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : std::string("...");
      if (H->getExceptionDecl()) o["var"] = decl(H->getExceptionDecl());
      ch.push_back(stmt(H->getHandlerBlock()));
    } else kids(S);
    if (!ch.empty()) o["c"] = std::move(ch);
    return std::move(o);
  }
  json::Value param(const ParmVarDecl *P) {
    json::Object po;
    po["id"] = lid(P); po["n"] = P->getNameAsString(); po["t"] = ty(P->getType());
    QualType T = P->getType();
    po["r"] = T->isReferenceType() ? (T->getPointeeType().isConstQualified() ? 2 : 1) : 0;
    return std::move(po);
  }
  json::Value decl(const Decl *D) {
    json::Object o;
    if (auto *V = dyn_cast<VarDecl>(D)) {
      o["k"] = "Var"; o["id"] = lid(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
      if (V->getType()->isReferenceType()) o["r"] = true;
      if (V->isStaticLocal()) o["static"] = true;
      if (V->getType().isConstQualified()) o["const"] = true;
      if (auto *VT = dyn_cast_or_null<ConstantArrayType>(V->getType()->getAsArrayTypeUnsafe())) o["asize"] = (int64_t)VT->getSize().getZExtValue();
      o["l"] = line(V->getLocation()); o["f"] = file(V->getLocation());
      if (V->getInit()) o["init"] = stmt(V->getInit());
    } else { o["k"] = D->getDeclKindName(); }
    return std::move(o);
  }
  void function(const FunctionDecl *F) {
    localIds.clear();
    json::Object o;
    o["kind"] = "function"; o["u"] = usr(F); o["n"] = F->getQualifiedNameAsString();
    o["l"] = line(F->getLocation()); o["f"] = pathOf(F->getLocation());
    o["rt"] = ty(F->getReturnType());
    o["retref"] = F->getReturnType()->isReferenceType();
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(param(P));
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = usr(M->getParent()); o["clsn"] = M->getParent()->getQualifiedNameAsString();
      QualType ct = C.getRecordType(M->getParent());
      o["clst"] = ty(ct);
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      json::Array ov;
      for (auto *b : M->overridden_methods()) ov.push_back(usr(b));
      o["over"] = std::move(ov);
      o["access"] = (int)M->getAccess();
    }
    if (auto *Ct = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      json::Array in;
      for (auto *I : Ct->inits()) {
        json::Object io;
        io["l"] = line(I->getSourceLocation());
        io["written"] = I->isWritten();
        if (I->isMemberInitializer()) io["field"] = declRef(I->getMember());
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else io["deleg"] = true;
        io["e"] = stmt(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = stmt(F->getBody());
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
  void record(const CXXRecordDecl *R) {
    json::Object o;
    o["kind"] = "record"; o["u"] = usr(R); o["n"] = R->getQualifiedNameAsString();
    o["t"] = ty(C.getRecordType(R)); o["l"] = line(R->getLocation()); o["f"] = pathOf(R->getLocation());
    json::Array fs;
    for (auto *f : R->fields()) {
      json::Object fo; fo["u"] = usr(f); fo["n"] = f->getQualifiedNameAsString(); fo["s"] = f->getNameAsString();
      fo["t"] = ty(f->getType()); fo["l"] = line(f->getLocation());
      fo["ref"] = f->getType()->isReferenceType();
      if (f->hasInClassInitializer()) fo["init"] = stmt(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs;
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    json::Array ms;
    for (auto *m : R->methods()) {
      json::Object mo; mo["u"] = usr(m); mo["n"] = m->getQualifiedNameAsString(); mo["s"] = m->getNameAsString();
      mo["virt"] = m->isVirtual(); mo["pure"] = m->isPureVirtual(); mo["access"] = (int)m->getAccess();
      mo["rt"] = ty(m->getReturnType()); mo["implicit"] = m->isImplicit();
      json::Array ps; for (auto *P : m->parameters()) ps.push_back(param(P));
      mo["params"] = std::move(ps);
      json::Array ov; for (auto *b : m->overridden_methods()) ov.push_back(usr(b));
      mo["over"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper D;
  Visitor(ASTContext &C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (F->isDefaulted() || F->isDeleted()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!F->getBody()) return true;
    D.function(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!D.inRoot(R->getLocation())) return true;
    D.record(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || V->getDeclContext()->isDependentContext() || isa<ParmVarDecl>(V)) return true;
    if (!D.inRoot(V->getLocation())) return true;
    json::Object o;
    o["kind"] = "global"; o["u"] = D.usr(V); o["n"] = V->getQualifiedNameAsString(); o["t"] = D.ty(V->getType());
    o["l"] = D.line(V->getLocation()); o["f"] = D.pathOf(V->getLocation());
    o["const"] = V->getType().isConstQualified();
    o["constexpr"] = V->isConstexpr();
    D.localIds.clear();
    if (V->getInit()) o["init"] = D.stmt(V->getInit());
    llvm::outs() << json::Value(std::move(o)) << "\n";
    return true;
  }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    Visitor V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
    llvm::outs() << "{\"kind\":\"done\"}\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
int main(int argc, const char **argv) {
  // astx ROOT FILE -- flags...
  if (argc < 4) return 2;
  Root = argv[1];
  std::string File = argv[2];
  std::vector<std::string> args;
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {File});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
