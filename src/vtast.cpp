// vtast ROOT file.cpp flags... : compact JSON of the type-checked syntax tree of every non-dependent function
// definition located under ROOT (third-party subdirectories excluded).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace clang;

static std::string Root;
static std::string esc(llvm::StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

struct Em {
  ASTContext &X;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ASTNameGenerator> NG;
  std::map<std::string, int> types;
  std::vector<std::string> typeList;
  std::map<const Decl *, int> ids;
  std::map<const FunctionDecl *, int> fns;
  std::vector<std::string> fnList;
  std::vector<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seen;
  std::map<std::string, std::string> recs;
  std::string out;

  Em(ASTContext &X) : X(X), SM(X.getSourceManager()), PP(X.getLangOpts()), NG(new ASTNameGenerator(X)) {
    PP.SuppressTagKeyword = true; PP.Bool = true;
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType C = T.getCanonicalType();
    std::string s = C.getAsString(PP);
    auto r = types.emplace(s, (int)typeList.size());
    if (r.second) {
      typeList.push_back(s);
      QualType B = C.getNonReferenceType();
      if (auto *RD = B->getAsCXXRecordDecl()) record(RD);
      if (B->isPointerType()) if (auto *RD = B->getPointeeType()->getAsCXXRecordDecl()) record(RD);
    }
    return r.first->second;
  }
  bool inRepo(SourceLocation L) {
    if (L.isValid() && SM.isInMainFile(SM.getExpansionLoc(L)) && SM.getFilename(SM.getExpansionLoc(L)).ends_with(".cpp")) return true;
    auto F = SM.getFilename(SM.getExpansionLoc(L));
    auto p = F.find(Root);
    if (p == llvm::StringRef::npos) return false;
    auto rel = F.substr(p + Root.size());
    return !(rel.contains("/json/") || rel.contains("/neither/") || rel.contains("/strong_type/"));
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L) {
    auto F = SM.getFilename(SM.getExpansionLoc(L));
    auto p = F.find(Root);
    return (p == llvm::StringRef::npos ? F : F.substr(p + Root.size())).str();
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    return ids.emplace(D, (int)ids.size()).first->second;
  }
  void record(const CXXRecordDecl *RD) {
    RD = RD->getDefinition();
    if (!RD) return;
    std::string n = QualType(RD->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
    if (recs.count(n)) return;
    recs[n] = "";
    std::string s = "{\"repo\":" + std::to_string(inRepo(RD->getLocation())) + ",\"bases\":[";
    bool first = true;
    bool mine = inRepo(RD->getLocation());
    for (auto &B : RD->bases()) { s += (first ? "" : ",") + std::to_string(type(B.getType())); first = false; }
    s += "],\"fields\":[";
    first = true;
    if (mine && !RD->isDependentType())
      for (auto *F : RD->fields()) {
        s += std::string(first ? "" : ",") + "[" + esc(F->getName()) + "," + std::to_string(type(F->getType())) + "," + std::to_string(F->isMutable()) + ",";
        if (F->hasInClassInitializer() && F->getInClassInitializer()) s += expr(F->getInClassInitializer()); else s += "null";
        s += "," + std::to_string(line(F->getLocation())) + "]";
        first = false;
      }
    s += "],\"file\":" + esc(file(RD->getLocation())) + ",\"line\":" + std::to_string(line(RD->getLocation())) + "}";
    recs[n] = s;
  }
  std::string targs(const FunctionDecl *F) {
    std::string s = "[";
    if (auto *A = F->getTemplateSpecializationArgs()) {
      bool first = true;
      for (auto &T : A->asArray()) {
        std::string t; llvm::raw_string_ostream os(t);
        if (T.getKind() == TemplateArgument::Type) os << T.getAsType().getCanonicalType().getAsString(PP);
        else T.print(PP, os, true);
        os.flush();
        s += std::string(first ? "" : ",") + esc(t); first = false;
      }
    }
    return s + "]";
  }
  int fn(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (F->isDefined(Def)) F = Def; else F = F->getCanonicalDecl();
    auto r = fns.emplace(F, (int)fnList.size());
    if (!r.second) return r.first->second;
    int me = r.first->second;
    fnList.push_back("");
    std::string q = F->getQualifiedNameAsString();
    std::string m = F->isDependentContext() ? "" : NG->getName(F);
    std::string s = "{\"q\":" + esc(q) + ",\"m\":" + esc(m) + ",\"ta\":" + targs(F) + ",\"ret\":" + std::to_string(type(F->getReturnType())) + ",\"pt\":[";
    for (unsigned i = 0; i < F->getNumParams(); ++i) s += (i ? "," : "") + std::to_string(type(F->getParamDecl(i)->getType()));
    s += "],\"k\":";
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) s += C->isCopyConstructor() ? "\"copyctor\"" : C->isMoveConstructor() ? "\"movector\"" : "\"ctor\"";
    else if (isa<CXXDestructorDecl>(F)) s += "\"dtor\"";
    else if (isa<CXXConversionDecl>(F)) s += "\"conv\"";
    else if (auto *M = dyn_cast<CXXMethodDecl>(F)) s += M->isStatic() ? "\"static\"" : M->isConst() ? "\"cmethod\"" : "\"method\"";
    else s += "\"fn\"";
    bool repo = inRepo(F->getLocation()) && !F->getBuiltinID();
    s += ",\"repo\":" + std::to_string(repo) + ",\"def\":" + std::to_string(repo && F->isThisDeclarationADefinition() && (F->hasBody() || F->isDefaulted()));
    s += ",\"defaulted\":" + std::to_string(F->isDefaulted()) + ",\"implicit\":" + std::to_string(F->isImplicit()) + ",\"noexcept\":" + std::to_string(isNoexceptExceptionSpec(F->getExceptionSpecType()));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) s += ",\"rec\":" + std::to_string(type(QualType(M->getParent()->getTypeForDecl(), 0)));
    s += "}";
    fnList[me] = s;
    if (repo && F->hasBody() && !F->isDependentContext()) if (seen.insert(F).second) work.push_back(F);
    return me;
  }
  // ---- expressions
  std::string node(const char *k, const Stmt *S, const std::string &rest) {
    auto *E = dyn_cast<Expr>(S);
    return std::string("[\"") + k + "\"," + std::to_string(line(S->getBeginLoc())) + "," + std::to_string(E ? type(E->getType()) : -1) + (rest.empty() ? "" : ",") + rest + "]";
  }
  std::string list(llvm::ArrayRef<const Expr *> L) {
    std::string s = "[";
    for (size_t i = 0; i < L.size(); ++i) { if (i) s += ","; s += expr(L[i]); }
    return s + "]";
  }
  template<class R> std::string rlist(R r) {
    std::vector<const Expr *> v;
    for (auto *e : r) v.push_back(cast<Expr>(e));
    return list(v);
  }
  std::string expr(const Expr *E) {
    if (!E) return "null";
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return node("temp", E, expr(P->getSubExpr()));
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return node("stdinit", E, expr(P->getSubExpr()));
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return P->getSourceExpr() ? expr(P->getSourceExpr()) : node("opaque", E, "");
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(P->getSemanticForm());
    if (auto *P = dyn_cast<CastExpr>(E)) {
      std::string conv = "null";
      if (auto *F = P->getConversionFunction()) if (auto *FD = dyn_cast<FunctionDecl>(F)) conv = std::to_string(fn(FD));
      return node("cast", E, esc(P->getCastKindName()) + "," + expr(P->getSubExpr()) + "," + std::to_string(isa<ExplicitCastExpr>(E)) + "," + conv);
    }
    if (auto *P = dyn_cast<DeclRefExpr>(E)) {
      auto *D = P->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) return node("fref", E, std::to_string(fn(F)));
      if (auto *C = dyn_cast<EnumConstantDecl>(D)) { llvm::SmallString<16> t; C->getInitVal().toString(t, 10); return node("int", E, esc(t) + "," + esc(C->getName())); }
      if (auto *B = dyn_cast<BindingDecl>(D)) return node("ref", E, std::to_string(id(B)) + "," + esc(B->getName()));
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          // constants are folded
          if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent())
            if (auto *Val = V->evaluateValue()) if (Val->isInt()) { llvm::SmallString<16> t; Val->getInt().toString(t, 10); return node("int", E, esc(t) + "," + esc(V->getName())); }
          return node("gref", E, std::to_string(id(V)) + "," + esc(V->getQualifiedNameAsString()));
        }
        return node("ref", E, std::to_string(id(V)) + "," + esc(V->getName()));
      }
      return node("unk", E, esc(D->getQualifiedNameAsString()));
    }
    if (auto *P = dyn_cast<IntegerLiteral>(E)) { llvm::SmallString<32> t; P->getValue().toString(t, 10, P->getType()->isSignedIntegerType()); return node("int", E, esc(t)); }
    if (auto *P = dyn_cast<CharacterLiteral>(E)) return node("int", E, esc(std::to_string(P->getValue())));
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) return node("bool", E, P->getValue() ? "1" : "0");
    if (auto *P = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<32> t; P->getValue().toString(t, 20); return node("float", E, esc(t)); }
    if (auto *P = dyn_cast<StringLiteral>(E)) return node("str", E, esc(P->getCharByteWidth() == 1 ? P->getString() : llvm::StringRef("?")));
    if (auto *P = dyn_cast<PredefinedExpr>(E)) return node("str", E, "\"__func__\"");
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E, "");
    if (isa<CXXThisExpr>(E)) return node("this", E, "");
    if (auto *P = dyn_cast<MemberExpr>(E)) {
      auto *D = P->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->getAnyInitializer() && !V->getAnyInitializer()->isValueDependent())
          if (auto *Val = V->evaluateValue()) if (Val->isInt()) { llvm::SmallString<16> t; Val->getInt().toString(t, 10); return node("int", E, esc(t) + "," + esc(V->getName())); }
        return node("gref", E, std::to_string(id(V)) + "," + esc(V->getQualifiedNameAsString()));
      }
      std::string f = "null";
      if (auto *F = dyn_cast<FunctionDecl>(D)) f = std::to_string(fn(F));
      return node("member", E, expr(P->getBase()) + "," + esc(D->getName().str()) + "," + std::to_string(P->isArrow()) + "," + f);
    }
    if (auto *P = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = P->getDirectCallee();
      return node("opcall", E, esc(getOperatorSpelling(P->getOperator())) + "," + (F ? std::to_string(fn(F)) : "null") + "," + rlist(P->arguments()));
    }
    if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = P->getMethodDecl();
      auto *C = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens());
      return node("mcall", E, (M ? std::to_string(fn(M)) : "null") + "," + (C ? expr(C->getBase()) : "null") + "," + std::to_string(C && C->isArrow()) + "," + rlist(P->arguments()));
    }
    if (auto *P = dyn_cast<UserDefinedLiteral>(E)) {
      auto *F = P->getDirectCallee();
      return node("call", E, (F ? std::to_string(fn(F)) : "null") + ",null," + rlist(P->arguments()));
    }
    if (auto *P = dyn_cast<CallExpr>(E)) {
      if (P->isTypeDependent() || P->isValueDependent()) return node("dep", E, "");
      auto *F = P->getDirectCallee();
      return node("call", E, (F ? std::to_string(fn(F)) : "null") + "," + (F ? "null" : expr(P->getCallee())) + "," + rlist(P->arguments()));
    }
    if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) return node("construct", E, std::to_string(fn(P->getConstructor())) + ",[]");
    if (auto *P = dyn_cast<CXXConstructExpr>(E))
      return node("construct", E, std::to_string(fn(P->getConstructor())) + "," + rlist(P->arguments()) + "," + std::to_string(P->isElidable()) + "," + std::to_string(P->isListInitialization()));
    if (auto *P = dyn_cast<CXXNewExpr>(E)) {
      std::string pl = "[";
      for (unsigned i = 0; i < P->getNumPlacementArgs(); ++i) pl += (i ? "," : "") + expr(P->getPlacementArg(i));
      return node("new", E, std::to_string(type(P->getAllocatedType())) + "," + expr(P->getInitializer()) + "," + pl + "]");
    }
    if (auto *P = dyn_cast<CXXDeleteExpr>(E)) return node("delete", E, expr(P->getArgument()));
    if (auto *P = dyn_cast<InitListExpr>(E)) {
      auto *S = P->isSemanticForm() ? P : P->getSemanticForm() ? P->getSemanticForm() : P;
      std::string s = "[";
      for (unsigned i = 0; i < S->getNumInits(); ++i) s += (i ? "," : "") + expr(S->getInit(i));
      return node("initlist", E, s + "]");
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("zero", E, "");
    if (auto *P = dyn_cast<BinaryOperator>(E)) return node("bin", E, esc(P->getOpcodeStr()) + "," + expr(P->getLHS()) + "," + expr(P->getRHS()));
    if (auto *P = dyn_cast<UnaryOperator>(E)) return node("un", E, esc(std::string(UnaryOperator::getOpcodeStr(P->getOpcode())) + (P->isPostfix() ? "post" : "")) + "," + expr(P->getSubExpr()));
    if (auto *P = dyn_cast<AbstractConditionalOperator>(E)) return node("cond", E, expr(P->getCond()) + "," + expr(P->getTrueExpr()) + "," + expr(P->getFalseExpr()));
    if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) return node("index", E, expr(P->getBase()) + "," + expr(P->getIdx()));
    if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!P->isValueDependent() && P->EvaluateAsInt(R, X)) { llvm::SmallString<16> t; R.Val.getInt().toString(t, 10); return node("int", E, esc(t)); }
      return node("unk", E, "\"sizeof\"");
    }
    if (auto *P = dyn_cast<TypeTraitExpr>(E)) return node("bool", E, P->isValueDependent() ? "0" : P->getValue() ? "1" : "0");
    if (auto *P = dyn_cast<CXXNoexceptExpr>(E)) return node("bool", E, P->getValue() ? "1" : "0");
    if (auto *P = dyn_cast<CXXThrowExpr>(E)) return node("throw", E, expr(P->getSubExpr()));
    if (auto *P = dyn_cast<LambdaExpr>(E)) {
      std::string s = std::to_string(fnLambda(P)) + ",[";
      bool first = true;
      auto ini = P->capture_init_begin();
      for (auto &C : P->captures()) {
        s += first ? "" : ","; first = false;
        if (C.capturesThis()) s += "[\"this\"]";
        else if (C.capturesVariable()) s += std::string("[") + (C.getCaptureKind() == LCK_ByRef ? "\"ref\"" : "\"copy\"") + "," + std::to_string(id(C.getCapturedVar())) + "," + esc(C.getCapturedVar()->getName()) + "," + expr(*ini) + "]";
        else s += "[\"?\"]";
        ++ini;
      }
      return node("lambda", E, s + "]");
    }
    if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) return node("unk", E, "\"arrayinitloop\"");
    return node("unk", E, esc(E->getStmtClassName()));
  }
  int fnLambda(const LambdaExpr *L) {
    auto *M = L->getCallOperator();
    if (auto *T = M->getParent()->getLambdaCallOperator()->getDescribedFunctionTemplate()) {
      for (auto *S : T->specializations()) fn(S);     // instantiations of a generic lambda; interpreters select by argument type
      std::string s = "{\"q\":\"lambda\",\"m\":\"\",\"generic\":[";
      bool first = true;
      std::vector<int> v;
      for (auto *S : T->specializations()) v.push_back(fn(S));
      for (int i : v) { s += (first ? "" : ",") + std::to_string(i); first = false; }
      s += "],\"ta\":[],\"pt\":[],\"k\":\"lambda\",\"repo\":1,\"def\":0,\"ret\":-1}";
      int me = fnList.size();
      fnList.push_back(s);
      return me;
    }
    return fn(M);
  }
  // ---- statements
  std::string var(const VarDecl *V) {
    std::string s = "[" + std::to_string(id(V)) + "," + esc(V->getName()) + "," + std::to_string(type(V->getType())) + "," + (V->getInit() ? expr(V->getInit()) : "null") + "," + std::to_string(V->isStaticLocal()) + ",";
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      s += "[";
      bool first = true;
      for (auto *B : D->bindings()) {
        s += first ? "" : ","; first = false;
        s += "[" + std::to_string(id(B)) + "," + esc(B->getName()) + "," + std::to_string(type(B->getType())) + "]";
      }
      s += "]";
    } else s += "null";
    return s + "," + std::to_string(V->getType()->isReferenceType()) + "," + std::to_string(V->getType().getNonReferenceType().isConstQualified()) + "]";
  }
  std::string stmt(const Stmt *S) {
    if (!S) return "null";
    if (auto *E = dyn_cast<Expr>(S)) return "[\"expr\"," + std::to_string(line(S->getBeginLoc())) + ",-1," + expr(E) + "]";
    if (auto *P = dyn_cast<CompoundStmt>(S)) {
      std::string s = "[";
      bool first = true;
      for (auto *c : P->body()) { s += first ? "" : ","; first = false; s += stmt(c); }
      return node("block", S, s + "]");
    }
    if (auto *P = dyn_cast<DeclStmt>(S)) {
      std::string s = "[";
      bool first = true;
      for (auto *D : P->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { s += first ? "" : ","; first = false; s += var(V); }
      return node("decl", S, s + "]");
    }
    if (auto *P = dyn_cast<IfStmt>(S)) {
      std::string c = P->getConditionVariableDeclStmt() ? stmt(P->getConditionVariableDeclStmt()) : "null";
      return node("if", S, stmt(P->getInit()) + "," + c + "," + expr(P->getCond()) + "," + stmt(P->getThen()) + "," + stmt(P->getElse()) + "," + std::to_string(P->isConstexpr()));
    }
    if (auto *P = dyn_cast<ForStmt>(S)) return node("for", S, stmt(P->getInit()) + "," + expr(P->getCond()) + "," + expr(P->getInc()) + "," + stmt(P->getBody()));
    if (auto *P = dyn_cast<WhileStmt>(S)) return node("while", S, expr(P->getCond()) + "," + stmt(P->getBody()));
    if (auto *P = dyn_cast<DoStmt>(S)) return node("do", S, stmt(P->getBody()) + "," + expr(P->getCond()));
    if (auto *P = dyn_cast<CXXForRangeStmt>(S)) return node("rfor", S, var(P->getLoopVariable()) + "," + expr(P->getRangeInit()) + "," + stmt(P->getBody()) + "," + stmt(P->getInit()));
    if (auto *P = dyn_cast<ReturnStmt>(S)) return node("return", S, expr(P->getRetValue()));
    if (auto *P = dyn_cast<SwitchStmt>(S)) return node("switch", S, expr(P->getCond()) + "," + stmt(P->getBody()));
    if (auto *P = dyn_cast<CaseStmt>(S)) return node("case", S, expr(P->getLHS()) + "," + stmt(P->getSubStmt()));
    if (auto *P = dyn_cast<DefaultStmt>(S)) return node("default", S, stmt(P->getSubStmt()));
    if (isa<BreakStmt>(S)) return node("break", S, "");
    if (isa<ContinueStmt>(S)) return node("continue", S, "");
    if (isa<NullStmt>(S)) return node("nop", S, "");
    if (auto *P = dyn_cast<AttributedStmt>(S)) return stmt(P->getSubStmt());
    if (auto *P = dyn_cast<CapturedStmt>(S)) return stmt(P->getCapturedStmt());
    if (auto *P = dyn_cast<CXXTryStmt>(S)) {
      std::string s = stmt(P->getTryBlock()) + ",[";
      for (unsigned i = 0; i < P->getNumHandlers(); ++i) {
        auto *H = P->getHandler(i);
        s += i ? "," : "";
        s += "[" + (H->getCaughtType().isNull() ? std::string("null") : std::to_string(type(H->getCaughtType().getNonReferenceType().getUnqualifiedType()))) + "," +
             (H->getExceptionDecl() ? var(H->getExceptionDecl()) : "null") + "," + stmt(H->getHandlerBlock()) + "]";
      }
      return node("try", S, s + "]");
    }
    if (auto *P = dyn_cast<OMPExecutableDirective>(S)) {
      std::string s = esc(getOpenMPDirectiveName(P->getDirectiveKind())) + ",[";
      bool first = true;
      for (auto *C : P->clauses()) {
        if (C->isImplicit()) continue;
        s += first ? "" : ","; first = false;
        s += "[" + esc(llvm::omp::getOpenMPClauseName(C->getClauseKind()));
        for (auto *ch : C->children()) if (ch) s += "," + stmt(ch);
        s += "]";
      }
      s += "],";
      s += P->hasAssociatedStmt() ? stmt(P->getInnermostCapturedStmt()) : "null";
      return node("omp", S, s);
    }
    return node("unkstmt", S, esc(S->getStmtClassName()));
  }
  bool firstFn = true;
  void define(const FunctionDecl *F) {
    int i = fn(F);
    std::string s = std::string(firstFn ? "" : ",\n") + "\"" + std::to_string(i) + "\":{\"params\":[";
    firstFn = false;
    for (unsigned k = 0; k < F->getNumParams(); ++k) {
      auto *P = F->getParamDecl(k);
      s += std::string(k ? "," : "") + "[" + std::to_string(id(P)) + "," + esc(P->getName()) + "," + std::to_string(type(P->getType())) + "," + std::to_string(P->getType()->isReferenceType()) + "]";
    }
    s += "],\"file\":" + esc(file(F->getLocation())) + ",\"line\":" + std::to_string(line(F->getLocation()));
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      s += ",\"inits\":[";
      bool first = true;
      for (auto *I : C->inits()) {
        s += first ? "" : ","; first = false;
        if (I->isAnyMemberInitializer()) s += "[\"member\"," + esc(I->getAnyMember()->getName()) + ",";
        else if (I->isBaseInitializer()) s += "[\"base\"," + std::to_string(type(QualType(I->getBaseClass(), 0))) + ",";
        else s += "[\"delegate\",\"\",";
        s += expr(I->getInit()) + "]";
      }
      s += "]";
    }
    s += ",\"body\":" + stmt(F->getBody()) + "}";
    out += s;
  }
};

struct V : RecursiveASTVisitor<V> {
  Em &E;
  std::string globals = "{";
  bool first = true;
  V(Em &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && F->hasBody() && !F->isDependentContext() && E.inRepo(F->getLocation())) E.fn(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->hasGlobalStorage() && !D->getDeclContext()->isDependentContext() && E.inRepo(D->getLocation()) && D->isThisDeclarationADefinition() && !isa<VarTemplateSpecializationDecl>(D)) {
      globals += std::string(first ? "" : ",\n") + "\"" + std::to_string(E.id(D)) + "\":{\"q\":" + esc(D->getQualifiedNameAsString()) + ",\"const\":" + std::to_string(D->getType().isConstQualified()) + ",\"var\":" + E.var(D) +
                 ",\"file\":" + esc(E.file(D->getLocation())) + ",\"line\":" + std::to_string(E.line(D->getLocation())) + ",\"tls\":" + std::to_string(D->getTLSKind() != VarDecl::TLS_None) + "}";
      first = false;
    }
    return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &X) override {
    if (X.getDiagnostics().hasErrorOccurred()) return;
    Em E(X);
    V v(E);
    v.TraverseDecl(X.getTranslationUnitDecl());
    while (!E.work.empty()) { auto *F = E.work.back(); E.work.pop_back(); E.define(F); }
    auto &o = llvm::outs();
    o << "{\"bodies\":{" << E.out << "},\n\"globals\":" << v.globals << "},\n\"fns\":[";
    for (size_t i = 0; i < E.fnList.size(); ++i) o << (i ? ",\n" : "") << E.fnList[i];
    o << "],\n\"records\":{";
    bool first = true;
    for (auto &r : E.recs) { o << (first ? "" : ",\n") << esc(r.first) << ":" << (r.second.empty() ? "{}" : r.second); first = false; }
    o << "},\n\"types\":[";
    for (size_t i = 0; i < E.typeList.size(); ++i) o << (i ? ",\n" : "") << esc(E.typeList[i]);
    o << "]}\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  Root = argv[1];
  tooling::FixedCompilationDatabase db(".", std::vector<std::string>(argv + 3, argv + argc));
  tooling::ClangTool T(db, {argv[2]});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
