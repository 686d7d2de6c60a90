// flprx: dumps the type-checked program (resolved AST of every function that
// has a body and is written in the analysed tree, including template
// instantiations and lambda bodies) as JSON for the analyses in /verif/sa.
//
//   flprx <prefix>[:<prefix>...] <out.json> <source> -- <compiler flags>
//
// Nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Prefixes;
static std::string OutPath;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  explicit Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()),
                                   PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.AnonymousTagLocations = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  json::Array Functions, Records, Enums, Globals;
  std::set<std::string> SeenRec;
  std::set<const void *> SeenFn, SeenEnum;

  // ---------------------------------------------------------------- places
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, /*UseLineDirectives=*/false);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  bool inTree(SourceLocation L) {
    std::string F = fileOf(L);
    for (auto &P : Prefixes)
      if (F.compare(0, P.size(), P) == 0) return true;
    return false;
  }
  std::string loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    return std::string(P.getFilename()) + ":" + std::to_string(P.getLine()) +
           ":" + std::to_string(P.getColumn());
  }
  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }

  // ------------------------------------------------------------------ names
  std::map<const Decl *, int> Ids;
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto I = Ids.find(D);
    if (I != Ids.end()) return I->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string recName(const CXXRecordDecl *R) {
    if (R->isLambda())
      return "lambda@" + loc(R->getLocation()) + "#" + std::to_string(id(R));
    return ty(Ctx.getRecordType(R));
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS);
    return OS.str();
  }
  std::string fkey(const FunctionDecl *F) {
    std::string S;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      S = recName(M->getParent()) + "::" + F->getNameAsString();
    } else {
      S = qname(F);
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      S += "<";
      for (unsigned i = 0; i < TA->size(); ++i) {
        std::string T;
        llvm::raw_string_ostream OS(T);
        TA->get(i).print(PP, OS, true);
        S += (i ? "," : "") + OS.str();
      }
      S += ">";
    }
    S += "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i)
      S += (i ? "," : "") + ty(F->getParamDecl(i)->getType().getUnqualifiedType());
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) S += " const";
      if (M->getRefQualifier() == RQ_RValue) S += " &&";
    }
    return S;
  }
  std::string fname(const FunctionDecl *F) { // no template arguments
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda())
        return recName(M->getParent()) + "::" + F->getNameAsString();
    }
    return qname(F);
  }

  // ------------------------------------------------------------ expressions
  json::Object node(const char *K) { return json::Object{{"k", K}}; }
  json::Array exprs(llvm::ArrayRef<const Expr *> V) {
    json::Array A;
    for (auto *E : V) A.push_back(expr(E));
    return A;
  }
  template <class R> json::Array exprRange(R V) {
    json::Array A;
    for (auto *E : V) A.push_back(expr(cast<Expr>(E)));
    return A;
  }
  void addCallee(json::Object &O, const FunctionDecl *F) {
    O["f"] = fname(F);
    O["fk"] = fkey(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isVirtual()) O["virt"] = true;
    }
    json::Array PT;
    for (unsigned i = 0; i < F->getNumParams(); ++i)
      PT.push_back(ty(F->getParamDecl(i)->getType()));
    O["pt"] = std::move(PT);
    O["rt"] = ty(F->getReturnType());
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    const Expr *Orig = E;
    std::vector<std::string> IC;   // implicit integer conversions, outermost first
    // constant?
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
        if (X->getCastKind() == CK_IntegralCast)
          IC.push_back(ty(X->getType()));
        E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<FullExpr>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
        E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) {
        E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
        E = X->getReplacement(); continue; }
      if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
        E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
        E = X->getExpr(); continue; }
      if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
        E = X->getSemanticForm(); continue; }
      break;
    }
    json::Object O = expr1(E);
    O["l"] = loc(E->getExprLoc());
    O["t"] = ty(E->getType());
    if (!IC.empty()) {
      json::Array A;
      for (auto I = IC.rbegin(); I != IC.rend(); ++I) A.push_back(*I);
      O["ic"] = std::move(A);
    }
    if (!Orig->isValueDependent() &&
        (Orig->getType()->isIntegralOrEnumerationType())) {
      Expr::EvalResult R;
      if (Orig->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects))
        if (R.Val.getInt().isRepresentableByInt64())
          O["cv"] = (int64_t)R.Val.getInt().getExtValue();
        else
          O["cv"] = R.Val.getInt().getZExtValue() == ~0ull
                        ? (int64_t)-1 : INT64_MAX;
    }
    return std::move(O);
  }

  json::Object expr1(const Expr *E) {
    if (auto *X = dyn_cast<DeclRefExpr>(E)) return declref(X->getDecl());
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      json::Object O = node("mem");
      O["n"] = X->getMemberDecl()->getNameAsString();
      O["q"] = qname(X->getMemberDecl());
      O["arrow"] = X->isArrow();
      O["b"] = expr(X->getBase());
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        O["static"] = true; O["id"] = id(V);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(X->getMemberDecl()))
        O["v"] = EC->getInitVal().getExtValue();
      return O;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      json::Object O = node("op");
      O["op"] = getOperatorSpelling(X->getOperator());
      if (auto *F = X->getDirectCallee()) {
        addCallee(O, F);
        if (auto *M = dyn_cast<CXXMethodDecl>(F))
          if (!M->isStatic()) O["method"] = true;
      }
      O["a"] = exprRange(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      json::Object O = node("mcall");
      if (auto *F = X->getMethodDecl()) addCallee(O, F);
      else O["fe"] = expr(X->getCallee());
      O["o"] = expr(X->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
        O["arrow"] = ME->isArrow();
      O["a"] = exprRange(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      json::Object O = node("call");
      if (auto *F = X->getDirectCallee()) addCallee(O, F);
      else O["fe"] = expr(X->getCallee());
      O["a"] = exprRange(X->arguments());
      return O;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      json::Object O = node("new_obj");
      addCallee(O, X->getConstructor());
      O["a"] = exprRange(X->arguments());
      auto *C = X->getConstructor();
      O["ck"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor()
                ? "move" : C->isDefaultConstructor() ? "default" : "other";
      if (X->isElidable()) O["elide"] = true;
      if (X->isListInitialization()) O["list"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      json::Object O = node("inh_ctor");
      addCallee(O, X->getConstructor());
      return O;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      json::Object O = node(X->isAssignmentOp() ? "asg" : "bin");
      O["op"] = X->getOpcodeStr();
      json::Array A;
      A.push_back(expr(X->getLHS()));
      A.push_back(expr(X->getRHS()));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      json::Object O = node("un");
      O["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
      O["post"] = X->isPostfix();
      json::Array A;
      A.push_back(expr(X->getSubExpr()));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      json::Object O = node("cond");
      json::Array A;
      A.push_back(expr(X->getCond()));
      A.push_back(expr(X->getTrueExpr()));
      A.push_back(expr(X->getFalseExpr()));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      json::Object O = node("int");
      O["v"] = (int64_t)X->getValue().getSExtValue();
      return O;
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      json::Object O = node("chr");
      O["v"] = (int64_t)X->getValue();
      return O;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      json::Object O = node("bool");
      O["v"] = X->getValue();
      return O;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return node("null");
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      json::Object O = node("str");
      if (X->getCharByteWidth() == 1) {
        std::string S = X->getString().str();
        O["v"] = json::fixUTF8(S);
      }
      return O;
    }
    if (isa<CXXThisExpr>(E)) return node("this");
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      json::Object O = node("lambda");
      O["cls"] = recName(X->getLambdaClass());
      json::Array Caps;
      auto CI = X->capture_init_begin();
      for (auto &C : X->captures()) {
        json::Object CO;
        CO["ref"] = C.getCaptureKind() == LCK_ByRef;
        if (C.capturesVariable()) {
          CO["id"] = id(C.getCapturedVar());
          CO["n"] = C.getCapturedVar()->getNameAsString();
        } else if (C.capturesThis()) CO["this"] = true;
        if (*CI) CO["init"] = expr(*CI);
        ++CI;
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      O["generic"] = X->isGenericLambda();
      json::Array Ps;
      if (auto *CO2 = X->getCallOperator())
        for (auto *P : CO2->parameters()) {
          json::Object PO{{"n", P->getNameAsString()}, {"id", id(P)}};
          Ps.push_back(std::move(PO));
        }
      O["params"] = std::move(Ps);
      return O;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      json::Object O = node("ilist");
      const InitListExpr *S = X->isSemanticForm() ? X : X->getSemanticForm();
      if (!S) S = X;
      json::Array A;
      for (auto *I : S->inits()) A.push_back(expr(I));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      json::Object O = node("stdilist");
      json::Array A;
      A.push_back(expr(X->getSubExpr()));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      json::Object O = node("new");
      json::Array A;
      if (X->getInitializer()) A.push_back(expr(X->getInitializer()));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      json::Object O = node("delete");
      json::Array A;
      A.push_back(expr(X->getArgument()));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      json::Object O = node("cast");
      O["to"] = ty(X->getTypeAsWritten());
      json::Array A;
      A.push_back(expr(X->getSubExpr()));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      json::Object O = node("idx");
      json::Array A;
      A.push_back(expr(X->getBase()));
      A.push_back(expr(X->getIdx()));
      O["a"] = std::move(A);
      return O;
    }
    if (isa<CXXThrowExpr>(E)) {
      json::Object O = node("throw");
      json::Array A;
      if (auto *S = cast<CXXThrowExpr>(E)->getSubExpr()) A.push_back(expr(S));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      (void)X;
      return node("sizeof");
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E))
      return node("zero");
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) {
      json::Object O = node("fold");
      O["op"] = BinaryOperator::getOpcodeStr(X->getOperator());
      return O;
    }
    json::Object O = node("other");
    O["cls"] = E->getStmtClassName();
    json::Array A;
    for (auto *C : E->children())
      if (auto *CE = dyn_cast_or_null<Expr>(C)) A.push_back(expr(CE));
    O["a"] = std::move(A);
    return O;
  }

  json::Object declref(const ValueDecl *D) {
    json::Object O = node("ref");
    O["n"] = D->getNameAsString();
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      O["dk"] = "enum";
      O["q"] = qname(D);
      O["v"] = EC->getInitVal().getExtValue();
    } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
      O["dk"] = "func";
      O["q"] = fname(F);
      O["fk"] = fkey(F);
    } else if (auto *P = dyn_cast<ParmVarDecl>(D)) {
      O["dk"] = "param";
      O["id"] = id(P);
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      O["dk"] = V->isLocalVarDecl() ? "local" : "global";
      O["id"] = id(V);
      if (!V->isLocalVarDecl()) O["q"] = qname(V);
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      O["dk"] = "binding";
      O["id"] = id(B);
    } else {
      O["dk"] = "other";
    }
    return O;
  }

  // -------------------------------------------------------------- statements
  json::Object varDecl(const VarDecl *V) {
    json::Object O;
    O["n"] = V->getNameAsString();
    O["id"] = id(V);
    O["t"] = ty(V->getType());
    O["l"] = loc(V->getLocation());
    O["init"] = expr(V->getInit());
    O["istyle"] = V->hasInit() ? (V->getInitStyle() == VarDecl::ListInit
                  ? "list" : V->getInitStyle() == VarDecl::CallInit ? "call"
                  : "c") : "none";
    if (V->isStaticLocal()) O["static"] = true;
    if (V->isConstexpr()) O["constexpr"] = true;
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (V->getType().isConstQualified()) O["constq"] = true;
    if (!V->hasInit() && !V->isStaticLocal() &&
        (V->getType()->isScalarType()))
      O["uninit"] = true;
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array B;
      for (auto *BD : DD->bindings()) {
        json::Object BO;
        BO["n"] = BD->getNameAsString();
        BO["id"] = id(BD);
        BO["e"] = expr(BD->getBinding());
        B.push_back(std::move(BO));
      }
      O["bindings"] = std::move(B);
    }
    return O;
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      json::Object O = node("expr");
      O["e"] = expr(E);
      O["l"] = loc(S->getBeginLoc());
      return std::move(O);
    }
    json::Object O = stmt1(S);
    O["l"] = loc(S->getBeginLoc());
    return std::move(O);
  }
  json::Object stmt1(const Stmt *S) {
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      json::Object O = node("blk");
      json::Array A;
      for (auto *C : X->body()) A.push_back(stmt(C));
      O["s"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      json::Object O = node("decl");
      json::Array A;
      for (auto *D : X->decls())
        if (auto *V = dyn_cast<VarDecl>(D)) A.push_back(varDecl(V));
      O["v"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      json::Object O = node("if");
      O["constexpr"] = X->isConstexpr();
      O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cvar"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["then"] = stmt(X->getThen());
      O["else"] = stmt(X->getElse());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      json::Object O = node("while");
      if (X->getConditionVariable())
        O["cvar"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      json::Object O = node("do");
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      json::Object O = node("for");
      O["init"] = stmt(X->getInit());
      O["c"] = expr(X->getCond());
      O["inc"] = expr(X->getInc());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      json::Object O = node("rfor");
      O["var"] = varDecl(X->getLoopVariable());
      O["range"] = expr(X->getRangeInit());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      json::Object O = node("switch");
      O["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        O["cvar"] = varDecl(X->getConditionVariable());
      O["c"] = expr(X->getCond());
      O["b"] = stmt(X->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      json::Object O = node("case");
      O["v"] = expr(X->getLHS());
      O["sub"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      json::Object O = node("default");
      O["sub"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      json::Object O = node("ret");
      O["e"] = expr(X->getRetValue());
      return O;
    }
    if (isa<BreakStmt>(S)) return node("break");
    if (isa<ContinueStmt>(S)) return node("continue");
    if (isa<NullStmt>(S)) return node("nop");
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      json::Object O = node("try");
      O["b"] = stmt(X->getTryBlock());
      json::Array A;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        json::Object H;
        H["t"] = X->getHandler(i)->getCaughtType().isNull()
                     ? std::string("...")
                     : ty(X->getHandler(i)->getCaughtType());
        H["b"] = stmt(X->getHandler(i)->getHandlerBlock());
        A.push_back(std::move(H));
      }
      O["h"] = std::move(A);
      return O;
    }
    if (auto *X = dyn_cast<GotoStmt>(S)) {
      json::Object O = node("goto");
      O["n"] = X->getLabel()->getNameAsString();
      return O;
    }
    if (auto *X = dyn_cast<LabelStmt>(S)) {
      json::Object O = node("label");
      O["n"] = X->getDecl()->getNameAsString();
      O["sub"] = stmt(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt1(X->getSubStmt());
    json::Object O = node("ostmt");
    O["cls"] = S->getStmtClassName();
    json::Array A;
    for (auto *C : S->children())
      if (C) A.push_back(stmt(C));
    O["s"] = std::move(A);
    return O;
  }

  // ------------------------------------------------------------------ visit
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (auto *T = L->getLambdaClass()->getDependentLambdaCallOperator()) {
      for (auto *S : T->specializations()) VisitFunctionDecl(S);
    } else if (auto *C = L->getCallOperator()) {
      VisitFunctionDecl(C);
    }
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (F->isDependentContext()) return true;
    if (!inTree(F->getLocation())) return true;
    if (!SeenFn.insert(F->getCanonicalDecl()).second) return true;
    json::Object O;
    O["q"] = fname(F);
    O["key"] = fkey(F);
    O["file"] = fileOf(F->getLocation());
    O["l"] = loc(F->getLocation());
    O["end"] = loc(F->getBodyRBrace());
    O["rt"] = ty(F->getReturnType());
    if (F->isConstexpr()) O["constexpr"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (F->isDefaulted()) O["defaulted"] = true;
    if (auto *PT = F->getType()->getAs<FunctionProtoType>())
      if (PT->isNothrow()) O["noexcept"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["clsq"] = M->getParent()->isLambda() ? recName(M->getParent())
                                             : qname(M->getParent());
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      if (M->getParent()->isLambda()) O["lambda"] = true;
      O["access"] = M->getAccess() == AS_public ? "public"
                    : M->getAccess() == AS_private ? "private" : "protected";
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor()
                  ? "move" : C->isDefaultConstructor() ? "default" : "other";
      json::Array A;
      for (auto *I : C->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer())
          IO["m"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["e"] = expr(I->getInit());
        IO["written"] = I->isWritten();
        IO["l"] = loc(I->getSourceLocation());
        A.push_back(std::move(IO));
      }
      O["inits"] = std::move(A);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    json::Array Ps;
    for (auto *P : F->parameters()) {
      json::Object PO{{"n", P->getNameAsString()},
                      {"id", id(P)},
                      {"t", ty(P->getType())}};
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() &&
          !P->hasUnparsedDefaultArg())
        PO["dflt"] = expr(P->getDefaultArg());
      Ps.push_back(std::move(PO));
    }
    O["params"] = std::move(Ps);
    O["body"] = stmt(F->getBody());
    Functions.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext())
      return true;
    if (!inTree(R->getLocation()) || R->isLambda()) return true;
    std::string N = recName(R);
    if (!SeenRec.insert(N).second) return true;
    json::Object O;
    O["n"] = N;
    O["q"] = qname(R);
    O["l"] = loc(R->getLocation());
    json::Array Fs;
    for (auto *F : R->fields()) {
      json::Object FO{{"n", F->getNameAsString()},
                      {"t", ty(F->getType())},
                      {"dflt", F->hasInClassInitializer()},
                      {"scalar", F->getType()->isScalarType()},
                      {"ptr", F->getType()->isPointerType()},
                      {"ref", F->getType()->isReferenceType()},
                      {"pod", F->getType().isPODType(Ctx)},
                      {"l", loc(F->getLocation())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        FO["init"] = expr(F->getInClassInitializer());
      Fs.push_back(std::move(FO));
    }
    O["fields"] = std::move(Fs);
    json::Array Bs;
    for (auto &B : R->bases()) Bs.push_back(ty(B.getType()));
    O["bases"] = std::move(Bs);
    json::Array Ms;
    for (auto *M : R->methods()) {
      json::Object MO{{"n", M->getNameAsString()},
                      {"key", fkey(M)},
                      {"implicit", M->isImplicit()},
                      {"defaulted", M->isDefaulted()},
                      {"deleted", M->isDeleted()},
                      {"userprov", M->isUserProvided()},
                      {"const", M->isConst()},
                      {"static", M->isStatic()},
                      {"rt", ty(M->getReturnType())}};
      if (auto *C = dyn_cast<CXXConstructorDecl>(M))
        MO["ctor"] = C->isCopyConstructor() ? "copy"
                     : C->isMoveConstructor() ? "move"
                     : C->isDefaultConstructor() ? "default" : "other";
      if (M->isCopyAssignmentOperator()) MO["asg"] = "copy";
      if (M->isMoveAssignmentOperator()) MO["asg"] = "move";
      if (isa<CXXDestructorDecl>(M)) MO["dtor"] = true;
      Ms.push_back(std::move(MO));
    }
    O["methods"] = std::move(Ms);
    auto sm = [&](bool has, bool needs) { return has || needs; };
    O["has_copy_ctor"] =
        sm(R->hasUserDeclaredCopyConstructor(), false);
    O["has_copy_asg"] = R->hasUserDeclaredCopyAssignment();
    O["has_move_ctor"] = R->hasUserDeclaredMoveConstructor();
    O["has_move_asg"] = R->hasUserDeclaredMoveAssignment();
    O["impl_copy_ctor"] = R->hasSimpleCopyConstructor() ||
                          R->needsImplicitCopyConstructor();
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !inTree(D->getLocation()))
      return true;
    if (D->isDependentContext()) return true;
    if (!SeenEnum.insert(D->getCanonicalDecl()).second) return true;
    json::Object O;
    O["q"] = qname(D);
    O["l"] = loc(D->getLocation());
    json::Array A;
    for (auto *E : D->enumerators())
      A.push_back(json::Array{E->getNameAsString(),
                              E->getInitVal().getExtValue()});
    O["e"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDecl() || isa<ParmVarDecl>(V)) return true;
    if (!V->hasInit() || V->getType()->isDependentType()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!inTree(V->getLocation())) return true;
    if (V->getInit()->isValueDependent()) return true;
    json::Object O = varDecl(V);
    O["q"] = qname(V);
    Globals.push_back(std::move(O));
    return true;
  }

  void finish() {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) {
      llvm::errs() << "cannot write " << OutPath << "\n";
      exit(3);
    }
    json::Object Top;
    Top["functions"] = std::move(Functions);
    Top["records"] = std::move(Records);
    Top["enums"] = std::move(Enums);
    Top["globals"] = std::move(Globals);
    json::Array Fs;
    std::set<std::string> Seen;
    for (auto I = SM.fileinfo_begin(); I != SM.fileinfo_end(); ++I) {
      std::string N = I->first.getName().str();
      for (auto &P : Prefixes)
        if (N.compare(0, P.size(), P) == 0 && Seen.insert(N).second)
          Fs.push_back(N);
    }
    Top["files"] = std::move(Fs);
    OS << json::Value(std::move(Top));
  }

private:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.finish();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &,
                                                 StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) {
    llvm::errs() << "usage: flprx PREFIX[:PREFIX] OUT SRC -- FLAGS\n";
    return 2;
  }
  std::string P = argv[1];
  size_t b = 0;
  while (b <= P.size()) {
    size_t e = P.find(':', b);
    if (e == std::string::npos) e = P.size();
    if (e > b) Prefixes.push_back(P.substr(b, e - b));
    b = e + 1;
  }
  OutPath = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
