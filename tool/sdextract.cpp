#include <regex>
// sdextract: dumps the resolved (type-checked) AST of every function defined
// under a given directory as compact JSON, for the analyses in /verif/sa.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace js = llvm::json;

static std::string gRoot;
static js::Array gFuncs, gRecs, gGlobals, gNotes;
static std::set<std::string> gSeen, gSeenRec, gSeenGlob;

namespace {
class X {
 public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  explicit X(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
  }
  std::string fileOf(SourceLocation L) {
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  int lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.rfind(gRoot, 0) == 0;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  void targ(const TemplateArgument &A, std::string &s) {
    switch (A.getKind()) {
      case TemplateArgument::Type: s += ty(A.getAsType()); break;
      case TemplateArgument::Integral: s += std::to_string(i64(A.getAsIntegral())); break;
      case TemplateArgument::Declaration: s += A.getAsDecl()->getQualifiedNameAsString(); break;
      case TemplateArgument::Pack: {
        bool first = true;
        for (const auto &B : A.pack_elements()) {
          if (!first) s += ",";
          first = false;
          targ(B, s);
        }
        break;
      }
      default: s += "?";
    }
  }
  std::string sigOf(const FunctionDecl *F) {
    std::string s = F->getQualifiedNameAsString();
    if (const auto *TA = F->getTemplateSpecializationArgs()) {
      s += "<";
      for (unsigned i = 0; i < TA->size(); i++) {
        if (i) s += ",";
        targ(TA->get(i), s);
      }
      s += ">";
    }
    s += "(";
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      if (i) s += ",";
      s += ty(F->getParamDecl(i)->getType());
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += "const";
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) s += "#lambda" + std::to_string(lineOf(M->getParent()->getBeginLoc())) + ":" + std::to_string(SM.getExpansionColumnNumber(M->getParent()->getBeginLoc()));
    }
    // file-local functions of different units must not collide
    if (F->getFormalLinkage() == Linkage::Internal && !isa<CXXMethodDecl>(F)) s += "@" + fileOf(F->getLocation());
    return s;
  }
  static int64_t i64(const llvm::APSInt &v) {
    if (v.isRepresentableByInt64()) return v.getExtValue();
    return INT64_MAX;  // e.g. std::string::npos
  }
  js::Object nd(const char *k, SourceLocation L) {
    js::Object o;
    o["k"] = k;
    o["l"] = lineOf(L);
    return o;
  }
  // ---------------------------------------------------------------- exprs
  js::Value arr(ArrayRef<const Expr *> A) {
    js::Array r;
    for (auto *e : A) r.push_back(ex(e));
    return r;
  }
  js::Object ref(const ValueDecl *D, const Expr *E) {
    SourceLocation L = E->getBeginLoc();
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      auto o = nd("int", L);
      o["v"] = i64(EC->getInitVal());
      o["en"] = EC->getQualifiedNameAsString();
      return o;
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      auto o = nd("fn", L);
      o["fn"] = F->getQualifiedNameAsString();
      o["sig"] = sigOf(F);
      o["user"] = inRoot(F->getLocation());
      return o;
    }
    if (auto *V = dyn_cast<VarDecl>(D)) {
      QualType T = V->getType();
      bool cst = (V->isConstexpr() || (T.isConstQualified() && !T->isReferenceType())) && T->isArithmeticType();
      if ((cst || T.isConstQualified()) && T.getNonReferenceType()->isArithmeticType() && !V->isLocalVarDeclOrParm()) {
        Expr::EvalResult R;
        if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
          if (R.Val.isInt()) {
            auto o = nd(T->isBooleanType() ? "bool" : "int", L);
            if (T->isBooleanType()) o["v"] = R.Val.getInt().getBoolValue();
            else o["v"] = i64(R.Val.getInt());
            o["cn"] = V->getQualifiedNameAsString();
            return o;
          }
          if (R.Val.isFloat()) {
            auto o = nd("flt", L);
            o["v"] = fstr(R.Val.getFloat());
            o["t"] = ty(T);
            o["cn"] = V->getQualifiedNameAsString();
            return o;
          }
        }
      }
      if (V->hasGlobalStorage() && !V->isStaticLocal()) {
        auto o = nd("gvar", L);
        o["n"] = V->getQualifiedNameAsString();
        o["t"] = ty(V->getType());
        o["user"] = inRoot(V->getLocation());
        return o;
      }
      auto o = nd("var", L);
      o["id"] = id(V);
      o["n"] = V->getNameAsString();
      o["t"] = ty(V->getType());
      if (V->isStaticLocal()) o["static"] = true;
      return o;
    }
    if (auto *B = dyn_cast<BindingDecl>(D)) {
      if (B->getBinding() && !isa<DecompositionDecl>(B->getDecomposedDecl())) {}
      auto o = nd("var", L);
      o["id"] = id(B);
      o["n"] = B->getNameAsString();
      o["t"] = ty(B->getType());
      return o;
    }
    if (auto *F = dyn_cast<FieldDecl>(D)) {
      auto o = nd("var", L);
      o["id"] = id(F);
      o["n"] = F->getNameAsString();
      o["t"] = ty(F->getType());
      return o;
    }
    auto o = nd("unk", L);
    o["what"] = std::string("declref ") + D->getDeclKindName();
    return o;
  }
  std::string fstr(const llvm::APFloat &V) {
    llvm::APFloat D = V;
    bool li;
    D.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
    double d = D.convertToDouble();
    char buf[64];
    snprintf(buf, sizeof buf, "%.17g", d);
    return buf;
  }
  std::string litText(const Expr *E) {
    SourceLocation b = SM.getSpellingLoc(E->getBeginLoc());
    return std::string(Lexer::getSourceText(CharSourceRange::getTokenRange(b, b), SM, C.getLangOpts()));
  }
  js::Object callArgs(js::Object o, const CallExpr *E, unsigned from) {
    js::Array a;
    for (unsigned i = from; i < E->getNumArgs(); i++) a.push_back(ex(E->getArg(i)));
    o["args"] = std::move(a);
    o["t"] = ty(E->getType());
    return o;
  }
  js::Object calleeInfo(js::Object o, const FunctionDecl *F) {
    o["fn"] = F->getQualifiedNameAsString();
    o["sig"] = sigOf(F);
    bool user = inRoot(F->getLocation());
    o["user"] = user;
    js::Array pt;
    for (auto *p : F->parameters()) pt.push_back(ty(p->getType()));
    o["pt"] = std::move(pt);
    return o;
  }
  js::Value ex(const Expr *E) {
    if (!E) return nullptr;
    SourceLocation L = E->getBeginLoc();
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return ex(P->getSourceExpr());
    if (auto *I = dyn_cast<IntegerLiteral>(E)) {
      auto o = nd("int", L);
      o["v"] = (int64_t)I->getValue().getSExtValue();
      return o;
    }
    if (auto *I = dyn_cast<CharacterLiteral>(E)) {
      auto o = nd("char", L);
      o["v"] = (int64_t)I->getValue();
      return o;
    }
    if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto o = nd("bool", L);
      o["v"] = I->getValue();
      return o;
    }
    if (auto *I = dyn_cast<FloatingLiteral>(E)) {
      auto o = nd("flt", L);
      o["v"] = fstr(I->getValue());
      o["txt"] = litText(E);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *I = dyn_cast<clang::StringLiteral>(E)) {
      auto o = nd("str", L);
      o["v"] = js::fixUTF8(I->getBytes());
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return nd("null", L);
    if (isa<CXXThisExpr>(E)) {
      auto o = nd("this", L);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *D = dyn_cast<DeclRefExpr>(E)) return ref(D->getDecl(), E);
    if (auto *S = dyn_cast<SourceLocExpr>(E)) {
      auto o = nd("srcloc", L);
      return o;
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) return ref(V, E);
      auto o = nd("mem", M->getMemberLoc());
      o["b"] = ex(M->getBase());
      o["n"] = M->getMemberDecl()->getNameAsString();
      o["arrow"] = M->isArrow();
      o["t"] = ty(E->getType());
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        o["cls"] = F->getParent()->getQualifiedNameAsString();
      }
      return o;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = nd("idx", L);
      o["b"] = ex(A->getBase());
      o["i"] = ex(A->getIdx());
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus) return ex(U->getSubExpr());
      auto o = nd("un", L);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str() + (U->isPostfix() ? "p" : "");
      o["e"] = ex(U->getSubExpr());
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      bool as = B->isAssignmentOp();
      auto o = nd(as ? "asg" : "bin", B->getOperatorLoc());
      o["op"] = B->getOpcodeStr().str();
      o["a"] = ex(B->getLHS());
      o["b"] = ex(B->getRHS());
      o["t"] = ty(E->getType());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = ty(CA->getComputationResultType());
      return o;
    }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) {
      auto o = nd("cond", L);
      o["c"] = ex(Q->getCond());
      o["a"] = ex(Q->getTrueExpr());
      o["b"] = ex(Q->getFalseExpr());
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      switch (K->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay:
        case CK_FunctionToPointerDecay: case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_BitCast: case CK_ToVoid:
        case CK_BaseToDerived: case CK_AtomicToNonAtomic: case CK_NullToPointer:
        case CK_BuiltinFnToFnPtr:
          return ex(K->getSubExpr());
        default: break;
      }
      auto o = nd("cast", L);
      o["ck"] = K->getCastKindName();
      o["t"] = ty(E->getType());
      o["from"] = ty(K->getSubExpr()->getType());
      o["e"] = ex(K->getSubExpr());
      o["expl"] = isa<ExplicitCastExpr>(E);
      return o;
    }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
      std::string op = getOperatorSpelling(O->getOperator());
      const FunctionDecl *F = O->getDirectCallee();
      if (O->getOperator() == OO_Subscript) {
        auto o = nd("idx", L);
        o["b"] = ex(O->getArg(0));
        o["i"] = ex(O->getArg(1));
        o["t"] = ty(E->getType());
        o["ov"] = true;
        if (F) o["fn"] = F->getQualifiedNameAsString();
        return o;
      }
      auto o = nd("opcall", O->getOperatorLoc());
      o["op"] = op;
      if (F) o = calleeInfo(std::move(o), F);
      if (F && isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda()) o["lam"] = true;
      return callArgs(std::move(o), O, 0);
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = nd("mcall", L);
      const Expr *cal = MC->getCallee()->IgnoreParens();
      if (auto *ME = dyn_cast<MemberExpr>(cal)) {
        o["b"] = ex(ME->getBase());
        o["arrow"] = ME->isArrow();
        o["bt"] = ty(ME->getBase()->getType());
        o["n"] = ME->getMemberDecl()->getNameAsString();
        o["l"] = lineOf(ME->getMemberLoc());
      }
      if (auto *F = MC->getDirectCallee()) o = calleeInfo(std::move(o), F);
      return callArgs(std::move(o), MC, 0);
    }
    if (auto *CE = dyn_cast<CallExpr>(E)) {
      auto o = nd("call", L);
      if (auto *F = CE->getDirectCallee()) o = calleeInfo(std::move(o), F);
      else o["callee"] = ex(CE->getCallee());
      return callArgs(std::move(o), CE, 0);
    }
    if (auto *T = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = T->getConstructor();
      if ((K->isCopyOrMoveConstructor()) && T->getNumArgs() == 1) {
        auto o = nd("copy", L);
        o["e"] = ex(T->getArg(0));
        o["t"] = ty(E->getType());
        return o;
      }
      auto o = nd("ctor", L);
      o["t"] = ty(E->getType());
      o["list"] = T->isListInitialization();
      o["stdlist"] = T->isStdInitListInitialization();
      o = calleeInfo(std::move(o), K);
      js::Array a;
      for (unsigned i = 0; i < T->getNumArgs(); i++) a.push_back(ex(T->getArg(i)));
      o["args"] = std::move(a);
      return o;
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
      auto o = nd("init", L);
      o["t"] = ty(E->getType());
      js::Array a;
      for (unsigned i = 0; i < I->getNumInits(); i++) a.push_back(ex(I->getInit(i)));
      o["e"] = std::move(a);
      if (auto *R = E->getType()->getAsCXXRecordDecl()) {
        js::Array fn;
        for (auto *F : R->fields()) fn.push_back(F->getNameAsString());
        o["fields"] = std::move(fn);
      }
      return o;
    }
    if (auto *S = dyn_cast<CXXScalarValueInitExpr>(E)) {
      auto o = nd("zero", L);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *S = dyn_cast<ImplicitValueInitExpr>(E)) {
      auto o = nd("zero", L);
      o["t"] = ty(E->getType());
      return o;
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      auto o = nd("new", L);
      o["t"] = ty(N->getAllocatedType());
      o["arr"] = N->isArray();
      if (N->getInitializer()) o["init"] = ex(N->getInitializer());
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = nd("delete", L);
      o["arr"] = D->isArrayForm();
      o["e"] = ex(D->getArgument());
      return o;
    }
    if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      auto o = nd("throw", L);
      if (T->getSubExpr()) {
        o["t"] = ty(T->getSubExpr()->getType());
        o["e"] = ex(T->getSubExpr());
      }
      return o;
    }
    if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      auto o = nd("int", L);
      if (E->EvaluateAsInt(R, C)) { o["v"] = i64(R.Val.getInt()); return o; }
    }
    if (auto *La = dyn_cast<LambdaExpr>(E)) {
      auto o = nd("lambda", L);
      auto *M = La->getCallOperator();
      o["sig"] = sigOf(M);
      js::Array ps;
      for (auto *p : M->parameters()) ps.push_back(param(p));
      o["params"] = std::move(ps);
      js::Array cs;
      auto ii = La->capture_init_begin();
      for (auto &c : La->captures()) {
        js::Object co;
        if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["ref"] = c.getCaptureKind() == LCK_ByRef;
          if (La->isInitCapture(&c)) co["init"] = ex(*ii);
        } else if (c.capturesThis()) co["this"] = true;
        cs.push_back(std::move(co));
        ++ii;
      }
      o["caps"] = std::move(cs);
      o["ret"] = ty(M->getReturnType());
      if (!M->isDependentContext()) o["body"] = st(La->getBody());
      else {
        o["generic"] = true;
        // generic lambda: bodies of the instantiated operators
        js::Array insts;
        if (auto *FT = M->getDescribedFunctionTemplate())
          for (auto *S : FT->specializations()) {
            js::Object io;
            io["sig"] = sigOf(S);
            js::Array ps2;
            for (auto *p : S->parameters()) ps2.push_back(param(p));
            io["params"] = std::move(ps2);
            if (S->getBody()) io["body"] = st(S->getBody());
            insts.push_back(std::move(io));
          }
        o["insts"] = std::move(insts);
      }
      return o;
    }
    if (auto *P = dyn_cast<PseudoObjectExpr>(E)) return ex(P->getResultExpr());
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      auto D = P->getDecomposedForm();
      auto o = nd("bin", L);
      o["op"] = BinaryOperator::getOpcodeStr(D.Opcode).str();
      o["a"] = ex(D.LHS);
      o["b"] = ex(D.RHS);
      o["t"] = ty(E->getType());
      o["rw"] = true;
      return o;
    }
    if (auto *P = dyn_cast<PredefinedExpr>(E)) {
      auto o = nd("str", L);
      o["v"] = "__func__";
      return o;
    }
    if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      auto o = nd("ctor", L);
      o["t"] = ty(E->getType());
      o = calleeInfo(std::move(o), P->getConstructor());
      o["inherited"] = true;
      o["args"] = js::Array();
      return o;
    }
    {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) {
        auto o = nd("int", L);
        o["v"] = i64(R.Val.getInt());
        return o;
      }
    }
    auto o = nd("unk", L);
    o["what"] = E->getStmtClassName();
    o["t"] = ty(E->getType());
    js::Array ch;
    for (auto *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(ex(ce));
    o["ch"] = std::move(ch);
    return o;
  }
  js::Object param(const ParmVarDecl *p) {
    js::Object o;
    o["n"] = p->getNameAsString();
    o["id"] = id(p);
    o["t"] = ty(p->getType());
    return o;
  }
  // ---------------------------------------------------------------- stmts
  js::Value vd(const VarDecl *V) {
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      auto o = nd("sbind", D->getBeginLoc());
      js::Array ids;
      for (auto *B : D->bindings()) {
        js::Object b;
        b["id"] = id(B);
        b["n"] = B->getNameAsString();
        b["t"] = ty(B->getType());
        ids.push_back(std::move(b));
      }
      o["ids"] = std::move(ids);
      o["t"] = ty(D->getType());
      o["init"] = D->getInit() ? ex(D->getInit()) : js::Value(nullptr);
      return o;
    }
    auto o = nd("vd", V->getBeginLoc());
    o["id"] = id(V);
    o["n"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType().isConstQualified()) o["const"] = true;
    o["thread"] = V->getTLSKind() != VarDecl::TLS_None;
    if (V->getInit()) {
      o["init"] = ex(V->getInit());
      // "T x;" of class type has an implicit constructor call
    } else o["init"] = nullptr;
    return o;
  }
  js::Value st(const Stmt *S) {
    if (!S) return nullptr;
    SourceLocation L = S->getBeginLoc();
    if (auto *E = dyn_cast<Expr>(S)) {
      auto o = nd("expr", L);
      o["e"] = ex(E);
      return o;
    }
    switch (S->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        auto o = nd("seq", L);
        js::Array a;
        for (auto *c : S->children()) a.push_back(st(c));
        o["s"] = std::move(a);
        return o;
      }
      case Stmt::DeclStmtClass: {
        auto o = nd("decl", L);
        js::Array a;
        for (auto *D : cast<DeclStmt>(S)->decls()) {
          if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(vd(V));
          else if (isa<TypedefNameDecl>(D) || isa<UsingDecl>(D) || isa<UsingDirectiveDecl>(D) || isa<StaticAssertDecl>(D) || isa<EmptyDecl>(D) || isa<RecordDecl>(D) || isa<EnumDecl>(D)) continue;
          else {
            auto u = nd("unk", L);
            u["what"] = D->getDeclKindName();
            a.push_back(std::move(u));
          }
        }
        o["d"] = std::move(a);
        return o;
      }
      case Stmt::IfStmtClass: {
        auto *I = cast<IfStmt>(S);
        auto o = nd("if", L);
        if (I->getInit()) o["init"] = st(I->getInit());
        if (I->getConditionVariable()) o["cv"] = vd(I->getConditionVariable());
        if (I->isConstexpr()) {
          if (auto nt = I->getNondiscardedCase(C)) return *nt ? st(*nt) : js::Value(nd("null", L));
        }
        o["c"] = ex(I->getCond());
        o["a"] = st(I->getThen());
        o["b"] = st(I->getElse());
        return o;
      }
      case Stmt::ForStmtClass: {
        auto *F = cast<ForStmt>(S);
        auto o = nd("for", L);
        o["init"] = st(F->getInit());
        o["c"] = ex(F->getCond());
        o["inc"] = ex(F->getInc());
        o["body"] = st(F->getBody());
        if (F->getConditionVariable()) o["cv"] = vd(F->getConditionVariable());
        return o;
      }
      case Stmt::WhileStmtClass: {
        auto *W = cast<WhileStmt>(S);
        auto o = nd("while", L);
        o["c"] = ex(W->getCond());
        o["body"] = st(W->getBody());
        if (W->getConditionVariable()) o["cv"] = vd(W->getConditionVariable());
        return o;
      }
      case Stmt::DoStmtClass: {
        auto *W = cast<DoStmt>(S);
        auto o = nd("do", L);
        o["c"] = ex(W->getCond());
        o["body"] = st(W->getBody());
        return o;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *R = cast<CXXForRangeStmt>(S);
        auto o = nd("rfor", L);
        if (R->getInit()) o["init"] = st(R->getInit());
        o["range"] = ex(R->getRangeInit());
        o["rt"] = ty(R->getRangeInit()->getType());
        // the loop variable, without its (begin-iterator) initialiser
        auto *V = R->getLoopVariable();
        if (auto *D = dyn_cast<DecompositionDecl>(V)) {
          auto v = nd("sbind", V->getBeginLoc());
          js::Array ids;
          for (auto *B : D->bindings()) {
            js::Object b;
            b["id"] = id(B);
            b["n"] = B->getNameAsString();
            b["t"] = ty(B->getType());
            ids.push_back(std::move(b));
          }
          v["ids"] = std::move(ids);
          v["t"] = ty(D->getType());
          o["var"] = std::move(v);
        } else {
          auto v = nd("vd", V->getBeginLoc());
          v["id"] = id(V);
          v["n"] = V->getNameAsString();
          v["t"] = ty(V->getType());
          o["var"] = std::move(v);
        }
        o["body"] = st(R->getBody());
        return o;
      }
      case Stmt::SwitchStmtClass: {
        auto *W = cast<SwitchStmt>(S);
        auto o = nd("switch", L);
        if (W->getInit()) o["init"] = st(W->getInit());
        o["c"] = ex(W->getCond());
        o["body"] = st(W->getBody());
        return o;
      }
      case Stmt::CaseStmtClass: {
        auto *W = cast<CaseStmt>(S);
        auto o = nd("case", L);
        Expr::EvalResult R;
        if (W->getLHS()->EvaluateAsInt(R, C)) o["v"] = i64(R.Val.getInt());
        if (W->getRHS() && W->getRHS()->EvaluateAsInt(R, C)) o["v2"] = i64(R.Val.getInt());
        o["s"] = st(W->getSubStmt());
        return o;
      }
      case Stmt::DefaultStmtClass: {
        auto o = nd("default", L);
        o["s"] = st(cast<DefaultStmt>(S)->getSubStmt());
        return o;
      }
      case Stmt::BreakStmtClass: return nd("break", L);
      case Stmt::ContinueStmtClass: return nd("continue", L);
      case Stmt::NullStmtClass: return nd("null", L);
      case Stmt::ReturnStmtClass: {
        auto o = nd("ret", L);
        o["e"] = ex(cast<ReturnStmt>(S)->getRetValue());
        return o;
      }
      case Stmt::AttributedStmtClass: return st(cast<AttributedStmt>(S)->getSubStmt());
      case Stmt::LabelStmtClass: {
        auto o = nd("label", L);
        o["n"] = cast<LabelStmt>(S)->getName();
        o["s"] = st(cast<LabelStmt>(S)->getSubStmt());
        return o;
      }
      case Stmt::GotoStmtClass: {
        auto o = nd("goto", L);
        o["n"] = cast<GotoStmt>(S)->getLabel()->getNameAsString();
        return o;
      }
      case Stmt::CXXTryStmtClass: {
        auto *T = cast<CXXTryStmt>(S);
        auto o = nd("try", L);
        o["body"] = st(T->getTryBlock());
        js::Array hs;
        for (unsigned i = 0; i < T->getNumHandlers(); i++) hs.push_back(st(T->getHandler(i)->getHandlerBlock()));
        o["h"] = std::move(hs);
        return o;
      }
      default: break;
    }
    auto o = nd("unk", L);
    o["what"] = S->getStmtClassName();
    return o;
  }
  // ---------------------------------------------------------------- decls
  void func(const FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return;
    if (F->isDeleted() || (F->isDefaulted() && !F->getBody())) return;
    if (F->isImplicit()) return;
    if (!inRoot(F->getLocation())) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    std::string s = sigOf(F);
    if (!gSeen.insert(s).second) return;
    js::Object o;
    o["sig"] = s;
    o["name"] = F->getQualifiedNameAsString();
    o["file"] = fileOf(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    o["ret"] = ty(F->getReturnType());
    js::Array ps;
    for (auto *p : F->parameters()) {
      auto po = param(p);
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = ex(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      o["method"] = !M->isStatic();
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      js::Array in;
      for (auto *I : K->inits()) {
        js::Object io;
        if (I->isMemberInitializer()) io["m"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = ex(I->getInit());
        io["written"] = I->isWritten();
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["internal"] = F->getFormalLinkage() == Linkage::Internal;
    o["body"] = st(F->getBody());
    gFuncs.push_back(std::move(o));
  }
  void rec(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    std::string n = R->getQualifiedNameAsString();
    if (!gSeenRec.insert(n).second) return;
    js::Object o;
    o["name"] = n;
    o["file"] = fileOf(R->getLocation());
    o["line"] = lineOf(R->getLocation());
    js::Array fs;
    for (auto *F : R->fields()) {
      js::Object f;
      f["n"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      f["mutable"] = F->isMutable();
      if (F->getInClassInitializer()) f["init"] = ex(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    js::Array bs;
    for (auto &b : R->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    gRecs.push_back(std::move(o));
  }
  void glob(const VarDecl *V) {
    if (!inRoot(V->getLocation())) return;
    if (V->getType()->isDependentType()) return;
    bool staticMember = V->isStaticDataMember();
    if (!V->isFileVarDecl() && !staticMember && !V->isStaticLocal()) return;
    std::string n = V->getQualifiedNameAsString() + (V->isStaticLocal() ? "#local" + std::to_string(lineOf(V->getLocation())) : "");
    std::string key = n + (V->isThisDeclarationADefinition() ? "#def" : "#decl");
    if (!gSeenGlob.insert(key).second) return;
    js::Object o;
    o["name"] = n;
    o["t"] = ty(V->getType());
    o["file"] = fileOf(V->getLocation());
    o["line"] = lineOf(V->getLocation());
    o["def"] = V->isThisDeclarationADefinition() == VarDecl::Definition;
    o["const"] = V->getType().isConstQualified() || V->isConstexpr();
    o["static_local"] = V->isStaticLocal();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    if (V->getInit()) o["init"] = ex(V->getInit());
    gGlobals.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  X &x;
  explicit V(X &x) : x(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { x.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { x.rec(R); return true; }
  bool VisitVarDecl(VarDecl *D) { x.glob(D); return true; }
};

class Cons : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    X x(C);
    V v(x);
    // only top-level declarations located under the root, plus everything
    // instantiated from them
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      if (!x.inRoot(D->getLocation())) continue;
      v.TraverseDecl(D);
    }
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};
}  // namespace

// library algorithms are read as their definitions in tool/models.hpp
static bool modelled(const std::string &file, std::vector<std::pair<std::string, std::string>> &over) {
  static const char *names =
      "any_of|all_of|none_of|for_each|count_if|count|find_if|find_if_not|find|accumulate|inner_product|copy|copy_n|"
      "copy_if|transform|generate|iota|reverse|min_element|max_element|exchange|minmax|midpoint|lerp|back_inserter|"
      "ranges::(?:any_of|all_of|none_of|for_each|count_if|fill)";
  auto B = llvm::MemoryBuffer::getFile(file);
  if (!B) return false;
  std::string s = (*B)->getBuffer().str();
  std::regex q(std::string("\\bstd::(") + names + ")(?=\\s*[(<])");
  std::string r = std::regex_replace(s, q, "sdmodel::$1");
  if (r == s) return false;
  over.push_back({file, r});
  return true;
}

int main(int argc, const char **argv) {
  // sdextract ROOT FILE -- flags...
  if (argc < 4) { llvm::errs() << "usage: sdextract ROOT FILE -- FLAGS\n"; return 2; }
  gRoot = argv[1];
  std::string file = argv[2];
  std::vector<std::string> flags;
  for (int i = 4; i < argc; i++) flags.push_back(argv[i]);
  std::vector<std::pair<std::string, std::string>> over;
  bool any = modelled(file, over);
  std::error_code ec;
  for (llvm::sys::fs::directory_iterator it(gRoot, ec), e; it != e && !ec; it.increment(ec)) {
    llvm::StringRef p = it->path();
    if (p.ends_with(".hpp") || p.ends_with(".h") || p.ends_with(".inl")) any |= modelled(p.str(), over);
  }
  std::string models;
  if (any) {
    std::string mp = argv[0];
    auto k = mp.rfind('/');
    mp = (k == std::string::npos ? std::string(".") : mp.substr(0, k)) + "/../tool/models.hpp";
    auto B = llvm::MemoryBuffer::getFile(mp);
    if (!B) { llvm::errs() << "no " << mp << "\n"; return 2; }
    models = (*B)->getBuffer().str();
    flags.push_back("-include");
    flags.push_back(gRoot + "sdmodels.hpp");
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  if (any) {
    static std::string name = gRoot + "sdmodels.hpp";
    T.mapVirtualFile(name, models);
    for (auto &o : over) T.mapVirtualFile(o.first, o.second);
  }
  int rc = T.run(tooling::newFrontendActionFactory<Act>().get());
  if (rc) return 3;
  js::Object out;
  out["functions"] = std::move(gFuncs);
  out["records"] = std::move(gRecs);
  out["globals"] = std::move(gGlobals);
  out["file"] = file;
  llvm::outs() << js::Value(std::move(out)) << "\n";
  return 0;
}
