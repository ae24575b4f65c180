// qx: dump the type-checked program (function bodies after overload resolution,
// template instantiation and constant folding) of one translation unit as JSON.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
static std::vector<std::string> g_roots;

static std::string esc(llvm::StringRef s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}

class Dumper : public RecursiveASTVisitor<Dumper>
{
public:
  ASTContext &C;
  SourceManager &SM;
  ASTNameGenerator NG;
  PrintingPolicy PP;
  llvm::raw_ostream &O;
  std::map<const void *, int> ids;
  std::map<std::string, int> types;
  std::vector<std::string> typelist;
  std::set<const void *> done, donerec;
  std::vector<std::string> funcs, recs, globals, enums;
  std::set<std::string> doneglob;
  Dumper(ASTContext &C, llvm::raw_ostream &O) : C(C), SM(C.getSourceManager()), NG(C), PP(C.getLangOpts()), O(O)
  {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.FullyQualifiedName = true;
    PP.SuppressScope = false;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  int id(const Decl *D)
  {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[D] = n;
    return n;
  }
  int ty(QualType T)
  {
    if (T.isNull()) return -1;
    T = T.getCanonicalType().getNonReferenceType().getUnqualifiedType();
    std::string s = T.getAsString(PP);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = (int)typelist.size();
    types[s] = n;
    typelist.push_back(s);
    return n;
  }
  std::string fullty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  std::string file(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  int line(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getLine() : 0;
  }
  bool inRoots(SourceLocation L)
  {
    auto f = file(L);
    for (auto &r : g_roots)
      if (llvm::StringRef(f).starts_with(r)) return true;
    return false;
  }
  std::string qname(const NamedDecl *D)
  {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }
  // class-qualified name with template arguments of the class
  std::string recname(const CXXRecordDecl *R) { return C.getRecordType(R).getCanonicalType().getAsString(PP); }

  std::string fref(const FunctionDecl *F)
  {
    std::string s = "{\"n\":" + esc(F->getNameInfo().getAsString());
    s += ",\"q\":" + esc(qname(F));
    std::string m;
    if (!F->isDependentContext()) m = NG.getName(F);
    s += ",\"m\":" + esc(m);
    s += ",\"i\":" + std::to_string(id(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      s += ",\"c\":" + esc(recname(M->getParent()));
      if (M->isVirtual()) s += ",\"virt\":1";
      if (M->isStatic()) s += ",\"static\":1";
      if (M->isConst()) s += ",\"const\":1";
      if (M->getParent()->isLambda()) s += ",\"lam\":1";
    }
    if (F->getTemplateSpecializationArgs()) {
      s += ",\"ta\":[";
      bool first = true;
      for (auto &A : F->getTemplateSpecializationArgs()->asArray()) {
        if (!first) s += ",";
        first = false;
        std::string t;
        llvm::raw_string_ostream os(t);
        A.print(PP, os, true);
        s += esc(os.str());
      }
      s += "]";
    }
    s += ",\"np\":" + std::to_string(F->getNumParams());
    s += "}";
    return s;
  }
  std::string list(const std::vector<std::string> &v)
  {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += v[i]; }
    return s + "]";
  }
  std::string vardecl(const VarDecl *V)
  {
    std::string s = "{\"k\":\"var\",\"n\":" + esc(V->getNameAsString()) + ",\"i\":" + std::to_string(id(V)) +
                    ",\"t\":" + std::to_string(ty(V->getType())) + ",\"l\":" + std::to_string(line(V->getLocation()));
    if (V->getType()->isReferenceType()) s += ",\"ref\":1";
    if (V->isStaticLocal()) s += ",\"static\":1";
    if (V->getTSCSpec() != TSCS_unspecified) s += ",\"tls\":1";
    if (V->getType().isConstQualified()) s += ",\"const\":1";
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      s += ",\"binds\":[";
      bool first = true;
      for (auto *B : D->bindings()) {
        if (!first) s += ",";
        first = false;
        s += "[" + std::to_string(id(B)) + "," + esc(B->getNameAsString()) + "]";
      }
      s += "]";
    }
    if (V->getInit()) s += ",\"e\":" + ex(V->getInit());
    return s + "}";
  }
  std::string L(const Stmt *S) { return ",\"l\":" + std::to_string(line(S->getBeginLoc())); }

  std::string st(const Stmt *S)
  {
    if (!S) return "null";
    if (auto *E = dyn_cast<Expr>(S)) return "{\"k\":\"expr\"" + L(S) + ",\"e\":" + ex(E) + "}";
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      std::vector<std::string> v;
      for (auto *x : B->body()) v.push_back(st(x));
      return "{\"k\":\"block\",\"b\":" + list(v) + "}";
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      std::vector<std::string> v;
      for (auto *x : D->decls())
        if (auto *V = dyn_cast<VarDecl>(x)) v.push_back(vardecl(V));
      return "{\"k\":\"decl\"" + L(S) + ",\"d\":" + list(v) + "}";
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      std::string s = "{\"k\":\"if\"" + L(S);
      if (I->getInit()) s += ",\"init\":" + st(I->getInit());
      if (I->getConditionVariable()) s += ",\"cv\":" + vardecl(I->getConditionVariable());
      if (I->isConstexpr()) {
        s += ",\"cx\":1";
      }
      s += ",\"c\":" + ex(I->getCond()) + ",\"a\":" + st(I->getThen()) + ",\"b\":" + st(I->getElse());
      return s + "}";
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      return "{\"k\":\"for\"" + L(S) + ",\"init\":" + st(F->getInit()) + ",\"c\":" + (F->getCond() ? ex(F->getCond()) : "null") +
             ",\"inc\":" + (F->getInc() ? ex(F->getInc()) : "null") + ",\"b\":" + st(F->getBody()) + "}";
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
      std::string s = "{\"k\":\"rfor\"" + L(S);
      if (F->getInit()) s += ",\"init\":" + st(F->getInit());
      s += ",\"v\":" + vardecl(F->getLoopVariable()) + ",\"r\":" + ex(F->getRangeInit());
      if (F->getBeginStmt()) s += ",\"rt\":" + std::to_string(ty(F->getRangeInit()->getType()));
      return s + ",\"b\":" + st(F->getBody()) + "}";
    }
    if (auto *W = dyn_cast<WhileStmt>(S))
      return "{\"k\":\"while\"" + L(S) + ",\"c\":" + ex(W->getCond()) + ",\"b\":" + st(W->getBody()) + "}";
    if (auto *W = dyn_cast<DoStmt>(S))
      return "{\"k\":\"do\"" + L(S) + ",\"c\":" + ex(W->getCond()) + ",\"b\":" + st(W->getBody()) + "}";
    if (auto *R = dyn_cast<ReturnStmt>(S))
      return "{\"k\":\"ret\"" + L(S) + ",\"e\":" + (R->getRetValue() ? ex(R->getRetValue()) : "null") + "}";
    if (isa<BreakStmt>(S)) return "{\"k\":\"break\"}";
    if (isa<ContinueStmt>(S)) return "{\"k\":\"continue\"}";
    if (isa<NullStmt>(S)) return "{\"k\":\"null\"}";
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      return "{\"k\":\"switch\"" + L(S) + ",\"c\":" + ex(W->getCond()) + ",\"b\":" + st(W->getBody()) + "}";
    }
    if (auto *K = dyn_cast<CaseStmt>(S))
      return "{\"k\":\"case\"" + L(S) + ",\"v\":" + ex(K->getLHS()) + ",\"b\":" + st(K->getSubStmt()) + "}";
    if (auto *K = dyn_cast<DefaultStmt>(S)) return "{\"k\":\"default\"" + L(S) + ",\"b\":" + st(K->getSubStmt()) + "}";
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      std::vector<std::string> v;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        std::string h = "{\"t\":" + (H->getExceptionDecl() ? esc(fullty(H->getCaughtType())) : std::string("\"...\""));
        if (H->getExceptionDecl()) h += ",\"v\":" + vardecl(H->getExceptionDecl());
        v.push_back(h + ",\"b\":" + st(H->getHandlerBlock()) + "}");
      }
      return "{\"k\":\"try\"" + L(S) + ",\"b\":" + st(T->getTryBlock()) + ",\"h\":" + list(v) + "}";
    }
    if (auto *A = dyn_cast<AttributedStmt>(S)) return st(A->getSubStmt());
    if (auto *A = dyn_cast<LabelStmt>(S)) return st(A->getSubStmt());
    return "{\"k\":\"unkstmt\",\"w\":" + esc(S->getStmtClassName()) + L(S) + "}";
  }

  std::string T(const Expr *E) { return ",\"t\":" + std::to_string(ty(E->getType())); }

  std::string num(const Expr *E, const APValue &V)
  {
    if (V.isInt()) {
      llvm::SmallString<32> s;
      V.getInt().toString(s, 10);
      if (E->getType()->isBooleanType())
        return std::string("{\"k\":\"bool\",\"v\":") + (V.getInt().getBoolValue() ? "true" : "false") + T(E) + "}";
      return "{\"k\":\"int\",\"v\":" + std::string(s) + T(E) + "}";
    }
    if (V.isFloat()) {
      llvm::SmallString<64> s;
      V.getFloat().toString(s, 36, 0);
      return "{\"k\":\"flt\",\"v\":" + esc(s) + T(E) + "}";
    }
    return "";
  }

  std::string args(llvm::ArrayRef<const Expr *> a, const FunctionDecl *F = nullptr)
  {
    std::vector<std::string> v;
    for (auto *x : a) v.push_back(ex(x));
    return list(v);
  }
  std::vector<const Expr *> vec(CallExpr::const_arg_range r)
  {
    std::vector<const Expr *> v;
    for (auto *x : r) v.push_back(x);
    return v;
  }

  std::string ex(const Expr *E)
  {
    if (!E) return "null";
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(P->getReplacement());
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return ex(P->getExpr());
    if (E->isTypeDependent() || E->isValueDependent() || E->containsErrors())
      return "{\"k\":\"unk\",\"w\":\"dependent\"" + L(E) + "}";
    // fold compile-time constants of scalar type (not references to runtime state)
    if ((E->getType()->isIntegralOrEnumerationType() || E->getType()->isFloatingType()) && !isa<InitListExpr>(E)) {
      bool skip = false;
      if (auto *D = dyn_cast<DeclRefExpr>(E)) {
        if (auto *V = dyn_cast<VarDecl>(D->getDecl())) skip = !V->isUsableInConstantExpressions(C);
      }
      if (!skip) {
        Expr::EvalResult R;
        if (E->EvaluateAsConstantExpr(R, C) && !R.HasSideEffects) {
          std::string s = num(E, R.Val);
          if (!s.empty()) {
            if (auto *D = dyn_cast<DeclRefExpr>(E))
              if (auto *EC = dyn_cast<EnumConstantDecl>(D->getDecl())) {
                s.pop_back();
                s += ",\"en\":" + esc(EC->getNameAsString()) + "}";
              }
            return s;
          }
        }
      }
    }
    if (auto *P = dyn_cast<ConstantExpr>(E)) return ex(P->getSubExpr());
    if (auto *K = dyn_cast<CastExpr>(E)) {
      auto *sub = K->getSubExpr();
      switch (K->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_ConstructorConversion:
      case CK_UserDefinedConversion: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay: case CK_BaseToDerived:
      case CK_BitCast: case CK_LValueBitCast: case CK_NullToPointer:
        if (K->getCastKind() == CK_BaseToDerived || isa<CXXReinterpretCastExpr>(E))
          return "{\"k\":\"cast\",\"ck\":" + esc(K->getCastKindName()) + T(E) + ",\"e\":" + ex(sub) + "}";
        return ex(sub);
      default:
        return "{\"k\":\"cast\",\"ck\":" + esc(K->getCastKindName()) + (isa<ExplicitCastExpr>(E) ? ",\"ex\":1" : "") + T(E) +
               ",\"ft\":" + std::to_string(ty(sub->getType())) + ",\"e\":" + ex(sub) + "}";
      }
    }
    if (auto *S = dyn_cast<StringLiteral>(E)) return "{\"k\":\"str\",\"v\":" + esc(S->getString()) + "}";
    if (isa<CXXThisExpr>(E)) return "{\"k\":\"this\"}";
    if (isa<CXXNullPtrLiteralExpr>(E)) return "{\"k\":\"nullptr\"}";
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      auto *V = D->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(V)) return "{\"k\":\"fn\",\"f\":" + fref(F) + "}";
      if (auto *VD = dyn_cast<VarDecl>(V)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) {
          global(VD);
          return "{\"k\":\"gref\",\"n\":" + esc(qname(VD)) + ",\"i\":" + std::to_string(id(VD)) + T(E) + "}";
        }
      }
      return "{\"k\":\"ref\",\"n\":" + esc(V->getNameAsString()) + ",\"i\":" + std::to_string(id(V)) + T(E) + L(E) + "}";
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl()))
        return "{\"k\":\"mfn\",\"f\":" + fref(F) + ",\"b\":" + ex(M->getBase()) + "}";
      if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
        global(VD);
        return "{\"k\":\"gref\",\"n\":" + esc(qname(VD)) + ",\"i\":" + std::to_string(id(VD)) + T(E) + "}";
      }
      return "{\"k\":\"mem\",\"n\":" + esc(M->getMemberDecl()->getNameAsString()) + (M->isArrow() ? ",\"arrow\":1" : "") + T(E) + L(E) +
             ",\"b\":" + ex(M->getBase()) + "}";
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      std::string s = "{\"k\":\"bin\",\"op\":" + esc(B->getOpcodeStr()) + T(E) + L(E);
      if (auto *A = dyn_cast<CompoundAssignOperator>(E)) s += ",\"ct\":" + std::to_string(ty(A->getComputationResultType()));
      return s + ",\"a\":" + ex(B->getLHS()) + ",\"b\":" + ex(B->getRHS()) + "}";
    }
    if (auto *U = dyn_cast<UnaryOperator>(E))
      return "{\"k\":\"un\",\"op\":" + esc(UnaryOperator::getOpcodeStr(U->getOpcode())) + (U->isPostfix() ? ",\"post\":1" : "") + T(E) + L(E) +
             ",\"e\":" + ex(U->getSubExpr()) + "}";
    if (auto *Q = dyn_cast<ConditionalOperator>(E))
      return "{\"k\":\"cond\"" + T(E) + L(E) + ",\"c\":" + ex(Q->getCond()) + ",\"a\":" + ex(Q->getTrueExpr()) + ",\"b\":" + ex(Q->getFalseExpr()) + "}";
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E))
      return "{\"k\":\"idx\"" + T(E) + L(E) + ",\"b\":" + ex(A->getBase()) + ",\"i\":" + ex(A->getIdx()) + "}";
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto v = vec(OC->arguments());
      auto *F = OC->getDirectCallee();
      return "{\"k\":\"ocall\",\"op\":" + esc(getOperatorSpelling(OC->getOperator())) + T(E) + L(E) +
             (F ? ",\"f\":" + fref(F) : "") + (F && isa<CXXMethodDecl>(F) ? ",\"mth\":1" : "") + ",\"a\":" + args(v) + "}";
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      auto v = vec(MC->arguments());
      auto *F = MC->getMethodDecl();
      bool nv = false;
      bool arrow = false;
      if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) { nv = ME->hasQualifier(); arrow = ME->isArrow(); }
      const Expr *obj = MC->getImplicitObjectArgument();
      return "{\"k\":\"mcall\"" + T(E) + L(E) + (F ? ",\"f\":" + fref(F) : "") + (nv ? ",\"nv\":1" : "") + (arrow ? ",\"arrow\":1" : "") +
             ",\"o\":" + (obj ? ex(obj) : "null") + ",\"ot\":" + (obj ? std::to_string(ty(obj->getType())) : "-1") + ",\"a\":" + args(v) + "}";
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      auto v = vec(K->arguments());
      auto *F = K->getDirectCallee();
      return "{\"k\":\"call\"" + T(E) + L(E) + (F ? ",\"f\":" + fref(F) : ",\"fe\":" + ex(K->getCallee())) + ",\"a\":" + args(v) + "}";
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      std::vector<const Expr *> v;
      for (auto *x : K->arguments()) v.push_back(x);
      auto *CD = K->getConstructor();
      std::string s = "{\"k\":\"ctor\"" + T(E) + L(E) + ",\"f\":" + fref(CD) + ",\"a\":" + args(v) + (K->requiresZeroInitialization() ? ",\"zi\":1" : "");
      if (CD->isCopyConstructor()) s += ",\"copy\":1";
      if (CD->isMoveConstructor()) s += ",\"move\":1";
      if (CD->isDefaultConstructor()) s += ",\"def\":1";
      if (K->isListInitialization()) s += ",\"li\":1";
      if (K->isStdInitListInitialization()) s += ",\"il\":1";
      return s + "}";
    }
    if (auto *I = dyn_cast<InitListExpr>(E)) {
      if (!I->isSemanticForm() && I->getSemanticForm()) I = I->getSemanticForm();
      std::vector<std::string> v;
      for (auto *x : I->inits()) v.push_back(ex(x));
      std::string s = "{\"k\":\"list\"" + T(E) + ",\"a\":" + list(v);
      if (I->hasArrayFiller()) s += ",\"fill\":" + ex(I->getArrayFiller());
      if (auto *R = E->getType()->getAsCXXRecordDecl()) {
        s += ",\"fields\":[";
        bool first = true;
        for (auto &b : R->bases()) { (void)b; if (!first) s += ","; first = false; s += "\"<base>\""; }
        for (auto *f : R->fields()) { if (!first) s += ","; first = false; s += esc(f->getNameAsString()); }
        s += "]";
      }
      return s + "}";
    }
    if (auto *Lm = dyn_cast<LambdaExpr>(E)) {
      std::vector<std::string> caps;
      auto ci = Lm->capture_init_begin();
      for (auto &c : Lm->captures()) {
        std::string s = "{";
        if (c.capturesThis()) s += "\"this\":1";
        else if (c.capturesVariable()) {
          s += "\"n\":" + esc(c.getCapturedVar()->getNameAsString()) + ",\"i\":" + std::to_string(id(c.getCapturedVar()));
          if (c.getCaptureKind() == LCK_ByRef) s += ",\"ref\":1";
          if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture() && vd->getInit()) s += ",\"e\":" + ex(vd->getInit());
        }
        if (c.isImplicit()) s += ",\"implicit\":1";
        s += "}";
        caps.push_back(s);
        ++ci;
      }
      auto *op = Lm->getCallOperator();
      std::string s = "{\"k\":\"lambda\"" + T(E) + L(E) + ",\"caps\":" + list(caps) + ",\"i\":" + std::to_string(id(op));
      if (op->getDescribedFunctionTemplate()) {
        s += ",\"gen\":1,\"insts\":[";
        bool first = true;
        for (auto *sp : op->getDescribedFunctionTemplate()->specializations()) {
          if (!sp->hasBody()) continue;
          if (!first) s += ",";
          first = false;
          s += func(sp);
        }
        s += "]";
      } else
        s += ",\"fn\":" + func(op);
      return s + "}";
    }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      return "{\"k\":\"new\",\"t\":" + std::to_string(ty(N->getAllocatedType())) + L(E) +
             (N->isArray() ? ",\"arr\":1" : "") + ",\"e\":" + (N->getInitializer() ? ex(N->getInitializer()) : "null") + "}";
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) return "{\"k\":\"delete\"" + L(E) + ",\"e\":" + ex(D->getArgument()) + "}";
    if (auto *Th = dyn_cast<CXXThrowExpr>(E)) return "{\"k\":\"throw\"" + L(E) + ",\"e\":" + (Th->getSubExpr() ? ex(Th->getSubExpr()) : "null") + "}";
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return "{\"k\":\"zero\"" + T(E) + "}";
    if (auto *A = dyn_cast<ArrayInitLoopExpr>(E)) return ex(A->getCommonExpr()->getSourceExpr());
    if (auto *A = dyn_cast<OpaqueValueExpr>(E)) return A->getSourceExpr() ? ex(A->getSourceExpr()) : "{\"k\":\"unk\",\"w\":\"opaque\"}";
    if (auto *RW = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(RW->getSemanticForm());
    if (auto *PD = dyn_cast<PredefinedExpr>(E)) return "{\"k\":\"str\",\"v\":" + esc(PD->getFunctionName() ? PD->getFunctionName()->getString() : "") + "}";
    if (auto *CI = dyn_cast<CXXInheritedCtorInitExpr>(E)) return "{\"k\":\"unk\",\"w\":\"inheritedctor\"}";
    return "{\"k\":\"unk\",\"w\":" + esc(E->getStmtClassName()) + T(E) + L(E) + "}";
  }

  void global(const VarDecl *VD)
  {
    const VarDecl *Def = nullptr;
    const Expr *init = VD->getAnyInitializer(Def);
    std::string q = qname(VD);
    if (!doneglob.insert(q).second) return;
    std::string s = "{\"q\":" + esc(q) + ",\"i\":" + std::to_string(id(VD)) + ",\"t\":" + std::to_string(ty(VD->getType())) +
                    ",\"f\":" + esc(file(VD->getLocation())) + ",\"l\":" + std::to_string(line(VD->getLocation()));
    if (VD->getType().isConstQualified()) s += ",\"const\":1";
    if (VD->getTSCSpec() != TSCS_unspecified) s += ",\"tls\":1";
    if (init && inRoots(VD->getLocation())) s += ",\"e\":" + ex(init);
    globals.push_back(s + "}");
  }

  std::string func(const FunctionDecl *F)
  {
    std::string s = "{\"f\":" + fref(F) + ",\"file\":" + esc(file(F->getLocation())) + ",\"l\":" + std::to_string(line(F->getLocation()));
    std::vector<std::string> ps;
    for (auto *p : F->parameters()) {
      std::string d = "{\"n\":" + esc(p->getNameAsString()) + ",\"i\":" + std::to_string(id(p)) + ",\"t\":" + std::to_string(ty(p->getType())) +
                   ",\"ft\":" + esc(fullty(p->getType())) + (p->getType()->isReferenceType() ? ",\"ref\":1" : "");
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) d += ",\"d\":" + ex(p->getDefaultArg());
      ps.push_back(d + "}");
    }
    s += ",\"p\":" + list(ps) + ",\"rt\":" + std::to_string(ty(F->getReturnType())) + ",\"rft\":" + esc(fullty(F->getReturnType()));
    if (F->getReturnType()->isReferenceType()) s += ",\"rref\":1";
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (FPT->canThrow() == CT_Cannot) s += ",\"noexcept\":1";
    if (F->isExternC()) s += ",\"externc\":1";
    if (F->isDefaulted()) s += ",\"defaulted\":1";
    if (F->getAccess() == AS_private) s += ",\"acc\":\"private\"";
    if (F->getAccess() == AS_protected) s += ",\"acc\":\"protected\"";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      std::vector<std::string> ov;
      for (auto *o : M->overridden_methods()) ov.push_back(esc(NG.getName(o)));
      if (!ov.empty()) s += ",\"ov\":" + list(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      std::vector<std::string> v;
      for (auto *i : K->inits()) {
        std::string x = "{";
        if (i->isMemberInitializer() || i->isIndirectMemberInitializer()) x += "\"m\":" + esc(i->getAnyMember()->getNameAsString());
        else if (i->isBaseInitializer()) x += "\"b\":" + esc(recname(i->getBaseClass()->getAsCXXRecordDecl()));
        else x += "\"del\":1";
        if (i->isWritten()) x += ",\"w\":1";
        v.push_back(x + ",\"e\":" + ex(i->getInit()) + "}");
      }
      s += ",\"inits\":" + list(v);
    }
    s += ",\"b\":" + (F->hasBody() ? st(F->getBody()) : std::string("null"));
    return s + "}";
  }

  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (!F->isThisDeclarationADefinition() && !F->isExplicitlyDefaulted()) return true;
    if (F->isDependentContext() || !F->hasBody()) return true;
    if (F->isInvalidDecl()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!inRoots(F->getLocation())) return true;
    if (!done.insert(F->getCanonicalDecl()).second) return true;
    funcs.push_back(func(F));
    return true;
  }
  bool VisitClassTemplateDecl(ClassTemplateDecl *T)
  {
    if (!inRoots(T->getLocation())) return true;
    for (auto *S : T->specializations())
      if (S->getSpecializationKind() == TSK_ExplicitInstantiationDefinition || S->getSpecializationKind() == TSK_ExplicitInstantiationDeclaration) {
        VisitCXXRecordDecl(S);
        for (auto *D : S->decls()) TraverseDecl(D);
      }
    return true;
  }
  bool VisitFunctionTemplateDecl(FunctionTemplateDecl *T)
  {
    if (!inRoots(T->getLocation())) return true;
    for (auto *S : T->specializations()) VisitFunctionDecl(S);
    return true;
  }
  bool VisitVarDecl(VarDecl *V)
  {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType() && inRoots(V->getLocation())) global(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R)
  {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !inRoots(R->getLocation())) return true;
    if (!donerec.insert(R->getCanonicalDecl()).second) return true;
    std::string s = "{\"n\":" + esc(recname(R)) + ",\"file\":" + esc(file(R->getLocation())) + ",\"l\":" + std::to_string(line(R->getLocation()));
    std::vector<std::string> b, f, m;
    for (auto &x : R->bases()) if (auto *BR = x.getType()->getAsCXXRecordDecl()) b.push_back(esc(recname(BR)));
    for (auto *x : R->fields()) {
      std::string d = "{\"n\":" + esc(x->getNameAsString()) + ",\"t\":" + std::to_string(ty(x->getType())) + ",\"ft\":" + esc(fullty(x->getType()));
      if (x->isMutable()) d += ",\"mut\":1";
      if (x->hasInClassInitializer() && x->getInClassInitializer()) d += ",\"e\":" + ex(x->getInClassInitializer());
      f.push_back(d + "}");
    }
    for (auto *x : R->methods()) {
      if (x->isImplicit()) continue;
      std::string d = fref(x);
      d.pop_back();
      if (x->getAccess() == AS_private) d += ",\"acc\":\"private\"";
      if (x->isPureVirtual()) d += ",\"pure\":1";
      m.push_back(d + "}");
    }
    s += ",\"bases\":" + list(b) + ",\"fields\":" + list(f) + ",\"methods\":" + list(m) + "}";
    recs.push_back(s);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D)
  {
    if (!inRoots(D->getLocation()) || D->isDependentContext()) return true;
    std::string s = "{\"n\":" + esc(qname(D)) + ",\"v\":[";
    bool first = true;
    for (auto *e : D->enumerators()) {
      if (!first) s += ",";
      first = false;
      llvm::SmallString<16> t;
      e->getInitVal().toString(t, 10);
      s += "[" + esc(e->getNameAsString()) + "," + std::string(t) + "]";
    }
    enums.push_back(s + "]}");
    return true;
  }
  void finish(unsigned nerr)
  {
    O << "{\"errors\":" << nerr << ",\n\"types\":[";
    for (size_t i = 0; i < typelist.size(); ++i) O << (i ? "," : "") << esc(typelist[i]);
    O << "],\n\"enums\":" << list(enums) << ",\n\"globals\":" << list(globals) << ",\n\"records\":" << list(recs) << ",\n\"funcs\":[";
    for (size_t i = 0; i < funcs.size(); ++i) O << (i ? ",\n" : "\n") << funcs[i];
    O << "]}\n";
  }
};

static std::string g_out;
class Cons : public ASTConsumer
{
  CompilerInstance &CI;

public:
  explicit Cons(CompilerInstance &CI) : CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override
  {
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    Dumper D(C, os);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.finish(CI.getDiagnostics().getClient()->getNumErrors());
  }
};
class Act : public ASTFrontendAction
{
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(CI); }
};
// usage: qx OUT.json FILE ROOT[,ROOT...] -- clang args
int main(int argc, char **argv)
{
  g_out = argv[1];
  std::string file = argv[2], r = argv[3];
  size_t p = 0;
  while (p <= r.size()) {
    auto q = r.find(',', p);
    if (q == std::string::npos) q = r.size();
    g_roots.push_back(r.substr(p, q - p));
    p = q + 1;
  }
  std::vector<std::string> cmd{ "clang++" };
  for (int i = 5; i < argc; ++i) cmd.push_back(argv[i]);
  cmd.push_back("-fsyntax-only");
  cmd.push_back(file);
  llvm::IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(cmd, std::make_unique<Act>(), FM.get());
  inv.run();
  return 0;
}
