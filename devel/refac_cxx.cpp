// Behaviour-preserving source edits of a C++ file: prints one edit per line
//   file \t begin \t end \t base64-free replacement (JSON string)
// usage: refac_cxx KIND ROOT file -- flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <set>
using namespace clang;
static std::string KIND, ROOT;
struct V : RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM; const LangOptions &LO;
  FunctionDecl *cur = nullptr; int lam = 0; unsigned n = 0;
  std::set<const ValueDecl*> skip;
  explicit V(ASTContext &c) : C(c), SM(c.getSourceManager()), LO(c.getLangOpts()) {}
  bool ok(SourceRange r) {
    if (r.isInvalid() || r.getBegin().isMacroID() || r.getEnd().isMacroID()) return false;
    auto f = SM.getFilename(r.getBegin());
    return f.starts_with(ROOT) && SM.getFilename(r.getEnd()) == f;
  }
  std::string txt(SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), SM, LO).str(); }
  void edit(SourceLocation b, SourceLocation e, const std::string &s) {
    llvm::outs() << SM.getFilename(b) << "\t" << SM.getFileOffset(b) << "\t" << SM.getFileOffset(e) << "\t" << llvm::json::Value(s) << "\n";
  }
  SourceLocation endOf(SourceRange r, bool semi) {
    SourceLocation e = Lexer::getLocForEndOfToken(r.getEnd(), 0, SM, LO);
    if (semi) {
      auto t = Lexer::findNextToken(r.getEnd(), SM, LO);
      if (t && t->is(tok::semi)) e = t->getEndLoc();
    }
    return e;
  }
  bool inConstexpr() { return cur && cur->isConstexprSpecified(); }
  bool TraverseLambdaExpr(LambdaExpr *L) {
    for (auto &c : L->captures()) if (c.capturesVariable() && c.isExplicit()) skip.insert(c.getCapturedVar());
    ++lam; bool r = RecursiveASTVisitor::TraverseLambdaExpr(L); --lam; return r;
  }
#define FN(T) bool Traverse##T(T *D) { auto *o = cur; cur = D; bool r = RecursiveASTVisitor::Traverse##T(D); cur = o; return r; }
  FN(FunctionDecl) FN(CXXMethodDecl) FN(CXXConstructorDecl) FN(CXXDestructorDecl) FN(CXXConversionDecl)
  bool hasJump(Stmt *s) {
    if (!s) return false;
    if (isa<ContinueStmt>(s)) return true;
    if (isa<ForStmt>(s) || isa<WhileStmt>(s) || isa<CXXForRangeStmt>(s) || isa<LambdaExpr>(s) || isa<DoStmt>(s)) return false;
    for (auto *c : s->children()) if (hasJump(c)) return true;
    return false;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    auto *B = dyn_cast_or_null<CompoundStmt>(F->getBody());
    if (!B || !ok(B->getSourceRange())) return true;
    if (KIND == "extract" && !F->isConstexprSpecified() && !isa<CXXConstructorDecl>(F) && !isa<CXXDestructorDecl>(F) && !F->isMain() && B->size() > 0 && !(isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())) {
      auto rt = F->getReturnTypeSourceRange();
      std::string t;
      if (rt.isValid() && ok(rt)) t = txt(rt);
      QualType q = F->getReturnType();
      if (q->isVoidType()) t = "void";
      else if (t.empty() || q->getContainedAutoType()) {
        t = txt(rt);
        if (t != "auto") return true;
        t = "";
      } else if (q.isConstQualified() || t.find("const") != std::string::npos || q->isReferenceType()) {
        // the range may leave out the qualifiers: take the written text up to the name
        std::string w = txt(SourceRange(F->getBeginLoc(), F->getNameInfo().getBeginLoc()));
        if (F->getTrailingRequiresClause()) return true;
        auto p = w.rfind('>'); (void)p;
        if (q->isReferenceType()) { if (t.find('&') == std::string::npos) return true; if (q->getPointeeType().isConstQualified() && t.find("const") == std::string::npos) t = "const " + t; }
      }
      std::string body = txt(B->getSourceRange());
      edit(B->getLBracLoc(), endOf(B->getSourceRange(), false),
           "{ const auto qv_body = [&]() " + (t.empty() ? "" : "-> " + t + " ") + body + "; return qv_body(); }");
    }
    return true;
  }
  bool VisitCompoundStmt(CompoundStmt *S) {
    if (KIND == "noop" && ok(S->getSourceRange()) && !inConstexpr() && S->size() > 0) {
      auto l = S->getLBracLoc().getLocWithOffset(1);
      edit(l, l, " (void)0; ");
    }
    return true;
  }
  bool VisitReturnStmt(ReturnStmt *R) {
    if (KIND != "ret" || !cur || inConstexpr()) return true;
    auto *E = R->getRetValue();
    if (!E || !ok(R->getSourceRange()) || isa<InitListExpr>(E->IgnoreImplicit()) || lam) return true;
    if (cur->getReturnType()->isReferenceType() || cur->getReturnType()->isVoidType()) return true;
    QualType q = cur->getReturnType();
    if (auto *A = q->getContainedAutoType()) { if (A->isDecltypeAuto()) return true; }
    if (E->getType()->isVoidType()) return true;
    if (isa<CXXNullPtrLiteralExpr>(E->IgnoreImplicit())) return true;
    auto p = C.getParents(*R);
    std::string id = std::to_string(SM.getFileOffset(R->getBeginLoc()));
    std::string e = txt(E->getSourceRange());
    if (e.empty() || e[0] == '{') return true;
    edit(R->getBeginLoc(), endOf(R->getSourceRange(), true), "{ auto qv_r" + id + " = " + e + "; return qv_r" + id + "; }");
    return true;
  }
  bool VisitForStmt(ForStmt *F) {
    if (!ok(F->getSourceRange())) return true;
    if (KIND == "while" && F->getCond() && F->getInc() && F->getBody() && !hasJump(F->getBody()) && !F->getConditionVariable()) {
      std::string i = F->getInit() ? txt(F->getInit()->getSourceRange()) : "";
      if (!i.empty() && i.back() != ';') i += ";";
      std::string b = txt(F->getBody()->getSourceRange());
      if (!isa<CompoundStmt>(F->getBody())) b += ";";
      edit(F->getBeginLoc(), endOf(F->getSourceRange(), !isa<CompoundStmt>(F->getBody())),
           "{ " + i + " while (" + txt(F->getCond()->getSourceRange()) + ") { " + b + " " + txt(F->getInc()->getSourceRange()) + "; } }");
    }
    return true;
  }
  bool VisitCXXForRangeStmt(CXXForRangeStmt *F) {
    if (KIND != "iter" || !ok(F->getSourceRange()) || F->getInit()) return true;
    auto *LV = F->getLoopVariable();
    std::string id = std::to_string(SM.getFileOffset(F->getBeginLoc()));
    std::string decl = txt(SourceRange(LV->getBeginLoc(), LV->getEndLoc()));
    // the declaration alone: text up to the colon
    std::string whole = txt(F->getSourceRange());
    std::string h = Lexer::getSourceText(CharSourceRange::getCharRange(LV->getOuterLocStart(), F->getColonLoc()), SM, LO).str();
    std::string r = txt(F->getRangeInit()->getSourceRange());
    if (isa<InitListExpr>(F->getRangeInit()->IgnoreImplicit()) || r.empty() || r[0] == '{') return true;
    std::string b = txt(F->getBody()->getSourceRange());
    bool cs = isa<CompoundStmt>(F->getBody());
    if (!cs) b += ";";
    edit(F->getBeginLoc(), endOf(F->getSourceRange(), !cs),
         "{ auto &&qv_c" + id + " = " + r + "; for (auto qv_i" + id + " = std::begin(qv_c" + id + "); qv_i" + id + " != std::end(qv_c" + id + "); ++qv_i" + id + ") { " + h + " = *qv_i" + id + "; " + b + " } }");
    return true;
  }
  bool VisitIfStmt(IfStmt *I) {
    if (!ok(I->getSourceRange()) || I->isConstexpr() || I->isConsteval() || I->getInit() || I->getConditionVariable()) return true;
    if (inConstexpr()) return true;
    std::string c = txt(I->getCond()->getSourceRange());
    if (KIND == "ifinv" && I->getElse() && isa<CompoundStmt>(I->getThen()) && isa<CompoundStmt>(I->getElse())) {
      edit(I->getBeginLoc(), endOf(I->getSourceRange(), false),
           "if (!(" + c + ")) " + txt(I->getElse()->getSourceRange()) + " else " + txt(I->getThen()->getSourceRange()));
    }
    if (KIND == "cond") {
      auto b = I->getCond()->getBeginLoc();
      edit(b, endOf(I->getCond()->getSourceRange(), false), "const bool qv_b = static_cast<bool>(" + c + "); qv_b");
    }
    return true;
  }
  bool VisitConditionalOperator(ConditionalOperator *E) {
    if (KIND != "tern" || !ok(E->getSourceRange())) return true;
    edit(E->getBeginLoc(), endOf(E->getSourceRange(), false),
         "(!(" + txt(E->getCond()->getSourceRange()) + ") ? (" + txt(E->getFalseExpr()->getSourceRange()) + ") : (" + txt(E->getTrueExpr()->getSourceRange()) + "))");
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator *B) {
    if (!ok(B->getSourceRange())) return true;
    if (KIND == "cmp") {
      const char *o = nullptr;
      switch (B->getOpcode()) {
        case BO_LT: o = ">"; break; case BO_GT: o = "<"; break; case BO_LE: o = ">="; break; case BO_GE: o = "<="; break;
        case BO_EQ: o = "=="; break; case BO_NE: o = "!="; break; default: return true; }
      if (B->getLHS()->getType()->isRecordType()) return true;
      edit(B->getBeginLoc(), endOf(B->getSourceRange(), false),
           "(" + txt(B->getRHS()->getSourceRange()) + ") " + o + " (" + txt(B->getLHS()->getSourceRange()) + ")");
    }
    if (KIND == "comm" && (B->getOpcode() == BO_Mul || B->getOpcode() == BO_Add) && B->getType()->isIntegerType()) {
      edit(B->getBeginLoc(), endOf(B->getSourceRange(), false),
           "((" + txt(B->getRHS()->getSourceRange()) + ") " + (B->getOpcode() == BO_Mul ? "*" : "+") + " (" + txt(B->getLHS()->getSourceRange()) + "))");
    }
    return true;
  }
  bool VisitCompoundAssignOperator(CompoundAssignOperator *B) {
    if (KIND != "opassign" || !ok(B->getSourceRange())) return true;
    std::string l = txt(B->getLHS()->getSourceRange());
    if (l.find('(') != std::string::npos && l.find("at(") == std::string::npos) return true;
    if (l.find("++") != std::string::npos || l.find("--") != std::string::npos) return true;
    if (!B->getType()->isArithmeticType() ) return true;
    if (B->getType()->isIntegerType() && C.getTypeSize(B->getType()) < 32) return true;
    std::string o = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(B->getOpcode())).str();
    edit(B->getBeginLoc(), endOf(B->getSourceRange(), false), l + " = " + l + " " + o + " (" + txt(B->getRHS()->getSourceRange()) + ")");
    return true;
  }
  bool VisitUnaryOperator(UnaryOperator *U) {
    if (KIND != "incr" || !ok(U->getSourceRange()) || !U->isPrefix()) return true;
    if (U->getOpcode() != UO_PreInc && U->getOpcode() != UO_PreDec) return true;
    if (!U->getType()->isIntegerType()) return true;
    edit(U->getBeginLoc(), endOf(U->getSourceRange(), false), "(" + txt(U->getSubExpr()->getSourceRange()) + (U->getOpcode() == UO_PreInc ? " += 1)" : " -= 1)"));
    return true;
  }
};
struct A : ASTFrontendAction {
  struct Co : ASTConsumer { void HandleTranslationUnit(ASTContext &C) override { V v(C); v.TraverseDecl(C.getTranslationUnitDecl()); } };
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Co>(); }
};
int main(int argc, const char **argv) {
  KIND = argv[1]; ROOT = argv[2];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {std::string(argv[3])});
  return T.run(tooling::newFrontendActionFactory<A>().get());
}
