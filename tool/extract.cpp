// Fact extractor: parses one translation unit of /repo with clang and writes the resolved program
// (records, fields, functions incl. template instantiations, statement trees with resolved callees
// and types) as JSON.  It takes no decision itself; the rules in /verif/rules read its output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Sema/Sema.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
using namespace clang::tooling;
using llvm::json::Array; using llvm::json::Object; using llvm::json::Value;

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::opt<std::string> OutFile("o", llvm::cl::desc("output"), llvm::cl::Required, llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Root("root", llvm::cl::desc("repo root prefix"), llvm::cl::init("/repo/"), llvm::cl::cat(Cat));

namespace {
class Extractor : public RecursiveASTVisitor<Extractor> {
  ASTContext &C; Sema *S; SourceManager &SM; PrintingPolicy PP;
  std::map<const void*, int> typeIds; Array types;
  std::map<const Decl*, int> localIds; 
  std::map<std::string,int> usrIds; Array usrs;
  std::set<const Decl*> doneF, doneR;
  std::deque<const FunctionDecl*> work;
public:
  Array functions, records, globals, patterns;
  Extractor(ASTContext &c, Sema *sema) : C(c), S(sema), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.SuppressUnwrittenScope = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  int lineOf(SourceLocation L) { L = SM.getExpansionLoc(L); return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0; }
  bool inRoot(SourceLocation L) { std::string f = fileOf(L); return f.compare(0, Root.size(), Root) == 0; }

  int usr(const Decl *D) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D->getCanonicalDecl(), b)) { b = "?"; llvm::raw_svector_ostream(b) << (const void*)D->getCanonicalDecl(); }
    auto it = usrIds.find(std::string(b)); if (it != usrIds.end()) return it->second;
    int id = usrs.size(); usrIds[std::string(b)] = id; usrs.push_back(std::string(b)); return id;
  }
  int local(const Decl *D) { D = D->getCanonicalDecl(); auto it = localIds.find(D); if (it != localIds.end()) return it->second; int id = localIds.size() + 1; localIds[D] = id; return id; }

  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP);
    return os.str(); }
  std::string recName(const CXXRecordDecl *R) {
    if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
      std::string s; llvm::raw_string_ostream os(s); S->getNameForDiagnostic(os, PP, true); return os.str(); }
    // nested in a specialization: prefix with parent's full name
    if (const auto *P = dyn_cast_or_null<CXXRecordDecl>(R->getDeclContext())) return recName(P) + "::" + R->getNameAsString();
    return qn(R);
  }
  std::string tmplName(const CXXRecordDecl *R) {
    if (const auto *P = dyn_cast_or_null<CXXRecordDecl>(R->getDeclContext())) return tmplName(P) + "::" + R->getNameAsString();
    return qn(R);
  }

  int type(QualType T) {
    if (T.isNull()) return -1;
    QualType Can = T.getCanonicalType();
    auto it = typeIds.find(Can.getAsOpaquePtr()); if (it != typeIds.end()) return it->second;
    int id = types.size(); typeIds[Can.getAsOpaquePtr()] = id; types.push_back(nullptr);
    Object o; o["s"] = Can.getAsString(PP);
    if (Can.isConstQualified()) o["c"] = 1;
    const Type *t = Can.getTypePtr();
    if (t->isBooleanType()) { o["k"] = "bool"; o["w"] = 8; }
    else if (t->isEnumeralType()) { o["k"] = "enum"; if (!t->isDependentType() && !t->isIncompleteType()) o["w"] = (int64_t)C.getTypeSize(Can); }
    else if (t->isIntegerType() && !t->isDependentType()) { o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(Can); o["sg"] = t->isSignedIntegerType() ? 1 : 0; }
    else if (t->isRealFloatingType()) { o["k"] = "float"; o["w"] = (int64_t)C.getTypeSize(Can); }
    else if (t->isVoidType()) o["k"] = "void";
    else if (t->isNullPtrType()) o["k"] = "nullptr";
    else if (const auto *p = t->getAs<PointerType>()) { o["k"] = "ptr"; o["pt"] = type(p->getPointeeType()); }
    else if (const auto *p = t->getAs<ReferenceType>()) { o["k"] = t->isRValueReferenceType() ? "rref" : "ref"; o["pt"] = type(p->getPointeeType()); }
    else if (const auto *p = C.getAsArrayType(Can)) { o["k"] = "arr"; o["pt"] = type(p->getElementType());
      if (const auto *ca = dyn_cast<ConstantArrayType>(p)) o["n"] = (int64_t)ca->getSize().getLimitedValue(); }
    else if (const CXXRecordDecl *R = t->getAsCXXRecordDecl()) { o["k"] = "rec"; o["rec"] = usr(R); o["rn"] = recName(R); o["tn"] = tmplName(R);
      if (!t->isDependentType() && R->getDefinition() && !R->isInvalidDecl()) { o["w"] = (int64_t)C.getTypeSize(Can);
        if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) { Array a; for (const auto &A : S->getTemplateArgs().asArray()) if (A.getKind()==TemplateArgument::Type) a.push_back(type(A.getAsType())); o["ta"] = std::move(a);} } }
    else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }

  // ---------------------------------------------------------------- expressions
  Value L(Stmt *) = delete;
  Array node(const char *k, SourceLocation L) { Array a; a.push_back(k); a.push_back(lineOf(L)); return a; }
  Array enode(const char *k, const Expr *E) { Array a = node(k, E->getExprLoc()); a.push_back(type(E->getType())); return a; }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    switch (E->getStmtClass()) {
    case Stmt::ParenExprClass: return ex(cast<ParenExpr>(E)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return ex(cast<ExprWithCleanups>(E)->getSubExpr());
    case Stmt::ConstantExprClass: return ex(cast<ConstantExpr>(E)->getSubExpr());
    case Stmt::MaterializeTemporaryExprClass: return ex(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return ex(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return ex(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: { Array a = enode("defarg", E); a.push_back(ex(cast<CXXDefaultArgExpr>(E)->getExpr())); return a; }
    case Stmt::CXXDefaultInitExprClass: { Array a = enode("definit", E); a.push_back(ex(cast<CXXDefaultInitExpr>(E)->getExpr())); return a; }
    default: break;
    }
    if (const auto *x = dyn_cast<IntegerLiteral>(E)) { Array a = enode("int", E); llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType()); a.push_back(std::string(s)); return a; }
    if (const auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { Array a = enode("int", E); a.push_back(x->getValue() ? "1" : "0"); return a; }
    if (const auto *x = dyn_cast<CharacterLiteral>(E)) { Array a = enode("int", E); a.push_back(std::to_string(x->getValue())); return a; }
    if (const auto *x = dyn_cast<FloatingLiteral>(E)) { Array a = enode("float", E); a.push_back(x->getValueAsApproximateDouble()); return a; }
    if (const auto *x = dyn_cast<clang::StringLiteral>(E)) { Array a = enode("str", E); std::string s = x->isOrdinary() ? x->getString().str() : ""; a.push_back(llvm::json::fixUTF8(s)); return a; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return enode("null", E);
    if (isa<CXXThisExpr>(E)) return enode("this", E);
    if (const auto *x = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = x->getDecl(); Array a = enode("ref", E);
      if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) { Array b = enode("int", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); b.push_back(std::string(s)); b.push_back(EC->getNameAsString()); return b; }
      if (isa<FunctionDecl>(D)) { a.push_back("func"); a.push_back(usr(D)); a.push_back(qn(D)); enqueue(cast<FunctionDecl>(D)); return a; }
      if (const auto *V = dyn_cast<VarDecl>(D)) {
        bool g = V->hasGlobalStorage() && !V->isStaticLocal();
        if (g) { a.push_back("glob"); a.push_back(usr(V)); a.push_back(qn(V)); addConst(a, E); return a; }
        a.push_back((V->isStaticLocal() && V->getTSCSpec() == TSCS_unspecified) ? "slocal" : isa<ParmVarDecl>(V) ? "param" : "var"); a.push_back(local(V)); a.push_back(V->getNameAsString()); addConst(a, E); return a; }
      if (const auto *BD = dyn_cast<BindingDecl>(D)) { a.push_back("var"); a.push_back(local(BD)); a.push_back(D->getNameAsString()); return a; }
      a.push_back("other"); a.push_back(usr(D)); a.push_back(qn(D)); return a;
    }
    if (const auto *x = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = x->getMemberDecl();
      if (const auto *F = dyn_cast<FieldDecl>(D)) {
        Array a = enode("mem", E); a.push_back(ex(x->getBase())); a.push_back(F->getNameAsString()); a.push_back(x->isArrow() ? 1 : 0); a.push_back(usr(F->getParent())); return a; }
      if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) { Array b = enode("int", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); b.push_back(std::string(s)); b.push_back(EC->getNameAsString()); return b; }
      if (const auto *V = dyn_cast<VarDecl>(D)) { Array a = enode("ref", E); a.push_back("glob"); a.push_back(usr(V)); a.push_back(qn(V)); addConst(a, E); return a; }
      if (const auto *F = dyn_cast<FunctionDecl>(D)) { Array a = enode("ref", E); a.push_back("func"); a.push_back(usr(F)); a.push_back(qn(F)); enqueue(F); a.push_back(ex(x->getBase())); return a; }
    }
    if (const auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      const CXXMethodDecl *M = x->getMethodDecl();
      Array a = enode("mcall", E);
      const Expr *obj = x->getImplicitObjectArgument();
      const auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      if (M) { a.push_back(usr(M)); a.push_back(fname(M)); enqueue(M); } else { a.push_back(-1); a.push_back("?"); }
      a.push_back(ex(obj)); a.push_back(args(x->arguments()));
      a.push_back(me && me->isArrow() ? 1 : 0);
      a.push_back(M && M->isVirtual() && !(me && me->hasQualifier()) ? 1 : 0);
      a.push_back(M ? usr(M->getParent()) : -1);
      a.push_back(M && M->isConst() ? 1 : 0);
      return a;
    }
    if (const auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      Array a = enode("opcall", E); a.push_back(getOperatorSpelling(x->getOperator()));
      const auto *F = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl());
      if (F) { a.push_back(usr(F)); a.push_back(fname(F)); enqueue(F); } else { a.push_back(-1); a.push_back("?"); }
      a.push_back(args(x->arguments()));
      const auto *M = dyn_cast_or_null<CXXMethodDecl>(F);
      a.push_back(M && !M->isStatic() ? 1 : 0);
      a.push_back(M ? usr(M->getParent()) : -1);
      a.push_back(M && M->isConst() ? 1 : 0);
      return a;
    }
    if (const auto *x = dyn_cast<CallExpr>(E)) {
      Array a = enode("call", E);
      const auto *F = dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl());
      if (F) { a.push_back(usr(F)); a.push_back(fname(F)); enqueue(F); a.push_back(args(x->arguments())); }
      else { a.push_back(-1); a.push_back("?"); a.push_back(args(x->arguments())); a.push_back(ex(x->getCallee())); }
      return a;
    }
    if (const auto *x = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *D = x->getConstructor();
      Array a = enode("ctor", E); a.push_back(usr(D)); enqueue(D); a.push_back(args(x->arguments()));
      const char *k = D->isMoveConstructor() ? "move" : D->isCopyConstructor() ? "copy" : D->isDefaultConstructor() ? "default" : "other";
      a.push_back(k); a.push_back(usr(D->getParent())); a.push_back(D->isDefaulted() ? 1 : 0);
      return a;
    }
    if (const auto *x = dyn_cast<CXXScalarValueInitExpr>(E)) { Array a = enode("zero", E); (void)x; return a; }
    if (isa<ImplicitValueInitExpr>(E)) return enode("zero", E);
    if (const auto *x = dyn_cast<CastExpr>(E)) {
      CastKind k = x->getCastKind();
      if (k == CK_LValueToRValue || k == CK_FunctionToPointerDecay || k == CK_ConstructorConversion || k == CK_UserDefinedConversion) return ex(x->getSubExpr());
      if (k == CK_NoOp && isa<ImplicitCastExpr>(E)) return ex(x->getSubExpr());
      if (k == CK_BuiltinFnToFnPtr) return ex(x->getSubExpr());
      Array a = enode("cast", E); a.push_back(x->getCastKindName()); a.push_back(ex(x->getSubExpr()));
      a.push_back(isa<ImplicitCastExpr>(E) ? 0 : isa<CXXConstCastExpr>(E) ? 2 : isa<CXXReinterpretCastExpr>(E) ? 3 : 1);
      return a;
    }
    if (const auto *x = dyn_cast<BinaryOperator>(E)) {
      Array a = enode(x->isAssignmentOp() ? "asg" : "bin", E); a.push_back(x->getOpcodeStr().str()); a.push_back(ex(x->getLHS())); a.push_back(ex(x->getRHS()));
      if (const auto *ca = dyn_cast<CompoundAssignOperator>(E)) a.push_back(type(ca->getComputationResultType()));
      return a;
    }
    if (const auto *x = dyn_cast<UnaryOperator>(E)) {
      Array a = enode("un", E); std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) op = "p" + op; a.push_back(op); a.push_back(ex(x->getSubExpr())); return a; }
    if (const auto *x = dyn_cast<ConditionalOperator>(E)) { Array a = enode("cond", E); a.push_back(ex(x->getCond())); a.push_back(ex(x->getTrueExpr())); a.push_back(ex(x->getFalseExpr())); return a; }
    if (const auto *x = dyn_cast<ArraySubscriptExpr>(E)) { Array a = enode("idx", E); a.push_back(ex(x->getBase())); a.push_back(ex(x->getIdx())); return a; }
    if (const auto *x = dyn_cast<InitListExpr>(E)) { Array a = enode("init", E); Array b; for (const Expr *i : x->inits()) b.push_back(ex(i)); a.push_back(std::move(b)); return a; }
    if (const auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(x->getSubExpr());
    if (const auto *x = dyn_cast<CXXNewExpr>(E)) {
      Array a = enode("new", E); a.push_back(type(x->getAllocatedType())); a.push_back(x->isArray() ? ex(x->getArraySize() ? *x->getArraySize() : nullptr) : Value(nullptr)); a.push_back(ex(x->getInitializer())); a.push_back(x->isArray()?1:0); return a; }
    if (const auto *x = dyn_cast<CXXDeleteExpr>(E)) { Array a = enode("del", E); a.push_back(x->isArrayForm() ? 1 : 0); a.push_back(ex(x->getArgument())); return a; }
    if (const auto *x = dyn_cast<CXXThrowExpr>(E)) { Array a = enode("throw", E); a.push_back(ex(x->getSubExpr())); return a; }
    if (const auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Array a = enode("int", E); Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); a.push_back(std::string(s)); } else a.push_back("0");
      a.push_back("sizeof"); a.push_back(type(x->isArgumentType() ? x->getArgumentType() : x->getArgumentExpr()->getType())); return a; }
    if (const auto *x = dyn_cast<LambdaExpr>(E)) {
      Array a = enode("lambda", E); a.push_back(usr(x->getCallOperator())); enqueue(x->getCallOperator());
      Array caps; for (const auto &c : x->captures()) { if (c.capturesVariable()) { Array b; b.push_back(local(c.getCapturedVar())); b.push_back(c.getCaptureKind() == LCK_ByRef ? 1 : 0); caps.push_back(std::move(b)); } else if (c.capturesThis()) { Array b; b.push_back(0); b.push_back(1); caps.push_back(std::move(b)); } }
      a.push_back(std::move(caps)); return a; }
    if (const auto *x = dyn_cast<CXXTypeidExpr>(E)) { (void)x; return enode("typeid", E); }
    Array a = enode("unk", E); a.push_back(E->getStmtClassName()); Array ch; for (const Stmt *c : E->children()) if (c) { if (const auto *ce = dyn_cast<Expr>(c)) ch.push_back(ex(ce)); else ch.push_back(st(c)); } a.push_back(std::move(ch)); return a;
  }
  void addConst(Array &a, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType(); if (!T.isConstQualified() || !T->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R; if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); a.push_back(std::string(s)); }
  }
  template<class R> Array args(R r) { Array a; for (const Expr *e : r) a.push_back(ex(e)); return a; }
  std::string fname(const FunctionDecl *F) { if (const auto *M = dyn_cast<CXXMethodDecl>(F)) return tmplName(M->getParent()) + "::" + M->getNameAsString(); return qn(F); }

  // ---------------------------------------------------------------- statements
  Value var(const VarDecl *V) {
    Array b; b.push_back(local(V)); b.push_back(V->getNameAsString()); b.push_back(type(V->getType())); b.push_back(ex(V->getInit())); b.push_back(V->isStaticLocal() && V->getTSCSpec() == TSCS_unspecified ? 1 : 0); return b; }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    if (const auto *E = dyn_cast<Expr>(S)) return ex(E);
    SourceLocation B = S->getBeginLoc();
    if (const auto *x = dyn_cast<CompoundStmt>(S)) { Array a = node("block", B); Array b; for (const Stmt *c : x->body()) b.push_back(st(c)); a.push_back(std::move(b)); a.push_back(lineOf(S->getEndLoc())); return a; }
    if (const auto *x = dyn_cast<IfStmt>(S)) { Array a = node("if", B);
      if (x->getConditionVariableDeclStmt()) { Array blk = node("block", B); Array b; b.push_back(st(x->getConditionVariableDeclStmt())); a.push_back(ex(x->getCond())); a.push_back(st(x->getThen())); a.push_back(st(x->getElse())); b.push_back(std::move(a)); blk.push_back(std::move(b)); return blk; }
      a.push_back(ex(x->getCond())); a.push_back(st(x->getThen())); a.push_back(st(x->getElse())); return a; }
    if (const auto *x = dyn_cast<ForStmt>(S)) { Array a = node("for", B); a.push_back(st(x->getInit())); a.push_back(ex(x->getCond())); a.push_back(ex(x->getInc())); a.push_back(st(x->getBody())); return a; }
    if (const auto *x = dyn_cast<WhileStmt>(S)) { Array a = node("while", B); a.push_back(ex(x->getCond())); a.push_back(st(x->getBody())); return a; }
    if (const auto *x = dyn_cast<DoStmt>(S)) { Array a = node("do", B); a.push_back(ex(x->getCond())); a.push_back(st(x->getBody())); return a; }
    if (const auto *x = dyn_cast<CXXForRangeStmt>(S)) { Array a = node("rfor", B); a.push_back(x->getLoopVariable() ? var(x->getLoopVariable()) : Value(nullptr)); a.push_back(ex(x->getRangeInit())); a.push_back(st(x->getBody())); return a; }
    if (const auto *x = dyn_cast<ReturnStmt>(S)) { Array a = node("ret", B); a.push_back(ex(x->getRetValue())); return a; }
    if (const auto *x = dyn_cast<DeclStmt>(S)) { Array a = node("decl", B); Array b; for (const Decl *D : x->decls()) if (const auto *V = dyn_cast<VarDecl>(D)) b.push_back(var(V)); a.push_back(std::move(b)); return a; }
    if (isa<BreakStmt>(S)) return node("break", B);
    if (isa<ContinueStmt>(S)) return node("cont", B);
    if (isa<NullStmt>(S)) return node("nop", B);
    if (const auto *x = dyn_cast<SwitchStmt>(S)) { Array a = node("switch", B); a.push_back(ex(x->getCond())); a.push_back(st(x->getBody())); return a; }
    if (const auto *x = dyn_cast<CaseStmt>(S)) { Array a = node("case", B); a.push_back(ex(x->getLHS())); a.push_back(st(x->getSubStmt())); return a; }
    if (const auto *x = dyn_cast<DefaultStmt>(S)) { Array a = node("default", B); a.push_back(st(x->getSubStmt())); return a; }
    if (const auto *x = dyn_cast<CXXTryStmt>(S)) { Array a = node("try", B); a.push_back(st(x->getTryBlock())); Array h; for (unsigned i = 0; i < x->getNumHandlers(); ++i) h.push_back(st(x->getHandler(i)->getHandlerBlock())); a.push_back(std::move(h)); return a; }
    if (const auto *x = dyn_cast<AttributedStmt>(S)) return st(x->getSubStmt());
    if (const auto *x = dyn_cast<LabelStmt>(S)) { Array a = node("label", B); a.push_back(x->getName()); a.push_back(st(x->getSubStmt())); return a; }
    if (const auto *x = dyn_cast<GotoStmt>(S)) { Array a = node("goto", B); a.push_back(x->getLabel()->getNameAsString()); return a; }
    Array a = node("unkst", B); a.push_back(S->getStmtClassName()); return a;
  }

  void enqueue(const FunctionDecl *F) { work.push_back(F); }

  // ---------------------------------------------------------------- declarations
  void emitFunction(const FunctionDecl *F) {
    const FunctionDecl *D = F->getDefinition();
    if (!D) D = F;
    if (D->isDependentContext() || D->isInvalidDecl()) return;
    if (!doneF.insert(D->getCanonicalDecl()).second) return;
    if (const auto *M = dyn_cast<CXXMethodDecl>(D)) emitRecord(M->getParent());
    bool defd = F->isDefaulted();
    const FunctionDecl *Pat = D->getTemplateInstantiationPattern();
    SourceLocation loc = Pat ? Pat->getLocation() : D->getLocation();
    if (!inRoot(loc)) return;
    bool hasBody = D->doesThisDeclarationHaveABody();
    if (!hasBody && !defd && !D->isDeleted()) { // declared only: still useful (e.g. lib function seen from a header)
      if (F->getDefinition() == nullptr) { doneF.erase(D->getCanonicalDecl()); return; }
    }
    Object o; o["id"] = usr(D); o["name"] = D->getNameAsString(); o["qn"] = fname(D);
    const FunctionDecl *sig = D;
    if (const auto *M = dyn_cast<CXXMethodDecl>(D)) {
      o["cls"] = usr(M->getParent()); o["const"] = M->isConst() ? 1 : 0; o["static"] = M->isStatic() ? 1 : 0; o["virt"] = M->isVirtual() ? 1 : 0;
      o["kind"] = isa<CXXConstructorDecl>(D) ? "ctor" : isa<CXXDestructorDecl>(D) ? "dtor" : isa<CXXConversionDecl>(D) ? "conv" : "method";
      o["acc"] = (int)D->getAccess();
      if (M->isMoveAssignmentOperator()) o["sp"] = "masg"; else if (M->isCopyAssignmentOperator()) o["sp"] = "casg";
      if (const auto *K = dyn_cast<CXXConstructorDecl>(D)) { if (K->isMoveConstructor()) o["sp"] = "mctor"; else if (K->isCopyConstructor()) o["sp"] = "cctor"; else if (K->isDefaultConstructor()) o["sp"] = "dctor"; if (K->isDelegatingConstructor()) o["deleg"] = 1; }
      if (M->getParent()->isLambda()) o["lambda"] = 1;
      Array ov; for (const auto *m : M->overridden_methods()) ov.push_back(usr(m)); if (!ov.empty()) o["over"] = std::move(ov);
    } else o["kind"] = "func";
    if (const auto *TA = D->getTemplateSpecializationArgs()) { std::string s; llvm::raw_string_ostream os(s); printTemplateArgumentList(os, TA->asArray(), PP); o["targs"] = os.str(); }
    o["file"] = fileOf(loc); o["line"] = lineOf(loc); o["end"] = lineOf((Pat ? Pat : D)->getEndLoc());
    o["inst"] = Pat ? 1 : 0;
    if (defd) o["defaulted"] = 1; if (D->isDeleted()) o["deleted"] = 1; if (D->isImplicit()) o["implicit"] = 1;
    Array ps; for (const ParmVarDecl *P : D->parameters()) { Array b; b.push_back(local(P)); b.push_back(P->getNameAsString()); b.push_back(type(P->getType())); ps.push_back(std::move(b)); }
    o["params"] = std::move(ps); o["ret"] = type(sig->getReturnType());
    if (const auto *K = dyn_cast<CXXConstructorDecl>(D)) {
      Array in; for (const CXXCtorInitializer *I : K->inits()) {
        Object b; if (I->isMemberInitializer()) b["f"] = I->getMember()->getNameAsString(); else if (I->isBaseInitializer()) { b["b"] = type(QualType(I->getBaseClass(), 0)); } else if (I->isDelegatingInitializer()) b["d"] = 1; else if (I->isIndirectMemberInitializer()) b["f"] = I->getIndirectMember()->getNameAsString();
        b["w"] = I->isWritten() ? 1 : 0; b["l"] = lineOf(I->getSourceLocation()); b["e"] = ex(I->getInit()); in.push_back(std::move(b)); }
      o["inits"] = std::move(in);
    }
    if (hasBody) o["body"] = st(D->getBody()); else o["body"] = nullptr;
    functions.push_back(std::move(o));
  }
  void emitRecord(const CXXRecordDecl *R) {
    R = R->getDefinition(); if (!R || R->isDependentContext() || R->isInvalidDecl()) return;
    if (!doneR.insert(R->getCanonicalDecl()).second) return;
    const CXXRecordDecl *Pat = R->getTemplateInstantiationPattern();
    SourceLocation loc = Pat ? Pat->getLocation() : R->getLocation();
    if (!inRoot(loc)) return;
    if (S && !R->isLambda()) S->ForceDeclarationOfImplicitMembers(const_cast<CXXRecordDecl*>(R));
    Object o; o["id"] = usr(R); o["name"] = recName(R); o["tn"] = tmplName(R); o["file"] = fileOf(loc); o["line"] = lineOf(loc);
    if (R->isLambda()) o["lambda"] = 1; if (R->isUnion()) o["union"] = 1; if (R->isPolymorphic()) o["poly"] = 1; if (R->isAbstract()) o["abstract"] = 1;
    Array bs; for (const auto &B : R->bases()) bs.push_back(type(B.getType())); o["bases"] = std::move(bs);
    Array fs; for (const FieldDecl *F : R->fields()) { Object f; f["n"] = F->getNameAsString(); f["t"] = type(F->getType()); f["l"] = lineOf(F->getLocation()); f["acc"] = (int)F->getAccess(); if (F->isMutable()) f["mut"] = 1; 
      if (F->hasInClassInitializer()) f["init"] = F->getInClassInitializer() ? ex(F->getInClassInitializer()) : Value("uninst"); fs.push_back(std::move(f)); }
    o["fields"] = std::move(fs);
    Array sf; for (const Decl *D : R->decls()) if (const auto *V = dyn_cast<VarDecl>(D)) { Object f; f["n"] = V->getNameAsString(); f["id"] = usr(V); f["t"] = type(V->getType()); sf.push_back(std::move(f)); } o["sfields"] = std::move(sf);
    Object sp; sp["trivcopy"] = R->isTriviallyCopyable() ? 1 : 0; sp["ucctor"] = R->hasUserDeclaredCopyConstructor() ? 1 : 0; sp["ucasg"] = R->hasUserDeclaredCopyAssignment() ? 1 : 0; sp["umctor"] = R->hasUserDeclaredMoveConstructor() ? 1 : 0; sp["umasg"] = R->hasUserDeclaredMoveAssignment() ? 1 : 0; sp["udtor"] = R->hasUserDeclaredDestructor() ? 1 : 0;
    sp["imctor"] = R->hasMoveConstructor() ? 1 : 0; sp["udctor"] = R->hasUserProvidedDefaultConstructor() ? 1 : 0; sp["nouctor"]= R->hasUserDeclaredConstructor()?0:1;
    o["sp"] = std::move(sp);
    Array ms; for (const CXXMethodDecl *M : R->methods()) { Object m; m["id"] = usr(M); m["n"] = M->getNameAsString(); m["acc"] = (int)M->getAccess(); m["const"] = M->isConst() ? 1 : 0; if (M->isStatic()) m["static"] = 1; if (M->isDeleted()) m["del"] = 1; if (M->isDefaulted()) m["dft"] = 1; if (M->isImplicit()) m["impl"] = 1; m["ret"] = type(M->getReturnType()); m["l"] = lineOf(M->getLocation());
      Array p; for (const ParmVarDecl *P : M->parameters()) p.push_back(type(P->getType())); m["p"] = std::move(p);
      if (M->isMoveAssignmentOperator()) m["sp"] = "masg"; else if (M->isCopyAssignmentOperator()) m["sp"] = "casg";
      if (const auto *K = dyn_cast<CXXConstructorDecl>(M)) { if (K->isMoveConstructor()) m["sp"] = "mctor"; else if (K->isCopyConstructor()) m["sp"] = "cctor"; else if (K->isDefaultConstructor()) m["sp"] = "dctor"; else m["sp"] = "ctor"; }
      if (isa<CXXDestructorDecl>(M)) m["sp"] = "dtor";
      ms.push_back(std::move(m)); }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) { if (F->isThisDeclarationADefinition() && inRoot(F->getLocation())) { Array a; a.push_back(fileOf(F->getLocation())); a.push_back(lineOf(F->getLocation())); a.push_back(fname(F)); patterns.push_back(std::move(a)); } return true; }
    if (F->isThisDeclarationADefinition() || F->isDefaulted()) emitFunction(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition()) emitRecord(R); return true; }
  std::string intStr(const llvm::APSInt &i) { llvm::SmallString<32> t; i.toString(t, 10); return std::string(t); }
  // constant value(s) of an integer, an array of integers or a C string, as the compiler folds them
  void constVals(VarDecl *V, Object &o) {
    if (!V->getInit() || V->getInit()->isValueDependent()) return;
    QualType T = V->getType().getNonReferenceType();
    const auto *AT = C.getAsConstantArrayType(T);
    QualType E = AT ? AT->getElementType() : T;
    if (AT && AT->getSize().getZExtValue() > 100000) return;
    if (!E->isIntegralOrEnumerationType() || !E.isConstQualified()) return;
    const APValue *R = V->evaluateValue(); if (!R) return;
    if (!AT) { if (R->isInt()) { Array a; a.push_back(intStr(R->getInt())); o["vals"] = std::move(a); } return; }
    if (!R->isArray()) return;
    Array a; unsigned n = R->getArrayInitializedElts();
    for (unsigned i = 0; i < R->getArraySize(); ++i) {
      const APValue &x = i < n ? R->getArrayInitializedElt(i) : R->getArrayFiller();
      if (!x.isInt()) return;
      a.push_back(intStr(x.getInt()));
    }
    o["vals"] = std::move(a);
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || (!V->isThisDeclarationADefinition() && !(V->isStaticDataMember() && V->hasInit())) || V->getDeclContext()->isDependentContext() || V->isInvalidDecl()) return true;
    if (isa<ParmVarDecl>(V)) return true;
    const VarDecl *Pat = V->getTemplateInstantiationPattern(); SourceLocation loc = Pat ? Pat->getLocation() : V->getLocation();
    if (!inRoot(loc)) return true;
    Object o; o["id"] = usr(V); o["qn"] = qn(V); o["t"] = type(V->getType()); o["file"] = fileOf(loc); o["line"] = lineOf(loc); o["const"] = V->getType().isConstQualified() ? 1 : 0; o["init"] = ex(V->getInit()); constVals(V, o); globals.push_back(std::move(o));
    return true;
  }
  void drain() { while (!work.empty()) { const FunctionDecl *F = work.front(); work.pop_front(); emitFunction(F); } }
  Object result() { Object o; o["functions"] = std::move(functions); o["records"] = std::move(records); o["globals"] = std::move(globals); o["patterns"] = std::move(patterns); o["types"] = std::move(types); o["usrs"] = std::move(usrs); return o; }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;
public:
  explicit Consumer(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Extractor X(C, CI.hasSema() ? &CI.getSema() : nullptr); X.TraverseDecl(C.getTranslationUnitDecl()); X.drain();
    Object o = X.result(); o["errors"] = (int)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec); os << Value(std::move(o)); }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
}
int main(int argc, const char **argv) {
  auto P = CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << toString(P.takeError()); return 2; }
  ClangTool T(P->getCompilations(), P->getSourcePathList());
  int rc = T.run(newFrontendActionFactory<Action>().get());
  return rc == 0 ? 0 : 3;  // 3: facts written, but the unit had errors
}
