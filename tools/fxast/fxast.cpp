// fxast: extract a resolved, normalised program representation of one translation unit as JSON.
// usage: fxast OUT.json REPO_ROOT MAINFILE -- <clang args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static int64_t i64(const llvm::APSInt &v) { if (v.isRepresentableByInt64()) return v.getExtValue(); return (int64_t)v.getLimitedValue(); }
static std::string gOut, gRoot, gMain;

namespace {
class Ex : public RecursiveASTVisitor<Ex> {
  ASTContext &C; SourceManager &SM; std::unique_ptr<MangleContext> MC; PrintingPolicy PP;
  json::OStream &J;
  std::map<std::string,int> types; std::vector<std::string> typeList;
  std::map<const VarDecl*,int> vids; int nextVid = 0;
  std::set<std::string> doneFn, doneDecl, doneRec, doneEnum, doneGlob;
  std::set<std::string> deps;
  int lambdaDepth = 0;
public:
  Ex(ASTContext &c, json::OStream &j) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()), PP(c.getLangOpts()), J(j) { PP.SuppressTagKeyword = true; PP.Bool = true; }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  int ty(QualType q) {
    if (q.isNull()) return -1;
    std::string s = q.getCanonicalType().getAsString(PP);
    auto it = types.find(s); if (it != types.end()) return it->second;
    int i = typeList.size(); typeList.push_back(s); types[s] = i; return i;
  }
  std::string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    PresumedLoc p = SM.getPresumedLoc(l);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    llvm::SmallString<256> rp;
    if (!f.empty() && f[0] != '/') { f = std::string(C.getSourceManager().getFileManager().getFileSystemOpts().WorkingDir) + "/" + f; }
    if (!llvm::sys::fs::real_path(f, rp)) f = std::string(rp.str());
    if (f.compare(0, gRoot.size() + 1, gRoot + "/") == 0) return f.substr(gRoot.size() + 1);
    return f;
  }
  std::map<std::string,std::string> fcache;
  std::string fileOfC(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    FileID id = SM.getFileID(l);
    std::string k = std::to_string(id.getHashValue());
    auto it = fcache.find(k); if (it != fcache.end()) return it->second;
    return fcache[k] = fileOf(l);
  }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  bool inRepo(SourceLocation l) {
    std::string f = fileOfC(l);
    if (f.empty() || f[0] == '/') return false;
    return f.compare(0, 7, "_build/") != 0;
  }
  std::string key(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string s; llvm::raw_string_ostream os(s);
    GlobalDecl GD;
    if (auto *c = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(c, Ctor_Complete);
    else if (auto *d = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(d, Dtor_Complete);
    else GD = GlobalDecl(F);
    if (F->isDependentContext()) { os << "dep:" << F->getQualifiedNameAsString(); }
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GD, os);
    else os << F->getNameAsString();
    os.flush();
    if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) s += "@" + gMain;
    return s;
  }
  std::string gkey(const VarDecl *V) {
    V = V->getCanonicalDecl();
    std::string s = V->getQualifiedNameAsString();
    if (V->getFormalLinkage() == Linkage::Internal || V->isInAnonymousNamespace()) s += "@" + gMain;
    return s;
  }
  int vid(const VarDecl *V) { V = V->getCanonicalDecl(); auto it = vids.find(V); if (it != vids.end()) return it->second; return vids[V] = nextVid++; }

  std::string qn(const NamedDecl *D) { return D->getQualifiedNameAsString(); }
  std::string recName(const CXXRecordDecl *R) {
    std::string s; llvm::raw_string_ostream os(s);
    if (R->isLambda()) { os << "lambda@" << fileOfC(R->getBeginLoc()) << ":" << line(R->getBeginLoc()) << ":" << SM.getExpansionColumnNumber(R->getBeginLoc()); return os.str(); }
    QualType q = C.getRecordType(R); return q.getCanonicalType().getAsString(PP);
  }

  // ---------- expressions
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *x = dyn_cast<ParenExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<ImplicitCastExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = x->getReplacement();
      else if (auto *x = dyn_cast<ConstantExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) E = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) E = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = x->getSemanticForm();
      else if (auto *x = dyn_cast<OpaqueValueExpr>(E)) { if (!x->getSourceExpr()) return E; E = x->getSourceExpr(); }
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) {
        const CXXDestructorDecl *d = x->getTemporary()->getDestructor();
        if (d && inRepo(d->getParent()->getLocation())) return E;
        E = x->getSubExpr();
      }
      else return E;
    }
    return E;
  }
  void exprs(const char *name, llvm::ArrayRef<const Expr*> v) {
    J.attributeBegin(name); J.arrayBegin(); for (auto *e : v) expr(e); J.arrayEnd(); J.attributeEnd();
  }
  void ex(const char *name, const Expr *e) { J.attributeBegin(name); expr(e); J.attributeEnd(); }
  void st(const char *name, const Stmt *s) { J.attributeBegin(name); stmt(s); J.attributeEnd(); }
  void attrK(const char *k, const Expr *E) { J.attribute("k", k); J.attribute("l", line(E->getExprLoc())); J.attribute("t", ty(E->getType())); }
  void calleeInfo(const FunctionDecl *F) {
    J.attribute("f", key(F)); J.attribute("q", qn(F));
    if (auto *P = F->getType()->getAs<FunctionProtoType>()) if (!F->isDependentContext() && P->getExceptionSpecType() != EST_Unevaluated && P->getExceptionSpecType() != EST_Uninstantiated && P->isNothrow()) J.attribute("nx", 1);
    if (F->getType()->getAs<FunctionProtoType>()) { auto es = F->getExceptionSpecType(); if (es == EST_Unevaluated && isa<CXXDestructorDecl>(F)) J.attribute("nx", 1); }
    if (F->hasAttr<NoThrowAttr>()) J.attribute("nt", 1);
    if (F->isExternC()) J.attribute("ec", 1);
    if (F->isNoReturn()) J.attribute("nr", 1);
    if (inRepo(F->getLocation())) J.attribute("rp", 1);
    else if (F->isExternC()) {   // parameters an external C function may write through
      J.attributeBegin("wp"); J.arrayBegin();
      for (unsigned i = 0; i < F->getNumParams(); i++) {
        QualType t = F->getParamDecl(i)->getType();
        if (t->isPointerType() && !t->getPointeeType().isConstQualified() && !t->getPointeeType()->isFunctionType()) J.value((int)i);
      }
      J.arrayEnd(); J.attributeEnd();
    }
  }
  void expr(const Expr *E0) {
    if (!E0) { J.value(nullptr); return; }
    const Expr *E = strip(E0);
    J.objectBegin();
    // constants
    if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
      Expr::EvalResult r;
      if (E->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) J.attribute("cv", i64(r.Val.getInt()));
    } else if (auto *dr = dyn_cast<DeclRefExpr>(E)) {
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult r; if (E0->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) J.attribute("cv", i64(r.Val.getInt()));
      }
    }
    if (E0->getType()->isPointerType() && E0->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull)) J.attribute("null", 1);
    if (auto *x = dyn_cast<DeclRefExpr>(E)) {
      attrK("Ref", E);
      const ValueDecl *D = x->getDecl();
      J.attribute("n", D->getNameAsString());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->getTLSKind() != VarDecl::TLS_None) { J.attribute("dk", "tls"); J.attribute("id", vid(V)); }
        else if (isa<ParmVarDecl>(V)) { J.attribute("dk", "param"); J.attribute("id", vid(V)); }
        else if (V->isLocalVarDecl()) { J.attribute("dk", V->isStaticLocal() ? "slocal" : "local"); J.attribute("id", vid(V)); if (V->isStaticLocal()) J.attribute("g", gkey(V)); }
        else if (V->isStaticDataMember()) { J.attribute("dk", "global"); J.attribute("g", gkey(V)); }
        else if (V->hasGlobalStorage()) { J.attribute("dk", "global"); J.attribute("g", gkey(V)); }
        else { J.attribute("dk", "local"); J.attribute("id", vid(V)); }
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("dk", "func"); J.attribute("f", key(F)); J.attribute("q", qn(F)); if (auto *m = dyn_cast<CXXMethodDecl>(F)) J.attribute("vm", (int)m->isVirtual()); }
      else if (auto *ec = dyn_cast<EnumConstantDecl>(D)) { J.attribute("dk", "enum"); J.attribute("q", qn(ec)); }
      else if (isa<BindingDecl>(D)) { J.attribute("dk", "binding"); }
      else J.attribute("dk", "other");
    } else if (auto *x = dyn_cast<MemberExpr>(E)) {
      attrK("Mem", E);
      const ValueDecl *D = x->getMemberDecl();
      J.attribute("n", D->getNameAsString()); J.attribute("q", qn(D)); J.attribute("ar", (int)x->isArrow());
      if (auto *V = dyn_cast<VarDecl>(D)) { J.attribute("dk", "global"); J.attribute("g", gkey(V)); }
      if (auto *f = dyn_cast<FieldDecl>(D)) if (f->isMutable()) J.attribute("mut", 1);
      if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("dk", "func"); J.attribute("f", key(F)); }
      ex("b", x->getBase());
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(E)) {
      attrK("Call", E); J.attribute("op", getOperatorSpelling(x->getOperator()));
      const FunctionDecl *F = x->getDirectCallee();
      std::vector<const Expr*> a(x->arg_begin(), x->arg_end());
      if (F) calleeInfo(F);
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && !a.empty()) {
        if (cast<CXXMethodDecl>(F)->isVirtual()) J.attribute("v", 1);
        J.attribute("mc", (int)cast<CXXMethodDecl>(F)->isConst());
        ex("this", a[0]); a.erase(a.begin());
      }
      if (!F) ex("c", x->getCallee());
      exprs("a", a);
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(E)) {
      attrK("Call", E);
      const CXXMethodDecl *F = x->getMethodDecl();
      if (F) {
        calleeInfo(F); J.attribute("mc", (int)F->isConst());
        bool qual = false; if (auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) qual = me->hasQualifier();
        if (F->isVirtual() && !qual) J.attribute("v", 1);
        if (auto *cd = dyn_cast<CXXConversionDecl>(F)) J.attribute("conv", 1);
        ex("this", x->getImplicitObjectArgument());
      } else ex("c", x->getCallee());
      std::vector<const Expr*> a(x->arg_begin(), x->arg_end()); exprs("a", a);
    } else if (auto *x = dyn_cast<CallExpr>(E)) {
      attrK("Call", E);
      if (const FunctionDecl *F = x->getDirectCallee()) calleeInfo(F); else ex("c", x->getCallee());
      std::vector<const Expr*> a(x->arg_begin(), x->arg_end()); exprs("a", a);
    } else if (auto *x = dyn_cast<CXXConstructExpr>(E)) {
      attrK("Ctor", E);
      const CXXConstructorDecl *F = x->getConstructor(); calleeInfo(F);
      J.attribute("cls", recName(F->getParent()));
      if (F->isCopyConstructor()) J.attribute("cm", "copy"); else if (F->isMoveConstructor()) J.attribute("cm", "move"); else if (F->isDefaultConstructor()) J.attribute("cm", "default");
      if (F->isTrivial()) J.attribute("triv", 1);
      std::vector<const Expr*> a(x->arg_begin(), x->arg_end()); exprs("a", a);
    } else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) {
      attrK("Tmp", E); J.attribute("dt", key(x->getTemporary()->getDestructor()));
      J.attribute("cls", recName(x->getTemporary()->getDestructor()->getParent()));
      ex("e", x->getSubExpr());
    } else if (auto *x = dyn_cast<CXXNewExpr>(E)) {
      attrK("New", E); J.attribute("at", ty(x->getAllocatedType())); J.attribute("arr", (int)x->isArray());
      if (x->isArray() && x->getArraySize()) ex("sz", *x->getArraySize());
      if (x->getInitializer()) ex("e", x->getInitializer());
      J.attribute("pl", (int)x->getNumPlacementArgs());
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(E)) {
      attrK("Delete", E); J.attribute("arr", (int)x->isArrayForm()); ex("e", x->getArgument());
      QualType dt = x->getDestroyedType(); if (!dt.isNull()) J.attribute("at", ty(dt));
    } else if (auto *x = dyn_cast<LambdaExpr>(E)) {
      attrK("Lambda", E);
      const CXXMethodDecl *M = x->getCallOperator(); J.attribute("f", key(M)); J.attribute("cls", recName(x->getLambdaClass()));
      J.attributeBegin("caps"); J.arrayBegin();
      auto ini = x->capture_init_begin();
      for (auto &c : x->captures()) {
        J.objectBegin();
        if (c.capturesThis()) J.attribute("k", "this");
        else if (c.capturesVariable()) { auto *v = dyn_cast<VarDecl>(c.getCapturedVar()); J.attribute("k", c.getCaptureKind() == LCK_ByRef ? "ref" : "val"); if (v) { J.attribute("id", vid(v)); J.attribute("n", v->getNameAsString()); if (v->isInitCapture()) ex("e", *ini); } }
        J.objectEnd(); ++ini;
      }
      J.arrayEnd(); J.attributeEnd();
      params(M);
      st("body", x->getBody());
    } else if (auto *x = dyn_cast<CXXThrowExpr>(E)) {
      attrK("Throw", E);
      if (x->getSubExpr()) { J.attribute("tt", ty(x->getSubExpr()->getType())); if (auto *r = x->getSubExpr()->getType()->getAsCXXRecordDecl()) bases("bases", r); ex("e", x->getSubExpr()); }
    } else if (auto *x = dyn_cast<BinaryOperator>(E)) {
      attrK(x->isAssignmentOp() ? "Asg" : "Bin", E); J.attribute("op", x->getOpcodeStr().str());
      J.attribute("lt", ty(x->getLHS()->getType()));
      ex("a", x->getLHS()); ex("b", x->getRHS());
    } else if (auto *x = dyn_cast<UnaryOperator>(E)) {
      attrK("Un", E);
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) op = "p" + op;
      J.attribute("op", op); ex("a", x->getSubExpr());
    } else if (auto *x = dyn_cast<ConditionalOperator>(E)) {
      attrK("Cond", E); ex("c", x->getCond()); ex("a", x->getTrueExpr()); ex("b", x->getFalseExpr());
    } else if (auto *x = dyn_cast<BinaryConditionalOperator>(E)) {
      attrK("Cond", E); ex("c", x->getCond()); ex("a", x->getCommon()); ex("b", x->getFalseExpr());
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(E)) {
      attrK("Idx", E); ex("a", x->getBase()); ex("i", x->getIdx());
    } else if (auto *x = dyn_cast<ExplicitCastExpr>(E)) {
      attrK("Cast", E);
      const char *ck = isa<CXXDynamicCastExpr>(E) ? "dyn" : isa<CXXStaticCastExpr>(E) ? "static" : isa<CXXReinterpretCastExpr>(E) ? "reint" : isa<CXXConstCastExpr>(E) ? "const" : isa<CXXFunctionalCastExpr>(E) ? "func" : "c";
      J.attribute("ck", ck); J.attribute("ref", (int)x->getTypeAsWritten()->isReferenceType()); ex("e", x->getSubExpr());
    } else if (auto *x = dyn_cast<IntegerLiteral>(E)) { attrK("Int", E); (void)x;
    } else if (auto *x = dyn_cast<CharacterLiteral>(E)) { attrK("Int", E); (void)x;
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(E)) { attrK("Int", E); J.attribute("bool", (int)x->getValue());
    } else if (auto *x = dyn_cast<FloatingLiteral>(E)) { attrK("Flt", E); J.attribute("v", x->getValueAsApproximateDouble());
    } else if (auto *x = dyn_cast<StringLiteral>(E)) { attrK("Str", E); if (x->isOrdinary() || x->isUTF8() || x->isUnevaluated()) { std::string s = x->getString().str(); J.attribute("v", json::isUTF8(s) ? s : json::fixUTF8(s)); }
    } else if (isa<CXXThisExpr>(E)) { attrK("This", E);
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { attrK("Null", E);
    } else if (auto *x = dyn_cast<InitListExpr>(E)) {
      attrK("Init", E); auto *y = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      std::vector<const Expr*> a; for (auto *i : y->inits()) a.push_back(i); exprs("a", a);
      if (auto *rt = E->getType()->getAsRecordDecl()) { J.attributeBegin("fl"); J.arrayBegin(); for (auto *f : rt->fields()) J.value(f->getNameAsString()); J.arrayEnd(); J.attributeEnd(); }
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { attrK("Zero", E);
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { attrK("Sizeof", E); if (x->isArgumentType()) J.attribute("at", ty(x->getArgumentType())); else J.attribute("at", ty(x->getArgumentExpr()->getType()));
    } else if (auto *x = dyn_cast<CXXTypeidExpr>(E)) { attrK("Typeid", E); if (x->isTypeOperand()) J.attribute("at", ty(x->getTypeOperand(C)));
    } else if (auto *x = dyn_cast<StmtExpr>(E)) { attrK("StmtE", E); st("s", x->getSubStmt());
    } else if (auto *x = dyn_cast<PredefinedExpr>(E)) { attrK("Str", E); (void)x;
    } else if (auto *x = dyn_cast<ArrayInitLoopExpr>(E)) { attrK("Opaque", E);
    } else if (auto *x = dyn_cast<VAArgExpr>(E)) { attrK("Opaque", E); (void)x;
    } else {
      attrK("Other", E); J.attribute("cn", E->getStmtClassName());
      J.attributeBegin("ch"); J.arrayBegin(); for (auto *c : E->children()) if (auto *e = dyn_cast_or_null<Expr>(c)) expr(e); J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd();
  }

  void bases(const char *name, const CXXRecordDecl *R) {
    std::vector<std::string> out; std::set<const CXXRecordDecl*> seen; std::vector<const CXXRecordDecl*> todo{R};
    while (!todo.empty()) { auto *r = todo.back(); todo.pop_back(); r = r->getDefinition(); if (!r || !seen.insert(r).second) continue; out.push_back(recName(r)); for (auto &b : r->bases()) if (auto *br = b.getType()->getAsCXXRecordDecl()) todo.push_back(br); }
    J.attributeBegin(name); J.arrayBegin(); for (auto &s : out) J.value(s); J.arrayEnd(); J.attributeEnd();
  }
  // ---------- statements
  void var(const VarDecl *V) {
    J.objectBegin();
    J.attribute("n", V->getNameAsString()); J.attribute("id", vid(V)); J.attribute("t", ty(V->getType())); J.attribute("l", line(V->getLocation()));
    if (V->isStaticLocal()) { J.attribute("static", 1); J.attribute("g", gkey(V)); }
    if (V->getType()->isReferenceType()) J.attribute("ref", 1);
    if (auto *R = V->getType()->getAsCXXRecordDecl()) if (R->hasDefinition()) {
      J.attribute("cls", recName(R));
      if (auto *d = R->getDestructor()) if (!d->isTrivial()) { J.attribute("dt", key(d)); if (inRepo(R->getLocation())) J.attribute("rp", 1); }
    }
    if (auto *at = C.getAsConstantArrayType(V->getType())) J.attribute("asz", (int64_t)at->getSize().getZExtValue());
    else if (auto *va = C.getAsVariableArrayType(V->getType())) if (va->getSizeExpr()) ex("vsz", va->getSizeExpr());
    if (V->hasInit()) ex("i", V->getInit());
    if (V->getType()->isReferenceType() && V->hasInit()) { // lifetime-extended temporaries with repo dtor are kept as Tmp
    }
    J.objectEnd();
  }
  void sk(const char *k, const Stmt *S) { J.attribute("k", k); J.attribute("l", line(S->getBeginLoc())); }
  void varList(const char *name, llvm::ArrayRef<const Expr*> v) {
    J.attributeBegin(name); J.arrayBegin();
    for (auto *e : v) { e = strip(e); if (auto *d = dyn_cast<DeclRefExpr>(e)) if (auto *vd = dyn_cast<VarDecl>(d->getDecl())) J.value(vid(vd)); }
    J.arrayEnd(); J.attributeEnd();
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) {
      J.objectBegin(); sk("Expr", S); ex("e", E); J.objectEnd(); return;
    }
    J.objectBegin();
    if (auto *x = dyn_cast<CompoundStmt>(S)) {
      sk("Comp", S); J.attribute("el", line(x->getRBracLoc())); J.attributeBegin("s"); J.arrayBegin(); for (auto *c : x->body()) stmt(c); J.arrayEnd(); J.attributeEnd();
    } else if (auto *x = dyn_cast<DeclStmt>(S)) {
      sk("Decl", S); J.attributeBegin("v"); J.arrayBegin(); for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) var(v); J.arrayEnd(); J.attributeEnd();
    } else if (auto *x = dyn_cast<IfStmt>(S)) {
      sk("If", S); if (x->getInit()) st("i", x->getInit());
      if (auto *v = x->getConditionVariable()) { J.attributeBegin("cvd"); var(v); J.attributeEnd(); }
      ex("c", x->getCond()); st("t", x->getThen()); if (x->getElse()) st("e", x->getElse());
    } else if (auto *x = dyn_cast<WhileStmt>(S)) {
      sk("While", S); if (auto *v = x->getConditionVariable()) { J.attributeBegin("cvd"); var(v); J.attributeEnd(); }
      ex("c", x->getCond()); st("b", x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(S)) {
      sk("Do", S); ex("c", x->getCond()); st("b", x->getBody());
    } else if (auto *x = dyn_cast<ForStmt>(S)) {
      sk("For", S); if (x->getInit()) st("i", x->getInit()); if (x->getCond()) ex("c", x->getCond()); if (x->getInc()) ex("n", x->getInc()); st("b", x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(S)) {
      sk("RFor", S); J.attributeBegin("v"); var(x->getLoopVariable()); J.attributeEnd(); ex("r", x->getRangeInit()); st("b", x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(S)) {
      sk("Switch", S); ex("c", x->getCond()); st("b", x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(S)) {
      sk("Case", S); ex("v", x->getLHS()); st("s", x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(S)) { sk("Default", S); st("s", x->getSubStmt());
    } else if (isa<BreakStmt>(S)) sk("Break", S);
    else if (isa<ContinueStmt>(S)) sk("Continue", S);
    else if (isa<NullStmt>(S)) sk("Null", S);
    else if (auto *x = dyn_cast<ReturnStmt>(S)) { sk("Ret", S); if (x->getRetValue()) ex("e", x->getRetValue()); }
    else if (auto *x = dyn_cast<CXXTryStmt>(S)) {
      sk("Try", S); st("b", x->getTryBlock()); J.attributeBegin("h"); J.arrayBegin();
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        auto *h = x->getHandler(i); J.objectBegin(); J.attribute("l", line(h->getBeginLoc()));
        if (h->getExceptionDecl()) { J.attribute("t", ty(h->getCaughtType().getNonReferenceType().getUnqualifiedType())); J.attributeBegin("v"); var(h->getExceptionDecl()); J.attributeEnd(); }
        st("b", h->getHandlerBlock()); J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *x = dyn_cast<OMPExecutableDirective>(S)) {
      sk("Omp", S); J.attribute("d", llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str());
      if (auto *c = dyn_cast<OMPCriticalDirective>(x)) J.attribute("name", c->getDirectiveName().getAsString());
      for (auto *cl : x->clauses()) {
        if (auto *c = dyn_cast<OMPPrivateClause>(cl)) { std::vector<const Expr*> v(c->varlist_begin(), c->varlist_end()); varList("private", v); }
        else if (auto *c = dyn_cast<OMPFirstprivateClause>(cl)) { std::vector<const Expr*> v(c->varlist_begin(), c->varlist_end()); varList("firstprivate", v); }
        else if (auto *c = dyn_cast<OMPLastprivateClause>(cl)) { std::vector<const Expr*> v(c->varlist_begin(), c->varlist_end()); varList("lastprivate", v); }
        else if (auto *c = dyn_cast<OMPReductionClause>(cl)) { std::vector<const Expr*> v(c->varlist_begin(), c->varlist_end()); varList("reduction", v); }
        else if (auto *c = dyn_cast<OMPSharedClause>(cl)) { std::vector<const Expr*> v(c->varlist_begin(), c->varlist_end()); varList("shared", v); }
      }
      if (x->hasAssociatedStmt()) st("b", x->getRawStmt());
    } else if (auto *x = dyn_cast<CapturedStmt>(S)) { sk("Comp", S); J.attributeBegin("s"); J.arrayBegin(); stmt(x->getCapturedStmt()); J.arrayEnd(); J.attributeEnd();
    } else if (auto *x = dyn_cast<OMPCanonicalLoop>(S)) { sk("Comp", S); J.attributeBegin("s"); J.arrayBegin(); stmt(x->getLoopStmt()); J.arrayEnd(); J.attributeEnd();
    } else if (auto *x = dyn_cast<AttributedStmt>(S)) { sk("Comp", S); J.attributeBegin("s"); J.arrayBegin(); stmt(x->getSubStmt()); J.arrayEnd(); J.attributeEnd();
    } else if (auto *x = dyn_cast<LabelStmt>(S)) { sk("Label", S); J.attribute("n", x->getName()); st("s", x->getSubStmt());
    } else if (auto *x = dyn_cast<GotoStmt>(S)) { sk("Goto", S); J.attribute("n", x->getLabel()->getNameAsString());
    } else { sk("OtherS", S); J.attribute("cn", S->getStmtClassName()); }
    J.objectEnd();
  }
  void params(const FunctionDecl *F) {
    J.attributeBegin("params"); J.arrayBegin();
    for (auto *p : F->parameters()) { J.objectBegin(); J.attribute("n", p->getNameAsString()); J.attribute("id", vid(p)); J.attribute("t", ty(p->getType())); J.attribute("ot", ty(p->getOriginalType())); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
  }
  void fnHeader(const FunctionDecl *F) {
    J.attribute("key", key(F)); J.attribute("q", qn(F)); J.attribute("n", F->getNameAsString());
    J.attribute("file", fileOfC(F->getLocation())); J.attribute("l", line(F->getLocation()));
    J.attribute("ret", ty(F->getReturnType()));
    if (F->isExternC()) J.attribute("ec", 1);
    if (F->isVariadic()) J.attribute("va", 1);
    if (F->isInAnonymousNamespace() || F->getFormalLinkage() == Linkage::Internal) J.attribute("int", 1);
    if (auto *P = F->getType()->getAs<FunctionProtoType>()) {
      auto es = P->getExceptionSpecType();
      if (es == EST_Unevaluated) { if (isa<CXXDestructorDecl>(F)) J.attribute("nx", 1); }
      else if (es != EST_Uninstantiated && P->isNothrow()) J.attribute("nx", 1);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", recName(M->getParent())); J.attribute("cq", qn(M->getParent()));
      if (M->isVirtual()) J.attribute("v", 1);
      if (M->isPureVirtual()) J.attribute("pure", 1);
      if (M->isConst()) J.attribute("const", 1);
      if (M->isStatic()) J.attribute("st", 1);
      if (isa<CXXConstructorDecl>(M)) J.attribute("ctor", 1);
      if (isa<CXXDestructorDecl>(M)) J.attribute("dtor", 1);
      if (M->size_overridden_methods()) {
        J.attributeBegin("ov"); J.arrayBegin(); for (auto *o : M->overridden_methods()) J.value(key(o)); J.arrayEnd(); J.attributeEnd();
      }
    }
    const char *acc = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_private ? "private" : F->getAccess() == AS_protected ? "protected" : "none";
    J.attribute("acc", acc);
    if (const TemplateArgumentList *ta = F->getTemplateSpecializationArgs()) {
      J.attributeBegin("targs"); J.arrayBegin();
      for (auto &a : ta->asArray()) { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); J.value(os.str()); }
      J.arrayEnd(); J.attributeEnd();
    }
    params(F);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || F->isTemplated()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!inRepo(F->getLocation())) return true;
    std::string k = key(F);
    if (F->doesThisDeclarationHaveABody() && F->getBody() && !F->isDeleted()) {
      if (F->isImplicit()) return true;
      if (F->isDefaulted()) return true;
      if (!doneFn.insert(k).second) return true;
      J.objectBegin(); J.attribute("rk", "fn"); fnHeader(F);
      J.attribute("el", line(F->getBody()->getEndLoc()));
      if (auto *c = dyn_cast<CXXConstructorDecl>(F)) {
        J.attributeBegin("inits"); J.arrayBegin();
        for (auto *i : c->inits()) {
          J.objectBegin();
          if (i->isAnyMemberInitializer()) { J.attribute("f", i->getAnyMember()->getNameAsString()); J.attribute("q", qn(i->getAnyMember())); J.attribute("t", ty(i->getAnyMember()->getType())); }
          else if (i->isBaseInitializer()) J.attribute("base", ty(QualType(i->getBaseClass(), 0)));
          else J.attribute("deleg", 1);
          J.attribute("w", (int)i->isWritten()); J.attribute("l", line(i->getSourceLocation().isValid() ? i->getSourceLocation() : F->getLocation()));
          ex("e", i->getInit()); J.objectEnd();
        }
        J.arrayEnd(); J.attributeEnd();
      }
      st("body", F->getBody());
      J.objectEnd();
    } else {
      if (!doneDecl.insert(k).second) return true;
      J.objectBegin(); J.attribute("rk", "decl"); fnHeader(F); J.objectEnd();
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRepo(R->getLocation())) return true;
    std::string n = recName(R); if (!doneRec.insert(n).second) return true;
    J.objectBegin(); J.attribute("rk", "rec"); J.attribute("q", qn(R)); J.attribute("cls", n); J.attribute("file", fileOfC(R->getLocation())); J.attribute("l", line(R->getLocation()));
    J.attributeBegin("bases"); J.arrayBegin(); for (auto &b : R->bases()) if (auto *br = b.getType()->getAsCXXRecordDecl()) J.value(recName(br)); J.arrayEnd(); J.attributeEnd();
    bases("allbases", R);
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto *f : R->fields()) { J.objectBegin(); J.attribute("n", f->getNameAsString()); J.attribute("q", qn(f)); J.attribute("t", ty(f->getType())); if (f->isMutable()) J.attribute("mut", 1); J.attribute("l", line(f->getLocation())); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("methods"); J.arrayBegin();
    for (auto *m : R->methods()) { if (m->isImplicit()) continue; J.objectBegin(); J.attribute("key", key(m)); J.attribute("n", m->getNameAsString()); if (m->isVirtual()) J.attribute("v", 1); if (m->isPureVirtual()) J.attribute("pure", 1); if (m->isConst()) J.attribute("const", 1);
      if (m->size_overridden_methods()) { J.attributeBegin("ov"); J.arrayBegin(); for (auto *o : m->overridden_methods()) J.value(key(o)); J.arrayEnd(); J.attributeEnd(); } J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
    if (auto *d = R->getDestructor()) { J.attribute("dt", key(d)); J.attribute("dtuser", (int)d->isUserProvided()); }
    J.objectEnd();
    return true;
  }
  bool VisitRecordDecl(RecordDecl *R) {
    if (isa<CXXRecordDecl>(R) || !R->isThisDeclarationADefinition() || !inRepo(R->getLocation())) return true;
    std::string n = qn(R); if (!doneRec.insert(n).second) return true;
    J.objectBegin(); J.attribute("rk", "rec"); J.attribute("q", n); J.attribute("cls", n); J.attribute("file", fileOfC(R->getLocation())); J.attribute("l", line(R->getLocation()));
    J.attributeBegin("fields"); J.arrayBegin();
    for (auto *f : R->fields()) { J.objectBegin(); J.attribute("n", f->getNameAsString()); J.attribute("q", qn(f)); J.attribute("t", ty(f->getType())); J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd(); J.objectEnd();
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    bool rp = inRepo(E->getLocation());
    std::string f = fileOfC(E->getLocation());
    if (!rp && f.find("_build/") != 0) return true;
    std::string n = qn(E); std::string un = n + "@" + f + ":" + std::to_string(line(E->getLocation()));
    if (!doneEnum.insert(un).second) return true;
    J.objectBegin(); J.attribute("rk", "enum"); J.attribute("q", n); J.attribute("file", f); J.attribute("l", line(E->getLocation()));
    J.attributeBegin("vals"); J.objectBegin(); for (auto *c : E->enumerators()) J.attribute(c->getNameAsString(), i64(c->getInitVal())); J.objectEnd(); J.attributeEnd();
    J.objectEnd(); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V) || V->getDeclContext()->isDependentContext()) return true;
    if (!inRepo(V->getLocation())) return true;
    if (!V->isThisDeclarationADefinition()) return true;
    std::string k = gkey(V); if (!doneGlob.insert(k).second) return true;
    J.objectBegin(); J.attribute("rk", "glob"); J.attribute("g", k); J.attribute("n", V->getNameAsString()); J.attribute("file", fileOfC(V->getLocation())); J.attribute("l", line(V->getLocation())); J.attribute("t", ty(V->getType()));
    if (V->getType().isConstQualified() || (C.getAsArrayType(V->getType()) && C.getAsArrayType(V->getType())->getElementType().isConstQualified())) J.attribute("const", 1);
    if (V->getInit()) ex("i", V->getInit());
    J.objectEnd(); return true;
  }
  void finish() {
    J.objectBegin(); J.attribute("rk", "types"); J.attributeBegin("types"); J.arrayBegin(); for (auto &s : typeList) J.value(json::isUTF8(s) ? s : json::fixUTF8(s)); J.arrayEnd(); J.attributeEnd(); J.objectEnd();
    std::set<std::string> files;
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      llvm::SmallString<256> rp; std::string f = std::string(it->first.getName());
      if (!llvm::sys::fs::real_path(f, rp)) f = std::string(rp.str());
      if (f.compare(0, gRoot.size() + 1, gRoot + "/") == 0) files.insert(f);
    }
    J.objectBegin(); J.attribute("rk", "deps"); J.attributeBegin("deps"); J.arrayBegin(); for (auto &s : files) J.value(s); J.arrayEnd(); J.attributeEnd(); J.objectEnd();
  }
};

class Cons : public ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec);
    if (ec) { llvm::errs() << "cannot write " << gOut << "\n"; exit(3); }
    json::OStream J(os);
    J.arrayBegin(); Ex e(C, J); e.TraverseDecl(C.getTranslationUnitDecl()); e.finish(); J.arrayEnd();
    os << "\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
}
int main(int argc, const char **argv) {
  if (argc < 6) { llvm::errs() << "usage\n"; return 2; }
  gOut = argv[1]; gRoot = argv[2]; std::string dir = argv[3], file = argv[4];
  { llvm::SmallString<256> rp; std::string f = file; if (!llvm::sys::fs::real_path(f, rp)) f = std::string(rp.str()); gMain = f.compare(0, gRoot.size() + 1, gRoot + "/") == 0 ? f.substr(gRoot.size() + 1) : f; }
  std::vector<std::string> args(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(dir, args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
