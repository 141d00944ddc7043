// fuelx: exports the resolved program (AST + per-function CFG) of one translation unit as JSON.
// It decides nothing; the rules in /verif/sa/*.py work on what it prints.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using namespace llvm;
namespace J = llvm::json;

static cl::OptionCategory Cat("fuelx");
static cl::opt<std::string> Root("root", cl::desc("only export functions of files below this directory"), cl::cat(Cat));
static cl::opt<std::string> Out("o", cl::desc("output"), cl::cat(Cat));

struct Exporter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  J::Object Decls, Types, Records, Enums;
  J::Array Functions, Globals;
  std::map<std::string, int> TypeIds;
  J::Array TypeList;
  std::map<const Decl *, int> VarIds;
  std::set<const FunctionDecl *> Done;
  std::vector<const FunctionDecl *> Work;

  // per function
  std::map<const Stmt *, int> Ids;
  J::Object Exprs;
  std::map<const Stmt *, const CXXTryStmt *> TryOf;
  int NextId = 0;
  const FunctionDecl *Cur = nullptr;

  Exporter(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    SmallString<256> P(F->getName());
    if (auto R = F->getFileEntry().tryGetRealPathName(); !R.empty()) P = R;
    return std::string(P);
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool mine(const Decl *D) {
    std::string F = file(D->getLocation());
    return StringRef(F).starts_with(Root);
  }
  int ty(QualType T) {
    if (T.isNull()) return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto it = TypeIds.find(S);
    if (it != TypeIds.end()) return it->second;
    int id = TypeIds.size();
    TypeIds[S] = id;
    QualType N = T.getCanonicalType();
    J::Object O;
    O["s"] = S;
    if (N->isLValueReferenceType()) O["ref"] = 1;
    if (N->isRValueReferenceType()) O["rref"] = 1;
    QualType B = N.getNonReferenceType();
    if (B.isConstQualified()) O["cst"] = 1;
    TypeList.push_back(nullptr); // reserve
    if (B->isPointerType()) { O["k"] = "ptr"; O["to"] = ty(B->getPointeeType()); if (B->getPointeeType().isConstQualified()) O["pc"] = 1; }
    else if (B->isBooleanType()) O["k"] = "bool";
    else if (B->isEnumeralType()) O["k"] = "enum";
    else if (B->isIntegerType()) { O["k"] = "int"; O["w"] = (int)C.getTypeSize(B); O["sg"] = B->isSignedIntegerType() ? 1 : 0; }
    else if (B->isFloatingType()) O["k"] = "float";
    else if (auto *R = B->getAsCXXRecordDecl()) {
      O["k"] = "rec"; O["rec"] = R->getQualifiedNameAsString();
      if (R->isLambda()) O["lam"] = 1;
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        J::Array A;
        for (auto &TA : S->getTemplateArgs().asArray()) if (TA.getKind() == TemplateArgument::Type) A.push_back(ty(TA.getAsType()));
        O["targs"] = std::move(A);
      }
      // base names
      if (R->hasDefinition()) {
        J::Array Bs;
        for (auto &Bb : R->bases()) if (auto *BR = Bb.getType()->getAsCXXRecordDecl()) Bs.push_back(ty(Bb.getType()));
        if (!Bs.empty()) O["bases"] = std::move(Bs);
        addRecord(R);
      }
    } else if (B->isVoidType()) O["k"] = "void";
    else if (B->isFunctionType() || B->isFunctionPointerType()) O["k"] = "fn";
    else if (B->isNullPtrType()) O["k"] = "null";
    else if (B->isArrayType()) O["k"] = "arr";
    else O["k"] = "other";
    if (B.getUnqualifiedType() != N) O["u"] = ty(B.getUnqualifiedType());
    TypeList[id] = std::move(O);
    return id;
  }
  std::set<const CXXRecordDecl *> RecDone;
  void addRecord(const CXXRecordDecl *R) {
    R = R->getDefinition();
    if (!R || !mine(R) || !RecDone.insert(R).second) return;
    J::Object O;
    O["name"] = recName(R);
    O["file"] = file(R->getLocation());
    O["line"] = (int)line(R->getLocation());
    O["union"] = R->isUnion();
    O["polymorphic"] = R->isPolymorphic();
    O["virtual_dtor"] = R->getDestructor() ? R->getDestructor()->isVirtual() : false;
    O["abstract"] = R->isAbstract();
    J::Array F, M, B;
    for (auto *Fd : R->fields()) {
      J::Object X; X["name"] = Fd->getNameAsString(); X["t"] = ty(Fd->getType()); X["init"] = Fd->hasInClassInitializer();
      X["line"] = (int)line(Fd->getLocation());
      F.push_back(std::move(X));
    }
    for (auto *Md : R->methods()) {
      J::Object X; X["id"] = fid(Md); X["name"] = Md->getNameAsString(); X["implicit"] = Md->isImplicit();
      X["defaulted"] = Md->isDefaulted(); X["deleted"] = Md->isDeleted(); X["virtual"] = Md->isVirtual(); X["pure"] = Md->isPureVirtual();
      X["ctor"] = isa<CXXConstructorDecl>(Md); X["dtor"] = isa<CXXDestructorDecl>(Md); X["access"] = (int)Md->getAccess();
      M.push_back(std::move(X));
    }
    for (auto &Bs : R->bases()) { J::Object X; X["t"] = ty(Bs.getType()); X["access"] = (int)Bs.getAccessSpecifier(); B.push_back(std::move(X)); }
    O["fields"] = std::move(F); O["methods"] = std::move(M); O["bases"] = std::move(B);
    Records[recName(R)] = std::move(O);
  }
  std::string recName(const CXXRecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  std::map<const FunctionDecl *, std::string> Fids;
  std::string fid(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    auto it = Fids.find(F);
    if (it != Fids.end()) return it->second;
    std::string S;
    auto *M = dyn_cast<CXXMethodDecl>(F);
    if (M && M->getParent()->isLambda()) {
      SourceLocation L = SM.getExpansionLoc(M->getParent()->getLocation());
      S = "lambda@" + file(L) + ":" + std::to_string(line(L)) + ":" + std::to_string(SM.getExpansionColumnNumber(L)) + "#" + F->getNameAsString();
    } else {
      SmallString<128> B;
      if (index::generateUSRForDecl(F, B)) S = F->getQualifiedNameAsString();
      else S = std::string(B.str());
    }
    Fids[F] = S;
    declInfo(F, S);
    return S;
  }
  void declInfo(const FunctionDecl *F, const std::string &S) {
    if (Decls.find(S) != Decls.end()) return;
    J::Object O;
    O["name"] = F->getQualifiedNameAsString();
    O["ret"] = ty(F->getReturnType());
    J::Array P;
    for (auto *Pd : F->parameters()) { J::Object X; X["n"] = Pd->getNameAsString(); X["t"] = ty(Pd->getType()); X["def"] = Pd->hasDefaultArg(); P.push_back(std::move(X)); }
    O["params"] = std::move(P);
    O["mine"] = mine(F);
    const FunctionDecl *Def = nullptr;
    O["body"] = F->hasBody(Def);
    auto *PT = F->getType()->getAs<FunctionProtoType>();
    if (PT && !isUnresolvedExceptionSpec(PT->getExceptionSpecType())) O["noexcept"] = PT->isNothrow();
    if (F->isNoReturn()) O["noreturn"] = 1;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["clsq"] = M->getParent()->getQualifiedNameAsString();
      O["static"] = M->isStatic(); O["const"] = M->isConst(); O["virtual"] = M->isVirtual();
      O["implicit"] = M->isImplicit();
      J::Array Ov;
      for (auto *B : M->overridden_methods()) Ov.push_back(fid(B));
      if (!Ov.empty()) O["overrides"] = std::move(Ov);
      if (M->getParent()->isLambda()) O["lambda"] = 1;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { O["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other"; }
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = 1;
      if (isa<CXXConversionDecl>(M)) O["conv"] = 1;
      if (M->isCopyAssignmentOperator()) O["asg"] = "copy";
      if (M->isMoveAssignmentOperator()) O["asg"] = "move";
    }
    if (F->isOverloadedOperator()) O["op"] = getOperatorSpelling(F->getOverloadedOperator());
    Decls[S] = std::move(O);
    if (Def && mine(Def)) Work.push_back(Def);
    else if (F->isTemplateInstantiation() && mine(F)) { if (auto *D2 = F->getDefinition()) Work.push_back(D2); }
  }
  int varId(const ValueDecl *D) {
    D = cast<ValueDecl>(D->getCanonicalDecl());
    auto it = VarIds.find(D);
    if (it != VarIds.end()) return it->second;
    int id = VarIds.size();
    VarIds[D] = id;
    return id;
  }
  std::string varKey(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage() && !V->isStaticLocal()) return "g:" + V->getQualifiedNameAsString();
      if (V->isStaticLocal()) return "s:" + V->getNameAsString() + ":" + std::to_string(line(V->getLocation()));
    }
    return "v:" + D->getNameAsString() + ":" + std::to_string(varId(D));
  }
  J::Object varObj(const VarDecl *V) {
    J::Object X;
    X["v"] = varKey(V); X["n"] = V->getNameAsString(); X["t"] = ty(V->getType());
    if (V->isStaticLocal()) X["static"] = 1;
    return X;
  }
  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion:
        case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
          E = P->getSubExpr(); continue;
        default: break;
        }
      }
      return E;
    }
  }
  J::Array list(ArrayRef<const Expr *> A) { J::Array R; for (auto *E : A) R.push_back(expr(E)); return R; }
  template <class It> J::Array exprs(It R) { J::Array A; for (auto *E : R) A.push_back(expr(cast<Expr>(E))); return A; }

  int expr(const Expr *E0) {
    if (!E0) return -1;
    const Expr *E = strip(E0);
    auto it = Ids.find(E);
    if (it != Ids.end()) return it->second;
    int id = NextId++;
    Ids[E] = id;
    J::Object O;
    O["l"] = (int)line(E->getExprLoc());
    O["t"] = ty(E->getType());
    if (E->isGLValue()) O["lv"] = 1;
    auto T = TryOf.find(E);
    if (T != TryOf.end()) O["try"] = stmtId(T->second);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(D->getDecl())) { O["k"] = "var"; O["v"] = varKey(V); O["n"] = V->getNameAsString();
        if (D->refersToEnclosingVariableOrCapture()) O["cap"] = 1; 
        if (V->hasGlobalStorage()) { O["glob"] = 1; noteGlobal(V);} }
      else if (auto *F = dyn_cast<FunctionDecl>(D->getDecl())) { O["k"] = "fn"; O["c"] = fid(F); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D->getDecl())) { O["k"] = "enum"; O["n"] = EC->getQualifiedNameAsString(); O["val"] = EC->getInitVal().getExtValue(); noteEnum(EC); }
      else O["k"] = "declref";
    } else if (isa<CXXThisExpr>(E)) O["k"] = "this";
    else if (auto *L = dyn_cast<IntegerLiteral>(E)) { O["k"] = "int"; O["val"] = (int64_t)L->getValue().getLimitedValue(); }
    else if (auto *L = dyn_cast<CharacterLiteral>(E)) { O["k"] = "int"; O["val"] = (int64_t)L->getValue(); O["chr"] = 1; }
    else if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { O["k"] = "bool"; O["val"] = L->getValue(); }
    else if (auto *L = dyn_cast<FloatingLiteral>(E)) { O["k"] = "float"; O["val"] = L->getValueAsApproximateDouble(); }
    else if (auto *L = dyn_cast<clang::StringLiteral>(E)) { O["k"] = "str"; O["val"] = L->isOrdinary() ? J::fixUTF8(L->getString()) : std::string("?"); }
    else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) O["k"] = "null";
    else if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) { O["k"] = "var"; O["v"] = varKey(V); O["n"] = V->getNameAsString(); O["glob"] = 1; noteGlobal(V); }
      else if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        O["k"] = "mem"; O["b"] = expr(M->getBase()); O["f"] = F->getNameAsString(); O["arrow"] = M->isArrow();
        O["cls"] = recName(cast<CXXRecordDecl>(F->getParent()));
      } else if (auto *F = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) { O["k"] = "fn"; O["c"] = fid(F); O["b"] = expr(M->getBase()); O["arrow"] = M->isArrow(); }
      else { O["k"] = "memx"; O["b"] = expr(M->getBase()); }
    } else if (auto *K = dyn_cast<CXXMemberCallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = K->getMethodDecl()) { O["c"] = fid(F);
        auto *ME = dyn_cast<MemberExpr>(K->getCallee()->IgnoreParens());
        if (ME && F->isVirtual() && !ME->hasQualifier()) O["virt"] = 1;
        O["o"] = expr(K->getImplicitObjectArgument());
        if (ME && ME->isArrow()) O["arrow"] = 1;
      } else O["fx"] = expr(K->getCallee());
      O["a"] = exprs(K->arguments());
    } else if (auto *K = dyn_cast<CXXOperatorCallExpr>(E)) {
      O["k"] = "call"; O["op"] = getOperatorSpelling(K->getOperator());
      auto *F = K->getDirectCallee();
      if (F) O["c"] = fid(F);
      J::Array A;
      unsigned s = 0;
      if (F && isa<CXXMethodDecl>(F)) { O["o"] = expr(K->getArg(0)); s = 1; }
      for (unsigned i = s; i < K->getNumArgs(); i++) A.push_back(expr(K->getArg(i)));
      O["a"] = std::move(A);
      if (!F) O["fx"] = expr(K->getCallee());
    } else if (auto *K = dyn_cast<CallExpr>(E)) {
      O["k"] = "call";
      if (auto *F = K->getDirectCallee()) O["c"] = fid(F); else O["fx"] = expr(K->getCallee());
      O["a"] = exprs(K->arguments());
    } else if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      O["k"] = "ctor"; O["c"] = fid(K->getConstructor());
      O["a"] = exprs(K->arguments());
      if (K->isElidable()) O["elide"] = 1;
      if (isa<CXXTemporaryObjectExpr>(K)) O["temp"] = 1;
    } else if (auto *K = dyn_cast<CXXScalarValueInitExpr>(E)) { O["k"] = "zero"; (void)K; }
    else if (isa<ImplicitValueInitExpr>(E)) O["k"] = "zero";
    else if (auto *K = dyn_cast<CXXNewExpr>(E)) { O["k"] = "new"; O["nt"] = ty(K->getAllocatedType()); if (K->getInitializer()) O["e"] = expr(K->getInitializer()); }
    else if (auto *K = dyn_cast<CXXDeleteExpr>(E)) { O["k"] = "delete"; O["e"] = expr(K->getArgument()); O["nt"] = ty(K->getDestroyedType()); }
    else if (auto *K = dyn_cast<UnaryOperator>(E)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(K->getOpcode()); O["post"] = K->isPostfix(); O["e"] = expr(K->getSubExpr());
    } else if (auto *K = dyn_cast<BinaryOperator>(E)) {
      O["k"] = K->isAssignmentOp() ? "asg" : "bin"; O["op"] = K->getOpcodeStr(); O["e"] = expr(K->getLHS()); O["r"] = expr(K->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(K)) O["ct"] = ty(CA->getComputationResultType());
    } else if (auto *K = dyn_cast<AbstractConditionalOperator>(E)) { O["k"] = "cond"; O["c0"] = expr(K->getCond()); O["e"] = expr(K->getTrueExpr()); O["r"] = expr(K->getFalseExpr()); }
    else if (auto *K = dyn_cast<ArraySubscriptExpr>(E)) { O["k"] = "idx"; O["e"] = expr(K->getBase()); O["r"] = expr(K->getIdx()); 
      if (auto *AT = C.getAsConstantArrayType(K->getBase()->IgnoreParenImpCasts()->getType())) O["n"] = (int64_t)AT->getSize().getLimitedValue(); }
    else if (auto *K = dyn_cast<CastExpr>(E)) {
      if (K->getCastKind() == CK_LValueToRValue) O["k"] = "load";
      else O["k"] = "cast";
      O["ck"] = K->getCastKindName(); O["e"] = expr(K->getSubExpr());
      if (isa<ExplicitCastExpr>(K)) O["exp"] = 1;
    } else if (auto *K = dyn_cast<LambdaExpr>(E)) {
      O["k"] = "lambda"; 
      auto *Op = K->getCallOperator();
      O["c"] = fid(Op);
      Work.push_back(Op);
      J::Array A;
      auto ii = K->capture_init_begin();
      for (auto &Cp : K->captures()) {
        J::Object X;
        if (Cp.capturesThis()) X["this"] = 1;
        else if (Cp.capturesVariable()) { auto *V = cast<VarDecl>(Cp.getCapturedVar()); X["v"] = varKey(V); X["n"] = V->getNameAsString(); X["t"] = ty(V->getType()); }
        X["byref"] = Cp.getCaptureKind() == LCK_ByRef; 
        if (ii != K->capture_init_end() && *ii) X["e"] = expr(*ii);
        ++ii;
        A.push_back(std::move(X));
      }
      O["caps"] = std::move(A);
    } else if (auto *K = dyn_cast<InitListExpr>(E)) { O["k"] = "ilist"; auto *S = K->isSemanticForm() ? K : (K->getSemanticForm() ? K->getSemanticForm() : K); O["a"] = exprs(S->inits()); }
    else if (auto *K = dyn_cast<CXXThrowExpr>(E)) { O["k"] = "throw"; if (K->getSubExpr()) { O["e"] = expr(K->getSubExpr()); O["tt"] = ty(K->getSubExpr()->getType()); } }
    else if (auto *K = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; O["k"] = "int"; O["val"] = K->EvaluateAsInt(R, C) ? R.Val.getInt().getExtValue() : 0; }
    else if (auto *K = dyn_cast<OpaqueValueExpr>(E)) { O["k"] = "opaque"; if (K->getSourceExpr()) O["e"] = expr(K->getSourceExpr()); }
    else if (auto *K = dyn_cast<StmtExpr>(E)) { O["k"] = "other"; O["n"] = "StmtExpr"; (void)K; }
    else { O["k"] = "other"; O["n"] = E->getStmtClassName(); J::Array A; for (auto *Ch : E->children()) if (auto *X = dyn_cast_or_null<Expr>(Ch)) A.push_back(expr(X)); O["a"] = std::move(A); }
    Exprs[std::to_string(id)] = std::move(O);
    return id;
  }
  std::map<const Stmt *, int> StmtIds;
  int stmtId(const Stmt *S) { auto it = StmtIds.find(S); if (it != StmtIds.end()) return it->second; int i = StmtIds.size(); StmtIds[S] = i; return i; }
  std::set<const EnumDecl *> EDone;
  void noteEnum(const EnumConstantDecl *EC) {
    auto *ED = cast<EnumDecl>(EC->getDeclContext());
    if (!mine(ED) || !EDone.insert(ED).second) return;
    J::Object O;
    for (auto *X : ED->enumerators()) O[X->getNameAsString()] = X->getInitVal().getExtValue();
    Enums[ED->getQualifiedNameAsString()] = std::move(O);
  }
  std::set<const VarDecl *> GDone;
  std::optional<std::string> strOf(const Expr *E, int D) {
    if (!E || D > 20) return std::nullopt;
    E = E->IgnoreParenImpCasts();
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return strOf(X->getSubExpr(), D + 1);
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return strOf(X->getSubExpr(), D + 1);
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return strOf(X->getSubExpr(), D + 1);
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) return strOf(X->getSubExpr(), D + 1);
    if (auto *SL = dyn_cast<clang::StringLiteral>(E)) { if (SL->isOrdinary()) return SL->getString().str(); return std::nullopt; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      unsigned n = 0;
      for (auto *A : X->arguments()) if (!isa<CXXDefaultArgExpr>(A)) n++;
      if (n == 1) return strOf(X->getArg(0), D + 1);
      return std::nullopt;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (X->getOperator() == OO_Plus && X->getNumArgs() == 2) {
        auto A = strOf(X->getArg(0), D + 1), B = strOf(X->getArg(1), D + 1);
        if (A && B) return *A + *B;
      }
      return std::nullopt;
    }
    if (auto *R = dyn_cast<DeclRefExpr>(E))
      if (auto *VD = dyn_cast<VarDecl>(R->getDecl()))
        if (VD->hasGlobalStorage() && VD->getType().isConstQualified())
          if (auto *I = VD->getAnyInitializer()) return strOf(I, D + 1);
    return std::nullopt;
  }
  void noteGlobal(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (!GDone.insert(V).second) return;
    J::Object O = varObj(V);
    O["q"] = V->getQualifiedNameAsString();
    O["mine"] = mine(V); O["file"] = file(V->getLocation()); O["line"] = (int)line(V->getLocation());
    O["const"] = V->getType().isConstQualified();
    if (auto *I = V->getAnyInitializer()) if (mine(V)) {
      Expr::EvalResult R;
      if (!I->isValueDependent()) { 
        if (I->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C)) O["ival"] = R.Val.getInt().getExtValue();
        if (auto SV = strOf(I, 0)) O["sval"] = J::fixUTF8(*SV);
        O["dyn"] = !I->isConstantInitializer(C, V->getType()->isReferenceType());
        J::Array Deps; std::set<const Decl *> Seen;
        std::function<void(const Stmt *)> W = [&](const Stmt *X) {
          if (!X) return;
          const Decl *D = nullptr;
          if (auto *R2 = dyn_cast<DeclRefExpr>(X)) D = R2->getDecl();
          else if (auto *M = dyn_cast<MemberExpr>(X)) D = M->getMemberDecl();
          else if (auto *CE = dyn_cast<CXXConstructExpr>(X)) D = CE->getConstructor();
          if (D && Seen.insert(D).second) {
            if (auto *VD = dyn_cast<VarDecl>(D)) { if (VD->hasGlobalStorage()) { noteGlobal(VD); Deps.push_back("g:" + VD->getCanonicalDecl()->getQualifiedNameAsString()); } }
            else if (auto *FD = dyn_cast<FunctionDecl>(D)) Deps.push_back(fid(FD));
          }
          for (auto *Ch : X->children()) W(Ch);
        };
        W(I);
        O["deps"] = std::move(Deps);
        const VarDecl *Def = V->getDefinition(C);
        if (Def) { O["deffile"] = file(Def->getLocation()); O["defline"] = (int)line(Def->getLocation()); }
        O["local"] = V->isStaticLocal();
      }
    }
    Globals.push_back(std::move(O));
  }
  void walkTry(const Stmt *S, const CXXTryStmt *T) {
    if (!S) return;
    if (isa<LambdaExpr>(S)) { for (auto *X : cast<LambdaExpr>(S)->capture_inits()) walkTry(X, T); if (T) TryOf[S] = T; return; }
    if (T) TryOf[S] = T;
    if (auto *TS = dyn_cast<CXXTryStmt>(S)) {
      walkTry(TS->getTryBlock(), TS);
      TryParent[TS] = T;
      for (unsigned i = 0; i < TS->getNumHandlers(); i++) walkTry(TS->getHandler(i)->getHandlerBlock(), T);
      return;
    }
    for (auto *Ch : S->children()) walkTry(Ch, T);
  }
  std::map<const CXXTryStmt *, const CXXTryStmt *> TryParent;

  void function(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return;
    if (!mine(F)) return;
    auto *FT = dyn_cast<CXXMethodDecl>(F);
    if (FT && FT->getParent()->isDependentContext()) return;
    if (!Done.insert(F->getCanonicalDecl()).second) return;
    Ids.clear(); Exprs = J::Object(); TryOf.clear(); TryParent.clear(); NextId = 0; Cur = F; StmtIds.clear();
    walkTry(F->getBody(), nullptr);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) for (auto *I : K->inits()) walkTry(I->getInit(), nullptr);
    J::Object O;
    std::string id = fid(F);
    O["id"] = id;
    O["name"] = F->getQualifiedNameAsString();
    O["file"] = file(F->getLocation());
    O["line"] = (int)line(F->getLocation());
    O["end"] = (int)line(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    O["internal"] = F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace();
    J::Array P;
    for (auto *Pd : F->parameters()) P.push_back(varObj(Pd));
    O["params"] = std::move(P);
    if (FT) {
      O["cls"] = recName(FT->getParent()); O["clsq"] = FT->getParent()->getQualifiedNameAsString();
      O["static"] = FT->isStatic(); O["const"] = FT->isConst();
      ty(C.getTypeDeclType(FT->getParent()));
      if (FT->getParent()->isLambda()) {
        O["lambda"] = 1;
        const DeclContext *DC = FT->getParent()->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) O["parent"] = fid(cast<FunctionDecl>(DC));
      }
    }
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddCXXDefaultInitExprInCtors = true;
    BO.PruneTriviallyFalseEdges = false; BO.AddEHEdges = false;
    std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (!G) { O["nocfg"] = 1; Functions.push_back(std::move(O)); return; }
    J::Object Tries;
    J::Array Blocks;
    for (auto *B : *G) {
      J::Object BJ;
      BJ["id"] = (int)B->getBlockID();
      J::Array El;
      for (auto &CE : *B) {
        if (auto S = CE.getAs<CFGStmt>()) {
          const Stmt *St = S->getStmt();
          if (auto *D = dyn_cast<DeclStmt>(St)) {
            for (auto *X : D->decls()) if (auto *V = dyn_cast<VarDecl>(X)) {
              J::Object VJ = varObj(V);
              if (V->getInit()) VJ["e"] = expr(V->getInit());
              VJ["l"] = (int)line(V->getLocation());
              El.push_back(J::Array{"decl", std::move(VJ)});
            }
          } else if (auto *R = dyn_cast<ReturnStmt>(St)) {
            El.push_back(J::Array{"ret", R->getRetValue() ? expr(R->getRetValue()) : -1, (int)line(R->getBeginLoc())});
          } else if (auto *Ex = dyn_cast<Expr>(St)) {
            if (strip(Ex) == Ex) El.push_back(J::Array{"e", expr(Ex)});
          }
        } else if (auto I = CE.getAs<CFGInitializer>()) {
          auto *Init = I->getInitializer();
          J::Object X;
          if (Init->isAnyMemberInitializer()) { X["f"] = Init->getAnyMember()->getNameAsString(); X["t"] = ty(Init->getAnyMember()->getType()); }
          else if (Init->isBaseInitializer()) X["base"] = ty(QualType(Init->getBaseClass(), 0));
          else X["deleg"] = 1;
          X["written"] = Init->isWritten();
          X["e"] = expr(Init->getInit());
          El.push_back(J::Array{"init", std::move(X)});
        } else if (auto D = CE.getAs<CFGAutomaticObjDtor>()) {
          auto *V = D->getVarDecl();
          J::Object X; X["v"] = varKey(V); X["t"] = ty(V->getType());
          if (auto *DD = D->getDestructorDecl(C)) X["c"] = fid(DD);
          El.push_back(J::Array{"dtor", std::move(X)});
        }
      }
      BJ["els"] = std::move(El);
      if (auto *L = B->getLabel()) {
        if (auto *CS = dyn_cast<CXXCatchStmt>(L)) {
          J::Object X; X["l"] = (int)line(CS->getBeginLoc());
          if (CS->getExceptionDecl()) { X["v"] = varKey(CS->getExceptionDecl()); X["t"] = ty(CS->getExceptionDecl()->getType()); X["n"] = CS->getExceptionDecl()->getNameAsString(); }
          else X["all"] = 1;
          BJ["catch"] = std::move(X);
        } else if (auto *CS = dyn_cast<CaseStmt>(L)) {
          J::Array A; const SwitchCase *SC = CS; (void)SC;
          Expr::EvalResult R; 
          if (CS->getLHS()->EvaluateAsInt(R, C)) { int64_t lo = R.Val.getInt().getExtValue(), hi = lo; if (CS->getRHS() && CS->getRHS()->EvaluateAsInt(R, C)) hi = R.Val.getInt().getExtValue(); for (int64_t v = lo; v <= hi && v < lo + 300; v++) A.push_back(v); }
          expr(CS->getLHS());
          BJ["case"] = std::move(A);
        } else if (isa<DefaultStmt>(L)) BJ["default"] = 1;
      }
      if (auto *T = B->getTerminatorStmt()) {
        BJ["term"] = T->getStmtClassName();
        BJ["tl"] = (int)line(T->getBeginLoc());
        if (auto *TS = dyn_cast<CXXTryStmt>(T)) {
          J::Object X; X["block"] = (int)B->getBlockID();
          auto pit = TryParent.find(TS);
          if (pit != TryParent.end() && pit->second) X["parent"] = stmtId(pit->second);
          Tries[std::to_string(stmtId(TS))] = std::move(X);
        } else {
          if (auto *Cd = B->getLastCondition()) BJ["cond"] = expr(Cd);
          if (auto *SS = dyn_cast<SwitchStmt>(T)) BJ["cond"] = expr(SS->getCond());
          if (auto *FR = dyn_cast<CXXForRangeStmt>(T)) { BJ["cond"] = expr(FR->getCond()); BJ["range"] = varKey(FR->getRangeStmt()->getSingleDecl() ? cast<VarDecl>(FR->getRangeStmt()->getSingleDecl()) : nullptr); }
          if (auto *BinOp = dyn_cast<BinaryOperator>(T)) BJ["tex"] = expr(BinOp);
          if (auto *CO = dyn_cast<AbstractConditionalOperator>(T)) BJ["tex"] = expr(CO);
        }
      }
      J::Array Su;
      for (auto &S : B->succs()) { if (const CFGBlock *X = S.getReachableBlock()) Su.push_back((int)X->getBlockID()); else if (const CFGBlock *Y = S.getPossiblyUnreachableBlock()) Su.push_back((int)Y->getBlockID()); else Su.push_back(-1); }
      BJ["succ"] = std::move(Su);
      if (B->getLoopTarget()) BJ["looptarget"] = 1;
      if (B->hasNoReturnElement()) BJ["noret"] = 1;
      Blocks.push_back(std::move(BJ));
    }
    O["entry"] = (int)G->getEntry().getBlockID();
    O["exit"] = (int)G->getExit().getBlockID();
    O["blocks"] = std::move(Blocks);
    O["tries"] = std::move(Tries);
    O["ex"] = std::move(Exprs);
    Functions.push_back(std::move(O));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter &X;
  Visitor(Exporter &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && X.mine(F)) X.Work.push_back(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && X.mine(R) && !R->isLambda()) X.addRecord(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) { for (auto *C : E->enumerators()) { X.noteEnum(C); break; } return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && X.mine(V) && !V->getDeclContext()->isDependentContext()) X.noteGlobal(V); return true; }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "fuelx: the unit has errors\n"; }
    Exporter X(C);
    Visitor V(X);
    V.TraverseDecl(C.getTranslationUnitDecl());
    size_t i = 0;
    for (; i < X.Work.size(); i++) X.function(X.Work[i]);
    J::Object R;
    R["functions"] = std::move(X.Functions);
    R["decls"] = std::move(X.Decls);
    R["types"] = std::move(X.TypeList);
    R["records"] = std::move(X.Records);
    R["enums"] = std::move(X.Enums);
    R["globals"] = std::move(X.Globals);
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << J::Value(std::move(R));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
