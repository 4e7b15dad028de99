// Mechanical AST extractor: parses the real sources of /repo with clang and
// dumps, as JSON, every function defined in /repo (template instantiations
// included) plus the bodies of standard-library algorithms they call.
// Nothing is rewritten: the dump is a 1:1 image of clang's semantic AST with
// only syntactic sugar (parentheses, no-op casts, temporaries) removed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::vector<std::string> gRoots;     // path prefixes whose functions are dumped
static std::string gOut;

static bool endsWith(const std::string &s, const std::string &t) {
  return s.size() >= t.size() && s.compare(s.size() - t.size(), t.size(), t) == 0;
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> typeIds;
  Array types;
  std::map<int, Object> funcs;      // bodies
  std::map<int, Object> funcRefs;   // all referenced functions
  std::map<int, Object> vars;       // globals and static members
  std::map<int, Object> records;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seen;
  std::deque<const RecordDecl *> recWork;
  std::set<const RecordDecl *> recSeen;
  std::set<const VarDecl *> varSeen;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
  }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1;
    ids[D] = n;
    return n;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? std::string(P.getFilename()) : std::string();
  }
  bool inRoots(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    for (auto &r : gRoots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  bool inAlgo(const Decl *D) {
    std::string f = fileOf(D->getLocation());
    static const char *ok[] = {"bits/stl_algo.h", "bits/stl_algobase.h", "bits/stl_numeric.h",
                               "bits/predefined_ops.h", "bits/stl_function.h", "boost/math/special_functions/pow.hpp"};
    for (auto o : ok) if (endsWith(f, o)) return true;
    return false;
  }

  // ---- types
  Value targ(const TemplateArgument &A) {
    switch (A.getKind()) {
      case TemplateArgument::Type: return Object{{"t", type(A.getAsType())}};
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s; A.getAsIntegral().toString(s, 10);
        return Object{{"i", std::string(s.str())}};
      }
      case TemplateArgument::Pack: {
        Array a; for (auto &x : A.pack_elements()) a.push_back(targ(x));
        return Object{{"p", std::move(a)}};
      }
      default: return Object{{"x", 1}};
    }
  }
  Array targs(llvm::ArrayRef<TemplateArgument> L) { Array a; for (auto &x : L) a.push_back(targ(x)); return a; }

  int type(QualType Q) {
    QualType T = Q.getCanonicalType();
    std::string key = T.getAsString(PP);
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int n = types.size();
    typeIds[key] = n;
    types.push_back(Object{});
    Object o;
    o["s"] = key;
    o["const"] = T.isConstQualified();
    QualType U = T.getUnqualifiedType();
    if (auto *R = U->getAs<ReferenceType>()) {
      o["k"] = U->isRValueReferenceType() ? "rref" : "ref"; o["to"] = type(R->getPointeeType());
    } else if (auto *P = U->getAs<PointerType>()) {
      o["k"] = "ptr"; o["to"] = type(P->getPointeeType());
    } else if (auto *RT = U->getAs<RecordType>()) {
      o["k"] = "rec"; fillRecord(RT->getDecl(), o);
    } else if (auto *ET = U->getAs<EnumType>()) {
      o["k"] = "enum"; o["name"] = ET->getDecl()->getQualifiedNameAsString();
    } else if (auto *BT = U->getAs<BuiltinType>()) {
      o["k"] = "builtin"; o["name"] = std::string(BT->getName(PP));
      if (U->isIntegerType() && !U->isBooleanType()) { o["int"] = true; o["signed"] = U->isSignedIntegerType(); o["bits"] = (int64_t)C.getTypeSize(U); }
    } else if (auto *CA = C.getAsConstantArrayType(U)) {
      o["k"] = "carray"; o["n"] = (int64_t)CA->getSize().getZExtValue(); o["to"] = type(CA->getElementType());
    } else if (U->isFunctionType()) {
      o["k"] = "fn";
    } else {
      o["k"] = "other";
    }
    types[n] = std::move(o);
    return n;
  }
  void fillRecord(const RecordDecl *RD, Object &o) {
    o["name"] = RD->getQualifiedNameAsString();
    o["rec"] = id(RD);
    if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) o["args"] = targs(S->getTemplateArgs().asArray());
    if (auto *P = dyn_cast<CXXRecordDecl>(RD->getDeclContext())) o["outer"] = type(C.getRecordType(P));
    addRecord(RD);
  }
  void addRecord(const RecordDecl *RD) {
    const RecordDecl *D = RD->getDefinition();
    if (!D || recSeen.count(D)) return;
    recSeen.insert(D);
    if (inRoots(D) || cast<CXXRecordDecl>(D)->isLambda()) recWork.push_back(D);
  }
  void dumpRecord(const RecordDecl *D) {
    Object o;
    o["name"] = D->getQualifiedNameAsString();
    o["type"] = type(C.getRecordType(D));
    Array fs;
    for (auto *F : D->fields()) {
      Object f{{"name", F->getNameAsString()}, {"type", type(F->getType())}};
      if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    Array bs, ms;
    if (auto *R = dyn_cast<CXXRecordDecl>(D)) {
      for (auto &b : R->bases()) bs.push_back(type(b.getType()));
      for (auto *M : R->methods()) {
        if (M->isDependentContext()) continue;
        ms.push_back(id(M));
        ref(M);
      }
      if (R->isLambda()) {
        o["lambda"] = true;
        if (auto *op = R->getLambdaCallOperator()) { o["callop"] = id(op); ref(op); enqueue(op); }
      }
    }
    o["bases"] = std::move(bs);
    o["methods"] = std::move(ms);
    records[id(D)] = std::move(o);
  }

  // ---- function refs
  int ref(const FunctionDecl *F) {
    int n = id(F);
    if (funcRefs.count(n)) return n;
    funcRefs[n] = Object{};
    Object o;
    o["name"] = F->getQualifiedNameAsString();
    o["short"] = F->getNameAsString();
    if (auto *A = F->getTemplateSpecializationArgs()) o["targs"] = targs(A->asArray());
    Array ps;
    for (auto *P : F->parameters()) ps.push_back(type(P->getType()));
    o["ptypes"] = std::move(ps);
    o["ret"] = type(F->getReturnType());
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      o["virtual"] = M->isVirtual();
      Array ov; for (auto *x : M->overridden_methods()) { ov.push_back(id(x)); }
      if (!ov.empty()) o["overrides"] = std::move(ov);
      o["access"] = M->getAccess() == AS_public ? "public" : (M->getAccess() == AS_protected ? "protected" : "private");
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["ctor"] = true;
        if (K->isDefaultConstructor()) o["default"] = true;
        if (K->isCopyConstructor()) o["copy"] = true;
        if (K->isMoveConstructor()) o["move"] = true;
      }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = true;
      if (M->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (M->isMoveAssignmentOperator()) o["moveassign"] = true;
    }
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    o["file"] = fileOf(F->getLocation());
    o["line"] = (int64_t)SM.getPresumedLineNumber(SM.getExpansionLoc(F->getLocation()));
    funcRefs[n] = std::move(o);
    enqueue(F);
    return n;
  }
  void enqueue(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D) || !D) return;
    if (D->isDependentContext()) return;
    if (!(inRoots(D) || inAlgo(D))) {
      bool lam = false;
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) lam = M->getParent()->isLambda();
      if (!lam) return;
    }
    if (seen.insert(D).second) work.push_back(D);
  }
  void dumpFunc(const FunctionDecl *D) {
    int n = ref(D);
    Object o;
    Array ps;
    for (auto *P : D->parameters()) {
      Object p{{"name", P->getNameAsString()}, {"id", id(P)}, {"type", type(P->getType())}};
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *K = dyn_cast<CXXConstructorDecl>(D)) {
      Array in;
      for (auto *I : K->inits()) {
        Object i;
        if (I->isMemberInitializer() || I->isIndirectMemberInitializer()) i["member"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
        else i["delegate"] = true;
        i["init"] = expr(I->getInit());
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    }
    o["defaulted"] = D->isDefaulted();
    o["body"] = stmt(D->getBody());
    o["file"] = fileOf(D->getLocation());
    o["line"] = (int64_t)SM.getPresumedLineNumber(SM.getExpansionLoc(D->getLocation()));
    o["endline"] = (int64_t)SM.getPresumedLineNumber(SM.getExpansionLoc(D->getEndLoc()));
    funcs[n] = std::move(o);
  }

  Value varRef(const VarDecl *V) {
    int n = id(V);
    bool global = V->hasGlobalStorage();
    if (global && !varSeen.count(V->getCanonicalDecl())) {
      varSeen.insert(V->getCanonicalDecl());
      Object o{{"name", V->getQualifiedNameAsString()}, {"type", type(V->getType())}, {"local", V->isStaticLocal()}};
      if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
      const VarDecl *Def = nullptr;
      if (const Expr *I = V->getAnyInitializer(Def)) if (!I->isValueDependent()) o["init"] = expr(I);
      vars[n] = std::move(o);
    }
    return n;
  }

  Object loc(const Stmt *S) { return Object{}; }
  int line(const Stmt *S) { return SM.getPresumedLineNumber(SM.getExpansionLoc(S->getBeginLoc())); }

  // ---- statements
  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    Object o;
    o["l"] = line(S);
    if (auto *E = dyn_cast<Expr>(S)) { o["k"] = "expr"; o["e"] = expr(E); return o; }
    switch (S->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "block"; Array a; for (auto *x : cast<CompoundStmt>(S)->body()) a.push_back(stmt(x)); o["b"] = std::move(a); return o;
      }
      case Stmt::NullStmtClass: o["k"] = "block"; o["b"] = Array{}; return o;
      case Stmt::DeclStmtClass: {
        o["k"] = "decl"; Array a;
        for (auto *D : cast<DeclStmt>(S)->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(vardecl(V));
        o["d"] = std::move(a); return o;
      }
      case Stmt::IfStmtClass: {
        auto *I = cast<IfStmt>(S); o["k"] = "if";
        if (I->getInit()) o["init"] = stmt(I->getInit());
        if (I->getConditionVariable()) o["cv"] = vardecl(I->getConditionVariable());
        o["c"] = expr(I->getCond()); o["t"] = stmt(I->getThen()); o["e"] = stmt(I->getElse()); return o;
      }
      case Stmt::ForStmtClass: {
        auto *F = cast<ForStmt>(S); o["k"] = "for"; o["init"] = stmt(F->getInit());
        o["c"] = F->getCond() ? expr(F->getCond()) : Value(nullptr);
        o["inc"] = F->getInc() ? expr(F->getInc()) : Value(nullptr);
        o["b"] = stmt(F->getBody()); return o;
      }
      case Stmt::WhileStmtClass: {
        auto *W = cast<WhileStmt>(S); o["k"] = "while"; o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return o;
      }
      case Stmt::DoStmtClass: {
        auto *W = cast<DoStmt>(S); o["k"] = "do"; o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return o;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *R = cast<CXXForRangeStmt>(S); o["k"] = "range";
        o["range"] = stmt(R->getRangeStmt()); o["begin"] = stmt(R->getBeginStmt()); o["end"] = stmt(R->getEndStmt());
        o["c"] = expr(R->getCond()); o["inc"] = expr(R->getInc()); o["var"] = stmt(R->getLoopVarStmt()); o["b"] = stmt(R->getBody());
        return o;
      }
      case Stmt::ReturnStmtClass: {
        o["k"] = "return"; auto *R = cast<ReturnStmt>(S); o["e"] = R->getRetValue() ? expr(R->getRetValue()) : Value(nullptr); return o;
      }
      case Stmt::BreakStmtClass: o["k"] = "break"; return o;
      case Stmt::ContinueStmtClass: o["k"] = "continue"; return o;
      case Stmt::SwitchStmtClass: {
        auto *W = cast<SwitchStmt>(S); o["k"] = "switch"; o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return o;
      }
      case Stmt::CaseStmtClass: {
        auto *K = cast<CaseStmt>(S); o["k"] = "case"; o["v"] = expr(K->getLHS()); o["s"] = stmt(K->getSubStmt()); return o;
      }
      case Stmt::DefaultStmtClass: o["k"] = "default"; o["s"] = stmt(cast<DefaultStmt>(S)->getSubStmt()); return o;
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
      case Stmt::CXXTryStmtClass: {
        o["k"] = "try"; o["b"] = stmt(cast<CXXTryStmt>(S)->getTryBlock()); return o;
      }
      default: o["k"] = "unsup"; o["what"] = S->getStmtClassName(); return o;
    }
  }
  Object vardecl(const VarDecl *V) {
    Object o{{"name", V->getNameAsString()}, {"id", id(V)}, {"type", type(V->getType())}};
    if (V->isStaticLocal()) { o["static"] = true; varRef(V); }
    if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    return o;
  }

  Value constVal(const APValue &V, QualType T) {
    if (V.isInt()) {
      llvm::SmallString<40> s; V.getInt().toString(s, 10);
      return Object{{"k", T->isBooleanType() ? "bool" : "int"}, {"v", std::string(s.str())}, {"t", type(T)}};
    }
    if (V.isFloat()) return fl(V.getFloat(), T);
    return nullptr;
  }
  Object fl(const llvm::APFloat &F, QualType T) {
    Object o{{"k", "float"}, {"t", type(T)}};
    llvm::APFloat D = F; bool li; D.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
    if (D.isNaN()) o["v"] = "nan";
    else if (D.isInfinity()) o["v"] = D.isNegative() ? "-inf" : "inf";
    else { char buf[64]; snprintf(buf, sizeof buf, "%a", D.convertToDouble()); o["v"] = std::string(buf); }
    return o;
  }

  Value expr(const Expr *E0) {
    const Expr *E = E0;
    // Strip sugar.
    for (;;) {
      if (auto *x = dyn_cast<ParenExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<ExprWithCleanups>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = x->getReplacement(); continue; }
      if (auto *x = dyn_cast<ConstantExpr>(E)) { E = x->getSubExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(E)) { E = x->getExpr(); continue; }
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(E)) {
        Object o; o["k"] = "initlist_std"; o["t"] = type(x->getType()); o["e"] = expr(x->getSubExpr()); return o;
      }
      if (auto *x = dyn_cast<CastExpr>(E)) {
        if (x->getCastKind() == CK_NoOp || x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) { E = x->getSubExpr(); continue; }
      }
      break;
    }
    Object o;
    QualType T = E->getType();
    o["t"] = type(T);
    o["lv"] = E->isGLValue();
    switch (E->getStmtClass()) {
      case Stmt::IntegerLiteralClass: {
        llvm::SmallString<40> s; cast<IntegerLiteral>(E)->getValue().toString(s, 10, T->isSignedIntegerType());
        o["k"] = "int"; o["v"] = std::string(s.str()); return o;
      }
      case Stmt::CharacterLiteralClass: o["k"] = "int"; o["v"] = std::to_string(cast<CharacterLiteral>(E)->getValue()); return o;
      case Stmt::FloatingLiteralClass: return fl(cast<FloatingLiteral>(E)->getValue(), T);
      case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue() ? "1" : "0"; return o;
      case Stmt::StringLiteralClass: {
        auto *S = cast<StringLiteral>(E); o["k"] = "str"; o["v"] = S->isOrdinary() ? llvm::json::fixUTF8(S->getString()) : std::string("?"); return o;
      }
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "null"; return o;
      case Stmt::CXXThisExprClass: o["k"] = "this"; return o;
      case Stmt::DeclRefExprClass: {
        auto *D = cast<DeclRefExpr>(E)->getDecl();
        if (auto *V = dyn_cast<VarDecl>(D)) {
          if (!T->isReferenceType() && (V->isConstexpr() || (V->getType().isConstQualified() && T->isIntegralOrEnumerationType())) && T->isArithmeticType()) {
            Expr::EvalResult R;
            if (!V->getType()->isReferenceType() && E->EvaluateAsRValue(R, C) && (R.Val.isInt() || R.Val.isFloat())) {
              Value c = constVal(R.Val, T.getUnqualifiedType());
              if (c.kind() != Value::Null) return c;
            }
          }
          o["k"] = "var"; o["id"] = varRef(V); o["name"] = V->getNameAsString(); if (V->hasGlobalStorage()) o["g"] = true;
          return o;
        }
        if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
          llvm::SmallString<40> s; EC->getInitVal().toString(s, 10);
          o["k"] = "int"; o["v"] = std::string(s.str()); return o;
        }
        if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fnref"; o["f"] = ref(F); return o; }
        if (auto *F = dyn_cast<FieldDecl>(D)) { o["k"] = "unsup"; o["what"] = "fieldref"; return o; }
        o["k"] = "unsup"; o["what"] = std::string("declref ") + D->getDeclKindName(); return o;
      }
      case Stmt::MemberExprClass: {
        auto *M = cast<MemberExpr>(E);
        auto *D = M->getMemberDecl();
        if (auto *V = dyn_cast<VarDecl>(D)) {
          Expr::EvalResult R;
          if (V->isConstexpr() && T->isArithmeticType() && !E->HasSideEffects(C) && E->EvaluateAsRValue(R, C) && (R.Val.isInt() || R.Val.isFloat())) { Value c = constVal(R.Val, T.getUnqualifiedType()); if (c.kind() != Value::Null) return c; }
          o["k"] = "var"; o["id"] = varRef(V); o["name"] = V->getNameAsString(); o["g"] = true; return o;
        }
        if (auto *F = dyn_cast<FieldDecl>(D)) {
          o["k"] = "member"; o["m"] = F->getNameAsString(); o["arrow"] = M->isArrow(); o["b"] = expr(M->getBase());
          o["owner"] = type(C.getRecordType(F->getParent()));
          return o;
        }
        if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "method"; o["f"] = ref(F); o["arrow"] = M->isArrow(); o["b"] = expr(M->getBase()); return o; }
        o["k"] = "unsup"; o["what"] = "member"; return o;
      }
      case Stmt::UnaryOperatorClass: {
        auto *U = cast<UnaryOperator>(E); o["k"] = "un"; o["op"] = std::string(UnaryOperator::getOpcodeStr(U->getOpcode()));
        if (U->isPostfix()) o["post"] = true; o["e"] = expr(U->getSubExpr()); return o;
      }
      case Stmt::BinaryOperatorClass: {
        auto *B = cast<BinaryOperator>(E); o["k"] = "bin"; o["op"] = std::string(B->getOpcodeStr()); o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS()); return o;
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto *B = cast<CompoundAssignOperator>(E); o["k"] = "cassign"; o["op"] = std::string(B->getOpcodeStr()); o["ct"] = type(B->getComputationResultType()); o["lt"] = type(B->getComputationLHSType());
        o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS()); return o;
      }
      case Stmt::ConditionalOperatorClass: {
        auto *B = cast<ConditionalOperator>(E); o["k"] = "cond"; o["c"] = expr(B->getCond()); o["a"] = expr(B->getTrueExpr()); o["b"] = expr(B->getFalseExpr()); return o;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto *B = cast<ArraySubscriptExpr>(E); o["k"] = "index"; o["a"] = expr(B->getBase()); o["b"] = expr(B->getIdx()); return o;
      }
      case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass:
      case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
        auto *K = cast<CastExpr>(E); o["k"] = "cast"; o["ck"] = K->getCastKindName(); o["e"] = expr(K->getSubExpr()); return o;
      }
      case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::CallExprClass: {
        auto *K = cast<CallExpr>(E);
        if (isa<CallExpr>(E) && !isa<CXXMemberCallExpr>(E) && K->getNumArgs() == 0 && T->isArithmeticType() && K->getDirectCallee() && K->getDirectCallee()->isConstexpr()) {
          Expr::EvalResult R; if (E->EvaluateAsRValue(R, C)) { Value c = constVal(R.Val, T); if (c.kind() != Value::Null) return c; }
        }
        o["k"] = "call"; o["l"] = line(E);
        Array a;
        if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
          if (auto *F = M->getMethodDecl()) {
            o["f"] = ref(F);
            const Expr *cal = M->getCallee()->IgnoreParens();
            if (auto *ME = dyn_cast<MemberExpr>(cal)) { o["obj"] = expr(ME->getBase()); o["arrow"] = ME->isArrow(); if (ME->hasQualifier()) o["qual"] = true; }
          } else { o["k"] = "unsup"; o["what"] = "memptr call"; return o; }
        } else if (auto *F = K->getDirectCallee()) {
          o["f"] = ref(F);
          if (isa<CXXOperatorCallExpr>(E)) {
            o["opcall"] = true;
            if (isa<CXXMethodDecl>(F)) {
              o["obj"] = expr(K->getArg(0)); o["arrow"] = false;
              for (unsigned i = 1; i < K->getNumArgs(); i++) a.push_back(expr(K->getArg(i)));
              o["args"] = std::move(a); return o;
            }
          }
        } else { o["fe"] = expr(K->getCallee()); }
        for (auto *x : K->arguments()) a.push_back(expr(x));
        o["args"] = std::move(a);
        return o;
      }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
        auto *K = cast<CXXConstructExpr>(E); o["k"] = "construct"; o["l"] = line(E); o["f"] = ref(K->getConstructor());
        Array a; for (auto *x : K->arguments()) a.push_back(expr(x)); o["args"] = std::move(a);
        if (K->isStdInitListInitialization()) o["stdinit"] = true;
        if (K->requiresZeroInitialization()) o["zero"] = true;
        return o;
      }
      case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: o["k"] = "zeroinit"; return o;
      case Stmt::InitListExprClass: {
        auto *I = cast<InitListExpr>(E); o["k"] = "initlist"; Array a; for (auto *x : I->inits()) a.push_back(expr(x)); o["args"] = std::move(a);
        if (I->hasArrayFiller() && I->getArrayFiller()) o["filler"] = expr(I->getArrayFiller());
        return o;
      }
      case Stmt::LambdaExprClass: {
        auto *L = cast<LambdaExpr>(E); o["k"] = "lambda";
        addRecord(L->getLambdaClass());
        o["rec"] = id(L->getLambdaClass());
        if (auto *op = L->getCallOperator()) { if (!op->isDependentContext()) o["f"] = ref(op); }
        Array caps; auto it = L->capture_init_begin();
        for (auto &c : L->captures()) {
          Object k;
          if (c.capturesThis()) k["this"] = true;
          else if (c.capturesVariable()) { k["id"] = id(c.getCapturedVar()); k["ref"] = c.getCaptureKind() == LCK_ByRef; k["init"] = expr(*it); }
          caps.push_back(std::move(k)); ++it;
        }
        o["caps"] = std::move(caps);
        return o;
      }
      case Stmt::CXXThrowExprClass: o["k"] = "throw"; return o;
      case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::SizeOfPackExprClass: {
        Expr::EvalResult R; if (E->EvaluateAsRValue(R, C)) { Value c = constVal(R.Val, T); if (c.kind() != Value::Null) return c; }
        o["k"] = "unsup"; o["what"] = "trait"; return o;
      }
      case Stmt::SourceLocExprClass: o["k"] = "int"; o["v"] = "0"; return o;
      case Stmt::PredefinedExprClass: o["k"] = "str"; o["v"] = "?"; return o;
      case Stmt::CXXPseudoDestructorExprClass: o["k"] = "unsup"; o["what"] = "pseudodtor"; return o;
      default: o["k"] = "unsup"; o["what"] = E->getStmtClassName(); return o;
    }
  }

  void run() {
    while (!work.empty() || !recWork.empty()) {
      if (!work.empty()) { auto *F = work.front(); work.pop_front(); dumpFunc(F); continue; }
      auto *R = recWork.front(); recWork.pop_front(); dumpRecord(R);
    }
    std::error_code ec; llvm::raw_fd_ostream os(gOut, ec);
    auto mp = [](std::map<int, Object> &m) { Object o; for (auto &k : m) o[std::to_string(k.first)] = std::move(k.second); return o; };
    Object top;
    top["types"] = std::move(types); top["funcs"] = mp(funcs); top["refs"] = mp(funcRefs); top["vars"] = mp(vars); top["records"] = mp(records);
    os << Value(std::move(top));
  }
};

struct Collector : RecursiveASTVisitor<Collector> {
  Dumper &D;
  Collector(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody()) return true;
    if (D.inRoots(F)) { D.ref(F); D.enqueue(F); }
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    Collector V(D);
    for (auto *d : C.getTranslationUnitDecl()->decls()) {
      // only descend into namespaces of interest to keep this fast
      if (auto *N = dyn_cast<NamespaceDecl>(d)) {
        std::string n = N->getNameAsString();
        if (n == "std" || n == "Eigen" || n == "boost" || n == "__gnu_cxx") continue;
      }
      V.TraverseDecl(d);
    }
    D.run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

// usage: extract OUT.json ROOT[:ROOT...] FILE -- clang args
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  gOut = argv[1];
  std::string r = argv[2]; size_t p = 0;
  while (p <= r.size()) { size_t q = r.find(':', p); if (q == std::string::npos) q = r.size(); gRoots.push_back(r.substr(p, q - p)); p = q + 1; }
  std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
