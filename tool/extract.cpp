// lfa-extract: libTooling front end of the static analyser.
// Emits, for one translation unit, a JSON description of every function body,
// class and global that lies under a given root directory.  Nothing is decided
// here: the Python side lowers this resolved AST to control-flow graphs.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <set>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static int64_t i64(const llvm::APSInt &v) { return (int64_t)v.extOrTrunc(64).getRawData()[0]; }

static std::string qname(const NamedDecl *D) {
  // qualified name without template arguments and inline namespaces
  std::vector<std::string> parts;
  const DeclContext *DC = D->getDeclContext();
  std::string self;
  if (auto *CC = dyn_cast<CXXConstructorDecl>(D)) self = CC->getParent()->getNameAsString();
  else if (auto *CD = dyn_cast<CXXDestructorDecl>(D)) self = "~" + CD->getParent()->getNameAsString();
  else self = D->getNameAsString();
  parts.push_back(self);
  while (DC) {
    if (auto *NS = dyn_cast<NamespaceDecl>(DC)) {
      if (!NS->isInline() && !NS->isAnonymousNamespace()) parts.push_back(NS->getNameAsString());
    } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
      parts.push_back(R->getNameAsString());
    } else if (isa<FunctionDecl>(DC)) {
      break;
    }
    DC = DC->getParent();
  }
  std::string r;
  for (auto it = parts.rbegin(); it != parts.rend(); ++it) {
    if (it->empty()) continue;
    if (!r.empty()) r += "::";
    r += *it;
  }
  return r;
}

static std::string usr(const Decl *D) {
  llvm::SmallString<256> Buf;
  if (index::generateUSRForDecl(D, Buf)) return "";
  return std::string(Buf.str());
}

struct Ex {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  int nextId = 1;
  Array funcs, classes, globals;
  std::set<const Decl *> doneF, doneC, doneG;
  Ex(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true;
  }

  int idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    return ids[D] = nextId++;
  }
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    llvm::SmallString<256> p(f);
    return llvm::StringRef(p).starts_with(Root);
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  std::string rec(QualType T) {
    T = T.getCanonicalType().getUnqualifiedType();
    if (auto *R = T->getAsCXXRecordDecl()) return qname(R);
    if (auto *R = T->getAsRecordDecl()) return qname(R);
    return "";
  }
  // short type
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    if (T->isReferenceType()) return ty(T->getPointeeType());
    T = T.getUnqualifiedType();
    if (T->isBooleanType()) return "b";
    if (T->isDependentType()) return "?";
    if (T->isIntegralOrEnumerationType()) {
      if (T->isIncompleteType()) return "i32";
      return (T->isSignedIntegerOrEnumerationType() ? "i" : "u") + std::to_string(C.getTypeSize(T));
    }
    if (T->isRealFloatingType()) return "f";
    if (T->isPointerType()) {
      QualType P = T->getPointeeType();
      std::string r = rec(P);
      if (!r.empty()) return "*" + r;
      if (P->isCharType()) return "*char";
      return "*";
    }
    if (T->isArrayType()) return "[]";
    if (T->isVoidType()) return "v";
    if (T->isNullPtrType()) return "*";
    std::string r = rec(T);
    if (!r.empty()) return r;
    return "?";
  }
  std::string full(QualType T) { return T.getCanonicalType().getAsString(PP); }

  Value opt(const Expr *E) { return E ? ex(E) : Value(nullptr); }

  Value kids(const char *k, const Stmt *S, SourceLocation L) {
    Array a;
    for (auto *c : S->children())
      if (auto *e = dyn_cast_or_null<Expr>(c)) a.push_back(ex(e));
    return Object{{"k", k}, {"l", line(L)}, {"a", std::move(a)}, {"c", S->getStmtClassName()}};
  }

  void addCv(Object &o, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    if (!E->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C) && !R.HasSideEffects) o["cv"] = i64(R.Val.getInt());
  }

  Value ex(const Expr *E) {
    E = E->IgnoreParens();
    int L = line(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    if (auto *X = dyn_cast<FullExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return ex(X->getSourceExpr()); }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(X->getSemanticForm());
    if (auto *X = dyn_cast<CXXFunctionalCastExpr>(E)) { /* falls into cast */ }
    if (auto *X = dyn_cast<IntegerLiteral>(E))
      return Object{{"k", "int"}, {"v", (int64_t)X->getValue().getSExtValue()}, {"t", ty(E->getType())}};
    if (auto *X = dyn_cast<CharacterLiteral>(E)) return Object{{"k", "int"}, {"v", (int64_t)X->getValue()}, {"t", "i8"}};
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) return Object{{"k", "int"}, {"v", X->getValue() ? 1 : 0}, {"t", "b"}};
    if (auto *X = dyn_cast<FloatingLiteral>(E)) return Object{{"k", "flt"}, {"v", X->getValueAsApproximateDouble()}};
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      std::string s = X->getCharByteWidth() == 1 ? X->getString().str() : "";
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      return Object{{"k", "str"}, {"v", s}};
    }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) return Object{{"k", "str"}, {"v", X->getFunctionName() ? X->getFunctionName()->getString().str() : ""}};
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return Object{{"k", "null"}};
    if (isa<CXXThisExpr>(E)) return Object{{"k", "this"}, {"t", ty(E->getType())}, {"l", L}};
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      std::string t = ty(E->getType());
      if (t.size() && (t[0] == 'i' || t[0] == 'u' || t == "b")) return Object{{"k", "int"}, {"v", 0}, {"t", t}};
      return Object{{"k", "ctor"}, {"q", rec(E->getType())}, {"a", Array()}, {"l", L}, {"t", t}};
    }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D))
        return Object{{"k", "int"}, {"v", i64(EC->getInitVal())}, {"t", ty(E->getType())}, {"n", EC->getNameAsString()}};
      if (auto *FD = dyn_cast<FunctionDecl>(D))
        return Object{{"k", "fref"}, {"q", qname(FD)}, {"f", usr(FD->getCanonicalDecl())}, {"l", L}};
      if (auto *BD = dyn_cast<BindingDecl>(D))
        return Object{{"k", "var"}, {"i", idOf(BD)}, {"n", BD->getNameAsString()}, {"t", ty(E->getType())}, {"l", L}};
      Object o{{"k", "var"}, {"i", idOf(D)}, {"n", D->getNameAsString()}, {"t", ty(E->getType())}, {"l", L}};
      if (auto *VD = dyn_cast<VarDecl>(D)) {
        if (VD->hasGlobalStorage() && !VD->isStaticLocal()) { o["k"] = "gvar"; o["q"] = qname(VD); }
        else if (VD->isStaticLocal()) { o["k"] = "gvar"; o["q"] = qname(VD) + "#static"; }
      }
      addCv(o, E);
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *FD = dyn_cast<FieldDecl>(D)) {
        Object o{{"k", "mem"}, {"b", ex(X->getBase())}, {"f", qname(FD)}, {"ar", X->isArrow()}, {"t", ty(E->getType())}, {"l", L}};
        // anonymous struct/unions: transparent
        if (FD->isAnonymousStructOrUnion()) return ex(X->getBase());
        return o;
      }
      if (auto *VD = dyn_cast<VarDecl>(D))
        return Object{{"k", "gvar"}, {"i", idOf(VD)}, {"q", qname(VD)}, {"n", VD->getNameAsString()}, {"t", ty(E->getType())}, {"l", L}};
      if (auto *MD = dyn_cast<FunctionDecl>(D))
        return Object{{"k", "fref"}, {"q", qname(MD)}, {"f", usr(MD->getCanonicalDecl())}, {"l", L}};
      if (auto *EC = dyn_cast<EnumConstantDecl>(D))
        return Object{{"k", "int"}, {"v", i64(EC->getInitVal())}, {"t", ty(E->getType())}};
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      switch (X->getCastKind()) {
      case CK_Dynamic:
        return Object{{"k", "dyncast"}, {"e", ex(X->getSubExpr())}, {"to", ty(E->getType())}, {"l", L}};
      case CK_IntegralCast:
      case CK_FloatingToIntegral:
      case CK_IntegralToFloating: {
        Object o{{"k", "icast"}, {"e", ex(X->getSubExpr())}, {"fr", ty(X->getSubExpr()->getType())}, {"to", ty(E->getType())},
                 {"im", isa<ImplicitCastExpr>(E)}, {"l", L}};
        addCv(o, E);
        return o;
      }
      case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean:
        return Object{{"k", "tobool"}, {"e", ex(X->getSubExpr())}, {"fr", ty(X->getSubExpr()->getType())}, {"l", L}};
      case CK_NullToPointer: return Object{{"k", "null"}};
      case CK_ToVoid: return Object{{"k", "tovoid"}, {"e", ex(X->getSubExpr())}, {"l", L}};
      default: return ex(X->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      Object o{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(X->getOpcode()).str()}, {"pf", X->isPostfix()},
               {"e", ex(X->getSubExpr())}, {"t", ty(E->getType())}, {"l", L}};
      if (!X->isIncrementDecrementOp()) addCv(o, E);
      return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      bool asg = X->isAssignmentOp();
      Object o{{"k", asg ? "asg" : "bin"}, {"op", X->getOpcodeStr().str()}, {"x", ex(X->getLHS())}, {"y", ex(X->getRHS())},
               {"t", ty(E->getType())}, {"l", L}};
      if (!asg) addCv(o, E);
      return o;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      Object o{{"k", "cond"}, {"c", ex(X->getCond())}, {"x", ex(X->getTrueExpr())}, {"y", ex(X->getFalseExpr())}, {"t", ty(E->getType())}, {"l", L}};
      return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E))
      return Object{{"k", "idx"}, {"b", ex(X->getBase())}, {"x", ex(X->getIdx())}, {"t", ty(E->getType())}, {"l", L}};
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      const InitListExpr *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      Array a;
      for (auto *i : S->inits()) a.push_back(ex(i));
      if (S->getNumInits() == 1 && rec(S->getType()).empty() && !S->getType()->isArrayType()) return ex(S->getInit(0));
      return Object{{"k", "il"}, {"a", std::move(a)}, {"t", ty(E->getType())}, {"l", L}};
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Array caps;
      for (auto &c : X->captures()) {
        if (c.capturesVariable()) caps.push_back(Object{{"i", idOf(c.getCapturedVar())}, {"n", c.getCapturedVar()->getNameAsString()}, {"ref", c.getCaptureKind() == LCK_ByRef}});
      }
      if (auto *FT = X->getCallOperator()->getDescribedFunctionTemplate()) {
        for (auto *Sp : FT->specializations()) { if (Sp->hasBody()) { func(Sp, true); break; } }
      } else
        func(X->getCallOperator(), true);
      return Object{{"k", "lambda"}, {"f", lamId(X)}, {"caps", std::move(caps)}, {"l", L}};
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      const CXXConstructorDecl *CD = X->getConstructor();
      Array a;
      for (auto *i : X->arguments()) a.push_back(ex(i));
      Object o{{"k", "ctor"}, {"q", qname(CD->getParent())}, {"f", usr(CD->getCanonicalDecl())}, {"a", std::move(a)},
               {"cp", CD->isCopyOrMoveConstructor()}, {"t", ty(E->getType())}, {"l", L}};
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      Array pl;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); i++) pl.push_back(ex(X->getPlacementArg(i)));
      return Object{{"k", "new"}, {"q", rec(X->getAllocatedType())}, {"e", X->getInitializer() ? ex(X->getInitializer()) : Value(nullptr)},
                    {"pl", std::move(pl)}, {"t", ty(E->getType())}, {"l", L}};
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
      return Object{{"k", "del"}, {"e", ex(X->getArgument())}, {"t", ty(X->getArgument()->getType())}, {"l", L}};
    if (auto *X = dyn_cast<CXXThrowExpr>(E))
      return Object{{"k", "throw"}, {"e", X->getSubExpr() ? ex(X->getSubExpr()) : Value(nullptr)}, {"l", L}};
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Object o{{"k", "int"}, {"t", "u64"}, {"v", 0}, {"sz", true}};
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) o["v"] = i64(R.Val.getInt());
      return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      Array a;
      Object o{{"k", "call"}, {"l", L}, {"t", ty(E->getType())}};
      const FunctionDecl *FD = X->getDirectCallee();
      unsigned start = 0;
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) {
          o["r"] = ex(X->getArg(0));
          start = 1;
        }
      } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
        if (MC->getImplicitObjectArgument()) {
          o["r"] = ex(MC->getImplicitObjectArgument());
          o["rp"] = MC->getImplicitObjectArgument()->getType()->isPointerType();
          o["rt"] = ty(MC->getImplicitObjectArgument()->getType());
        }
      }
      if (FD) {
        o["q"] = qname(FD);
        o["f"] = usr(FD->getCanonicalDecl());
        if (auto *MD = dyn_cast<CXXMethodDecl>(FD)) {
          o["cm"] = MD->isConst();
          o["vt"] = MD->isVirtual();
          if (MD->getParent()->isLambda()) o["lam"] = true;
        }
        if (FD->isNoReturn()) o["nr"] = true;
        if (auto *TA = FD->getTemplateSpecializationArgs()) {
          for (auto &A : TA->asArray())
            if (A.getKind() == TemplateArgument::Integral) { o["ti"] = i64(A.getAsIntegral()); break; }
            else break;
        }
        Array pm;
        for (auto *P : FD->parameters()) {
          QualType T = P->getType();
          if (T->isReferenceType()) pm.push_back(T->getPointeeType().isConstQualified() ? "c" : "r");
          else if (T->isPointerType()) pm.push_back(T->getPointeeType().isConstQualified() ? "k" : "p");
          else pm.push_back("v");
        }
        o["pm"] = std::move(pm);
        Array pt;
        for (auto *P : FD->parameters()) pt.push_back(ty(P->getType()));
        o["pt"] = std::move(pt);
      } else {
        o["q"] = "";
        if (isa<CXXPseudoDestructorExpr>(X->getCallee()->IgnoreParens())) o["q"] = "pseudo_dtor";
        else o["fx"] = ex(X->getCallee());
      }
      for (unsigned i = start; i < X->getNumArgs(); i++) a.push_back(ex(X->getArg(i)));
      o["a"] = std::move(a);
      addCv(o, E);
      return o;
    }
    if (auto *X = dyn_cast<StmtExpr>(E)) {
      return Object{{"k", "stmtexpr"}, {"s", st(X->getSubStmt())}, {"l", L}};
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) return ex(X->getCommonExpr());
    Value v = kids("opq", E, E->getBeginLoc());
    if (auto *ob = v.getAsObject()) { addCv(*ob, E); (*ob)["t"] = ty(E->getType()); }
    return v;
  }

  std::string lamId(const LambdaExpr *X) {
    return "lambda@" + fileOf(X->getBeginLoc()) + ":" + std::to_string(line(X->getBeginLoc())) + ":" +
           std::to_string(SM.getExpansionColumnNumber(X->getBeginLoc()));
  }

  Object var(const VarDecl *V) {
    Object o{{"i", idOf(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"ft", full(V->getType())}, {"l", line(V->getLocation())}};
    o["ref"] = V->getType()->isReferenceType();
    if (V->getType()->isArrayType()) o["arr"] = true;
    if (V->isStaticLocal()) o["static"] = qname(V) + "#static";
    if (V->getInit()) o["e"] = ex(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      int k = 0;
      for (auto *B : DD->bindings()) b.push_back(Object{{"i", idOf(B)}, {"n", B->getNameAsString()}, {"x", k++}});
      o["bind"] = std::move(b);
    }
    return o;
  }

  Value st(const Stmt *S) {
    if (!S) return nullptr;
    int L = line(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      Array a;
      for (auto *c : X->body()) a.push_back(st(c));
      return Object{{"s", "blk"}, {"a", std::move(a)}, {"l", L}, {"e", line(X->getEndLoc())}};
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Array a;
      for (auto *d : X->decls())
        if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V));
      return Object{{"s", "decl"}, {"a", std::move(a)}, {"l", L}};
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConsteval()) return st(X->getThen());
      return Object{{"s", "if"}, {"init", st(X->getInit())}, {"dv", X->getConditionVariable() ? Value(var(X->getConditionVariable())) : Value(nullptr)},
                    {"c", ex(X->getCond())}, {"x", st(X->getThen())}, {"y", st(X->getElse())}, {"l", L}};
    }
    if (auto *X = dyn_cast<ForStmt>(S))
      return Object{{"s", "for"}, {"init", st(X->getInit())}, {"c", opt(X->getCond())},
                    {"dv", X->getConditionVariable() ? Value(var(X->getConditionVariable())) : Value(nullptr)},
                    {"inc", opt(X->getInc())}, {"b", st(X->getBody())}, {"l", L}};
    if (auto *X = dyn_cast<WhileStmt>(S))
      return Object{{"s", "while"}, {"c", ex(X->getCond())}, {"dv", X->getConditionVariable() ? Value(var(X->getConditionVariable())) : Value(nullptr)},
                    {"b", st(X->getBody())}, {"l", L}};
    if (auto *X = dyn_cast<DoStmt>(S))
      return Object{{"s", "do"}, {"c", ex(X->getCond())}, {"b", st(X->getBody())}, {"l", L}};
    if (auto *X = dyn_cast<CXXForRangeStmt>(S))
      return Object{{"s", "rfor"}, {"init", st(X->getInit())}, {"r", ex(X->getRangeInit())}, {"v", rvar(X->getLoopVariable())}, {"b", st(X->getBody())}, {"l", L}};
    if (auto *X = dyn_cast<SwitchStmt>(S))
      return Object{{"s", "switch"}, {"c", ex(X->getCond())}, {"b", st(X->getBody())}, {"l", L}};
    if (auto *X = dyn_cast<CaseStmt>(S)) return Object{{"s", "case"}, {"v", ex(X->getLHS())}, {"b", st(X->getSubStmt())}, {"l", L}};
    if (auto *X = dyn_cast<DefaultStmt>(S)) return Object{{"s", "default"}, {"b", st(X->getSubStmt())}, {"l", L}};
    if (isa<BreakStmt>(S)) return Object{{"s", "break"}, {"l", L}};
    if (isa<ContinueStmt>(S)) return Object{{"s", "continue"}, {"l", L}};
    if (isa<NullStmt>(S)) return Object{{"s", "null"}};
    if (auto *X = dyn_cast<ReturnStmt>(S)) return Object{{"s", "ret"}, {"e", opt(X->getRetValue())}, {"l", L}};
    if (auto *X = dyn_cast<GotoStmt>(S)) return Object{{"s", "goto"}, {"n", X->getLabel()->getNameAsString()}, {"l", L}};
    if (auto *X = dyn_cast<LabelStmt>(S)) return Object{{"s", "label"}, {"n", X->getDecl()->getNameAsString()}, {"b", st(X->getSubStmt())}, {"l", L}};
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *H = X->getHandler(i);
        h.push_back(Object{{"t", H->getExceptionDecl() ? ty(H->getCaughtType()) : std::string("...")}, {"b", st(H->getHandlerBlock())}});
      }
      return Object{{"s", "try"}, {"b", st(X->getTryBlock())}, {"h", std::move(h)}, {"l", L}};
    }
    if (auto *X = dyn_cast<Expr>(S)) return Object{{"s", "e"}, {"e", ex(X)}, {"l", L}};
    return Object{{"s", "opq"}, {"c", S->getStmtClassName()}, {"l", L}};
  }
  Object rvar(const VarDecl *V) {
    // loop variable of a range-for: its initialiser is the hidden *__begin
    Object o{{"i", idOf(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"ft", full(V->getType())}, {"l", line(V->getLocation())}};
    o["ref"] = V->getType()->isReferenceType();
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array b;
      int k = 0;
      for (auto *B : DD->bindings()) b.push_back(Object{{"i", idOf(B)}, {"n", B->getNameAsString()}, {"x", k++}});
      o["bind"] = std::move(b);
    }
    return o;
  }

  void func(const FunctionDecl *F, bool lambda = false) {
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def) || !Def) return;
    F = Def;
    if (F->isDependentContext()) return;
    if (!inRoot(F->getLocation())) return;
    if (!doneF.insert(F->getCanonicalDecl()).second) return;
    Array ps;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      std::string m = "v";
      if (T->isReferenceType()) m = T->getPointeeType().isConstQualified() ? "c" : "r";
      else if (T->isPointerType()) m = T->getPointeeType().isConstQualified() ? "k" : "p";
      Object o{{"i", idOf(P)}, {"n", P->getNameAsString()}, {"t", ty(T)}, {"m", m}};
      ps.push_back(std::move(o));
    }
    std::string id = usr(F->getCanonicalDecl());
    if (lambda) {
      id = "lambda@" + fileOf(F->getBeginLoc()) + ":0:0";
      // matches lamId: begin of the lambda expression == begin of the class
      auto *MD = cast<CXXMethodDecl>(F);
      SourceLocation B = MD->getParent()->getBeginLoc();
      id = "lambda@" + fileOf(B) + ":" + std::to_string(line(B)) + ":" + std::to_string(SM.getExpansionColumnNumber(B));
    }
    Object o{{"id", id}, {"q", qname(F)}, {"ps", std::move(ps)}, {"file", fileOf(F->getLocation())}, {"l", line(F->getLocation())},
             {"el", line(F->getEndLoc())}, {"rt", ty(F->getReturnType())}, {"rf", F->getReturnType()->isReferenceType()}};
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(MD->getParent());
      o["static"] = MD->isStatic();
      Array ov;
      for (auto *B : MD->overridden_methods()) ov.push_back(usr(B->getCanonicalDecl()));
      o["ov"] = std::move(ov);
      if (lambda) o["lam"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      Array in;
      for (auto *I : CD->inits()) {
        if (I->isAnyMemberInitializer() && I->getAnyMember())
          in.push_back(Object{{"f", qname(I->getAnyMember())}, {"e", ex(I->getInit())}, {"t", ty(I->getAnyMember()->getType())}, {"l", line(I->getSourceLocation())}, {"wr", I->isWritten()}});
        else if (I->isBaseInitializer())
          in.push_back(Object{{"base", ty(QualType(I->getBaseClass(), 0))}, {"e", ex(I->getInit())}});
        else if (I->isDelegatingInitializer())
          in.push_back(Object{{"deleg", true}, {"e", ex(I->getInit())}});
      }
      o["inits"] = std::move(in);
      o["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = st(F->getBody());
    funcs.push_back(std::move(o));
  }

  void cls(const CXXRecordDecl *R) {
    if (!R->hasDefinition()) return;
    R = R->getDefinition();
    if (R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    if (!doneC.insert(R->getCanonicalDecl()).second) return;
    Array fs, bs;
    for (auto *F : R->fields()) {
      Object o{{"f", qname(F)}, {"t", ty(F->getType())}, {"ft", full(F->getType())}, {"l", line(F->getLocation())}};
      if (F->getInClassInitializer()) o["e"] = ex(F->getInClassInitializer());
      fs.push_back(std::move(o));
    }
    for (auto &B : R->bases())
      bs.push_back(ty(B.getType()));
    classes.push_back(Object{{"q", qname(R)}, {"fields", std::move(fs)}, {"bases", std::move(bs)}, {"file", fileOf(R->getLocation())}, {"l", line(R->getLocation())}});
  }
  void glob(const VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal()) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (!inRoot(V->getLocation())) return;
    const VarDecl *D = V->getDefinition();
    if (!D) return;
    V = D;
    if (!doneG.insert(V->getCanonicalDecl()).second) return;
    Object o{{"q", qname(V)}, {"t", ty(V->getType())}, {"ft", full(V->getType())}, {"file", fileOf(V->getLocation())}, {"l", line(V->getLocation())}};
    if (V->getInit() && !V->getInit()->isValueDependent()) o["e"] = ex(V->getInit());
    globals.push_back(std::move(o));
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Ex &X;
  Vis(Ex &X) : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (auto *MD = dyn_cast<CXXMethodDecl>(F)) if (MD->getParent()->isLambda()) return true;
    X.func(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.cls(R); return true; }
  bool VisitVarDecl(VarDecl *V) { X.glob(V); return true; }
};

struct Cons : ASTConsumer {
  std::string Out;
  CompilerInstance &CI;
  Cons(std::string O, CompilerInstance &CI) : Out(O), CI(CI) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Ex X(C);
    Vis V(X);
    // only walk top-level declarations located under the root: template
    // instantiations of repository templates hang off those declarations
    for (auto *D : C.getTranslationUnitDecl()->decls()) {
      if (X.inRoot(D->getLocation())) V.TraverseDecl(D);
    }
    Object o{{"funcs", std::move(X.funcs)}, {"classes", std::move(X.classes)}, {"globals", std::move(X.globals)},
             {"errors", (int64_t)CI.getDiagnostics().getClient()->getNumErrors()}};
    std::error_code EC;
    llvm::raw_fd_ostream os(Out, EC);
    os << Value(std::move(o)) << "\n";
  }
};
struct Act : ASTFrontendAction {
  static std::string Out;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
    return std::make_unique<Cons>(Out, CI);
  }
};
std::string Act::Out;

// usage: lfa-extract ROOT SRC OUT flags...
int main(int argc, char **argv) {
  Root = argv[1];
  if (Root.back() != '/') Root += '/';
  std::string src = argv[2];
  Act::Out = argv[3];
  std::vector<std::string> args{"clang++", "-fsyntax-only"};
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  args.push_back(src);
  IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation inv(args, std::make_unique<Act>(), FM.get());
  bool ok = inv.run();
  return ok ? 0 : 3;
}
