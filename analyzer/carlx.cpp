// carlx: exports the resolved, instantiated bodies reachable from query functions as JSON.
//
// usage: carlx [--root=REGEX] [--stop=REGEX] [--keep=REGEX] OUT.json -- <clang cc1-style driver args>
//
// --root   functions whose qualified name matches are roots (default: ^q_)
// --stop   functions whose qualified name matches are exported as declarations only
// --keep   exceptions to --stop
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <regex>
#include <set>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot = "^q_", gStop = "^std::|^__gnu|^boost::(?!numeric)|^__gmp", gKeep = "^$";
static std::string gStopFile = "^/usr/(include|lib|local)/(?!.*boost/numeric)";
static std::string gOut;

namespace {

class Exporter {
  ASTContext& C;
  SourceManager& SM;
  json::OStream J;
  std::regex reRoot, reStop, reKeep, reStopFile;
  std::unordered_map<const void*, int> ids;
  std::map<std::string, int> typeIds;
  std::vector<std::pair<int, QualType>> typeQueue;
  std::set<const void*> seenTypes;
  std::deque<const FunctionDecl*> fnQueue;
  std::set<const FunctionDecl*> fnSeen;
  std::deque<const CXXRecordDecl*> recQueue;
  std::set<const CXXRecordDecl*> recSeen;
  std::deque<const VarDecl*> varQueue;
  std::set<const VarDecl*> varSeen;
  std::set<const EnumDecl*> enumSeen;
  std::deque<const EnumDecl*> enumQueue;
  PrintingPolicy PP;

public:
  Exporter(ASTContext& C, llvm::raw_ostream& OS)
      : C(C), SM(C.getSourceManager()), J(OS), reRoot(gRoot), reStop(gStop), reKeep(gKeep), reStopFile(gStopFile), PP(C.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
  }

  int id(const void* p) {
    auto it = ids.find(p);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[p] = n;
    return n;
  }
  std::string qn(const NamedDecl* D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP); os.flush();
    return s;
  }
  std::string tstr(QualType T) { return T.getCanonicalType().getAsString(PP); }

  int typeRef(QualType T) {
    T = T.getCanonicalType();
    std::string s = T.getAsString(PP);
    auto it = typeIds.find(s);
    if (it != typeIds.end()) return it->second;
    int n = (int)typeIds.size() + 1;
    typeIds[s] = n;
    typeQueue.push_back({n, T});
    return n;
  }
  const FunctionDecl* norm(const FunctionDecl* F) {
    const FunctionDecl* Def = nullptr;
    if (F->hasBody(Def)) return Def;
    if (auto* D = F->getDefinition()) return D;
    return F->getCanonicalDecl();
  }
  int fn(const FunctionDecl* F) {
    F = norm(F);
    if (fnSeen.insert(F).second) fnQueue.push_back(F);
    return id(F);
  }
  int rec(const CXXRecordDecl* R) {
    if (auto* D = R->getDefinition()) R = D;
    if (recSeen.insert(R).second) recQueue.push_back(R);
    return id(R);
  }
  int var(const VarDecl* V) {
    const VarDecl* D = V->getDefinition(C);
    if (!D) D = V->getCanonicalDecl();
    if (D->hasGlobalStorage() && !D->isStaticLocal()) {
      if (varSeen.insert(D).second) varQueue.push_back(D);
    }
    return id(D);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getFilename() : "";
  }
  unsigned line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L);
    return P.isValid() ? P.getLine() : 0;
  }

  void run(TranslationUnitDecl* TU) {
    struct V : RecursiveASTVisitor<V> {
      Exporter& E; std::vector<const FunctionDecl*> roots;
      V(Exporter& E) : E(E) {}
      bool VisitFunctionDecl(FunctionDecl* F) {
        if (F->isThisDeclarationADefinition() && !F->isDependentContext() && std::regex_search(E.qn(F), E.reRoot)) roots.push_back(F);
        if (F->isOverloadedOperator() && F->isThisDeclarationADefinition() && !F->isDependentContext() && F->isUsed() && F->getNumParams() > 0 && F->getNumParams() <= 2 && E.file(F->getLocation()).rfind("/usr/", 0) != 0) E.ops.push_back(F);
        return true;
      }
      bool shouldVisitTemplateInstantiations() const { return true; }
    } v(*this);
    v.TraverseDecl(TU);
    J.objectBegin();
    J.attributeArray("roots", [&] { for (auto* F : v.roots) J.value(fn(F)); });
    J.attributeArray("functions", [&] {
      while (!fnQueue.empty()) { auto* F = fnQueue.front(); fnQueue.pop_front(); emitFn(F); drain(); }
    });
    // types, records, vars and enums discovered may add functions; loop until stable
    J.attributeArray("more", [&] {
      bool again = true;
      while (again) {
        again = false;
        while (!recQueue.empty()) { auto* R = recQueue.front(); recQueue.pop_front(); emitRec(R); again = true; }
        while (!varQueue.empty()) { auto* V = varQueue.front(); varQueue.pop_front(); emitVar(V); again = true; }
        while (!enumQueue.empty()) { auto* E = enumQueue.front(); enumQueue.pop_front(); emitEnum(E); again = true; }
        while (!typeQueue.empty()) { auto t = typeQueue.back(); typeQueue.pop_back(); emitType(t.first, t.second); again = true; }
        while (!fnQueue.empty()) { auto* F = fnQueue.front(); fnQueue.pop_front(); emitFn(F); again = true; }
        // operators used by library templates on types of the exported program
        if (!again) for (auto*& F : ops) if (F && known(F)) { if (!fnSeen.count(norm(F))) { fn(F); again = true; } F = nullptr; }
      }
    });
    J.objectEnd();
  }
  void drain() {}
  std::vector<const FunctionDecl*> ops;
  // every class among the operand types is part of the export
  bool known(const FunctionDecl* F) {
    bool any = false;
    auto one = [&](const CXXRecordDecl* R) { if (auto* D = R->getDefinition()) R = D; any = true; return recSeen.count(R) > 0; };
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (!one(M->getParent())) return false;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    for (auto* P : F->parameters()) {
      QualType T = P->getType().getNonReferenceType();
      while (T->isPointerType()) T = T->getPointeeType();
      if (auto* R = T->getAsCXXRecordDecl()) if (!one(R)) return false;
    }
    return any;
  }

  void emitEnum(const EnumDecl* E) {
    J.object([&] {
      J.attribute("kind", "enum"); J.attribute("id", id(E)); J.attribute("name", qn(E));
      J.attribute("file", file(E->getLocation())); J.attribute("line", line(E->getLocation()));
      J.attributeArray("consts", [&] {
        for (auto* c : E->enumerators()) J.array([&] { J.value(c->getNameAsString()); J.value(c->getInitVal().getExtValue()); });
      });
    });
  }
  void emitType(int n, QualType T) {
    J.object([&] {
      J.attribute("kind", "type"); J.attribute("id", n); J.attribute("name", T.getAsString(PP));
      J.attribute("const", T.isConstQualified());
      const Type* t = T.getTypePtr();
      if (t->isReferenceType()) { J.attribute("c", t->isRValueReferenceType() ? "rref" : "ref"); J.attribute("to", typeRef(t->getPointeeType())); }
      else if (t->isPointerType()) { J.attribute("c", "ptr"); J.attribute("to", typeRef(t->getPointeeType())); }
      else if (t->isEnumeralType()) {
        auto* E = t->castAs<EnumType>()->getDecl(); if (E->getDefinition()) E = E->getDefinition();
        if (enumSeen.insert(E).second) enumQueue.push_back(E);
        J.attribute("c", "enum"); J.attribute("enum", id(E)); intAttrs(E->getIntegerType());
      }
      else if (t->isBooleanType()) J.attribute("c", "bool");
      else if (t->isIntegerType()) { J.attribute("c", "int"); intAttrs(T); }
      else if (t->isFloatingType()) J.attribute("c", "float");
      else if (t->isVoidType()) J.attribute("c", "void");
      else if (t->isNullPtrType()) J.attribute("c", "nullptr");
      else if (auto* R = t->getAsCXXRecordDecl()) { J.attribute("c", "record"); J.attribute("rec", rec(R)); }
      else if (t->isArrayType()) {
        J.attribute("c", "array"); J.attribute("to", typeRef(QualType(t->getBaseElementTypeUnsafe(), 0)));
        if (auto* CA = C.getAsConstantArrayType(T)) { J.attribute("to", typeRef(CA->getElementType())); J.attribute("n", (int64_t)CA->getSize().getZExtValue()); }
      }
      else if (t->isFunctionType()) J.attribute("c", "function");
      else J.attribute("c", "other");
    });
  }
  void intAttrs(QualType T) {
    if (T.isNull()) return;
    J.attribute("bits", (int64_t)C.getTypeSize(T));
    J.attribute("signed", T->isSignedIntegerType());
  }
  void templateArgs(llvm::ArrayRef<TemplateArgument> Args) {
    J.attributeArray("targs", [&] { for (auto& a : Args) targ(a); });
  }
  void targ(const TemplateArgument& a) {
    switch (a.getKind()) {
      case TemplateArgument::Type: J.value(typeRef(a.getAsType())); break;
      case TemplateArgument::Integral: { std::string s; llvm::raw_string_ostream os(s); os << a.getAsIntegral(); J.value("#" + os.str()); break; }
      case TemplateArgument::Pack: J.array([&] { for (auto& b : a.pack_elements()) targ(b); }); break;
      default: J.value(nullptr);
    }
  }
  void emitRec(const CXXRecordDecl* R) {
    J.object([&] {
      J.attribute("kind", "record"); J.attribute("id", id(R)); J.attribute("name", qn(R));
      J.attribute("type", C.getTypeDeclType(R).getAsString(PP));
      J.attribute("file", file(R->getLocation())); J.attribute("line", line(R->getLocation()));
      if (R->isLambda()) {
        J.attribute("lambda", true);
        if (auto* FT = R->getDependentLambdaCallOperator()) for (auto* S : FT->specializations()) if (S->hasBody() && !S->isDependentContext()) fn(S);
      }
      if (R->isUnion()) J.attribute("union", true);
      if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) templateArgs(S->getTemplateArgs().asArray());
      if (!R->hasDefinition() || R->isDependentContext()) { J.attribute("incomplete", true); return; }
      bool opaque = stopped(qn(R) + "::", file(R->getLocation()));
      J.attribute("opaque", opaque);
      J.attributeArray("bases", [&] {
        for (auto& b : R->bases()) if (auto* B = b.getType()->getAsCXXRecordDecl()) J.value(rec(B));
      });
      if (opaque) return;
      J.attributeArray("fields", [&] {
        for (auto* F : R->fields()) J.object([&] {
          J.attribute("id", id(F)); J.attribute("name", F->getNameAsString()); J.attribute("t", typeRef(F->getType()));
          if (F->isMutable()) J.attribute("mutable", true);
          if (F->hasInClassInitializer() && F->getInClassInitializer()) { J.attributeBegin("init"); expr(F->getInClassInitializer()); J.attributeEnd(); }
        });
      });
      J.attributeArray("methods", [&] {
        for (auto* M : R->methods()) {
          if (M->isVirtual() && !M->isPureVirtual()) { if (M->hasBody()) { J.object([&] {
            J.attribute("fn", fn(M));
            J.attributeArray("overrides", [&] { for (auto* O : M->overridden_methods()) J.value(fn(O)); });
          }); } }
        }
      });
      // constructors and operators that only library templates call
      if (file(R->getLocation()).rfind("/usr/", 0) != 0) for (auto* M : R->methods())
        if ((isa<CXXConstructorDecl>(M) || M->isOverloadedOperator()) && !M->isDeleted() && (M->isUsed() || M->isReferenced()) && M->hasBody() && !M->isDependentContext()) fn(M);
      // names of all member functions with signatures (for coverage analyses)
      J.attributeArray("decls", [&] {
        for (auto* M : R->methods()) J.object([&] {
          J.attribute("name", M->getNameAsString()); J.attribute("sig", tstr(M->getType())); J.attribute("line", line(M->getLocation()));
          J.attribute("access", (int)M->getAccess()); J.attribute("implicit", M->isImplicit()); J.attribute("deleted", M->isDeleted());
          J.attribute("defaulted", M->isDefaulted()); J.attribute("const", M->isConst()); J.attribute("static", M->isStatic());
          J.attribute("ctor", isa<CXXConstructorDecl>(M)); J.attribute("dtor", isa<CXXDestructorDecl>(M));
        });
      });
    });
  }
  void emitVar(const VarDecl* V) {
    J.object([&] {
      J.attribute("kind", "var"); J.attribute("id", id(V)); J.attribute("name", qn(V)); J.attribute("t", typeRef(V->getType()));
      J.attribute("file", file(V->getLocation())); J.attribute("line", line(V->getLocation()));
      constAttr(V);
      if (V->getInit() && !V->getInit()->isValueDependent() && !stopped(qn(V))) { J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd(); }
    });
  }
  void constAttr(const VarDecl* V) {
    const VarDecl* D = nullptr;
    const Expr* E = V->getAnyInitializer(D);
    if (!E || E->isValueDependent()) return;
    if (!(V->isConstexpr() || V->getType().isConstQualified())) return;
    if (!V->getType()->isIntegralOrEnumerationType()) return;
    if (auto* A = D->evaluateValue()) if (A->isInt()) { J.attribute("const", intStr(A->getInt())); }
  }
  std::string intStr(const llvm::APSInt& i) { llvm::SmallString<32> s; i.toString(s, 10); return std::string(s); }

  bool stopped(const std::string& q, const std::string& f = "") {
    if (std::regex_search(q, reKeep)) return false;
    // specialisations of library templates written in the repository are analysed
    if (!f.empty() && f[0] == '/' && f.rfind("/usr/", 0) != 0 && q.rfind("std::", 0) == 0) return false;
    return std::regex_search(q, reStop) || std::regex_search(f, reStopFile);
  }

  void emitFn(const FunctionDecl* F) {
    J.object([&] {
      std::string q = qn(F);
      J.attribute("kind", "fn"); J.attribute("id", id(F)); J.attribute("qn", q); J.attribute("name", F->getNameAsString());
      J.attribute("file", file(F->getLocation())); J.attribute("line", line(F->getLocation()));
      J.attribute("sig", tstr(F->getType()));
      J.attribute("ret", typeRef(F->getReturnType()));
      if (auto* TA = F->getTemplateSpecializationArgs()) templateArgs(TA->asArray());
      if (F->isOverloadedOperator()) J.attribute("op", getOperatorSpelling(F->getOverloadedOperator()));
      if (F->isVariadic()) J.attribute("variadic", true);
      if (F->isNoReturn()) J.attribute("noreturn", true);
      J.attributeArray("params", [&] {
        for (auto* P : F->parameters()) J.object([&] { J.attribute("id", id(P)); J.attribute("name", P->getNameAsString()); J.attribute("t", typeRef(P->getType()));
          if (isa<CXXConstructorDecl>(F) && P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && !F->isDependentContext()) { J.attributeBegin("d"); expr(P->getDefaultArg()); J.attributeEnd(); } });
      });
      if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("rec", rec(M->getParent()));
        J.attribute("static", M->isStatic());
        J.attribute("const", M->isConst());
        J.attribute("virtual", M->isVirtual());
        J.attribute("access", (int)M->getAccess());
        J.attribute("constexprLambdaCall", M->getParent()->isLambda());
        if (M->isCopyAssignmentOperator()) J.attribute("special", "copyassign");
        if (M->isMoveAssignmentOperator()) J.attribute("special", "moveassign");
        if (isa<CXXDestructorDecl>(M)) J.attribute("special", "dtor");
        if (isa<CXXConversionDecl>(M)) J.attribute("special", "conv");
        if (auto* K = dyn_cast<CXXConstructorDecl>(M)) {
          J.attribute("ctor", true);
          if (K->isCopyConstructor()) J.attribute("special", "copyctor");
          else if (K->isMoveConstructor()) J.attribute("special", "movector");
          else if (K->isDefaultConstructor()) J.attribute("special", "defctor");
          if (K->isInheritingConstructor()) J.attribute("inheriting", true);
        }
        J.attribute("defaulted", M->isDefaulted());
        J.attribute("deleted", M->isDeleted());
      }
      if (stopped(q, file(F->getLocation()))) { J.attribute("stopped", true); return; }
      const FunctionDecl* Def = nullptr;
      if (!F->hasBody(Def) || F->isDependentContext()) {
        return;
      }
      if (auto* K = dyn_cast<CXXConstructorDecl>(Def)) {
        J.attributeArray("inits", [&] {
          for (auto* I : K->inits()) J.object([&] {
            if (I->isAnyMemberInitializer()) { auto* FD = I->getAnyMember(); J.attribute("field", id(FD)); J.attribute("fname", FD->getNameAsString()); J.attribute("ft", typeRef(FD->getType()));
                if (auto* IF = I->getIndirectMember()) J.attribute("indirect", (int)IF->getChainingSize()); }
            else if (I->isBaseInitializer()) { if (auto* B = I->getBaseClass()->getAsCXXRecordDecl()) J.attribute("base", rec(B)); }
            else J.attribute("delegating", true);
            J.attribute("written", I->isWritten());
            J.attributeBegin("e"); expr(I->getInit()); J.attributeEnd();
          });
        });
      }
      J.attributeBegin("body"); stmt(Def->getBody()); J.attributeEnd();
    });
  }

  // ---- statements
  void loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    J.attribute("l", line(L));
  }
  void stmt(const Stmt* S) {
    if (!S) { J.value(nullptr); return; }
    if (auto* E = dyn_cast<Expr>(S)) { J.object([&] { J.attribute("k", "Expr"); loc(E->getBeginLoc()); J.attributeBegin("e"); expr(E); J.attributeEnd(); }); return; }
    J.object([&] {
      loc(S->getBeginLoc());
      if (auto* X = dyn_cast<CompoundStmt>(S)) {
        J.attribute("k", "Block");
        J.attributeArray("b", [&] { for (auto* c : X->body()) stmt(c); });
      } else if (auto* X = dyn_cast<DeclStmt>(S)) {
        J.attribute("k", "Decl");
        J.attributeArray("d", [&] { for (auto* d : X->decls()) if (auto* V = dyn_cast<VarDecl>(d)) varDecl(V); });
      } else if (auto* X = dyn_cast<IfStmt>(S)) {
        J.attribute("k", "If");
        if (X->isConstexpr()) J.attribute("constexpr", true);
        if (X->getInit()) { J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd(); }
        if (X->getConditionVariable()) { J.attributeBegin("cv"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("t"); stmt(X->getThen()); J.attributeEnd();
        J.attributeBegin("f"); stmt(X->getElse()); J.attributeEnd();
      } else if (auto* X = dyn_cast<WhileStmt>(S)) {
        J.attribute("k", "While");
        if (X->getConditionVariable()) { J.attributeBegin("cv"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto* X = dyn_cast<DoStmt>(S)) {
        J.attribute("k", "Do");
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto* X = dyn_cast<ForStmt>(S)) {
        J.attribute("k", "For");
        J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd();
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("inc"); expr(X->getInc()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
        J.attribute("k", "ForRange");
        J.attributeBegin("range"); stmt(X->getRangeStmt()); J.attributeEnd();
        J.attributeBegin("rinit"); expr(X->getRangeInit()); J.attributeEnd();
        J.attributeBegin("begin"); stmt(X->getBeginStmt()); J.attributeEnd();
        J.attributeBegin("end"); stmt(X->getEndStmt()); J.attributeEnd();
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("inc"); expr(X->getInc()); J.attributeEnd();
        J.attributeBegin("var"); stmt(X->getLoopVarStmt()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
        J.attribute("k", "Return");
        J.attributeBegin("e"); expr(X->getRetValue()); J.attributeEnd();
      } else if (isa<BreakStmt>(S)) J.attribute("k", "Break");
      else if (isa<ContinueStmt>(S)) J.attribute("k", "Continue");
      else if (isa<NullStmt>(S)) J.attribute("k", "Null");
      else if (auto* X = dyn_cast<SwitchStmt>(S)) {
        J.attribute("k", "Switch");
        if (X->getInit()) { J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd(); }
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto* X = dyn_cast<CaseStmt>(S)) {
        J.attribute("k", "Case");
        J.attribute("v", intStr(X->getLHS()->EvaluateKnownConstInt(C)));
        if (X->getRHS()) J.attribute("v2", intStr(X->getRHS()->EvaluateKnownConstInt(C)));
        J.attributeBegin("b"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
        J.attribute("k", "Default");
        J.attributeBegin("b"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (auto* X = dyn_cast<CXXTryStmt>(S)) {
        J.attribute("k", "Try");
        J.attributeBegin("b"); stmt(X->getTryBlock()); J.attributeEnd();
        J.attributeArray("handlers", [&] {
          for (unsigned i = 0; i < X->getNumHandlers(); ++i) J.object([&] {
            auto* H = X->getHandler(i);
            if (H->getExceptionDecl()) { J.attributeBegin("var"); varDecl(H->getExceptionDecl()); J.attributeEnd(); }
            J.attributeBegin("b"); stmt(H->getHandlerBlock()); J.attributeEnd();
          });
        });
      } else if (auto* X = dyn_cast<AttributedStmt>(S)) {
        J.attribute("k", "Block");
        J.attributeArray("b", [&] { stmt(X->getSubStmt()); });
      } else if (auto* X = dyn_cast<LabelStmt>(S)) {
        J.attribute("k", "Unsupported"); J.attribute("cls", "LabelStmt");
      } else { J.attribute("k", "Unsupported"); J.attribute("cls", S->getStmtClassName()); }
    });
  }
  void varDecl(const VarDecl* V) {
    J.object([&] {
      J.attribute("id", var(V)); J.attribute("name", V->getNameAsString()); J.attribute("t", typeRef(V->getType()));
      J.attribute("l", line(V->getLocation()));
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->hasGlobalStorage()) constAttr(V);
      if (V->getInit()) { J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd(); }
      if (auto* D = dyn_cast<DecompositionDecl>(V)) {
        J.attributeArray("bindings", [&] {
          for (auto* B : D->bindings()) J.object([&] {
            J.attribute("id", id(B)); J.attribute("name", B->getNameAsString());
            if (auto* H = B->getHoldingVar()) { J.attributeBegin("holding"); varDecl(H); J.attributeEnd(); }
            else if (B->getBinding()) { J.attributeBegin("e"); expr(B->getBinding()); J.attributeEnd(); }
          });
        });
      }
    });
  }

  // ---- expressions
  void sub(const char* k, const Expr* E) { J.attributeBegin(k); expr(E); J.attributeEnd(); }
  template <class It> void list(const char* k, It b, It e) { J.attributeArray(k, [&] { for (; b != e; ++b) expr(cast<Expr>(*b)); }); }

  void expr(const Expr* E) {
    if (!E) { J.value(nullptr); return; }
    for (;;) {
      if (auto* X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) break; E = X->getSourceExpr(); }
      else if (auto* X = dyn_cast<GenericSelectionExpr>(E)) E = X->getResultExpr();
      else break;
    }
    J.object([&] { node(E); });
  }
  void node(const Expr* E) {
    J.attribute("t", typeRef(E->getType()));
    loc(E->getExprLoc());
    if (E->isGLValue()) J.attribute("lv", true);
    if (auto* X = dyn_cast<IntegerLiteral>(E)) { J.attribute("k", "Int"); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); J.attribute("v", std::string(s)); return; }
    if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) { J.attribute("k", "Bool"); J.attribute("v", X->getValue()); return; }
    if (auto* X = dyn_cast<CharacterLiteral>(E)) { J.attribute("k", "Int"); J.attribute("v", std::to_string(X->getValue())); return; }
    if (auto* X = dyn_cast<FloatingLiteral>(E)) { J.attribute("k", "Float"); llvm::SmallString<32> s; X->getValue().toString(s, 0, 0); J.attribute("v", std::string(s)); return; }
    if (auto* X = dyn_cast<StringLiteral>(E)) { J.attribute("k", "Str"); J.attribute("v", X->isOrdinary() || X->isUTF8() ? json::fixUTF8(X->getString()) : std::string("?")); return; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { J.attribute("k", "Null"); return; }
    if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      auto* D = X->getDecl();
      J.attribute("k", "Ref"); J.attribute("name", D->getNameAsString());
      if (auto* EC = dyn_cast<EnumConstantDecl>(D)) { J.attribute("d", "enumc"); J.attribute("v", intStr(EC->getInitVal())); }
      else if (auto* F = dyn_cast<FunctionDecl>(D)) { J.attribute("d", "fn"); J.attribute("fn", fn(F)); }
      else if (auto* B = dyn_cast<BindingDecl>(D)) { J.attribute("d", "binding"); J.attribute("id", id(B)); if (B->getHoldingVar()) J.attribute("holding", var(B->getHoldingVar())); }
      else if (auto* V = dyn_cast<VarDecl>(D)) {
        J.attribute("d", isa<ParmVarDecl>(V) ? "parm" : (V->isStaticLocal() ? "slocal" : (V->hasGlobalStorage() ? "global" : "var")));
        J.attribute("id", var(V));
        if (V->hasGlobalStorage()) { J.attribute("qn", qn(V)); const VarDecl* Dn = V->getDefinition(C); constAttr(Dn ? Dn : V); }
      } else { J.attribute("d", "other"); J.attribute("cls", D->getDeclKindName()); }
      return;
    }
    if (auto* X = dyn_cast<MemberExpr>(E)) {
      auto* D = X->getMemberDecl();
      J.attribute("k", "Member"); J.attribute("name", D->getNameAsString()); J.attribute("arrow", X->isArrow());
      sub("b", X->getBase());
      if (auto* F = dyn_cast<FieldDecl>(D)) { J.attribute("d", "field"); J.attribute("id", id(F)); rec(cast<CXXRecordDecl>(F->getParent())); }
      else if (auto* M = dyn_cast<FunctionDecl>(D)) { J.attribute("d", "fn"); J.attribute("fn", fn(M)); }
      else if (auto* V = dyn_cast<VarDecl>(D)) { J.attribute("d", "global"); J.attribute("id", var(V)); J.attribute("qn", qn(V)); const VarDecl* Dn = V->getDefinition(C); constAttr(Dn ? Dn : V); }
      else if (auto* EC = dyn_cast<EnumConstantDecl>(D)) { J.attribute("d", "enumc"); J.attribute("v", intStr(EC->getInitVal())); }
      else J.attribute("d", "other");
      return;
    }
    if (isa<CXXThisExpr>(E)) { J.attribute("k", "This"); return; }
    if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "MCall");
      auto* M = X->getMethodDecl();
      if (M) {
        J.attribute("fn", fn(M));
        bool arrow = false, qual = false;
        if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { arrow = ME->isArrow(); qual = ME->hasQualifier(); }
        J.attribute("arrow", arrow); if (qual) J.attribute("qual", true);
        sub("o", X->getImplicitObjectArgument());
      } else { sub("c", X->getCallee()); }
      list("a", X->arg_begin(), X->arg_end());
      return;
    }
    if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "OCall"); J.attribute("op", getOperatorSpelling(X->getOperator()));
      if (auto* F = X->getDirectCallee()) { J.attribute("fn", fn(F)); J.attribute("member", isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()); }
      list("a", X->arg_begin(), X->arg_end());
      return;
    }
    if (auto* X = dyn_cast<CallExpr>(E)) {
      if (auto* F = X->getDirectCallee()) {
        if (F->getBuiltinID() && !F->hasBody()) J.attribute("builtin", F->getNameAsString());
        J.attribute("k", "Call"); J.attribute("fn", fn(F));
        if (F->getNameAsString() == "__builtin_constant_p") J.attribute("builtin", "__builtin_constant_p");
      }
      else { J.attribute("k", "ICall"); sub("c", X->getCallee()); }
      list("a", X->arg_begin(), X->arg_end());
      return;
    }
    if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { J.attribute("k", "InhCtor"); J.attribute("fn", fn(X->getConstructor())); return; }
    if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "Ctor"); J.attribute("fn", fn(X->getConstructor())); J.attribute("rec", rec(X->getConstructor()->getParent()));
      if (X->isElidable()) J.attribute("elidable", true);
      if (X->isStdInitListInitialization()) J.attribute("il", true);
      if (X->requiresZeroInitialization()) J.attribute("zeroinit", true);
      list("a", X->arg_begin(), X->arg_end());
      return;
    }
    if (auto* X = dyn_cast<CXXFunctionalCastExpr>(E)) { castNode(X); return; }
    if (auto* X = dyn_cast<CastExpr>(E)) { castNode(X); return; }
    if (auto* X = dyn_cast<UnaryOperator>(E)) { J.attribute("k", "Un"); J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode())); if (X->isPostfix()) J.attribute("post", true); sub("e", X->getSubExpr()); return; }
    if (auto* X = dyn_cast<CompoundAssignOperator>(E)) { J.attribute("k", "CAssign"); J.attribute("op", X->getOpcodeStr()); J.attribute("ct", typeRef(X->getComputationResultType())); sub("a", X->getLHS()); sub("b", X->getRHS()); return; }
    if (auto* X = dyn_cast<BinaryOperator>(E)) { J.attribute("k", "Bin"); J.attribute("op", X->getOpcodeStr()); sub("a", X->getLHS()); sub("b", X->getRHS()); return; }
    if (auto* X = dyn_cast<ConditionalOperator>(E)) { J.attribute("k", "Cond"); sub("c", X->getCond()); sub("a", X->getTrueExpr()); sub("b", X->getFalseExpr()); return; }
    if (auto* X = dyn_cast<BinaryConditionalOperator>(E)) { J.attribute("k", "Cond"); sub("c", X->getCond()); sub("a", X->getTrueExpr()); sub("b", X->getFalseExpr()); return; }
    if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) { J.attribute("k", "StdIL"); sub("e", X->getSubExpr()); return; }
    if (auto* X = dyn_cast<InitListExpr>(E)) {
      J.attribute("k", "InitList");
      if (auto* R = E->getType()->getAsCXXRecordDecl()) {
        J.attribute("rec", rec(R));
        if (auto* UF = X->getInitializedFieldInUnion()) J.attribute("ufield", id(UF));
      }
      if (X->isTransparent()) J.attribute("transparent", true);
      list("a", X->begin(), X->end());
      return;
    }
    if (auto* X = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "Lambda"); J.attribute("rec", rec(X->getLambdaClass()));
      if (auto* M = X->getCallOperator()) if (!M->isDependentContext()) J.attribute("fn", fn(M));
      J.attributeArray("caps", [&] {
        auto init = X->capture_init_begin();
        for (auto& c : X->captures()) {
          J.object([&] {
            if (c.capturesThis()) J.attribute("this", c.getCaptureKind() == LCK_StarThis ? 2 : 1);
            else if (c.capturesVariable()) {
              auto* V = c.getCapturedVar();
              if (auto* VV = dyn_cast<VarDecl>(V)) J.attribute("id", var(VV)); else J.attribute("id", id(V));
              J.attribute("name", V->getNameAsString());
              J.attribute("byref", c.getCaptureKind() == LCK_ByRef); J.attribute("t", typeRef(V->getType()));
            }
            J.attributeBegin("e"); expr(*init); J.attributeEnd();
          });
          ++init;
        }
      });
      return;
    }
    if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "New"); J.attribute("at", typeRef(X->getAllocatedType()));
      if (X->isArray()) { J.attribute("array", true); if (X->getArraySize() && *X->getArraySize()) sub("n", *X->getArraySize()); }
      J.attribute("placement", (int)X->getNumPlacementArgs());
      if (X->getNumPlacementArgs()) list("pa", X->placement_arg_begin(), X->placement_arg_end());
      sub("init", X->getInitializer());
      return;
    }
    if (auto* X = dyn_cast<CXXDeleteExpr>(E)) { J.attribute("k", "Delete"); sub("e", X->getArgument()); return; }
    if (auto* X = dyn_cast<CXXThrowExpr>(E)) { J.attribute("k", "Throw"); sub("e", X->getSubExpr()); return; }
    if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) { J.attribute("k", "Sub"); sub("a", X->getBase()); sub("b", X->getIdx()); return; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { J.attribute("k", "Zero"); return; }
    if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { constOr(E, "SizeOf"); return; }
    if (isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<SizeOfPackExpr>(E) || isa<ExpressionTraitExpr>(E) || isa<ArrayTypeTraitExpr>(E) || isa<OffsetOfExpr>(E)) { constOr(E, "Trait"); return; }
    if (auto* X = dyn_cast<PredefinedExpr>(E)) { J.attribute("k", "Str"); J.attribute("v", X->getFunctionName() ? json::fixUTF8(X->getFunctionName()->getString()) : ""); return; }
    if (isa<SourceLocExpr>(E)) { J.attribute("k", "Str"); J.attribute("v", ""); return; }
    if (auto* X = dyn_cast<CXXTypeidExpr>(E)) { J.attribute("k", "TypeId"); return; }
    if (auto* X = dyn_cast<CXXPseudoDestructorExpr>(E)) { J.attribute("k", "PseudoDtor"); return; }
    if (auto* X = dyn_cast<ArrayInitLoopExpr>(E)) { J.attribute("k", "ArrayCopy"); sub("e", X->getCommonExpr()); return; }
    if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E)) { expr2(X->getSemanticForm()); return; }
    J.attribute("k", "Unsupported"); J.attribute("cls", E->getStmtClassName());
  }
  void expr2(const Expr* E) { J.attribute("k", "Wrap"); sub("e", E); }
  void constOr(const Expr* E, const char* what) {
    Expr::EvalResult R;
    if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) { J.attribute("k", "Int"); J.attribute("v", intStr(R.Val.getInt())); }
    else { J.attribute("k", "Unsupported"); J.attribute("cls", what); }
  }
  void castNode(const CastExpr* X) {
    J.attribute("k", "Cast"); J.attribute("ck", X->getCastKindName());
    if (!isa<ImplicitCastExpr>(X)) J.attribute("explicit", true);
    sub("e", X->getSubExpr());
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "carlx: errors, no export\n"; return; }
    std::error_code EC;
    llvm::raw_fd_ostream OS(gOut, EC);
    if (EC) { llvm::errs() << "carlx: cannot write " << gOut << "\n"; return; }
    Exporter X(C, OS);
    X.run(C.getTranslationUnitDecl());
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

static std::vector<std::string> gMap;   // PATH=FILE: contents of FILE appear at PATH
int main(int argc, const char** argv) {
  int i = 1;
  for (; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--root=", 0) == 0) gRoot = a.substr(7);
    else if (a.rfind("--stop=", 0) == 0) gStop = a.substr(7);
    else if (a.rfind("--keep=", 0) == 0) gKeep = a.substr(7);
    else if (a.rfind("--stopfile=", 0) == 0) gStopFile = a.substr(11);
    else if (a.rfind("--map=", 0) == 0) gMap.push_back(a.substr(6));
    else if (a == "--") { ++i; break; }
    else gOut = a;
  }
  if (gOut.empty() || i >= argc) { llvm::errs() << "usage: carlx [opts] OUT.json -- file args...\n"; return 2; }
  std::string src = argv[i++];
  std::vector<std::string> args;
  for (; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {src});
  std::vector<std::unique_ptr<llvm::MemoryBuffer>> bufs;
  for (auto& m : gMap) {
    auto p = m.find('=');
    auto b = llvm::MemoryBuffer::getFile(m.substr(p + 1));
    if (!b) { llvm::errs() << "cannot read " << m << "\n"; return 2; }
    bufs.push_back(std::move(*b));
    m = m.substr(0, p);
    Tool.mapVirtualFile(m, bufs.back()->getBuffer());
  }
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
