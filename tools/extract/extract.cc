// Mechanical extractor: dumps, as JSON, the fully type-resolved AST of every
// function, record, enum and global that is *spelled in /repo* for one
// translation unit.  Nothing is rewritten: each AST node becomes one JSON node.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>

using namespace clang;
namespace json = llvm::json;

static std::string Root;

namespace {

std::string latin1_to_utf8(llvm::StringRef s) {
  std::string o;
  for (unsigned char c : s) {
    if (c < 0x80) o += (char)c;
    else { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 0x3F)); }
  }
  return o;
}

class Dumper {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  std::set<const FunctionDecl*> queued;
  json::Array functions, records, enums, globals;
  std::set<const Decl*> done;

  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.AnonymousTagLocations = false;
    PP.TerseOutput = true;
  }

  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto i = ids.find(d);
    if (i != ids.end()) return i->second;
    int n = ids.size() + 1;
    ids[d] = n;
    return n;
  }

  bool inRepo(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return false;
    auto f = SM.getFileEntryRefForID(SM.getFileID(l));
    if (!f) return false;
    std::string p = f->getFileEntry().tryGetRealPathName().str();
    return llvm::StringRef(p).starts_with(Root);
  }

  std::string loc(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return "?";
    PresumedLoc p = SM.getPresumedLoc(l);
    if (p.isInvalid()) return "?";
    llvm::StringRef fn = p.getFilename();
    size_t k = fn.rfind('/');
    if (k != llvm::StringRef::npos) fn = fn.substr(k + 1);
    return (fn + ":" + llvm::Twine(p.getLine())).str();
  }

  std::string type(QualType t) {
    if (t.isNull()) return "";
    t = t.getCanonicalType();
    if (const auto *rt = t->getAs<RecordType>()) {
      auto *rd = dyn_cast<CXXRecordDecl>(rt->getDecl());
      if (rd && rd->isLambda()) return std::string(t.isConstQualified() ? "const " : "") + "lambda#" + std::to_string(id(rd));
    }
    return t.getAsString(PP);
  }

  std::string qname(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    os.flush();
    return s;
  }

  std::string fkey(const FunctionDecl *f) {
    std::string k = qname(f);
    if (const auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->getParent()->isLambda()) k = "lambda#" + std::to_string(id(m->getParent())) + "::op";
      else if (isa<CXXConstructorDecl>(f)) k = type(C.getRecordType(m->getParent())) + "::ctor";
      else if (isa<CXXDestructorDecl>(f)) k = type(C.getRecordType(m->getParent())) + "::dtor";
    }
    if (f->getTemplateSpecializationArgs()) {
      k += "<";
      bool first = true;
      for (const auto &a : f->getTemplateSpecializationArgs()->asArray()) {
        if (!first) k += ",";
        first = false;
        if (a.getKind() == TemplateArgument::Type) k += type(a.getAsType());
        else { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); os.flush(); k += s; }
      }
      k += ">";
    }
    k += "(";
    bool first = true;
    for (auto *p : f->parameters()) {
      if (!first) k += ",";
      first = false;
      k += type(p->getType());
    }
    k += ")";
    if (const auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) k += "const";
    return k;
  }

  json::Object fnref(const FunctionDecl *f) {
    json::Object o;
    o["q"] = qname(f);
    o["key"] = fkey(f);
    o["ret"] = type(f->getReturnType());
    json::Array pt;
    for (auto *p : f->parameters()) pt.push_back(type(p->getType()));
    o["pt"] = std::move(pt);
    if (f->isVariadic()) o["variadic"] = true;
    const FunctionDecl *def = nullptr;
    bool hasBody = f->hasBody(def);
    if (const auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["cls"] = type(C.getRecordType(m->getParent()));
      if (m->isStatic()) o["static"] = true;
      if (m->isVirtual()) o["virtual"] = true;
      if (m->isImplicit() || m->isDefaulted()) o["implicit"] = true;
      if (m->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (m->isMoveAssignmentOperator()) o["moveassign"] = true;
      if (const auto *c = dyn_cast<CXXConstructorDecl>(m)) {
        if (c->isDefaultConstructor()) o["defctor"] = true;
        if (c->isCopyConstructor()) o["copyctor"] = true;
        if (c->isMoveConstructor()) o["movector"] = true;
      }
      if (isa<CXXConversionDecl>(m)) o["conv"] = true;
    }
    if (const TemplateArgumentList *l = f->getTemplateSpecializationArgs()) {
      json::Array ta;
      for (const auto &a : l->asArray()) {
        if (a.getKind() == TemplateArgument::Type) ta.push_back(type(a.getAsType()));
        else { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); os.flush(); ta.push_back(s); }
      }
      o["ta"] = std::move(ta);
    }
    bool repo = inRepo(f->getLocation());
    if (hasBody && def && inRepo(def->getLocation())) { repo = true; queue(def); }
    o["repo"] = repo;
    return o;
  }

  std::vector<const FunctionDecl*> work;
  void queue(const FunctionDecl *f) {
    if (queued.insert(f).second) work.push_back(f);
  }

  json::Value nul() { return nullptr; }

  json::Object vardecl(const VarDecl *v) {
    json::Object o;
    o["id"] = id(v);
    o["name"] = v->getNameAsString();
    o["t"] = type(v->getType());
    if (v->isStaticLocal()) o["staticlocal"] = true;
    if (v->hasInit()) {
      const Expr *in = v->getInit();
      o["init"] = expr(in);
    }
    return o;
  }

  bool constval(const Expr *e, json::Object &o) {
    if (e->isValueDependent()) return false;
    QualType t = e->getType().getCanonicalType();
    if (!(t->isIntegralOrEnumerationType())) return false;
    Expr::EvalResult r;
    if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
      llvm::SmallString<32> s;
      r.Val.getInt().toString(s, 10);
      o["cv"] = std::string(s.str());
      return true;
    }
    return false;
  }

  json::Value expr(const Expr *e) {
    if (!e) return nullptr;
    if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { return expr(x->getSubExpr()); }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());

    json::Object o;
    o["t"] = type(e->getType());
    o["l"] = loc(e->getBeginLoc());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "Temp"; o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerOrEnumerationType());
      o["k"] = "Int"; o["v"] = std::string(s.str());
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      // value as the character type's value
      o["k"] = "Int";
      long long v = x->getValue();
      if (x->getType()->isCharType() && x->getType()->isSignedIntegerType()) v = (signed char)v;
      o["v"] = std::to_string(v);
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "Bool"; o["v"] = x->getValue();
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "Float";
      llvm::SmallString<64> s; 
      double d = x->getValueAsApproximateDouble();
      char buf[64]; snprintf(buf, sizeof buf, "%.17g", d);
      o["v"] = std::string(buf);
    } else if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
      o["k"] = "Str";
      if (x->getCharByteWidth() == 1) o["v"] = latin1_to_utf8(x->getString());
      else { o["v"] = ""; o["wide"] = true; }
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "Null";
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl *d = x->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
        o["k"] = "Int"; o["v"] = std::string(s.str()); o["enum"] = qname(ec);
      } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "FnRef"; o["fn"] = fnref(f);
      } else {
        o["k"] = "Ref"; o["id"] = id(d); o["name"] = d->getNameAsString();
        if (isa<FieldDecl>(d)) o["field"] = true;
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (v->hasGlobalStorage() && !v->isStaticLocal()) { o["global"] = qname(v); o["repo"] = inRepo(v->getLocation()); }
          if (v->getType().isConstQualified() || v->isConstexpr()) constval(e, o);
        }
      }
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *d = x->getMemberDecl();
      if (isa<FieldDecl>(d)) {
        o["k"] = "Member"; o["base"] = expr(x->getBase()); o["arrow"] = x->isArrow(); o["name"] = d->getNameAsString();
        o["isref"] = d->getType()->isReferenceType();
      } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "MemberFn"; o["base"] = expr(x->getBase()); o["arrow"] = x->isArrow(); o["fn"] = fnref(f);
        o["qualified"] = x->hasQualifier();
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        o["k"] = "Ref"; o["id"] = id(v); o["name"] = v->getNameAsString(); o["global"] = qname(v); o["repo"] = inRepo(v->getLocation());
        if (v->getType().isConstQualified()) constval(e, o);
      } else o["k"] = "Unsupported", o["cls"] = "MemberExpr";
    } else if (isa<CXXThisExpr>(e)) {
      o["k"] = "This";
    } else if (auto *x = dyn_cast<CastExpr>(e)) {
      o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = expr(x->getSubExpr());
      if (isa<ExplicitCastExpr>(e)) o["explicit"] = true;
      if (auto *ic = dyn_cast<ImplicitCastExpr>(e)) (void)ic;
      if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_UserDefinedConversion) {}
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "Unary"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = expr(x->getSubExpr());
    } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "CompoundAssign"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
      o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); o["ct"] = type(x->getComputationResultType()); o["clt"] = type(x->getComputationLHSType());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "Binary"; o["op"] = x->getOpcodeStr().str(); o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS());
    } else if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
      o["k"] = "Cond"; o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "Index"; o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx());
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator());
      if (auto *f = x->getDirectCallee()) o["fn"] = fnref(f);
      json::Array as; for (auto *a : x->arguments()) as.push_back(expr(a)); o["args"] = std::move(as);
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall"; o["callee"] = expr(x->getCallee());
      json::Array as; for (auto *a : x->arguments()) as.push_back(expr(a)); o["args"] = std::move(as);
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      if (auto *f = x->getDirectCallee()) o["fn"] = fnref(f); else o["callee"] = expr(x->getCallee());
      json::Array as; for (auto *a : x->arguments()) as.push_back(expr(a)); o["args"] = std::move(as);
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Construct"; o["fn"] = fnref(x->getConstructor()); o["elidable"] = x->isElidable(); o["list"] = x->isListInitialization();
      o["zeroinit"] = x->requiresZeroInitialization();
      o["initlist"] = x->isStdInitListInitialization();
      json::Array as; for (auto *a : x->arguments()) as.push_back(expr(a)); o["args"] = std::move(as);
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      (void)x; o["k"] = "Unsupported"; o["cls"] = "CXXInheritedCtorInitExpr";
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      o["k"] = "InitList";
      const InitListExpr *sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      json::Array as; for (unsigned i = 0; i < sem->getNumInits(); ++i) as.push_back(expr(sem->getInit(i))); o["args"] = std::move(as);
      if (sem->hasArrayFiller()) o["filler"] = expr(sem->getArrayFiller());
    } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "ValueInit";
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "Throw"; o["e"] = x->getSubExpr() ? expr(x->getSubExpr()) : nul();
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New"; o["at"] = type(x->getAllocatedType()); o["array"] = x->isArray();
      if (x->isArray() && x->getArraySize()) o["size"] = expr(*x->getArraySize());
      o["init"] = x->getInitializer() ? expr(x->getInitializer()) : (x->getConstructExpr() ? expr(x->getConstructExpr()) : nul());
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "Delete"; o["e"] = expr(x->getArgument()); o["array"] = x->isArrayForm();
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda"; o["id"] = id(x->getLambdaClass());
      json::Array cs;
      auto it = x->capture_init_begin();
      for (const auto &c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = true; }
        else if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["byref"] = c.getCaptureKind() == LCK_ByRef; co["name"] = c.getCapturedVar()->getNameAsString(); }
        if (it != x->capture_init_end()) { co["init"] = expr(*it); ++it; }
        cs.push_back(std::move(co));
      }
      o["captures"] = std::move(cs);
      const CXXMethodDecl *m = x->getCallOperator();
      json::Array ps; for (auto *p : m->parameters()) ps.push_back(vardecl(p)); o["params"] = std::move(ps);
      o["ret"] = type(m->getReturnType());
      o["body"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = "SizeOf"; (void)x; if (!constval(e, o)) o["k"] = "Unsupported";
      if (o.get("cv")) { o["v"] = *o.get("cv"); o["k"] = "Int"; }
    } else if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) {
      o["k"] = "Bool"; o["v"] = x->getValue();
    } else {
      o["k"] = "Unsupported"; o["cls"] = e->getStmtClassName();
    }
    return json::Value(std::move(o));
  }

  json::Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) {
      json::Object o; o["k"] = "Expr"; o["e"] = expr(e); o["l"] = loc(s->getBeginLoc()); return json::Value(std::move(o));
    }
    json::Object o;
    o["l"] = loc(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "Block"; json::Array b; for (auto *c : x->body()) b.push_back(stmt(c)); o["b"] = std::move(b);
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl"; json::Array b;
      for (auto *d : x->decls()) { if (auto *v = dyn_cast<VarDecl>(d)) b.push_back(vardecl(v)); }
      o["d"] = std::move(b);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If"; if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
      o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen()); o["b"] = x->getElse() ? stmt(x->getElse()) : nul();
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "While"; if (x->getConditionVariableDeclStmt()) o["cv"] = stmt(x->getConditionVariableDeclStmt());
      o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); o["id"] = nextLoop();
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      o["k"] = "Do"; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody()); o["id"] = nextLoop();
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For"; o["id"] = nextLoop();
      o["init"] = x->getInit() ? stmt(x->getInit()) : nul(); o["c"] = x->getCond() ? expr(x->getCond()) : nul(); o["inc"] = x->getInc() ? expr(x->getInc()) : nul(); o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RangeFor"; o["id"] = nextLoop();
      o["var"] = vardecl(x->getLoopVariable()); o["range"] = expr(x->getRangeInit()); o["b"] = stmt(x->getBody());
      if (auto *v = x->getRangeStmt()) if (auto *d = dyn_cast<VarDecl>(v->getSingleDecl())) o["rt"] = type(d->getType());
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "Switch"; if (x->getInit()) o["init"] = stmt(x->getInit()); o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "Case"; o["v"] = expr(x->getLHS());
      Expr::EvalResult r; if (x->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> t; r.Val.getInt().toString(t, 10); o["cv"] = std::string(t.str()); }
      if (x->getRHS()) { Expr::EvalResult r2; if (x->getRHS()->EvaluateAsInt(r2, C)) { llvm::SmallString<32> t; r2.Val.getInt().toString(t, 10); o["cv2"] = std::string(t.str()); } }
      o["s"] = stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "Default"; o["s"] = stmt(x->getSubStmt());
    } else if (isa<BreakStmt>(s)) o["k"] = "Break";
    else if (isa<ContinueStmt>(s)) o["k"] = "Continue";
    else if (isa<NullStmt>(s)) o["k"] = "Nop";
    else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "Return"; o["e"] = x->getRetValue() ? expr(x->getRetValue()) : nul();
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try"; o["b"] = stmt(x->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
        const CXXCatchStmt *h = x->getHandler(i); json::Object ho;
        ho["t"] = h->getExceptionDecl() ? json::Value(type(h->getCaughtType())) : nul();
        if (h->getExceptionDecl()) ho["var"] = vardecl(h->getExceptionDecl());
        ho["b"] = stmt(h->getHandlerBlock()); hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
      return stmt(x->getSubStmt());
    } else if (auto *x = dyn_cast<LabelStmt>(s)) {
      (void)x; o["k"] = "Unsupported"; o["cls"] = "LabelStmt";
    } else { o["k"] = "Unsupported"; o["cls"] = s->getStmtClassName(); }
    return json::Value(std::move(o));
  }

  int loopN = 0;
  int nextLoop() { return ++loopN; }

  void dumpFunction(const FunctionDecl *f) {
    if (!done.insert(f).second) return;
    json::Object o = fnref(f);
    o["loc"] = loc(f->getLocation());
    o["id"] = id(f);
    json::Array ps; for (auto *p : f->parameters()) ps.push_back(vardecl(p)); o["params"] = std::move(ps);
    o["storage"] = f->getStorageClass() == SC_Static ? "static" : "";
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      json::Array is;
      for (auto *i : c->inits()) {
        json::Object io;
        if (i->isAnyMemberInitializer()) io["member"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["delegating"] = true;
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(f->getBody());
    functions.push_back(std::move(o));
  }

  void dumpRecord(const CXXRecordDecl *r) {
    if (!r->isCompleteDefinition() || r->isDependentContext()) return;
    if (!done.insert(r).second) return;
    json::Object o;
    o["name"] = type(C.getRecordType(r));
    json::Array fs;
    for (auto *f : r->fields()) {
      json::Object fo; fo["name"] = f->getNameAsString(); fo["t"] = type(f->getType());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array bs; for (auto &b : r->bases()) bs.push_back(type(b.getType())); o["bases"] = std::move(bs);
    json::Array vs;
    for (auto *m : r->methods()) if (m->isVirtual() && !isa<CXXDestructorDecl>(m)) {
      json::Object mo; mo["name"] = m->getNameAsString(); mo["key"] = fkey(m); mo["pure"] = m->isPureVirtual();
      json::Array ov; for (auto *om : m->overridden_methods()) ov.push_back(fkey(om)); mo["overrides"] = std::move(ov);
      vs.push_back(std::move(mo));
    }
    o["virtuals"] = std::move(vs);
    records.push_back(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
public:
  Dumper &D;
  V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isDependentContext() || !f->doesThisDeclarationHaveABody()) return true;
    if (f->isImplicit() || f->isDefaulted()) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (!D.inRepo(f->getLocation())) return true;
    D.queue(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (r->isLambda() || !D.inRepo(r->getLocation())) return true;
    if (r->isThisDeclarationADefinition()) D.dumpRecord(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (!D.inRepo(e->getLocation()) || !e->isThisDeclarationADefinition()) return true;
    json::Object o; o["name"] = D.type(D.C.getEnumType(e)); json::Object vs;
    for (auto *c : e->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); vs[c->getNameAsString()] = std::string(s.str()); }
    o["values"] = std::move(vs); o["underlying"] = D.type(e->getIntegerType());
    D.enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v)) return true;
    if (v->getDeclContext()->isDependentContext()) return true;
    if (!D.inRepo(v->getLocation()) || v->isThisDeclarationADefinition() != VarDecl::Definition) return true;
    json::Object o = D.vardecl(v); o["q"] = D.qname(v);
    D.globals.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    v.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.work.empty()) { auto *f = D.work.back(); D.work.pop_back(); D.dumpFunction(f); }
    json::Object o;
    o["functions"] = std::move(D.functions);
    o["records"] = std::move(D.records);
    o["enums"] = std::move(D.enums);
    o["globals"] = std::move(D.globals);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

}

static llvm::cl::OptionCategory Cat("extract");
static llvm::cl::opt<std::string> RootOpt("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat), llvm::cl::init("/repo"));

int main(int argc, const char **argv) {
  auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
  if (!P) { llvm::errs() << P.takeError(); return 2; }
  Root = RootOpt;
  tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
