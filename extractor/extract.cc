// Serialises the typed AST of every function of the repository that a translation unit
// instantiates (and of the record bases of its grammar) as JSON, one document per run.
// usage: extract ROOT OUT.json FILE.cc -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace clang;
namespace js = llvm::json;
static std::string Root, OutFile, ExtraRoot;

struct Ser {
  ASTContext& C;
  SourceManager& SM;
  std::deque<const FunctionDecl*> work;
  std::set<const FunctionDecl*> seen;
  std::map<const Decl*, int> ids;
  std::set<const CXXRecordDecl*> recs;
  js::Array outFns, outRecs, outMisc;
  Ser(ASTContext& c) : C(c), SM(c.getSourceManager()) {}

  int id(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = (int)ids.size() + 1;
    ids[d] = n;
    return n;
  }
  std::string file(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    if (l.isInvalid()) return "";
    if (auto fe = SM.getFileEntryRefForID(SM.getFileID(l))) {
      auto n = fe->getFileEntry().tryGetRealPathName();
      return n.empty() ? fe->getName().str() : n.str();
    }
    return "";
  }
  bool inRepo(const Decl* d) {
    auto f = file(d->getLocation());
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string loc(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    auto f = file(l);
    if (f.compare(0, Root.size(), Root) == 0) f = f.substr(Root.size());
    return f + ":" + std::to_string(SM.getSpellingLineNumber(l));
  }
  js::Value targ(const TemplateArgument& a) {
    switch (a.getKind()) {
    case TemplateArgument::Type: return ty(a.getAsType());
    case TemplateArgument::Integral: {
      llvm::SmallString<16> s; a.getAsIntegral().toString(s, 10);
      return js::Object{{"k", "int"}, {"v", s.str().str()}};
    }
    case TemplateArgument::Pack: {
      js::Array r;
      for (auto& x : a.pack_elements()) r.push_back(targ(x));
      return js::Object{{"k", "pack"}, {"args", std::move(r)}};
    }
    case TemplateArgument::Template:
      return js::Object{{"k", "tmpl"}, {"name", a.getAsTemplate().getAsTemplateDecl()->getQualifiedNameAsString()}};
    default: return js::Object{{"k", "other"}};
    }
  }
  js::Value ty(QualType q, int depth = 0) {
    q = q.getCanonicalType();
    bool c = q.isConstQualified();
    const Type* t = q.getTypePtr();
    js::Object o;
    if (auto r = dyn_cast<ReferenceType>(t)) {
      o["k"] = "ref"; o["rv"] = isa<RValueReferenceType>(r); o["to"] = ty(r->getPointeeType(), depth);
      return o;
    }
    if (auto p = dyn_cast<PointerType>(t)) {
      o["k"] = "ptr"; o["to"] = ty(p->getPointeeType(), depth); if (c) o["c"] = true; return o;
    }
    if (auto b = dyn_cast<BuiltinType>(t)) {
      o["k"] = "b"; o["n"] = b->getName(C.getPrintingPolicy()).str();
    } else if (auto e = dyn_cast<EnumType>(t)) {
      o["k"] = "enum"; o["n"] = e->getDecl()->getQualifiedNameAsString();
      js::Array vs; for (auto x : e->getDecl()->enumerators()) vs.push_back(x->getNameAsString());
      o["vals"] = std::move(vs);
    } else if (auto r = dyn_cast<RecordType>(t)) {
      auto rd = cast<CXXRecordDecl>(r->getDecl());
      if (rd->isLambda()) { o["k"] = "lambda"; o["id"] = id(rd); if (c) o["c"] = true; noteRec(rd); return o; }
      o["k"] = "rec"; o["n"] = rd->getQualifiedNameAsString();
      if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
        js::Array as;
        if (depth < 8) for (auto& a : s->getTemplateArgs().asArray()) {
          if (a.getKind() == TemplateArgument::Pack) { for (auto& x : a.pack_elements()) as.push_back(a2(x, depth + 1)); }
          else as.push_back(a2(a, depth + 1));
        }
        o["a"] = std::move(as);
      }
      if (!rd->getIdentifier() || rd->isLocalClass()) o["id"] = id(rd);
      noteRec(rd);
    } else if (auto a = dyn_cast<ConstantArrayType>(t)) {
      o["k"] = "arr"; o["to"] = ty(a->getElementType(), depth); o["len"] = (int64_t)a->getSize().getZExtValue();
    } else if (auto f = dyn_cast<FunctionProtoType>(t)) {
      o["k"] = "fn"; o["s"] = q.getAsString();
    } else { o["k"] = "other"; o["s"] = q.getAsString(); }
    if (c) o["c"] = true;
    return o;
  }
  js::Value a2(const TemplateArgument& a, int depth) {
    if (a.getKind() == TemplateArgument::Type) return ty(a.getAsType(), depth);
    return targ(a);
  }
  void noteRec(const CXXRecordDecl* rd) {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentContext()) return;
    if (!inRepo(rd)) return;
    if (!recs.insert(rd).second) return;
    js::Object o;
    o["n"] = rd->getQualifiedNameAsString(); o["id"] = id(rd); o["loc"] = loc(rd->getLocation());
    o["lambda"] = rd->isLambda();
    if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
      js::Array as;
      for (auto& a : s->getTemplateArgs().asArray()) {
        if (a.getKind() == TemplateArgument::Pack) { for (auto& x : a.pack_elements()) as.push_back(a2(x, 1)); }
        else as.push_back(a2(a, 1));
      }
      o["a"] = std::move(as);
    }
    js::Array fs, bs, ms;
    if (!rd->isLambda()) {
      for (auto f : rd->fields()) {
        js::Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"id", id(f)}};
        if (auto in = f->getInClassInitializer()) fo["init"] = ex(in);
        if (f->isMutable()) fo["mutable"] = true;
        fs.push_back(std::move(fo));
      }
      for (auto& b : rd->bases()) bs.push_back(ty(b.getType()));
      for (auto d : rd->decls()) if (isa<VarDecl>(d)) ms.push_back(cast<VarDecl>(d)->getNameAsString());
    }
    o["fields"] = std::move(fs); o["bases"] = std::move(bs); o["statics"] = std::move(ms);
    outRecs.push_back(std::move(o));
    if (!rd->isLambda()) for (auto m : rd->methods()) enqueue(m);
  }
  void enqueue(const FunctionDecl* f) {
    if (!f) return;
    const FunctionDecl* def = nullptr;
    if (!f->hasBody(def)) return;
    if (def->isDependentContext()) return;
    if (!inRepo(def)) return;
    if (seen.insert(def->getCanonicalDecl()).second) work.push_back(def);
  }
  js::Value fref(const FunctionDecl* f) {
    js::Object o;
    o["n"] = f->getQualifiedNameAsString();
    o["id"] = id(f);
    bool r = inRepo(f);
    if (r) { o["repo"] = true; enqueue(f); }
    js::Array ps; for (auto p : f->parameters()) ps.push_back(ty(p->getType()));
    o["p"] = std::move(ps); o["ret"] = ty(f->getReturnType());
    if (auto m = dyn_cast<CXXMethodDecl>(f)) {
      o["m"] = true; if (m->isConst()) o["const"] = true; if (m->isStatic()) o["static"] = true;
      o["cls"] = ty(C.getRecordType(m->getParent()));
    }
    if (auto cd = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      if (cd->isCopyConstructor()) o["copy"] = true;
      if (cd->isMoveConstructor()) o["move"] = true;
      if (f->isDefaulted()) o["defaulted"] = true;
    } else if (auto m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isCopyAssignmentOperator()) o["copy"] = true;
      if (m->isMoveAssignmentOperator()) o["move"] = true;
      if (f->isDefaulted()) o["defaulted"] = true;
    }
    if (auto ta = f->getTemplateSpecializationArgs()) {
      js::Array as; for (auto& a : ta->asArray()) as.push_back(a2(a, 1));
      o["ta"] = std::move(as);
    }
    return o;
  }
  js::Object node(const char* k, const Expr* e) {
    js::Object o; o["k"] = k; o["t"] = ty(e->getType()); o["l"] = loc(e->getBeginLoc()); return o;
  }
  js::Array exs(llvm::ArrayRef<const Expr*> v) { js::Array r; for (auto x : v) r.push_back(ex(x)); return r; }
  template <class R> js::Array exr(R&& v) { js::Array r; for (auto x : v) r.push_back(ex(x)); return r; }

  js::Value ex(const Expr* e) {
    if (!e) return nullptr;
    if (auto p = dyn_cast<ParenExpr>(e)) return ex(p->getSubExpr());
    if (auto p = dyn_cast<ExprWithCleanups>(e)) return ex(p->getSubExpr());
    if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) return ex(p->getSubExpr());
    if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) return ex(p->getSubExpr());
    if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return ex(p->getReplacement());
    if (auto p = dyn_cast<ConstantExpr>(e)) return ex(p->getSubExpr());
    if (auto p = dyn_cast<CXXDefaultArgExpr>(e)) return ex(p->getExpr());
    if (auto p = dyn_cast<CXXDefaultInitExpr>(e)) return ex(p->getExpr());
    if (auto p = dyn_cast<CXXStdInitializerListExpr>(e)) {
      auto o = node("stdinit", e); o["e"] = ex(p->getSubExpr()); return o;
    }
    if (auto p = dyn_cast<CastExpr>(e)) {
      switch (p->getCastKind()) {
      case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ConstructorConversion:
      case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
        return ex(p->getSubExpr());
      case CK_ToVoid: return ex(p->getSubExpr());
      default: break;
      }
      auto o = node("cast", e); o["ck"] = p->getCastKindName(); o["e"] = ex(p->getSubExpr()); return o;
    }
    if (auto p = dyn_cast<IntegerLiteral>(e)) { auto o = node("int", e); llvm::SmallString<32> s; p->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
    if (auto p = dyn_cast<CharacterLiteral>(e)) { auto o = node("int", e); o["v"] = std::to_string(p->getValue()); return o; }
    if (auto p = dyn_cast<FloatingLiteral>(e)) { auto o = node("float", e); llvm::SmallString<64> s; p->getValue().toString(s, 0, 400); o["v"] = s.str().str(); return o; }
    if (auto p = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = node("bool", e); o["v"] = p->getValue(); return o; }
    if (auto p = dyn_cast<StringLiteral>(e)) { auto o = node("str", e); o["v"] = p->getString().str(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(e)) return node("nullptr", e);
    if (isa<CXXThisExpr>(e)) return node("this", e);
    if (auto p = dyn_cast<DeclRefExpr>(e)) {
      auto d = p->getDecl(); auto o = node("ref", e); o["n"] = d->getNameAsString(); o["id"] = id(d);
      if (auto f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "fn"; o["f"] = fref(f); }
      else if (auto c = dyn_cast<EnumConstantDecl>(d)) { o["dk"] = "enum"; o["q"] = c->getQualifiedNameAsString(); }
      else if (isa<BindingDecl>(d)) o["dk"] = "binding";
      else if (isa<ParmVarDecl>(d)) o["dk"] = "parm";
      else if (auto v = dyn_cast<VarDecl>(d)) {
        o["dk"] = v->hasLocalStorage() ? "var" : "gvar"; o["q"] = v->getQualifiedNameAsString();
        if (!v->hasLocalStorage() && v->getAnyInitializer() && (v->isConstexpr() || v->getType().isConstQualified()) && inRepo(v)) o["init"] = ex(v->getAnyInitializer());
      } else o["dk"] = "other";
      if (p->refersToEnclosingVariableOrCapture()) o["cap"] = true;
      return o;
    }
    if (auto p = dyn_cast<MemberExpr>(e)) {
      auto o = node("mem", e); o["e"] = ex(p->getBase()); o["arrow"] = p->isArrow();
      auto d = p->getMemberDecl(); o["n"] = d->getNameAsString(); o["id"] = id(d);
      if (auto f = dyn_cast<FunctionDecl>(d)) o["f"] = fref(f);
      return o;
    }
    if (auto p = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto o = node("opcall", e); o["op"] = getOperatorSpelling(p->getOperator());
      if (auto f = p->getDirectCallee()) o["f"] = fref(f);
      o["a"] = exr(p->arguments()); return o;
    }
    if (auto p = dyn_cast<CXXMemberCallExpr>(e)) {
      auto o = node("mcall", e);
      if (auto f = p->getMethodDecl()) o["f"] = fref(f);
      o["o"] = ex(p->getImplicitObjectArgument());
      if (auto me = dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens())) o["arrow"] = me->isArrow();
      o["a"] = exr(p->arguments()); return o;
    }
    if (auto p = dyn_cast<CallExpr>(e)) {
      auto o = node("call", e);
      if (auto f = p->getDirectCallee()) o["f"] = fref(f); else o["ce"] = ex(p->getCallee());
      o["a"] = exr(p->arguments()); return o;
    }
    if (auto p = dyn_cast<CXXConstructExpr>(e)) {
      auto o = node("ctor", e); o["f"] = fref(p->getConstructor()); o["list"] = p->isListInitialization();
      o["elide"] = p->isElidable(); o["a"] = exr(p->arguments()); return o;
    }
    if (auto p = dyn_cast<CXXInheritedCtorInitExpr>(e)) { auto o = node("unsupported", e); o["w"] = "inherited ctor"; return o; }
    if (auto p = dyn_cast<InitListExpr>(e)) {
      auto o = node("init", e); o["a"] = exr(p->inits());
      if (p->hasArrayFiller()) o["filler"] = true;
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) return node("zero", e);
    if (auto p = dyn_cast<UnaryOperator>(e)) { auto o = node("un", e); o["op"] = UnaryOperator::getOpcodeStr(p->getOpcode()).str(); o["post"] = p->isPostfix(); o["e"] = ex(p->getSubExpr()); return o; }
    if (auto p = dyn_cast<BinaryOperator>(e)) { auto o = node("bin", e); o["op"] = p->getOpcodeStr().str(); o["x"] = ex(p->getLHS()); o["y"] = ex(p->getRHS()); return o; }
    if (auto p = dyn_cast<ConditionalOperator>(e)) { auto o = node("cond", e); o["c"] = ex(p->getCond()); o["x"] = ex(p->getTrueExpr()); o["y"] = ex(p->getFalseExpr()); return o; }
    if (auto p = dyn_cast<ArraySubscriptExpr>(e)) { auto o = node("index", e); o["x"] = ex(p->getBase()); o["y"] = ex(p->getIdx()); return o; }
    if (auto p = dyn_cast<CXXThrowExpr>(e)) { auto o = node("throw", e); o["e"] = ex(p->getSubExpr()); return o; }
    if (auto p = dyn_cast<LambdaExpr>(e)) {
      auto o = node("lambda", e); auto rd = p->getLambdaClass(); o["id"] = id(rd);
      js::Array caps;
      for (auto& c : p->captures()) {
        js::Object co; co["this"] = c.capturesThis(); co["byref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
        if (c.capturesVariable()) { co["id"] = id(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString();
          if (auto v = dyn_cast<VarDecl>(c.getCapturedVar())) if (v->isInitCapture()) co["init"] = ex(v->getInit()); }
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      js::Array ops;
      if (auto ft = rd->getDependentLambdaCallOperator()) {
        for (auto s : ft->specializations()) { const FunctionDecl* def = nullptr; if (s->hasBody(def)) ops.push_back(fn(def)); }
        o["generic"] = true;
      } else if (auto m = rd->getLambdaCallOperator()) { const FunctionDecl* def = nullptr; if (m->hasBody(def)) ops.push_back(fn(def)); }
      o["ops"] = std::move(ops);
      return o;
    }
    if (auto p = dyn_cast<CXXRewrittenBinaryOperator>(e)) return ex(p->getSemanticForm());
    if (auto p = dyn_cast<SizeOfPackExpr>(e)) { auto o = node("int", e); o["v"] = std::to_string(p->getPackLength()); return o; }
    auto o = node("unsupported", e); o["w"] = e->getStmtClassName(); return o;
  }

  js::Value var(const VarDecl* v) {
    js::Object o; o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType()); o["l"] = loc(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->isConstexpr()) o["cx"] = true;
    if (v->getInit()) o["init"] = ex(v->getInit());
    if (auto d = dyn_cast<DecompositionDecl>(v)) {
      js::Array bs;
      for (auto b : d->bindings()) {
        js::Object bo; bo["id"] = id(b); bo["n"] = b->getNameAsString(); bo["t"] = ty(b->getType());
        if (auto hv = b->getHoldingVar()) bo["ht"] = ty(hv->getType());
        else if (auto be = dyn_cast_or_null<MemberExpr>(b->getBinding()->IgnoreParenImpCasts())) bo["field"] = be->getMemberDecl()->getNameAsString();
        bs.push_back(std::move(bo));
      }
      o["bind"] = std::move(bs);
    }
    return o;
  }
  js::Value st(const Stmt* s) {
    if (!s) return nullptr;
    js::Object o; o["l"] = loc(s->getBeginLoc());
    if (auto e = dyn_cast<Expr>(s)) { o["k"] = "expr"; o["e"] = ex(e); return o; }
    if (auto c = dyn_cast<CompoundStmt>(s)) { o["k"] = "block"; js::Array b; for (auto x : c->body()) b.push_back(st(x)); o["b"] = std::move(b); return o; }
    if (auto d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl"; js::Array ds;
      for (auto x : d->decls()) { if (auto v = dyn_cast<VarDecl>(x)) ds.push_back(var(v)); }
      o["d"] = std::move(ds); return o;
    }
    if (auto i = dyn_cast<IfStmt>(s)) {
      o["k"] = "if"; if (i->getInit()) o["init"] = st(i->getInit());
      if (i->getConditionVariableDeclStmt()) o["cv"] = st(i->getConditionVariableDeclStmt());
      if (i->isConstexpr()) {
        o["cx"] = true;
        if (auto n = i->getNondiscardedCase(C)) { o["k"] = "block"; js::Array b; if (*n) b.push_back(st(*n)); o["b"] = std::move(b); return o; }
      }
      o["c"] = ex(i->getCond()); o["x"] = st(i->getThen()); o["y"] = st(i->getElse()); return o;
    }
    if (auto f = dyn_cast<ForStmt>(s)) {
      o["k"] = "for"; o["init"] = st(f->getInit()); if (f->getConditionVariable()) o["cvbad"] = true;
      o["c"] = ex(f->getCond()); o["inc"] = ex(f->getInc()); o["b"] = st(f->getBody()); return o;
    }
    if (auto f = dyn_cast<WhileStmt>(s)) { o["k"] = "while"; if (f->getConditionVariable()) o["cvbad"] = true; o["c"] = ex(f->getCond()); o["b"] = st(f->getBody()); return o; }
    if (auto f = dyn_cast<DoStmt>(s)) { o["k"] = "do"; o["c"] = ex(f->getCond()); o["b"] = st(f->getBody()); return o; }
    if (auto f = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor"; o["r"] = ex(f->getRangeInit()); o["v"] = var(f->getLoopVariable()); o["b"] = st(f->getBody()); 
      if (f->getInit()) o["init"] = st(f->getInit());
      return o;
    }
    if (auto r = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; if (r->getRetValue()) o["e"] = ex(r->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "cont"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "null"; return o; }
    if (auto w = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch"; if (w->getInit()) o["init"] = st(w->getInit()); o["c"] = ex(w->getCond()); o["b"] = st(w->getBody()); return o;
    }
    if (auto c = dyn_cast<CaseStmt>(s)) { o["k"] = "case"; o["v"] = ex(c->getLHS()); o["b"] = st(c->getSubStmt()); return o; }
    if (auto c = dyn_cast<DefaultStmt>(s)) { o["k"] = "default"; o["b"] = st(c->getSubStmt()); return o; }
    if (auto a = dyn_cast<AttributedStmt>(s)) return st(a->getSubStmt());
    if (auto t = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try"; o["b"] = st(t->getTryBlock()); js::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); i++) { js::Object h; auto hh = t->getHandler(i); if (hh->getExceptionDecl()) h["v"] = var(hh->getExceptionDecl()); h["b"] = st(hh->getHandlerBlock()); hs.push_back(std::move(h)); }
      o["h"] = std::move(hs); return o;
    }
    o["k"] = "unsupported"; o["w"] = s->getStmtClassName(); return o;
  }
  js::Value fn(const FunctionDecl* f) {
    js::Object o = *fref(f).getAsObject();
    o["l"] = loc(f->getLocation());
    js::Array ps;
    for (auto p : f->parameters()) ps.push_back(js::Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
    o["params"] = std::move(ps);
    if (auto c = dyn_cast<CXXConstructorDecl>(f)) {
      js::Array is;
      for (auto i : c->inits()) {
        js::Object io;
        if (i->isAnyMemberInitializer()) io["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
        else io["delegating"] = true;
        io["e"] = ex(i->getInit()); io["written"] = i->isWritten();
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (f->isImplicit()) o["implicit"] = true;
    o["body"] = st(f->getBody());
    return o;
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Ser& S; Vis(Ser& s) : S(s) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (auto m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (f->doesThisDeclarationHaveABody()) S.enqueue(f);
    return true;
  }
  // the text of templates of variables and aliases (control class of the parser)
  bool VisitVarTemplateDecl(VarTemplateDecl* v) { note(v, v->getTemplatedDecl()); return true; }
  bool VisitVarTemplateSpecializationDecl(VarTemplateSpecializationDecl* v) { if (v->isExplicitSpecialization()) note(v, v); return true; }
  bool VisitTypeAliasTemplateDecl(TypeAliasTemplateDecl* v) { note(v, v->getTemplatedDecl()); return true; }
  void note(NamedDecl* d, Decl* what) {
    if (!S.inRepo(d)) return;
    std::string s; llvm::raw_string_ostream os(s);
    what->print(os, PrintingPolicy(S.C.getLangOpts()));
    S.outMisc.push_back(js::Object{{"n", d->getQualifiedNameAsString()}, {"text", os.str()}});
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (r->isCompleteDefinition()) S.noteRec(r); return true; }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    Ser S(C); Vis V(S); V.TraverseDecl(C.getTranslationUnitDecl());
    while (!S.work.empty()) { auto f = S.work.front(); S.work.pop_front(); S.outFns.push_back(S.fn(f)); }
    std::error_code ec; llvm::raw_fd_ostream os(OutFile, ec);
    os << js::Value(js::Object{{"fns", std::move(S.outFns)}, {"recs", std::move(S.outRecs)}, {"misc", std::move(S.outMisc)}});
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char** argv) {
  Root = argv[1]; OutFile = argv[2]; std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  std::ifstream f(file); std::stringstream ss; ss << f.rdbuf();
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), ss.str(), args, file);
  return ok ? 0 : 1;
}
