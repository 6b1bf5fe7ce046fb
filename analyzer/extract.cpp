// istfacts: lowers one translation unit of istatd to a JSON "fact" file:
// per-function control-flow graphs over a small expression IR, the class table,
// and file-scope variables.  Everything semantic (call resolution, types,
// evaluation order, implicit destructors) comes from clang; every rule lives in
// the Python side.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::string g_root, g_out;

static std::string usr(const Decl *d) {
  llvm::SmallString<256> b;
  if (index::generateUSRForDecl(d, b)) return "";
  return std::string(b.str());
}

class Extract : public RecursiveASTVisitor<Extract> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  json::Array funcs, classes, globals;
  std::set<std::string> seenF, seenC, seenG;

  explicit Extract(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation l) {
    l = SM.getExpansionLoc(l);
    PresumedLoc p = SM.getPresumedLoc(l);
    if (!p.isValid()) return "";
    std::string f = p.getFilename();
    if (f.rfind(g_root + "/", 0) == 0) f = f.substr(g_root.size() + 1);
    while (f.rfind("./", 0) == 0) f = f.substr(2);
    return f;
  }
  bool inRepo(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = fileOf(l);
    return !f.empty() && f[0] != '/';
  }
  int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
  std::string ty(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(PP);
  }
  std::string tyS(QualType t) { return t.isNull() ? "" : t.getAsString(PP); }
  std::string clsOf(QualType t) {
    if (t.isNull()) return "";
    t = t.getNonReferenceType();
    if (!t->getPointeeType().isNull()) t = t->getPointeeType();
    if (const CXXRecordDecl *r = t->getAsCXXRecordDecl()) return qn(r);
    return "";
  }
  std::string qn(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, PP);
    os.flush();
    if (const auto *ts = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
      (void)ts;
    }
    return s;
  }

  // ---- per function state
  std::map<const Stmt *, int> ids;
  json::Object *nodes = nullptr;
  std::map<const Stmt *, int> tryIds;
  std::map<const Decl *, int> declIds;
  int nextId = 0, nextDecl = 0;
  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = declIds.find(d);
    if (it != declIds.end()) return it->second;
    return declIds[d] = nextDecl++;
  }
  std::map<const Stmt *, const Stmt *> tryOf; // any stmt -> innermost enclosing try (body only)

  void mapTry(const Stmt *s, const Stmt *cur) {
    if (!s) return;
    tryOf[s] = cur;
    if (const auto *t = dyn_cast<CXXTryStmt>(s)) {
      int k = tryIds.size();
      tryIds[t] = k;
      mapTry(t->getTryBlock(), t);
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) mapTry(t->getHandler(i), cur);
      return;
    }
    for (const Stmt *c : s->children()) mapTry(c, cur);
    if (const auto *d = dyn_cast<CXXDefaultArgExpr>(s)) mapTry(d->getExpr(), cur);
  }

  const Stmt *strip(const Stmt *s) {
    while (s) {
      if (auto *e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<ImplicitCastExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
      else if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
      else if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) s = e->getExpr();
      else if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
      else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
        // elidable copies are not evaluated
        if (e->isElidable() && e->getNumArgs() >= 1) s = e->getArg(0); else break;
      }
      else if (auto *e = dyn_cast<CXXFunctionalCastExpr>(s)) {
        const Stmt *sub = e->getSubExpr()->IgnoreImplicit();
        if (isa<CXXConstructExpr>(sub)) s = sub; else break;
      }
      else if (auto *e = dyn_cast<OpaqueValueExpr>(s)) {
        if (e->getSourceExpr()) s = e->getSourceExpr(); else break;
      }
      else break;
    }
    return s;
  }

  void calleeInfo(json::Object &o, const FunctionDecl *f) {
    if (!f) return;
    o["f"] = qn(f);
    o["u"] = usr(f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["c"] = qn(m->getParent());
      if (m->isConst()) o["const"] = true;
      if (m->isStatic()) o["static"] = true;
    }
    const auto *fpt = f->getType()->getAs<FunctionProtoType>();
    if (fpt && fpt->isNothrow()) o["nothrow"] = true;
    if (f->hasAttr<NoThrowAttr>()) o["nothrow"] = true;
    if (f->isNoReturn()) o["noreturn"] = true;
    if (!inRepo(f->getLocation())) o["ext"] = true;
    // by-reference / pointer parameter flags
    json::Array pr;
    for (auto *p : f->parameters()) {
      QualType t = p->getType();
      std::string k = "v";
      if (t->isReferenceType()) k = t->getPointeeType().isConstQualified() ? "cr" : "r";
      else if (t->isPointerType()) k = t->getPointeeType().isConstQualified() ? "cp" : "p";
      pr.push_back(k);
    }
    o["pk"] = std::move(pr);
  }

  json::Value node(const Stmt *s) {
    s = strip(s);
    if (!s) return nullptr;
    auto it = ids.find(s);
    if (it != ids.end()) return it->second;
    int id = nextId++;
    ids[s] = id;
    json::Object o;
    o["l"] = line(s->getBeginLoc());
    {
      auto t = tryOf.find(s);
      if (t != tryOf.end() && t->second) o["y"] = tryIds[t->second];
    }
    if (const Expr *e = dyn_cast<Expr>(s)) {
      o["t"] = ty(e->getType());
      std::string c = clsOf(e->getType());
      if (!c.empty()) o["tc"] = c;
      if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<CallExpr>(e)) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
          llvm::SmallString<32> b;
          r.Val.getInt().toString(b);
          if (b.size() < 18) o["cv"] = (int64_t)std::stoll(std::string(b.str()));
        }
      }
    }
    fill(o, s);
    (*nodes)[std::to_string(id)] = std::move(o);
    return id;
  }

  template <class R> json::Array list(R r) {
    json::Array a;
    for (auto *e : r) a.push_back(node(e));
    return a;
  }

  void fill(json::Object &o, const Stmt *s) {
    if (auto *e = dyn_cast<DeclRefExpr>(s)) {
      const ValueDecl *d = e->getDecl();
      if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fn";
        calleeInfo(o, f);
        return;
      }
      o["k"] = "ref";
      o["n"] = qn(d);
      if (isa<EnumConstantDecl>(d)) o["dk"] = "enum";
      else if (auto *v = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(v)) o["dk"] = "param";
        else if (v->isLocalVarDecl() && !v->isStaticLocal()) o["dk"] = "local";
        else o["dk"] = "global";
        o["n"] = v->isLocalVarDeclOrParm() ? v->getNameAsString() : qn(v);
        if (v->isStaticLocal()) o["sl"] = true;
        o["d"] = declId(d);
      } else if (auto *fd = dyn_cast<FieldDecl>(d)) {
        o["dk"] = "field";
        (void)fd;
      } else o["dk"] = "other";
      return;
    }
    if (auto *e = dyn_cast<MemberExpr>(s)) {
      const ValueDecl *d = e->getMemberDecl();
      if (isa<VarDecl>(d)) { o["k"] = "ref"; o["dk"] = "global"; o["n"] = qn(d); o["d"] = declId(d); return; }
      if (isa<EnumConstantDecl>(d)) { o["k"] = "ref"; o["dk"] = "enum"; o["n"] = qn(d); return; }
      o["k"] = "mem";
      o["n"] = qn(d);
      o["b"] = node(e->getBase());
      if (auto *f = dyn_cast<FunctionDecl>(d)) { o["k"] = "memfn"; calleeInfo(o, f); }
      return;
    }
    if (isa<CXXThisExpr>(s)) { o["k"] = "this"; return; }
    if (auto *e = dyn_cast<CXXMemberCallExpr>(s)) {
      o["k"] = "call";
      const CXXMethodDecl *m = e->getMethodDecl();
      calleeInfo(o, m);
      o["o"] = node(e->getImplicitObjectArgument());
      o["a"] = list(e->arguments());
      if (auto *me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens()))
        if (m && m->isVirtual() && !me->hasQualifier()) o["virt"] = true;
      if (m && isa<CXXDestructorDecl>(m)) o["dtorcall"] = true;
      return;
    }
    if (auto *e = dyn_cast<CXXOperatorCallExpr>(s)) {
      o["k"] = "call";
      const FunctionDecl *f = e->getDirectCallee();
      calleeInfo(o, f);
      o["op"] = getOperatorSpelling(e->getOperator());
      json::Array a;
      unsigned i = 0;
      if (f && isa<CXXMethodDecl>(f) && e->getNumArgs()) { o["o"] = node(e->getArg(0)); i = 1; 
        if (cast<CXXMethodDecl>(f)->isVirtual()) o["virt"] = true; }
      for (; i < e->getNumArgs(); ++i) a.push_back(node(e->getArg(i)));
      o["a"] = std::move(a);
      return;
    }
    if (auto *e = dyn_cast<CallExpr>(s)) {
      o["k"] = "call";
      if (auto *f = e->getDirectCallee()) calleeInfo(o, f);
      else o["fp"] = node(e->getCallee());
      o["a"] = list(e->arguments());
      return;
    }
    if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
      o["k"] = "ctor";
      calleeInfo(o, e->getConstructor());
      if (e->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (!e->getConstructor()->isExplicit() && e->getNumArgs() == 1) o["conv"] = true;
      o["a"] = list(e->arguments());
      return;
    }
    if (auto *e = dyn_cast<CXXNewExpr>(s)) {
      o["k"] = "new";
      o["nt"] = ty(e->getAllocatedType());
      if (e->isArray() && e->getArraySize()) o["arr"] = node(*e->getArraySize());
      if (e->getNumPlacementArgs()) o["pl"] = true;
      if (e->getInitializer()) o["i"] = node(e->getInitializer());
      return;
    }
    if (auto *e = dyn_cast<CXXDeleteExpr>(s)) {
      o["k"] = "delete";
      o["x"] = node(e->getArgument());
      if (e->isArrayForm()) o["arr"] = true;
      return;
    }
    if (auto *e = dyn_cast<BinaryOperator>(s)) {
      if (e->isAssignmentOp()) o["k"] = "asg"; else o["k"] = "bin";
      o["op"] = std::string(e->getOpcodeStr());
      o["x"] = node(e->getLHS());
      o["r"] = node(e->getRHS());
      if (e->isComparisonOp()) o["ct"] = ty(e->getLHS()->getType());
      return;
    }
    if (auto *e = dyn_cast<UnaryOperator>(s)) {
      if (e->getOpcode() == UO_AddrOf) {
        if (auto *dr = dyn_cast<DeclRefExpr>(e->getSubExpr()->IgnoreParens()))
          if (auto *f = dyn_cast<FunctionDecl>(dr->getDecl())) {
            o["k"] = "fn";
            calleeInfo(o, f);
            if (isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->isVirtual()) o["virt"] = true;
            return;
          }
      }
      o["k"] = "un";
      o["op"] = std::string(UnaryOperator::getOpcodeStr(e->getOpcode()));
      if (e->isPostfix()) o["post"] = true;
      o["x"] = node(e->getSubExpr());
      return;
    }
    if (auto *e = dyn_cast<AbstractConditionalOperator>(s)) {
      o["k"] = "cond";
      o["c"] = node(e->getCond());
      o["x"] = node(e->getTrueExpr());
      o["r"] = node(e->getFalseExpr());
      return;
    }
    if (auto *e = dyn_cast<ArraySubscriptExpr>(s)) {
      o["k"] = "idx";
      o["b"] = node(e->getBase());
      o["i"] = node(e->getIdx());
      QualType bt = e->getBase()->IgnoreParenImpCasts()->getType();
      if (auto *ca = C.getAsConstantArrayType(bt)) o["n"] = (int64_t)ca->getSize().getZExtValue();
      return;
    }
    if (auto *e = dyn_cast<IntegerLiteral>(s)) { o["k"] = "int"; (void)e; return; }
    if (auto *e = dyn_cast<CharacterLiteral>(s)) { o["k"] = "int"; o["chr"] = true; (void)e; return; }
    if (isa<CXXBoolLiteralExpr>(s)) { o["k"] = "int"; return; }
    if (auto *e = dyn_cast<StringLiteral>(s)) {
      o["k"] = "str";
      std::string v = e->getCharByteWidth() == 1 ? e->getString().str() : "";
      o["v"] = json::isUTF8(v) ? v : json::fixUTF8(v);
      if (!json::isUTF8(v) && v.size() <= 64) {
        std::string hx;
        for (unsigned char ch : v) { hx += "0123456789abcdef"[ch >> 4]; hx += "0123456789abcdef"[ch & 15]; }
        o["hx"] = hx;
      }
      return;
    }
    if (auto *e = dyn_cast<FloatingLiteral>(s)) { o["k"] = "flt"; o["v"] = e->getValueAsApproximateDouble(); return; }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { o["k"] = "int"; o["cv"] = 0; return; }
    if (auto *e = dyn_cast<ExplicitCastExpr>(s)) {
      o["k"] = "cast";
      o["to"] = ty(e->getTypeAsWritten());
      o["x"] = node(e->getSubExpr());
      o["ft"] = ty(e->getSubExpr()->getType());
      std::string kc = e->getStmtClassName();
      o["cc"] = kc;
      return;
    }
    if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { o["k"] = "sizeof"; o["st"] = ty(e->getTypeOfArgument()); return; }
    if (auto *r = dyn_cast<ReturnStmt>(s)) { o["k"] = "ret"; o["x"] = r->getRetValue() ? node(r->getRetValue()) : json::Value(nullptr); return; }
    if (auto *d = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array ds;
      for (auto *x : d->decls())
        if (auto *v = dyn_cast<VarDecl>(x)) {
          json::Object q;
          q["d"] = declId(v);
          q["n"] = v->getNameAsString();
          q["t"] = ty(v->getType());
          q["tc"] = clsOf(v->getType());
          if (v->getType()->isReferenceType()) q["ref"] = true;
          if (v->isStaticLocal()) q["static"] = true;
          if (v->getInit()) q["i"] = node(v->getInit());
          if (v->getInit() && isa<CXXConstructExpr>(v->getInit()) && v->getInitStyle() == VarDecl::CInit && cast<CXXConstructExpr>(v->getInit())->getNumArgs() == 0) q["defctor"] = true;
          if (auto *ca = C.getAsConstantArrayType(v->getType())) q["asz"] = (int64_t)ca->getSize().getZExtValue();
          ds.push_back(std::move(q));
        }
      o["ds"] = std::move(ds);
      return;
    }
    if (auto *e = dyn_cast<CXXThrowExpr>(s)) {
      o["k"] = "throw";
      o["x"] = e->getSubExpr() ? node(e->getSubExpr()) : json::Value(nullptr);
      o["tt"] = e->getSubExpr() ? ty(e->getSubExpr()->getType().getUnqualifiedType()) : "";
      return;
    }
    if (auto *e = dyn_cast<InitListExpr>(s)) {
      o["k"] = "ilist";
      json::Array a;
      for (auto *x : e->inits()) a.push_back(node(x));
      o["a"] = std::move(a);
      return;
    }
    if (isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) { o["k"] = "int"; o["cv"] = 0; return; }
    o["k"] = "other";
    o["sc"] = s->getStmtClassName();
    json::Array a;
    if (isa<Expr>(s))
      for (const Stmt *c : s->children()) a.push_back(node(c));
    o["a"] = std::move(a);
  }

  bool interesting(const Stmt *s) {
    if (isa<DefaultStmt>(s) || isa<CaseStmt>(s) || isa<NullStmt>(s)) return false;
    return true;
  }

  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody()) return true;
    if (f->isDependentContext() || f->isTemplated()) return true;
    if (f->isDefaulted() && !f->isUserProvided()) return true;
    if (!inRepo(f->getLocation())) return true;
    std::string file = fileOf(f->getLocation());
    if (file.find("jsoncpp") != std::string::npos || file.find("include/json") != std::string::npos) return true;
    std::string u = usr(f);
    if (!seenF.insert(u).second) return true;
    emitFunction(f, u, file);
    return true;
  }

  void emitFunction(FunctionDecl *f, const std::string &u, const std::string &file) {
    json::Object o;
    o["u"] = u;
    o["f"] = qn(f);
    o["n"] = f->getNameAsString();
    o["file"] = file;
    o["l"] = line(f->getLocation());
    o["el"] = line(f->getBody()->getEndLoc());
    o["rt"] = ty(f->getReturnType());
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["c"] = qn(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isStatic()) o["static"] = true;
      if (m->isConst()) o["const"] = true;
      json::Array ov;
      std::vector<const CXXMethodDecl *> todo(m->begin_overridden_methods(), m->end_overridden_methods());
      while (!todo.empty()) {
        auto *x = todo.back(); todo.pop_back();
        ov.push_back(usr(x));
        todo.insert(todo.end(), x->begin_overridden_methods(), x->end_overridden_methods());
      }
      o["ov"] = std::move(ov);
      o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
    }
    if (isa<CXXConstructorDecl>(f)) o["ctor"] = true;
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    if (f->isImplicit()) o["implicit"] = true;
    if (!f->isExternallyVisible()) o["internal"] = true;

    ids.clear(); tryOf.clear(); tryIds.clear(); declIds.clear();
    nextId = 0; nextDecl = 0;
    json::Object ns;
    nodes = &ns;
    json::Array ps;
    for (auto *p : f->parameters()) {
      json::Object q;
      q["d"] = declId(p);
      q["n"] = p->getNameAsString();
      q["t"] = ty(p->getType());
      q["tc"] = clsOf(p->getType());
      ps.push_back(std::move(q));
    }
    o["ps"] = std::move(ps);
    mapTry(f->getBody(), nullptr);
    if (auto *cd = dyn_cast<CXXConstructorDecl>(f))
      for (auto *in : cd->inits()) mapTry(in->getInit(), nullptr);

    CFG::BuildOptions bo;
    bo.setAllAlwaysAdd();
    bo.AddImplicitDtors = true;
    bo.AddTemporaryDtors = true;
    bo.AddInitializers = true;
    bo.PruneTriviallyFalseEdges = true;
    bo.AddEHEdges = false;
    std::unique_ptr<CFG> cfg = CFG::buildCFG(f, f->getBody(), &C, bo);
    if (!cfg) { llvm::errs() << "no CFG for " << qn(f) << "\n"; o["nocfg"] = true; funcs.push_back(std::move(o)); return; }
    json::Array bs;
    std::map<const Stmt *, int> handlerBlock;
    for (CFGBlock *b : *cfg) {
      json::Object jb;
      jb["id"] = (int)b->getBlockID();
      json::Array es;
      std::set<int> emitted;
      for (auto &el : *b) {
        json::Object je;
        switch (el.getKind()) {
        case CFGElement::Statement:
        case CFGElement::Constructor:
        case CFGElement::CXXRecordTypedCall: {
          const Stmt *st = el.castAs<CFGStmt>().getStmt();
          if (!interesting(st)) continue;
          const Stmt *ss = strip(st);
          if (ss != st) continue;   // wrapper: the inner element was already emitted
          json::Value v = node(st);
          if (auto i = v.getAsInteger()) { if (!emitted.insert((int)*i).second) continue; }
          es.push_back(std::move(v));
          continue;
        }
        case CFGElement::Initializer: {
          auto *in = el.castAs<CFGInitializer>().getInitializer();
          je["e"] = "init";
          if (in->isAnyMemberInitializer()) { je["n"] = qn(in->getAnyMember()); }
          else if (in->isBaseInitializer()) je["base"] = ty(QualType(in->getBaseClass(), 0));
          je["x"] = node(in->getInit());
          if (!in->isWritten()) je["implicit"] = true;
          break;
        }
        case CFGElement::AutomaticObjectDtor: {
          auto d = el.castAs<CFGAutomaticObjDtor>();
          je["e"] = "dtor";
          je["d"] = declId(d.getVarDecl());
          je["tc"] = clsOf(d.getVarDecl()->getType());
          je["n"] = d.getVarDecl()->getNameAsString();
          je["l"] = line(d.getTriggerStmt()->getEndLoc());
          break;
        }
        case CFGElement::TemporaryDtor: {
          auto d = el.castAs<CFGTemporaryDtor>();
          je["e"] = "tdtor";
          je["x"] = node(d.getBindTemporaryExpr()->getSubExpr());
          je["tc"] = clsOf(d.getBindTemporaryExpr()->getType());
          break;
        }
        case CFGElement::DeleteDtor: continue;
        case CFGElement::MemberDtor: continue;
        case CFGElement::BaseDtor: continue;
        default: continue;
        }
        es.push_back(std::move(je));
      }
      jb["s"] = std::move(es);
      if (const Stmt *lab = b->getLabel()) {
        if (auto *cs = dyn_cast<CaseStmt>(lab)) {
          Expr::EvalResult r;
          if (cs->getLHS()->EvaluateAsInt(r, C)) jb["case"] = (int64_t)r.Val.getInt().getExtValue();
        } else if (isa<DefaultStmt>(lab)) jb["default"] = true;
        else if (auto *h = dyn_cast<CXXCatchStmt>(lab)) {
          handlerBlock[h] = b->getBlockID();
        }
      }
      CFGTerminator t = b->getTerminator();
      if (t.isValid() && t.isStmtBranch()) {
        const Stmt *ts = t.getStmt();
        jb["tk"] = ts->getStmtClassName();
        if (isa<CXXTryStmt>(ts)) jb["try"] = tryIds[ts];
        else if (const Stmt *c = b->getTerminatorCondition(false)) jb["tc"] = node(c);
        jb["tl"] = line(ts->getBeginLoc());
      } else if (t.isValid() && t.isTemporaryDtorsBranch()) {
        jb["tk"] = "tmpdtor";
      }
      json::Array ss;
      for (auto &sx : b->succs()) {
        if (CFGBlock *x = sx.getReachableBlock()) ss.push_back((int)x->getBlockID());
        else ss.push_back(nullptr);
      }
      jb["to"] = std::move(ss);
      if (b->hasNoReturnElement()) jb["nr"] = true;
      bs.push_back(std::move(jb));
    }
    o["b"] = std::move(bs);
    o["entry"] = (int)cfg->getEntry().getBlockID();
    o["exit"] = (int)cfg->getExit().getBlockID();
    json::Array tr;
    tr = json::Array(std::vector<json::Value>(tryIds.size(), nullptr));
    for (auto &p : tryIds) {
      auto *t = cast<CXXTryStmt>(p.first);
      json::Object jt;
      auto po = tryOf.find(t);
      jt["parent"] = (po != tryOf.end() && po->second) ? json::Value(tryIds[po->second]) : json::Value(nullptr);
      json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
        auto *h = t->getHandler(i);
        json::Object jh;
        jh["t"] = h->getExceptionDecl() ? ty(h->getCaughtType().getNonReferenceType().getUnqualifiedType()) : "...";
        auto hb = handlerBlock.find(h);
        jh["b"] = hb == handlerBlock.end() ? json::Value(nullptr) : json::Value(hb->second);
        hs.push_back(std::move(jh));
      }
      jt["h"] = std::move(hs);
      jt["l"] = line(t->getBeginLoc());
      tr[p.second] = std::move(jt);
    }
    o["try"] = std::move(tr);
    o["nodes"] = std::move(ns);
    nodes = nullptr;
    funcs.push_back(std::move(o));
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentType()) return true;
    if (r->isInvalidDecl()) return true;
    if (!inRepo(r->getLocation())) return true;
    std::string file = fileOf(r->getLocation());
    if (file.find("include/json") != std::string::npos) return true;
    std::string u = usr(r);
    if (!seenC.insert(u).second) return true;
    json::Object o;
    o["n"] = qn(r);
    o["t"] = ty(C.getRecordType(r));
    o["file"] = file;
    o["l"] = line(r->getLocation());
    json::Array bs;
    for (auto &b : r->bases()) bs.push_back(ty(b.getType()));
    o["bases"] = std::move(bs);
    json::Array fs;
    const ASTRecordLayout &L = C.getASTRecordLayout(r);
    o["size"] = (int64_t)L.getSize().getQuantity();
    for (auto *f : r->fields()) {
      json::Object q;
      q["n"] = qn(f);
      q["t"] = ty(f->getType());
      q["ts"] = tyS(f->getType());
      q["tc"] = clsOf(f->getType());
      q["off"] = (int64_t)L.getFieldOffset(f->getFieldIndex()) / 8;
      if (f->getType()->isScalarType()) q["scalar"] = true;
      if (f->getType()->isArrayType()) q["array"] = true;
      if (f->getType()->isReferenceType()) q["ref"] = true;
      q["l"] = line(f->getLocation());
      fs.push_back(std::move(q));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    bool uctor = false;
    for (auto *m : r->methods()) {
      if (m->isImplicit()) continue;
      if (isa<CXXConstructorDecl>(m)) uctor = true;
      json::Object q;
      q["n"] = m->getNameAsString();
      q["u"] = usr(m);
      if (m->isVirtual()) q["virt"] = true;
      if (m->isPureVirtual()) q["pure"] = true;
      json::Array ov;
      std::vector<const CXXMethodDecl *> todo(m->begin_overridden_methods(), m->end_overridden_methods());
      while (!todo.empty()) {
        auto *x = todo.back(); todo.pop_back();
        ov.push_back(usr(x));
        todo.insert(todo.end(), x->begin_overridden_methods(), x->end_overridden_methods());
      }
      q["ov"] = std::move(ov);
      ms.push_back(std::move(q));
    }
    o["methods"] = std::move(ms);
    o["userctor"] = uctor;
    o["pod"] = r->isPOD();
    classes.push_back(std::move(o));
    return true;
  }

  bool VisitVarDecl(VarDecl *v) {
    if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return true;
    if (isa<ParmVarDecl>(v)) return true;
    if (v->isTemplated() || v->getType()->isDependentType()) return true;
    if (!inRepo(v->getLocation())) return true;
    if (!v->isThisDeclarationADefinition()) return true;
    std::string u = usr(v);
    if (!seenG.insert(u).second) return true;
    json::Object o;
    o["n"] = v->isStaticLocal() ? v->getNameAsString() : qn(v);
    o["t"] = ty(v->getType());
    o["tc"] = clsOf(v->getType());
    o["file"] = fileOf(v->getLocation());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["sl"] = true;
    if (v->getType().isConstQualified()) o["const"] = true;
    if (v->getInit() && !v->getInit()->isValueDependent()) {
      if (v->getType()->isIntegralOrEnumerationType()) {
        if (const APValue *a = v->evaluateValue())
          if (a->isInt()) o["cv"] = (int64_t)a->getInt().getExtValue();
      }
      ids.clear(); tryOf.clear(); tryIds.clear(); declIds.clear(); nextId = 0; nextDecl = 0;
      json::Object ns;
      nodes = &ns;
      o["init"] = node(v->getInit());
      o["nodes"] = std::move(ns);
      nodes = nullptr;
    }
    globals.push_back(std::move(o));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Extract x(c);
    x.TraverseDecl(c.getTranslationUnitDecl());
    json::Object o;
    o["functions"] = std::move(x.funcs);
    o["classes"] = std::move(x.classes);
    o["globals"] = std::move(x.globals);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(o));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: istfacts ROOT OUT FILE -- flags\n"; return 2; }
  g_root = argv[1];
  g_out = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(g_root, flags);
  tooling::ClangTool tool(db, {file});
  auto fac = tooling::newFrontendActionFactory<Action>();
  return tool.run(fac.get());
}
