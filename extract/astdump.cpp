// astdump: clang LibTooling program.  Parses a driver translation unit that includes the real
// /repo headers and prints, as JSON, the body of every non-dependent function defined under a
// given path prefix (template instantiations included).  It only serialises the AST.
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
using namespace clang;
namespace J = llvm::json;

static std::string Prefix;
static J::Array Functions, Records;

struct Dumper {
  ASTContext &C;
  std::map<const Decl*, int> ids;
  std::set<const RecordDecl*> recs;
  Dumper(ASTContext &c) : C(c) {}
  int id(const Decl *d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; int k = ids.size()+1; ids[d]=k; return k; }

  J::Value targ(const TemplateArgument &a) {
    switch (a.getKind()) {
      case TemplateArgument::Type: return type(a.getAsType());
      case TemplateArgument::Integral: return J::Value((int64_t)a.getAsIntegral().getExtValue());
      case TemplateArgument::Pack: { J::Array r; for (auto &x : a.pack_elements()) r.push_back(targ(x)); return J::Object{{"pack", std::move(r)}}; }
      default: return J::Value("?");
    }
  }
  J::Value type(QualType q) {
    if (q.isNull()) return J::Value("?");
    q = q.getCanonicalType();
    bool cq = q.isConstQualified();
    const Type *t = q.getTypePtr();
    if (auto *r = dyn_cast<ReferenceType>(t)) {
      QualType p = r->getPointeeType();
      return J::Object{{"ref", type(p.getUnqualifiedType())},{"const", p.isConstQualified()},{"rv", isa<RValueReferenceType>(t)}};
    }
    if (auto *p = dyn_cast<PointerType>(t)) {
      QualType pt = p->getPointeeType();
      return J::Object{{"ptr", type(pt.getUnqualifiedType())},{"const", pt.isConstQualified()}};
    }
    if (auto *b = dyn_cast<BuiltinType>(t)) { (void)b; return J::Value(q.getUnqualifiedType().getAsString()); }
    if (auto *r = dyn_cast<RecordType>(t)) {
      auto *d = r->getDecl();
      J::Object o{{"r", d->getQualifiedNameAsString()}};
      if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
        J::Array a; for (auto &x : s->getTemplateArgs().asArray()) a.push_back(targ(x));
        o["a"] = std::move(a);
      }
      // enclosing class specialization
      if (auto *p = dyn_cast<ClassTemplateSpecializationDecl>(d->getDeclContext())) {
        J::Array a; for (auto &x : p->getTemplateArgs().asArray()) a.push_back(targ(x));
        o["pa"] = std::move(a);
      }
      if (d->isLambda()) o["lambda"] = true;
      noteRecord(d);
      return o;
    }
    if (auto *a = dyn_cast<ConstantArrayType>(t)) return J::Object{{"arr", type(a->getElementType())},{"n",(int64_t)a->getSize().getZExtValue()}};
    return J::Value(q.getUnqualifiedType().getAsString());
    (void)cq;
  }
  bool inScope(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = C.getSourceManager().getExpansionLoc(l);
    auto f = C.getSourceManager().getFilename(l);
    return f.starts_with(Prefix);
  }
  std::string loc(SourceLocation l) {
    auto p = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(l));
    if (p.isInvalid()) return "?";
    return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }
  void noteRecord(const RecordDecl *d0) {
    auto *d = d0->getDefinition(); if (!d) return;
    SourceLocation dl = d->getLocation();
    if (auto *cx = dyn_cast<CXXRecordDecl>(d)) if (auto *pt = cx->getTemplateInstantiationPattern()) dl = pt->getLocation();
    if (!inScope(dl)) return;
    if (!recs.insert(d).second) return;
    J::Array f;
    for (auto *x : d->fields()) {
      f.push_back(J::Object{{"name", x->getNameAsString()},{"t", type(x->getType())}});
    }
    J::Array bases;
    if (auto *cx = dyn_cast<CXXRecordDecl>(d)) for (auto &b : cx->bases()) bases.push_back(type(b.getType()));
    J::Object o{{"name", d->getQualifiedNameAsString()},{"fields", std::move(f)},{"bases", std::move(bases)},{"loc", loc(d->getLocation())}};
    if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
      J::Array a; for (auto &x : s->getTemplateArgs().asArray()) a.push_back(targ(x));
      o["a"] = std::move(a);
    }
    if (auto *cx = dyn_cast<CXXRecordDecl>(d)) {
      o["implicit_copy"] = cx->hasSimpleCopyConstructor() || (!cx->hasUserDeclaredCopyConstructor());
    }
    Records.push_back(std::move(o));
  }

  J::Object declref(const ValueDecl *d) {
    J::Object o{{"id", id(d)},{"name", d->getNameAsString()},{"q", d->getQualifiedNameAsString()},{"dk", d->getDeclKindName()},{"dt", type(d->getType())}};
    if (auto *f = dyn_cast<FunctionDecl>(d)) { o["fk"] = id(f); o["inscope"] = inScope(f->getLocation()); }
    if (auto *v = dyn_cast<VarDecl>(d)) { if (v->hasGlobalStorage()) o["global"] = true; }
    return o;
  }
  J::Value vardecl(const VarDecl *v) {
    J::Object o{{"k","VarDecl"},{"id", id(v)},{"name", v->getNameAsString()},{"t", type(v->getType())},{"const", v->getType().isConstQualified()}};
    if (v->isStaticLocal()) o["static"] = true;
    if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (v->hasInit()) o["init"] = node(v->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      J::Array b; for (auto *x : dd->bindings()) b.push_back(J::Object{{"id", id(x)},{"name", x->getNameAsString()},{"t", type(x->getType())}});
      o["bindings"] = std::move(b);
    }
    return o;
  }
  J::Value node(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) {
      // transparent wrappers
      if (auto *x = dyn_cast<ParenExpr>(e)) return node(x->getSubExpr());
      if (auto *x = dyn_cast<ExprWithCleanups>(e)) return node(x->getSubExpr());
      if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return node(x->getSubExpr());
      if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return node(x->getSubExpr());
      if (auto *x = dyn_cast<ConstantExpr>(e)) return node(x->getSubExpr());
      if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return node(x->getExpr());
      if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return node(x->getExpr());
      if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return node(x->getSemanticForm());
      if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return node(x->getSubExpr());
    }
    J::Object o{{"k", s->getStmtClassName()},{"l", (int64_t)C.getSourceManager().getExpansionLineNumber(s->getBeginLoc())}};
    if (auto *e = dyn_cast<Expr>(s)) o["t"] = type(e->getType()), o["lv"] = e->isLValue();
    J::Array ch;
    bool kids = true;
    if (auto *x = dyn_cast<DeclRefExpr>(s)) { o["d"] = declref(x->getDecl()); kids = false; }
    else if (auto *x = dyn_cast<MemberExpr>(s)) {
      o["m"] = declref(x->getMemberDecl()); o["arrow"] = x->isArrow();
    }
    else if (auto *x = dyn_cast<IntegerLiteral>(s)) { o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()); kids=false; }
    else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(s)) { o["v"] = x->getValue(); kids=false; }
    else if (auto *x = dyn_cast<FloatingLiteral>(s)) { llvm::SmallString<32> b; x->getValue().toString(b); o["v"] = b.str().str(); kids=false; }
    else if (auto *x = dyn_cast<CharacterLiteral>(s)) { o["v"] = (int64_t)x->getValue(); kids=false; }
    else if (auto *x = dyn_cast<StringLiteral>(s)) { kids=false; if (x->getCharByteWidth()==1) o["v"] = x->getString().str(); }
    else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { o["name"] = x->getParameter()->getNameAsString(); ch.push_back(node(x->getReplacement())); kids=false; }
    else if (auto *x = dyn_cast<UnaryOperator>(s)) { o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["postfix"] = x->isPostfix(); }
    else if (auto *x = dyn_cast<BinaryOperator>(s)) { o["op"] = x->getOpcodeStr().str(); 
      if (auto *ca = dyn_cast<CompoundAssignOperator>(s)) { o["ct"] = type(ca->getComputationResultType()); o["clt"] = type(ca->getComputationLHSType()); } }
    else if (auto *x = dyn_cast<CastExpr>(s)) { o["ck"] = x->getCastKindName(); if (auto *cv = x->getConversionFunction()) o["conv"] = declref(cast<ValueDecl>(cv)); }
    else if (auto *x = dyn_cast<CXXConstructExpr>(s)) {
      auto *cd = x->getConstructor();
      o["ctor"] = declref(cd); o["copy"] = cd->isCopyConstructor(); o["move"] = cd->isMoveConstructor(); o["default"] = cd->isDefaultConstructor();
      o["implicit"] = cd->isImplicit() || cd->isDefaulted();
      o["listinit"] = x->isStdInitListInitialization();
    }
    else if (auto *x = dyn_cast<CallExpr>(s)) {
      kids = false;
      if (auto *f = x->getDirectCallee()) {
        o["f"] = declref(f);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) { o["method"] = true; o["mconst"] = m->isConst(); o["mstatic"] = m->isStatic(); o["rec"] = type(C.getRecordType(m->getParent())); 
           o["defop"] = m->isImplicit() || m->isDefaulted(); }
        J::Array pt; for (auto *p : f->parameters()) pt.push_back(type(p->getType())); o["pt"] = std::move(pt);
        o["rt"] = type(f->getReturnType());
        if (auto *ta = f->getTemplateSpecializationArgs()) { J::Array a; for (auto &z : ta->asArray()) a.push_back(targ(z)); o["ta"] = std::move(a); }
      } else o["callee"] = node(x->getCallee());
      if (auto *oc = dyn_cast<CXXOperatorCallExpr>(s)) o["op"] = getOperatorSpelling(oc->getOperator());
      if (auto *mc = dyn_cast<CXXMemberCallExpr>(s)) { o["obj"] = node(mc->getImplicitObjectArgument()); 
          if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) o["oarrow"] = me->isArrow(); }
      for (auto *a : x->arguments()) ch.push_back(node(a));
    }
    else if (auto *x = dyn_cast<DeclStmt>(s)) {
      kids = false;
      for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) ch.push_back(vardecl(v));
        else ch.push_back(J::Object{{"k", std::string("Decl_")+d->getDeclKindName()}});
    }
    else if (auto *x = dyn_cast<IfStmt>(s)) {
      kids=false; o["init"] = node(x->getInit()); o["cond"]=node(x->getCond()); o["then"]=node(x->getThen()); o["else"]=node(x->getElse()); o["constexpr"] = x->isConstexpr();
      if (x->getConditionVariable()) o["cvar"] = vardecl(x->getConditionVariable());
    }
    else if (auto *x = dyn_cast<WhileStmt>(s)) { kids=false; o["cond"]=node(x->getCond()); o["body"]=node(x->getBody()); if (x->getConditionVariable()) o["cvar"] = vardecl(x->getConditionVariable()); }
    else if (auto *x = dyn_cast<DoStmt>(s)) { kids=false; o["cond"]=node(x->getCond()); o["body"]=node(x->getBody()); }
    else if (auto *x = dyn_cast<ForStmt>(s)) { kids=false; o["init"]=node(x->getInit()); o["cond"]=node(x->getCond()); o["inc"]=node(x->getInc()); o["body"]=node(x->getBody()); }
    else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { kids=false; o["var"]=vardecl(x->getLoopVariable()); o["range"]=node(x->getRangeInit()); o["body"]=node(x->getBody()); }
    else if (auto *x = dyn_cast<LambdaExpr>(s)) {
      kids=false; J::Array ps; for (auto *p : x->getCallOperator()->parameters()) ps.push_back(vardecl(p));
      o["params"]=std::move(ps); o["body"]=node(x->getBody()); o["rt"]=type(x->getCallOperator()->getReturnType());
    }
    else if (auto *x = dyn_cast<InitListExpr>(s)) { if (auto *sf = x->getSemanticForm()) { kids=false; for (auto *i : sf->inits()) ch.push_back(node(i)); } }
    else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { kids=false; Expr::EvalResult er; if (!x->isValueDependent() && x->EvaluateAsInt(er, C)) { o["k"]="IntegerLiteral"; o["v"]=llvm::toString(er.Val.getInt(), 10); } else o["op"]="sizeof"; }
    else if (auto *x = dyn_cast<CXXScalarValueInitExpr>(s)) { (void)x; kids=false; }
    else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(s)) { (void)x; }
    if (kids) for (auto *c : s->children()) ch.push_back(node(c));
    if (!ch.empty()) o["c"] = std::move(ch);
    return o;
  }
  void function(const FunctionDecl *f) {
    if (!f->isThisDeclarationADefinition() || f->isDependentContext()) return;
    if (!inScope(f->getLocation())) return;
    if (f->isImplicit()) return;
    if (!f->hasBody()) return;
    J::Array ps;
    for (auto *p : f->parameters()) ps.push_back(vardecl(p));
    J::Object o{{"id", id(f)},{"name", f->getNameAsString()},{"q", f->getQualifiedNameAsString()},{"loc", loc(f->getLocation())},
      {"rt", type(f->getReturnType())},{"params", std::move(ps)}};
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = type(C.getRecordType(m->getParent())); o["const"] = m->isConst(); o["static"] = m->isStatic();
      if (auto *cd = dyn_cast<CXXConstructorDecl>(f)) {
        o["ctor"] = true;
        J::Array in; for (auto *i : cd->inits()) {
          if (i->isMemberInitializer()) in.push_back(J::Object{{"m", i->getMember()->getNameAsString()},{"e", node(i->getInit())},{"written", i->isWritten()}});
          else if (i->isBaseInitializer()) in.push_back(J::Object{{"base", true},{"e", node(i->getInit())},{"written", i->isWritten()}});
          else if (i->isDelegatingInitializer()) in.push_back(J::Object{{"deleg", true},{"e", node(i->getInit())}});
        }
        o["inits"] = std::move(in);
      }
      if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    }
    if (auto *ta = f->getTemplateSpecializationArgs()) { J::Array a; for (auto &z : ta->asArray()) a.push_back(targ(z)); o["ta"] = std::move(a); }
    o["body"] = node(f->getBody());
    Functions.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper &D; V(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return false; }
  std::set<const FunctionDecl*> seen;
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    const FunctionDecl *def = nullptr;
    if (f->hasBody(def) && def && seen.insert(def).second) D.function(def);
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override { 
    Dumper D(C); V v(D); v.TraverseDecl(C.getTranslationUnitDecl()); }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  // astdump <prefix> <file> -- args...
  Prefix = argv[1];
  std::ifstream in(argv[2]); std::stringstream ss; ss << in.rdbuf();
  std::vector<std::string> args; for (int i = 3; i < argc; ++i) args.push_back(argv[i]);
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), ss.str(), args, argv[2]);
  llvm::outs() << J::Value(J::Object{{"ok", ok},{"functions", std::move(Functions)},{"records", std::move(Records)}});
  return ok ? 0 : 1;
}
