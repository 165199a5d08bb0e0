// Extracts the resolved program (typed AST + clang CFG) of every function defined under the given
// roots in one translation unit, as JSON.  Usage: extract SRC OUT.json ROOT[:ROOT...] -- flags...
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;
static std::string gOut;
static int gErrors = 0;

namespace {

class Extractor {
 public:
  Extractor(ASTContext& ctx, llvm::raw_ostream& os)
      : ctx_(ctx), sm_(ctx.getSourceManager()), pp_(ctx.getLangOpts()), J(os) {
    pp_.SuppressTagKeyword = true;
    pp_.Bool = true;
    pp_.SuppressUnwrittenScope = true;
    pp_.PrintCanonicalTypes = false;
    pp_.AnonymousTagLocations = true;
  }

  std::string fileOf(SourceLocation loc) {
    loc = sm_.getExpansionLoc(loc);
    auto fe = sm_.getFileEntryForID(sm_.getFileID(loc));
    if (!fe) return "";
    llvm::SmallString<256> p(fe->tryGetRealPathName());
    return std::string(p.str());
  }
  unsigned lineOf(SourceLocation loc) { return sm_.getExpansionLineNumber(loc); }

  bool inRoots(SourceLocation loc) {
    if (loc.isInvalid()) return false;
    FileID fid = sm_.getFileID(sm_.getExpansionLoc(loc));
    auto it = rootCache_.find(fid);
    if (it != rootCache_.end()) return it->second;
    std::string f = fileOf(loc);
    bool ok = false;
    for (auto& r : gRoots)
      if (f.compare(0, r.size(), r) == 0) ok = true;
    rootCache_[fid] = ok;
    return ok;
  }

  std::string typeStr(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(pp_);
  }

  int typeId(QualType t) {
    std::string s = typeStr(t);
    auto it = types_.find(s);
    if (it != types_.end()) return it->second;
    int id = types_.size();
    types_[s] = id;
    typeList_.push_back(s);
    return id;
  }

  int declId(const Decl* d) {
    if (!d) return -1;
    d = d->getCanonicalDecl();
    auto it = declIds_.find(d);
    if (it != declIds_.end()) return it->second;
    int id = declIds_.size();
    declIds_[d] = id;
    declList_.push_back(d);
    return id;
  }

  std::string usr(const Decl* d) {
    // lambdas (and what they contain) have ambiguous USRs: qualify by enclosing function + position
    for (const DeclContext* dc = isa<DeclContext>(d) ? cast<DeclContext>(d) : d->getDeclContext(); dc;
         dc = dc->getParent()) {
      auto r = dyn_cast<CXXRecordDecl>(dc);
      if (!r || !r->isLambda()) continue;
      std::string outer = "?";
      for (const DeclContext* o = r->getParent(); o; o = o->getParent())
        if (auto of = dyn_cast<FunctionDecl>(o)) {
          outer = usr(of);
          break;
        }
      llvm::SmallString<256> own;
      index::generateUSRForDecl(d, own);
      return outer + "$lambda@" + std::to_string(sm_.getExpansionLineNumber(r->getLocation())) + ":" +
             std::to_string(sm_.getExpansionColumnNumber(r->getLocation())) + "$" + std::string(own.str());
    }
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(d, buf)) {
      std::string s = "loc:" + fileOf(d->getLocation()) + ":" +
                      std::to_string(sm_.getExpansionLineNumber(d->getLocation())) + ":" +
                      std::to_string(sm_.getExpansionColumnNumber(d->getLocation()));
      if (auto nd = dyn_cast<NamedDecl>(d)) s += ":" + nd->getNameAsString();
      return s;
    }
    return std::string(buf.str());
  }

  std::string qname(const NamedDecl* nd) {
    std::string s;
    llvm::raw_string_ostream os(s);
    nd->printQualifiedName(os, pp_);
    return s;
  }

  void writeDecl(const Decl* d) {
    J.object([&] {
      J.attribute("k", d->getDeclKindName());
      if (auto nd = dyn_cast<NamedDecl>(d)) {
        J.attribute("q", qname(nd));
        J.attribute("n", nd->getNameAsString());
      }
      J.attribute("u", usr(d));
      if (d->getLocation().isValid()) {
        J.attribute("f", fileOf(d->getLocation()));
        J.attribute("l", (int64_t)lineOf(d->getLocation()));
      }
      if (auto vd = dyn_cast<ValueDecl>(d)) J.attribute("t", typeId(vd->getType()));
      if (auto rd = dyn_cast_or_null<RecordDecl>(d->getDeclContext()))
        J.attribute("p", declId(rd));
      if (auto f = dyn_cast<FieldDecl>(d)) {
        J.attribute("idx", (int64_t)f->getFieldIndex());
        if (f->isMutable()) J.attribute("mut", true);
        J.attribute("acc", (int64_t)f->getAccess());
        if (f->hasInClassInitializer()) J.attribute("init", true);
      }
      if (auto v = dyn_cast<VarDecl>(d)) {
        if (v->isStaticLocal()) J.attribute("sl", true);
        if (v->hasGlobalStorage()) J.attribute("gs", true);
        if (v->getTLSKind() != VarDecl::TLS_None) J.attribute("tls", true);
        if (auto p = dyn_cast<ParmVarDecl>(v)) {
          J.attribute("pidx", (int64_t)p->getFunctionScopeIndex());
          if (p->hasDefaultArg()) J.attribute("da", true);
        }
      }
      if (auto e = dyn_cast<EnumConstantDecl>(d)) {
        llvm::SmallString<32> s;
        e->getInitVal().toString(s);
        J.attribute("v", s.str());
        if (auto ed = dyn_cast<EnumDecl>(e->getDeclContext())) J.attribute("enum", qname(ed));
      }
      if (auto f = dyn_cast<FunctionDecl>(d)) {
        J.attribute("ret", typeId(f->getReturnType()));
        J.attributeArray("params", [&] {
          for (auto p : f->parameters()) J.value(declId(p));
        });
        J.attribute("acc", (int64_t)f->getAccess());
        if (f->isNoReturn()) J.attribute("nr", true);
        if (f->isImplicit()) J.attribute("impl", true);
        if (f->isDefaulted()) J.attribute("dflt", true);
        if (f->isDeleted()) J.attribute("del", true);
        if (f->isExternC()) J.attribute("xc", true);
        if (auto fpt = f->getType()->getAs<FunctionProtoType>()) {
          if (fpt->getExceptionSpecType() != EST_Unevaluated &&
              fpt->getExceptionSpecType() != EST_Uninstantiated && fpt->isNothrow())
            J.attribute("nothrow", true);
        }
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
          if (m->isVirtual()) J.attribute("virt", true);
          if (m->isPureVirtual()) J.attribute("pure", true);
          if (m->isConst()) J.attribute("const", true);
          if (m->isStatic()) J.attribute("static", true);
          if (m->size_overridden_methods()) {
            J.attributeArray("ov", [&] {
              for (auto o : m->overridden_methods()) J.value(declId(o));
            });
          }
          if (isa<CXXConstructorDecl>(m)) {
            auto c = cast<CXXConstructorDecl>(m);
            J.attribute("ctor", c->isCopyConstructor()   ? "copy"
                                : c->isMoveConstructor() ? "move"
                                : c->isDefaultConstructor() ? "default" : "other");
          }
          if (m->isCopyAssignmentOperator()) J.attribute("asg", "copy");
          if (m->isMoveAssignmentOperator()) J.attribute("asg", "move");
        }
        if (auto tp = f->getTemplateInstantiationPattern()) J.attribute("pat", usr(tp));
      }
    });
  }

  struct FnJob {
    const FunctionDecl* fd;
    int lambdaParent;
  };

  void addFunction(const FunctionDecl* fd, int lambdaParent = -1) {
    const FunctionDecl* def = nullptr;
    if (!fd->hasBody(def) || !def) return;
    if (def->isDependentContext() || def->isTemplated()) return;
    if (!inRoots(def->getLocation())) return;
    if (!seen_.insert(def).second) return;
    jobs_.push_back({def, lambdaParent});
  }

  void run(TranslationUnitDecl* tu) {
    collect(tu);
    J.objectBegin();
    J.attributeBegin("functions");
    J.arrayBegin();
    for (size_t i = 0; i < jobs_.size(); ++i) writeFunction(jobs_[i]);
    J.arrayEnd();
    J.attributeEnd();
    // global var initialisers
    J.attributeBegin("globals");
    J.arrayBegin();
    for (auto v : globals_) {
      J.object([&] {
        nodeIds_.clear(); nodes_.clear();
        J.attribute("d", declId(v));
        if (v->hasInit()) {
          int root = addNode(v->getInit());
          J.attribute("root", root);
          writeNodes();
        }
      });
    }
    J.arrayEnd();
    J.attributeEnd();
    // functions discovered while writing (lambdas in global initialisers) are not dumped
    J.attributeBegin("records");
    J.arrayBegin();
    for (size_t i = 0; i < records_.size(); ++i) writeRecord(records_[i]);
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("enums");
    J.arrayBegin();
    for (auto e : enums_) {
      J.object([&] {
        J.attribute("q", qname(e));
        J.attribute("f", fileOf(e->getLocation()));
        J.attribute("l", (int64_t)lineOf(e->getLocation()));
        J.attributeArray("c", [&] {
          for (auto c : e->enumerators()) {
            llvm::SmallString<32> s;
            c->getInitVal().toString(s);
            J.array([&] { J.value(c->getNameAsString()); J.value(s.str()); });
          }
        });
      });
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("decls");
    J.arrayBegin();
    for (size_t i = 0; i < declList_.size(); ++i) writeDecl(declList_[i]);
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("types");
    J.arrayBegin();
    for (auto& t : typeList_) J.value(t);
    J.arrayEnd();
    J.attributeEnd();
    J.attribute("errors", gErrors);
    J.objectEnd();
  }

 private:
  struct Collector : RecursiveASTVisitor<Collector> {
    Extractor& x;
    Collector(Extractor& x) : x(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
      x.addFunction(f);
      return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
      if (r->isThisDeclarationADefinition() && !r->isDependentContext() && !r->isLambda() &&
          x.inRoots(r->getLocation()))
        x.records_.push_back(r);
      return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
      if (e->isThisDeclarationADefinition() && x.inRoots(e->getLocation())) x.enums_.push_back(e);
      return true;
    }
    bool VisitVarDecl(VarDecl* v) {
      if (v->hasGlobalStorage() && !v->isStaticLocal() && x.inRoots(v->getLocation()) &&
          v->isThisDeclarationADefinition() == VarDecl::Definition && !v->getType()->isDependentType() &&
          !v->getDeclContext()->isDependentContext())
        x.globals_.push_back(v);
      return true;
    }
  };

  void collect(TranslationUnitDecl* tu) {
    Collector c(*this);
    c.TraverseDecl(tu);
  }

  void writeRecord(const CXXRecordDecl* r) {
    J.object([&] {
      J.attribute("d", declId(r));
      J.attribute("q", qname(r));
      J.attribute("t", typeId(ctx_.getRecordType(r)));
      J.attribute("u", usr(r));
      J.attribute("f", fileOf(r->getLocation()));
      J.attribute("l", (int64_t)lineOf(r->getLocation()));
      if (r->isUnion()) J.attribute("union", true);
      if (r->isAbstract()) J.attribute("abs", true);
      J.attributeArray("bases", [&] {
        for (auto& b : r->bases())
          if (auto br = b.getType()->getAsCXXRecordDecl()) J.value(declId(br));
      });
      J.attributeArray("fields", [&] {
        for (auto f : r->fields()) J.value(declId(f));
      });
      J.attributeArray("methods", [&] {
        for (auto m : r->methods()) J.value(declId(m));
      });
      J.attributeArray("inits", [&] {  // fields with in-class initialisers
        for (auto f : r->fields())
          if (f->hasInClassInitializer()) J.value(declId(f));
      });
    });
  }

  int addNode(const Stmt* s) {
    if (!s) return -1;
    auto it = nodeIds_.find(s);
    if (it != nodeIds_.end()) return it->second;
    int id = nodes_.size();
    nodeIds_[s] = id;
    nodes_.push_back(s);
    children_.emplace_back();
    std::vector<int> ch;
    if (auto de = dyn_cast<CXXDefaultArgExpr>(s)) {
      ch.push_back(addNode(de->getExpr()));
    } else if (auto di = dyn_cast<CXXDefaultInitExpr>(s)) {
      ch.push_back(addNode(di->getExpr()));
    } else if (auto il = dyn_cast<InitListExpr>(s)) {
      const InitListExpr* sem = il->isSemanticForm() ? il : il->getSemanticForm();
      if (!sem) sem = il;
      for (auto c : sem->inits()) ch.push_back(addNode(c));
    } else if (auto le = dyn_cast<LambdaExpr>(s)) {
      for (auto c : le->capture_inits()) ch.push_back(addNode(c));
      if (auto co = le->getCallOperator()) {
        if (!co->isDependentContext()) {
          addFunction(co, -1);
          if (auto td = le->getDependentCallOperator())
            for (auto sp : td->specializations()) addFunction(sp, -1);
        }
      }
    } else if (auto ds = dyn_cast<DeclStmt>(s)) {
      for (auto d : ds->decls()) {
        if (auto v = dyn_cast<VarDecl>(d)) {
          if (v->getInit()) ch.push_back(addNode(v->getInit()));
          if (auto dd = dyn_cast<DecompositionDecl>(v))
            for (auto b : dd->bindings())
              if (b->getBinding()) ch.push_back(addNode(b->getBinding()));
        }
      }
    } else if (isa<UnaryExprOrTypeTraitExpr>(s)) {
      auto u = cast<UnaryExprOrTypeTraitExpr>(s);
      if (!u->isArgumentType()) ch.push_back(addNode(u->getArgumentExpr()));
    } else {
      for (auto c : s->children()) ch.push_back(addNode(c));
    }
    children_[id] = std::move(ch);
    return id;
  }

  void writeNodes() {
    J.attributeBegin("nodes");
    J.arrayBegin();
    for (size_t i = 0; i < nodes_.size(); ++i) writeNode(nodes_[i], children_[i]);
    J.arrayEnd();
    J.attributeEnd();
    nodeIds_.clear();
    nodes_.clear();
    children_.clear();
  }

  void writeNode(const Stmt* s, const std::vector<int>& ch) {
    J.object([&] {
      J.attribute("k", s->getStmtClassName());
      if (s->getBeginLoc().isValid()) {
        J.attribute("l", (int64_t)lineOf(s->getBeginLoc()));
        if (s->getBeginLoc().isMacroID()) J.attribute("m", true);
      }
      if (!ch.empty())
        J.attributeArray("c", [&] {
          for (int c : ch) J.value(c);
        });
      if (auto e = dyn_cast<Expr>(s)) {
        J.attribute("t", typeId(e->getType()));
        if (e->isLValue()) J.attribute("lv", true);
        if (!e->isValueDependent() && !e->isTypeDependent() &&
            (e->getType()->isIntegralOrEnumerationType()) && !isa<IntegerLiteral>(e)) {
          Expr::EvalResult r;
          if (e->isPRValue() || isa<DeclRefExpr>(e)) {
            if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects)) {
              llvm::SmallString<32> str;
              r.Val.getInt().toString(str);
              J.attribute("cv", str.str());
            }
          }
        }
      }
      if (auto dr = dyn_cast<DeclRefExpr>(s)) J.attribute("d", declId(dr->getDecl()));
      if (auto me = dyn_cast<MemberExpr>(s)) {
        J.attribute("d", declId(me->getMemberDecl()));
        if (me->isArrow()) J.attribute("arrow", true);
        if (me->hasQualifier()) J.attribute("qual", true);
      }
      if (auto ce = dyn_cast<CallExpr>(s)) {
        if (auto fd = ce->getDirectCallee()) {
          J.attribute("fn", declId(fd));
          addFunction(fd);
        }
        if (auto oc = dyn_cast<CXXOperatorCallExpr>(ce))
          J.attribute("op", getOperatorSpelling(oc->getOperator()));
      }
      if (auto cc = dyn_cast<CXXConstructExpr>(s)) {
        J.attribute("fn", declId(cc->getConstructor()));
        addFunction(cc->getConstructor());
      }
      if (auto ic = dyn_cast<CXXInheritedCtorInitExpr>(s)) J.attribute("fn", declId(ic->getConstructor()));
      if (auto bo = dyn_cast<BinaryOperator>(s)) J.attribute("op", bo->getOpcodeStr());
      if (auto uo = dyn_cast<UnaryOperator>(s)) {
        J.attribute("op", UnaryOperator::getOpcodeStr(uo->getOpcode()));
        if (uo->isPostfix()) J.attribute("post", true);
      }
      if (auto il = dyn_cast<IntegerLiteral>(s)) {
        llvm::SmallString<32> str;
        il->getValue().toString(str, 10, il->getType()->isSignedIntegerType());
        J.attribute("v", str.str());
      }
      if (auto b = dyn_cast<CXXBoolLiteralExpr>(s)) J.attribute("v", b->getValue() ? "1" : "0");
      if (auto c = dyn_cast<CharacterLiteral>(s)) J.attribute("v", std::to_string(c->getValue()));
      if (auto sl = dyn_cast<StringLiteral>(s))
        if (sl->isOrdinary() || sl->isUTF8()) J.attribute("v", json::fixUTF8(sl->getString()));
      if (auto fl = dyn_cast<FloatingLiteral>(s)) {
        llvm::SmallString<32> str;
        fl->getValue().toString(str);
        J.attribute("v", str.str());
      }
      if (auto c = dyn_cast<CastExpr>(s)) {
        J.attribute("ck", c->getCastKindName());
        if (auto cf = c->getConversionFunction()) J.attribute("conv", declId(cf));
      }
      if (auto ds = dyn_cast<DeclStmt>(s)) {
        J.attributeArray("ds", [&] {
          for (auto d : ds->decls()) {
            if (auto v = dyn_cast<VarDecl>(d)) {
              J.array([&] {
                J.value(declId(v));
                auto it = v->getInit() ? nodeIds_.find(v->getInit()) : nodeIds_.end();
                J.value(it == nodeIds_.end() ? -1 : it->second);
              });
              if (auto dd = dyn_cast<DecompositionDecl>(v))
                for (auto b : dd->bindings())
                  J.array([&] {
                    J.value(declId(b));
                    auto it = b->getBinding() ? nodeIds_.find(b->getBinding()) : nodeIds_.end();
                    J.value(it == nodeIds_.end() ? -1 : it->second);
                    J.value(declId(v));
                  });
            }
          }
        });
      }
      if (auto le = dyn_cast<LambdaExpr>(s)) {
        if (auto co = le->getCallOperator()) J.attribute("fn", declId(co));
        if (auto td = le->getDependentCallOperator()) {
          J.attributeArray("fns", [&] {
            for (auto sp : td->specializations()) J.value(declId(sp));
          });
        }
        J.attributeArray("caps", [&] {
          for (auto& c : le->captures()) {
            J.array([&] {
              if (c.capturesThis()) J.value("this");
              else if (c.capturesVariable()) J.value(declId(c.getCapturedVar()));
              else J.value(-1);
              J.value(c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
            });
          }
        });
      }
      if (auto ti = dyn_cast<CXXTypeidExpr>(s))
        if (ti->isTypeOperand()) J.attribute("ct", typeId(ti->getTypeOperand(const_cast<ASTContext&>(ctx_))));
      if (auto cs = dyn_cast<CXXCatchStmt>(s)) {
        if (cs->getExceptionDecl()) J.attribute("d", declId(cs->getExceptionDecl()));
        J.attribute("ct", typeId(cs->getCaughtType()));
      }
      if (auto u = dyn_cast<UnaryExprOrTypeTraitExpr>(s))
        J.attribute("uk", u->getKind() == UETT_SizeOf ? "sizeof" : "other");
      if (auto fr = dyn_cast<CXXForRangeStmt>(s)) {
        J.attribute("lvar", declId(fr->getLoopVariable()));
        J.attribute("range", fr->getRangeInit() ? nodeId(fr->getRangeInit()) : -1);
        J.attribute("body", nodeId(fr->getBody()));
      }
      if (auto cs = dyn_cast<CaseStmt>(s)) {
        Expr::EvalResult r;
        if (cs->getLHS() && cs->getLHS()->EvaluateAsInt(r, ctx_)) {
          llvm::SmallString<32> str;
          r.Val.getInt().toString(str);
          J.attribute("cval", str.str());
        }
      }
      if (auto is = dyn_cast<IfStmt>(s)) {
        J.attribute("cond", nodeId(is->getCond()));
        J.attribute("then", nodeId(is->getThen()));
        if (is->getElse()) J.attribute("else", nodeId(is->getElse()));
        if (is->isConstexpr()) J.attribute("constexpr", true);
      }
      if (auto ws = dyn_cast<WhileStmt>(s)) {
        J.attribute("cond", nodeId(ws->getCond()));
        J.attribute("body", nodeId(ws->getBody()));
      }
      if (auto fs = dyn_cast<ForStmt>(s)) {
        J.attribute("init", nodeId(fs->getInit()));
        J.attribute("cond", nodeId(fs->getCond()));
        J.attribute("inc", nodeId(fs->getInc()));
        J.attribute("body", nodeId(fs->getBody()));
      }
      if (auto ss = dyn_cast<SwitchStmt>(s)) {
        J.attribute("cond", nodeId(ss->getCond()));
        if (ss->isAllEnumCasesCovered()) J.attribute("allenum", true);
      }
      if (auto de = dyn_cast<CXXDeleteExpr>(s)) {
        (void)de;
        if (de->getOperatorDelete() && de->isArrayForm()) J.attribute("arr", true);
        QualType dt = de->getDestroyedType();
        if (!dt.isNull())
          if (auto rd = dt->getAsCXXRecordDecl())
            if (rd->hasDefinition())
              if (auto dd = rd->getDestructor()) J.attribute("fn", declId(dd));
      }
      if (auto ce = dyn_cast<ConstantExpr>(s)) (void)ce;
    });
  }

  int nodeId(const Stmt* s) {
    if (!s) return -1;
    auto it = nodeIds_.find(s);
    return it == nodeIds_.end() ? -1 : it->second;
  }

  void writeFunction(const FnJob& job) {
    const FunctionDecl* fd = job.fd;
    nodeIds_.clear();
    nodes_.clear();
    children_.clear();
    J.objectBegin();
    J.attribute("d", declId(fd));
    J.attribute("q", qname(fd));
    J.attribute("u", usr(fd));
    J.attribute("f", fileOf(fd->getLocation()));
    J.attribute("l", (int64_t)lineOf(fd->getLocation()));
    J.attribute("ft", typeId(fd->getType()));
    if (fd->isImplicit()) J.attribute("impl", true);
    if (fd->isDefaulted()) J.attribute("dflt", true);
    if (auto args = fd->getTemplateSpecializationArgs()) {
      J.attributeArray("targs", [&] {
        for (auto& a : args->asArray()) {
          std::string s;
          llvm::raw_string_ostream os(s);
          a.print(pp_, os, true);
          J.value(s);
        }
      });
    }
    J.attributeArray("params", [&] {
      for (auto p : fd->parameters()) J.value(declId(p));
    });
    if (auto m = dyn_cast<CXXMethodDecl>(fd)) {
      J.attribute("cls", declId(m->getParent()));
      if (m->getParent()->isLambda()) J.attribute("lambda", true);
    }
    int root = addNode(fd->getBody());
    J.attribute("root", root);
    std::vector<std::array<int, 4>> inits;
    if (auto c = dyn_cast<CXXConstructorDecl>(fd)) {
      J.attributeArray("ctorinits", [&] {
        for (auto i : c->inits()) {
          int n = addNode(i->getInit());
          J.object([&] {
            if (i->isAnyMemberInitializer()) J.attribute("field", declId(i->getAnyMember()));
            else if (i->isBaseInitializer()) {
              if (auto br = i->getBaseClass()->getAsCXXRecordDecl()) J.attribute("base", declId(br));
            } else if (i->isDelegatingInitializer()) J.attribute("deleg", true);
            J.attribute("n", n);
            if (i->isWritten()) J.attribute("written", true);
          });
        }
      });
    }
    CFG::BuildOptions bo;
    bo.AddImplicitDtors = true;
    bo.AddTemporaryDtors = true;
    bo.AddInitializers = true;
    bo.AddCXXDefaultInitExprInCtors = true;
    bo.AddCXXDefaultInitExprInAggregates = true;
    bo.AddEHEdges = true;
    bo.PruneTriviallyFalseEdges = true;
    bo.setAllAlwaysAdd();
    std::unique_ptr<CFG> cfg = CFG::buildCFG(fd, fd->getBody(), &ctx_, bo);
    if (cfg) {
      J.attributeBegin("cfg");
      J.objectBegin();
      J.attribute("entry", (int64_t)cfg->getEntry().getBlockID());
      J.attribute("exit", (int64_t)cfg->getExit().getBlockID());
      J.attributeBegin("blocks");
      J.arrayBegin();
      for (auto* b : *cfg) {
        if (!b) continue;
        J.object([&] {
          J.attribute("id", (int64_t)b->getBlockID());
          J.attributeArray("e", [&] {
            for (auto& e : *b) {
              switch (e.getKind()) {
                case CFGElement::Statement:
                case CFGElement::Constructor:
                case CFGElement::CXXRecordTypedCall: {
                  int n = addNode(e.castAs<CFGStmt>().getStmt());
                  J.array([&] { J.value("s"); J.value(n); });
                  break;
                }
                case CFGElement::Initializer: {
                  auto i = e.castAs<CFGInitializer>().getInitializer();
                  int n = addNode(i->getInit());
                  J.array([&] {
                    J.value("i");
                    J.value(n);
                    J.value(i->isAnyMemberInitializer() ? declId(i->getAnyMember()) : -1);
                  });
                  break;
                }
                case CFGElement::AutomaticObjectDtor: {
                  auto ad = e.castAs<CFGAutomaticObjDtor>();
                  auto dd = ad.getDestructorDecl(ctx_);
                  if (dd) addFunction(dd);
                  J.array([&] {
                    J.value("d");
                    J.value(declId(ad.getVarDecl()));
                    J.value(dd ? declId(dd) : -1);
                  });
                  break;
                }
                case CFGElement::TemporaryDtor: {
                  auto td = e.castAs<CFGTemporaryDtor>();
                  int n = addNode(td.getBindTemporaryExpr());
                  auto dd = td.getDestructorDecl(ctx_);
                  J.array([&] {
                    J.value("t");
                    J.value(n);
                    J.value(dd ? declId(dd) : -1);
                  });
                  break;
                }
                case CFGElement::MemberDtor: {
                  auto md = e.castAs<CFGMemberDtor>();
                  auto dd = md.getDestructorDecl(ctx_);
                  J.array([&] {
                    J.value("md");
                    J.value(declId(md.getFieldDecl()));
                    J.value(dd ? declId(dd) : -1);
                  });
                  break;
                }
                case CFGElement::BaseDtor: {
                  auto dd = e.castAs<CFGBaseDtor>().getDestructorDecl(ctx_);
                  J.array([&] {
                    J.value("bd");
                    J.value(-1);
                    J.value(dd ? declId(dd) : -1);
                  });
                  break;
                }
                case CFGElement::DeleteDtor: {
                  auto dd = e.castAs<CFGDeleteDtor>();
                  auto x = dd.getDestructorDecl(ctx_);
                  int n = addNode(dd.getDeleteExpr());
                  J.array([&] {
                    J.value("x");
                    J.value(n);
                    J.value(x ? declId(x) : -1);
                  });
                  break;
                }
                default:
                  break;
              }
            }
          });
          if (b->getTerminatorStmt()) {
            J.attribute("term", addNode(b->getTerminatorStmt()));
            J.attribute("tk", b->getTerminator().isTemporaryDtorsBranch() ? "tmp"
                              : b->getTerminator().isVirtualBaseBranch() ? "vb" : "stmt");
          }
          if (auto c = b->getTerminatorCondition(false)) J.attribute("cond", addNode(c));
          if (b->getLabel()) J.attribute("label", addNode(b->getLabel()));
          if (b->hasNoReturnElement()) J.attribute("nr", true);
          J.attributeArray("s", [&] {
            for (auto& s : b->succs()) {
              const CFGBlock* sb = s.getReachableBlock();
              if (sb) J.value((int64_t)sb->getBlockID());
              else J.value(-1);
            }
          });
        });
      }
      J.arrayEnd();
      J.attributeEnd();
      // try blocks
      J.objectEnd();
      J.attributeEnd();
    }
    writeNodes();
    J.objectEnd();
  }

 public:
  std::vector<const CXXRecordDecl*> records_;
  std::vector<const EnumDecl*> enums_;
  std::vector<const VarDecl*> globals_;

 private:
  ASTContext& ctx_;
  SourceManager& sm_;
  PrintingPolicy pp_;
  json::OStream J;
  std::map<FileID, bool> rootCache_;
  std::map<std::string, int> types_;
  std::vector<std::string> typeList_;
  std::map<const Decl*, int> declIds_;
  std::vector<const Decl*> declList_;
  std::set<const FunctionDecl*> seen_;
  std::vector<FnJob> jobs_;
  std::map<const Stmt*, int> nodeIds_;
  std::vector<const Stmt*> nodes_;
  std::vector<std::vector<int>> children_;
};

struct Consumer : ASTConsumer {
  CompilerInstance& ci;
  Consumer(CompilerInstance& ci) : ci(ci) {}
  void HandleTranslationUnit(ASTContext& ctx) override {
    gErrors = ci.getDiagnostics().hasErrorOccurred() ? 1 : 0;
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    if (ec) {
      llvm::errs() << "cannot write " << gOut << "\n";
      exit(3);
    }
    Extractor x(ctx, os);
    x.run(ctx.getTranslationUnitDecl());
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

}  // namespace

int main(int argc, const char** argv) {
  if (argc < 5) {
    llvm::errs() << "usage: extract SRC OUT ROOTS -- flags\n";
    return 2;
  }
  std::string src = argv[1];
  gOut = argv[2];
  std::string roots = argv[3];
  size_t pos = 0;
  while (pos <= roots.size()) {
    size_t e = roots.find(':', pos);
    if (e == std::string::npos) e = roots.size();
    if (e > pos) gRoots.push_back(roots.substr(pos, e - pos));
    pos = e + 1;
  }
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db("/", flags);
  tooling::ClangTool tool(db, {src});
  tool.clearArgumentsAdjusters();
  int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return r;
}
