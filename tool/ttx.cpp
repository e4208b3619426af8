// ttx: exports the resolved program (type-checked AST after template instantiation) of the TinyTorch
// sources as JSON lines.  One record per function definition / class / enum / global variable / callee.
// usage: ttx OUT ROOT file.cpp... -- compile args
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtVisitor.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>

using namespace clang;

static std::string gRoot;
static FILE *gOut = nullptr;
static std::unordered_set<std::string> gSeen;  // emitted record keys (across TUs of one process)

static void esc(std::string &o, llvm::StringRef s) {
  o += '"';
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          o += b;
        } else
          o += (char)c;
    }
  }
  o += '"';
}

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext &c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
    pp.SuppressUnwrittenScope = true;
    pp.Bool = true;
    pp.TerseOutput = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool inRoot(SourceLocation l, std::string *file = nullptr) {
    if (l.isInvalid()) return false;
    l = sm.getExpansionLoc(l);
    auto ploc = sm.getFilename(l);
    if (ploc.empty()) return false;
    FileID fid = sm.getFileID(l);
    auto it = rootCache.find(fid.getHashValue());
    std::string name;
    bool in;
    if (it == rootCache.end()) {
      std::string p = ploc.str();
      if (auto fe = sm.getFileEntryRefForID(fid)) {
        auto rp = fe->getFileEntry().tryGetRealPathName();
        if (!rp.empty()) p = rp.str();
      }
      in = p.compare(0, gRoot.size(), gRoot) == 0;
      name = in ? p.substr(gRoot.size()) : p;
      rootCache[fid.getHashValue()] = {in, name};
    } else {
      in = it->second.first;
      name = it->second.second;
    }
    if (file) *file = name;
    return in;
  }
  unsigned line(SourceLocation l) { return l.isValid() ? sm.getExpansionLineNumber(l) : 0; }

  std::string typeStr(QualType t) {
    if (t.isNull()) return "?";
    auto it = typeCache.find(t.getAsOpaquePtr());
    if (it != typeCache.end()) return it->second;
    std::string s = t.getCanonicalType().getAsString(pp);
    typeCache[t.getAsOpaquePtr()] = s;
    return s;
  }
  std::string usr(const Decl *d) {
    if (auto *fd0 = dyn_cast<FunctionDecl>(d)) d = fd0->getCanonicalDecl();
    auto it = usrCache.find(d);
    if (it != usrCache.end()) return it->second;
    llvm::SmallString<256> b;
    std::string s;
    if (!index::generateUSRForDecl(d, b)) s = b.str().str();
    // internal-linkage functions of different TUs may share a USR: qualify with the file name
    if (auto *f = dyn_cast<FunctionDecl>(d)) {
      // closures: make unique
      if (auto *m = dyn_cast<CXXMethodDecl>(f))
        if (m->getParent()->isLambda()) s += "#L" + std::to_string(declId(m->getParent()));
    }
    usrCache[d] = s;
    return s;
  }
  std::string qual(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream o(s);
    d->printQualifiedName(o, pp);
    return s;
  }
  std::string qualT(const NamedDecl *d) {  // with template args of the class
    if (auto *m = dyn_cast<CXXMethodDecl>(d)) {
      return recName(m->getParent()) + "::" + m->getNameAsString();
    }
    return qual(d);
  }
  std::string recName(const CXXRecordDecl *r) {
    if (r->isLambda()) return "(lambda" + std::to_string(declId(r)) + ")";
    return typeStr(ctx.getRecordType(r));
  }
  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int v = nextId++;
    ids[d] = v;
    return v;
  }

  // ---- expressions -------------------------------------------------------------------------------
  static const Expr *peel(const Expr *e) {
    while (e) {
      if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) break; e = x->getSourceExpr(); }
      else if (auto *x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
      else if (auto *x = dyn_cast<ChooseExpr>(e)) e = x->getChosenSubExpr();
      else if (auto *x = dyn_cast<UnaryOperator>(e)) { if (x->getOpcode() == UO_Extension) e = x->getSubExpr(); else break; }
      else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
          case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: case CK_BitCast:
            return e;
          default: e = x->getSubExpr();
        }
      } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        if (x->isElidable() && x->getNumArgs() >= 1) e = x->getArg(0);
        else break;
      } else if (auto *x = dyn_cast<CXXFunctionalCastExpr>(e)) {
        if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp) {
          const Expr *in = x->getSubExpr();
          e = in;
        } else break;
      } else break;
    }
    return e;
  }

  static const char *castName(CastKind k) { return CastExpr::getCastKindName(k); }

  void kv(std::string &o, const char *k, llvm::StringRef v) { o += ",\""; o += k; o += "\":"; esc(o, v); }
  void kvi(std::string &o, const char *k, long long v) { o += ",\""; o += k; o += "\":"; o += std::to_string(v); }

  void noteCallee(const FunctionDecl *f) {
    std::string u = usr(f);
    if (!gSeen.insert("fd:" + u).second) return;
    std::string o = "{\"rec\":\"fdecl\"";
    kv(o, "u", u);
    emitSig(o, f);
    o += "}\n";
    pending += o;
  }
  void emitSig(std::string &o, const FunctionDecl *f) {
    kv(o, "fn", qualT(f));
    kv(o, "n", f->getNameAsString());
    kv(o, "ret", typeStr(f->getReturnType()));
    o += ",\"ps\":[";
    bool first = true;
    for (auto *p : f->parameters()) {
      if (!first) o += ",";
      first = false;
      o += "{\"id\":" + std::to_string(declId(p));
      kv(o, "n", p->getNameAsString());
      kv(o, "t", typeStr(p->getType()));
      if (p->hasDefaultArg()) o += ",\"def\":1";
      o += "}";
    }
    o += "]";
    if (f->isVariadic()) o += ",\"va\":1";
    if (f->isNoReturn()) o += ",\"nr\":1";
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      kv(o, "cls", recName(m->getParent()));
      if (m->isConst()) o += ",\"const\":1";
      if (m->isStatic()) o += ",\"static\":1";
      if (m->isVirtual()) o += ",\"virt\":1";
      if (m->isPureVirtual()) o += ",\"pure\":1";
      if (isa<CXXConstructorDecl>(m)) o += ",\"ctor\":1";
      if (isa<CXXDestructorDecl>(m)) o += ",\"dtor\":1";
      if (m->getAccess() == AS_public) o += ",\"pub\":1";
      if (m->size_overridden_methods()) {
        o += ",\"over\":[";
        bool fi = true;
        for (auto *om : m->overridden_methods()) { if (!fi) o += ","; fi = false; esc(o, usr(om)); }
        o += "]";
      }
    }
    if (f->getPrimaryTemplate()) kv(o, "tmpl", usr(f->getPrimaryTemplate()));
    else if (auto *tp = f->getTemplateInstantiationPattern()) kv(o, "tmpl", usr(tp));
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      o += ",\"ta\":[";
      bool fi = true;
      for (auto &a : ta->asArray()) {
        auto put = [&](const TemplateArgument &x) {
          if (!fi) o += ",";
          fi = false;
          std::string s;
          llvm::raw_string_ostream os(s);
          if (x.getKind() == TemplateArgument::Type) os << typeStr(x.getAsType());
          else x.print(pp, os, true);
          esc(o, os.str());
        };
        if (a.getKind() == TemplateArgument::Pack) for (auto &x : a.pack_elements()) put(x);
        else put(a);
      }
      o += "]";
    }
    if (f->getDeclContext()->isStdNamespace() || f->isInStdNamespace()) o += ",\"std\":1";
    std::string file;
    bool in = inRoot(f->getLocation(), &file);
    if (in) { kv(o, "file", file); }
    kvi(o, "l", line(f->getLocation()));
  }

  void emitArgs(std::string &o, const char *key, llvm::ArrayRef<const Expr *> args) {
    o += ",\""; o += key; o += "\":[";
    bool f = true;
    for (auto *a : args) {
      if (!f) o += ",";
      f = false;
      ex(o, a);
    }
    o += "]";
  }
  template <class C>
  std::vector<const Expr *> vec(C *c, unsigned from = 0) {
    std::vector<const Expr *> v;
    for (unsigned i = from; i < c->getNumArgs(); i++) v.push_back(c->getArg(i));
    return v;
  }

  void ex(std::string &o, const Expr *e0) {
    if (!e0) { o += "null"; return; }
    const Expr *e = peel(e0);
    bool defArg = false;
    if (auto *da = dyn_cast_or_null<CXXDefaultArgExpr>(e)) { e = peel(da->getExpr()); defArg = true; }
    if (!e) { o += "null"; return; }
    o += "{\"k\":";
    size_t mark = o.size();
    std::string &b = o;
    (void)mark;
    std::string body;
    emitExprBody(b, e);
    if (defArg) b += ",\"da\":1";
    b += ",\"l\":" + std::to_string(line(e->getExprLoc()));
    kv(b, "t", typeStr(e->getType()));
    // constant value
    if (!e->isValueDependent() && !e->isTypeDependent() && !e->isGLValue() && e->getType()->isIntegralOrEnumerationType() &&
        !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e) && !isa<CallExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        b += ",\"cv\":";
        b += s.str();
      }
    } else if (e->isGLValue() && e->getType().isConstQualified() && e->getType()->isIntegralOrEnumerationType() && isa<DeclRefExpr>(e)) {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, ctx) && r.Val.isInt()) {
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        b += ",\"cv\":";
        b += s.str();
      }
    }
    b += "}";
  }

  void refDecl(std::string &o, const ValueDecl *d) {
    if (auto *f = dyn_cast<FunctionDecl>(d)) {
      noteCallee(f);
      o += "\"FnRef\"";
      kv(o, "u", usr(f));
      kv(o, "fn", qualT(f));
      if (inRoot(f->getLocation())) want(f);
      return;
    }
    if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      o += "\"Enum\"";
      kv(o, "n", qual(ec));
      llvm::SmallString<32> s;
      ec->getInitVal().toString(s, 10);
      o += ",\"v\":";
      o += s.str();
      return;
    }
    o += "\"Ref\"";
    kv(o, "n", d->getNameAsString());
    if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->hasGlobalStorage() && !v->isStaticLocal()) {
        kv(o, "g", qual(v));
        if (auto *rd = dyn_cast<CXXRecordDecl>(v->getDeclContext())) kv(o, "gc", recName(rd));
        return;
      }
      if (v->isStaticLocal()) o += ",\"sl\":1";
    }
    kvi(o, "d", declId(d));
    if (isa<ParmVarDecl>(d)) o += ",\"pm\":1";
    if (auto *bd = dyn_cast<BindingDecl>(d)) { (void)bd; o += ",\"bd\":1"; }
  }

  void want(const FunctionDecl *) {}

  void emitExprBody(std::string &o, const Expr *e) {
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o += "\"Int\",\"v\":";
      llvm::SmallString<32> s;
      x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
      o += s.str();
    } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o += "\"Float\"";
      char b[64];
      snprintf(b, sizeof b, "%.17g", x->getValueAsApproximateDouble());
      kv(o, "v", b);
    } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o += "\"Bool\",\"v\":";
      o += x->getValue() ? "1" : "0";
    } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o += "\"Int\",\"v\":" + std::to_string(x->getValue());
    } else if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
      o += "\"Str\"";
      kv(o, "v", x->getCharByteWidth() == 1 ? x->getString() : llvm::StringRef("?wide"));
    } else if (isa<PredefinedExpr>(e)) {
      o += "\"Str\",\"v\":\"__func__\"";
    } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o += "\"Null\"";
    } else if (isa<CXXThisExpr>(e)) {
      o += "\"This\"";
    } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      refDecl(o, x->getDecl());
    } else if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *d = x->getMemberDecl();
      if (auto *fd = dyn_cast<FieldDecl>(d)) {
        o += "\"Member\"";
        kv(o, "n", fd->getNameAsString());
        std::string cls = isa<CXXRecordDecl>(fd->getParent()) ? recName(cast<CXXRecordDecl>(fd->getParent())) : "";
        kv(o, "fc", cls);
        if (x->isArrow()) o += ",\"ar\":1";
        o += ",\"b\":";
        ex(o, x->getBase());
      } else
        refDecl(o, d);
    } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o += "\"Call\"";
      auto *m = x->getMethodDecl();
      if (m) {
        noteCallee(m);
        kv(o, "u", usr(m));
        kv(o, "fn", qualT(m));
        auto *me = dyn_cast<MemberExpr>(peel(x->getCallee()));
        bool q = me && me->hasQualifier();
        if (m->isVirtual() && !q) o += ",\"virt\":1";
        if (me && me->isArrow()) o += ",\"ar\":1";
        if (me && me->isImplicitAccess()) o += ",\"ith\":1";
      } else {
        o += ",\"ce\":";
        ex(o, x->getCallee());
      }
      o += ",\"obj\":";
      ex(o, x->getImplicitObjectArgument());
      emitArgs(o, "a", vec(x));
    } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o += "\"Call\"";
      auto *f = x->getDirectCallee();
      kv(o, "op", getOperatorSpelling(x->getOperator()));
      if (f) {
        noteCallee(f);
        kv(o, "u", usr(f));
        kv(o, "fn", qualT(f));
        auto *m = dyn_cast<CXXMethodDecl>(f);
        if (m && m->isVirtual()) o += ",\"virt\":1";
        if (m && m->getParent()->isLambda()) kvi(o, "lam", declId(m->getParent()));
        if (m && !m->isStatic()) {
          o += ",\"obj\":";
          ex(o, x->getArg(0));
          emitArgs(o, "a", vec(x, 1));
          return;
        }
      }
      emitArgs(o, "a", vec(x));
    } else if (auto *x = dyn_cast<CallExpr>(e)) {
      o += "\"Call\"";
      if (auto *f = x->getDirectCallee()) {
        noteCallee(f);
        kv(o, "u", usr(f));
        kv(o, "fn", qualT(f));
        if (f->getBuiltinID()) kvi(o, "bi", f->getBuiltinID());
      } else {
        o += ",\"ce\":";
        ex(o, x->getCallee());
      }
      emitArgs(o, "a", vec(x));
    } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o += "\"Construct\"";
      auto *c = x->getConstructor();
      noteCallee(c);
      kv(o, "u", usr(c));
      if (c->isCopyConstructor()) o += ",\"cp\":1";
      if (c->isMoveConstructor()) o += ",\"mv\":1";
      if (isa<CXXTemporaryObjectExpr>(x)) o += ",\"tmp\":1";
      if (x->isListInitialization()) o += ",\"li\":1";
      emitArgs(o, "a", vec(x));
    } else if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      (void)x;
      o += "\"Construct\",\"inh\":1,\"u\":\"\",\"a\":[]";
    } else if (auto *x = dyn_cast<InitListExpr>(e)) {
      o += "\"InitList\"";
      auto *s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      std::vector<const Expr *> v;
      for (auto *i : s->inits()) v.push_back(i);
      emitArgs(o, "a", v);
    } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o += "\"Sub\",\"b\":";
      ex(o, x->getBase());
      o += ",\"i\":";
      ex(o, x->getIdx());
    } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o += "\"Un\"";
      kv(o, "op", UnaryOperator::getOpcodeStr(x->getOpcode()));
      if (x->isPostfix()) o += ",\"pf\":1";
      o += ",\"e\":";
      ex(o, x->getSubExpr());
    } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o += "\"Bin\"";
      kv(o, "op", x->getOpcodeStr());
      o += ",\"x\":";
      ex(o, x->getLHS());
      o += ",\"y\":";
      ex(o, x->getRHS());
    } else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) {
      emitExprBody(o, peel(x->getSemanticForm()));
    } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o += "\"CondOp\",\"c\":[";
      ex(o, x->getCond());
      o += ",";
      ex(o, x->getTrueExpr());
      o += ",";
      ex(o, x->getFalseExpr());
      o += "]";
    } else if (auto *x = dyn_cast<BinaryConditionalOperator>(e)) {
      o += "\"CondOp\",\"c\":[";
      ex(o, x->getCommon());
      o += ",";
      ex(o, x->getCommon());
      o += ",";
      ex(o, x->getFalseExpr());
      o += "]";
    } else if (auto *x = dyn_cast<ExplicitCastExpr>(e)) {
      o += "\"Cast\"";
      const char *ck = isa<CXXStaticCastExpr>(x) ? "static" : isa<CXXReinterpretCastExpr>(x) ? "reinterpret"
                       : isa<CXXConstCastExpr>(x) ? "const" : isa<CXXDynamicCastExpr>(x) ? "dynamic"
                       : isa<CXXFunctionalCastExpr>(x) ? "func" : "c";
      kv(o, "ck", ck);
      kv(o, "ek", castName(x->getCastKind()));
      o += ",\"e\":";
      ex(o, x->getSubExpr());
    } else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
      o += "\"ICast\"";
      kv(o, "ek", castName(x->getCastKind()));
      o += ",\"e\":";
      ex(o, x->getSubExpr());
    } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o += "\"Lambda\"";
      kvi(o, "lam", declId(x->getLambdaClass()));
      o += ",\"cap\":[";
      bool f = true;
      for (auto &c : x->captures()) {
        if (!f) o += ",";
        f = false;
        o += "{";
        if (c.capturesThis()) o += "\"this\":1";
        else if (c.capturesVariable()) {
          o += "\"d\":" + std::to_string(declId(c.getCapturedVar()));
          kv(o, "n", c.getCapturedVar()->getNameAsString());
          if (auto *v = dyn_cast<VarDecl>(c.getCapturedVar()); v && v->isInitCapture() && v->getInit()) {
            o += ",\"init\":";
            ex(o, v->getInit());
          }
        } else o += "\"other\":1";
        if (c.getCaptureKind() == LCK_ByRef) o += ",\"ref\":1";
        o += "}";
      }
      o += "]";
      if (x->isGenericLambda()) {
        o += ",\"specs\":[";
        bool fs = true;
        if (auto *ft = x->getCallOperator()->getDescribedFunctionTemplate())
          for (auto *s : ft->specializations()) {
            if (!s->hasBody()) continue;
            if (!fs) o += ",";
            fs = false;
            o += "{\"u\":";
            esc(o, usr(s));
            params(o, s);
            o += ",\"body\":";
            st(o, s->getBody());
            o += "}";
          }
        o += "]";
      } else {
        auto *m = x->getCallOperator();
        kv(o, "u", usr(m));
        params(o, m);
        kv(o, "ret", typeStr(m->getReturnType()));
        o += ",\"body\":";
        st(o, m->getBody());
      }
    } else if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o += "\"New\"";
      kv(o, "at", typeStr(x->getAllocatedType()));
      if (x->isArray()) {
        o += ",\"arr\":";
        if (auto s = x->getArraySize()) ex(o, *s); else o += "null";
      }
      if (x->getInitializer()) {
        o += ",\"init\":";
        ex(o, x->getInitializer());
      }
    } else if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o += "\"Delete\"";
      if (x->isArrayForm()) o += ",\"arr\":1";
      o += ",\"e\":";
      ex(o, x->getArgument());
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o += "\"SizeOf\"";
      kv(o, "at", typeStr(x->getTypeOfArgument()));
    } else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
      o += "\"ZeroInit\"";
    } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o += "\"Throw\",\"e\":";
      ex(o, x->getSubExpr());
    } else if (auto *x = dyn_cast<StmtExpr>(e)) {
      o += "\"StmtExpr\",\"body\":";
      st(o, x->getSubStmt());
    } else if (auto *x = dyn_cast<CXXTypeidExpr>(e)) {
      o += "\"TypeId\"";
      if (x->isTypeOperand()) kv(o, "at", typeStr(x->getTypeOperand(ctx)));
      else { o += ",\"e\":"; ex(o, x->getExprOperand()); }
    } else {
      o += "\"X\"";
      kv(o, "cls", e->getStmtClassName());
      o += ",\"c\":[";
      bool f = true;
      for (auto *c : e->children()) {
        if (auto *ce = dyn_cast_or_null<Expr>(c)) {
          if (!f) o += ",";
          f = false;
          ex(o, ce);
        }
      }
      o += "]";
    }
  }

  void params(std::string &o, const FunctionDecl *f) {
    o += ",\"ps\":[";
    bool first = true;
    for (auto *p : f->parameters()) {
      if (!first) o += ",";
      first = false;
      o += "{\"id\":" + std::to_string(declId(p));
      kv(o, "n", p->getNameAsString());
      kv(o, "t", typeStr(p->getType()));
      o += "}";
    }
    o += "]";
  }

  // ---- statements --------------------------------------------------------------------------------
  void var(std::string &o, const VarDecl *v) {
    o += "{\"k\":\"Var\",\"id\":" + std::to_string(declId(v));
    kv(o, "n", v->getNameAsString());
    kv(o, "t", typeStr(v->getType()));
    kvi(o, "l", line(v->getLocation()));
    if (v->isStaticLocal()) o += ",\"st\":1";
    if (v->getTLSKind() != VarDecl::TLS_None) o += ",\"tls\":1";
    if (v->isConstexpr()) o += ",\"ce\":1";
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      o += ",\"binds\":[";
      bool f = true;
      for (auto *b : dd->bindings()) {
        if (!f) o += ",";
        f = false;
        o += "{\"id\":" + std::to_string(declId(b));
        kv(o, "n", b->getNameAsString());
        kv(o, "t", typeStr(b->getType()));
        o += "}";
      }
      o += "]";
    }
    if (v->getInit()) {
      o += ",\"init\":";
      ex(o, v->getInit());
    }
    o += "}";
  }

  void sub(std::string &o, const char *k, const Stmt *s) {
    o += ",\""; o += k; o += "\":";
    st(o, s);
  }

  void st(std::string &o, const Stmt *s) {
    if (!s) { o += "null"; return; }
    if (auto *e = dyn_cast<Expr>(s)) { ex(o, e); return; }
    o += "{\"k\":";
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o += "\"Compound\",\"c\":[";
      bool f = true;
      for (auto *c : x->body()) {
        if (!f) o += ",";
        f = false;
        st(o, c);
      }
      o += "]";
      kvi(o, "el", line(x->getRBracLoc()));
    } else if (auto *x = dyn_cast<DeclStmt>(s)) {
      o += "\"DeclStmt\",\"c\":[";
      bool f = true;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) {
          if (!f) o += ",";
          f = false;
          var(o, v);
        }
      }
      o += "]";
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      o += "\"If\"";
      if (x->isConstexpr()) o += ",\"cx\":1";
      if (x->getInit()) sub(o, "init", x->getInit());
      if (x->getConditionVariable()) { o += ",\"var\":"; var(o, x->getConditionVariable()); }
      o += ",\"cond\":";
      ex(o, x->getCond());
      sub(o, "then", x->getThen());
      if (x->getElse()) sub(o, "else", x->getElse());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      o += "\"For\"";
      if (x->getInit()) sub(o, "init", x->getInit());
      if (x->getCond()) { o += ",\"cond\":"; ex(o, x->getCond()); }
      if (x->getInc()) { o += ",\"inc\":"; ex(o, x->getInc()); }
      sub(o, "body", x->getBody());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o += "\"RangeFor\",\"var\":";
      var(o, x->getLoopVariable());
      o += ",\"range\":";
      ex(o, x->getRangeInit());
      sub(o, "body", x->getBody());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      o += "\"While\"";
      if (x->getConditionVariable()) { o += ",\"var\":"; var(o, x->getConditionVariable()); }
      o += ",\"cond\":";
      ex(o, x->getCond());
      sub(o, "body", x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      o += "\"Do\",\"cond\":";
      ex(o, x->getCond());
      sub(o, "body", x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o += "\"Switch\",\"cond\":";
      ex(o, x->getCond());
      sub(o, "body", x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      o += "\"Case\",\"v\":";
      ex(o, x->getLHS());
      sub(o, "s", x->getSubStmt());
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o += "\"Default\"";
      sub(o, "s", x->getSubStmt());
    } else if (isa<BreakStmt>(s)) {
      o += "\"Break\"";
    } else if (isa<ContinueStmt>(s)) {
      o += "\"Continue\"";
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o += "\"Return\"";
      if (x->getRetValue()) { o += ",\"e\":"; ex(o, x->getRetValue()); }
    } else if (isa<NullStmt>(s)) {
      o += "\"Nop\"";
    } else if (auto *x = dyn_cast<GCCAsmStmt>(s)) {
      o += "\"Asm\"";
      kv(o, "s", x->getAsmString()->getString());
    } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o += "\"Try\"";
      sub(o, "body", x->getTryBlock());
    } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
      o += "\"Compound\",\"c\":[";
      st(o, x->getSubStmt());
      o += "]";
    } else if (auto *x = dyn_cast<LabelStmt>(s)) {
      o += "\"Label\"";
      sub(o, "s", x->getSubStmt());
    } else {
      o += "\"S\"";
      kv(o, "cls", s->getStmtClassName());
    }
    kvi(o, "l", line(s->getBeginLoc()));
    o += "}";
  }

  // ---- top level -----------------------------------------------------------------------------------
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (!f->isThisDeclarationADefinition() || !f->hasBody() || f->isDependentContext()) return true;
    if (f->isDefaulted() || f->isDeleted()) return true;
    if (auto *m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return true;
    std::string file;
    if (!inRoot(f->getLocation(), &file)) return true;
    std::string u = usr(f);
    if (!gSeen.insert("fn:" + u).second) return true;
    std::string o = "{\"rec\":\"func\"";
    kv(o, "u", u);
    emitSig(o, f);
    if (f->getStorageClass() == SC_Static || f->isInAnonymousNamespace()) o += ",\"int\":1";
    kvi(o, "el", line(f->getEndLoc()));
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      o += ",\"inits\":[";
      bool fi = true;
      for (auto *i : c->inits()) {
        if (!fi) o += ",";
        fi = false;
        o += "{";
        if (i->isAnyMemberInitializer()) { o += "\"m\":"; esc(o, i->getAnyMember()->getNameAsString()); }
        else if (i->isDelegatingInitializer()) o += "\"del\":1";
        else { o += "\"base\":"; esc(o, typeStr(QualType(i->getBaseClass(), 0))); }
        if (i->isWritten()) o += ",\"w\":1";
        o += ",\"e\":";
        ex(o, i->getInit());
        o += "}";
      }
      o += "]";
    }
    o += ",\"body\":";
    st(o, f->getBody());
    o += "}\n";
    flush(o);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || v->getDeclContext()->isDependentContext()) return true;
    if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    if (v->getType()->isDependentType()) return true;
    std::string file;
    if (!inRoot(v->getLocation(), &file)) return true;
    std::string q = qual(v);
    std::string rc;
    if (auto *rd = dyn_cast<CXXRecordDecl>(v->getDeclContext())) rc = recName(rd);
    if (!gSeen.insert("var:" + q + "|" + rc + "|" + file + ":" + std::to_string(line(v->getLocation()))).second) return true;
    std::string o = "{\"rec\":\"var\"";
    kv(o, "n", q);
    kv(o, "gc", rc);
    kv(o, "t", typeStr(v->getType()));
    kv(o, "file", file);
    kvi(o, "l", line(v->getLocation()));
    if (v->getTLSKind() != VarDecl::TLS_None) o += ",\"tls\":1";
    if (v->isConstexpr()) o += ",\"ce\":1";
    if (v->getType().isConstQualified()) o += ",\"const\":1";
    if (v->getInit() && !v->getInit()->isValueDependent()) {
      o += ",\"init\":";
      ex(o, v->getInit());
    }
    o += "}\n";
    flush(o);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return true;
    std::string file;
    if (!inRoot(r->getLocation(), &file)) return true;
    std::string n = recName(r);
    if (!gSeen.insert("cls:" + n).second) return true;
    std::string o = "{\"rec\":\"class\"";
    kv(o, "n", n);
    kv(o, "file", file);
    kvi(o, "l", line(r->getLocation()));
    o += ",\"bases\":[";
    bool f = true;
    for (auto &b : r->bases()) { if (!f) o += ","; f = false; esc(o, typeStr(b.getType())); }
    o += "],\"fields\":[";
    f = true;
    for (auto *fd : r->fields()) {
      if (!f) o += ",";
      f = false;
      o += "{\"n\":";
      esc(o, fd->getNameAsString());
      kv(o, "t", typeStr(fd->getType()));
      kvi(o, "l", line(fd->getLocation()));
      if (fd->isMutable()) o += ",\"mut\":1";
      kv(o, "acc", fd->getAccess() == AS_public ? "public" : fd->getAccess() == AS_private ? "private" : "protected");
      if (fd->hasInClassInitializer() && fd->getInClassInitializer()) { o += ",\"init\":"; ex(o, fd->getInClassInitializer()); }
      o += "}";
    }
    o += "],\"methods\":[";
    f = true;
    for (auto *m : r->methods()) {
      if (m->isImplicit()) continue;
      if (!f) o += ",";
      f = false;
      o += "{\"u\":";
      esc(o, usr(m));
      kv(o, "n", m->getNameAsString());
      if (m->isVirtual()) o += ",\"virt\":1";
      if (m->isPureVirtual()) o += ",\"pure\":1";
      if (m->isDeleted()) o += ",\"deleted\":1";
      kv(o, "acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected");
      o += "}";
    }
    o += "]}\n";
    flush(o);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *d) {
    if (!d->isThisDeclarationADefinition() || d->isDependentContext()) return true;
    std::string file;
    if (!inRoot(d->getLocation(), &file)) return true;
    std::string n = typeStr(ctx.getEnumType(d));
    if (!gSeen.insert("enum:" + n).second) return true;
    std::string o = "{\"rec\":\"enum\"";
    kv(o, "n", n);
    kv(o, "file", file);
    kvi(o, "l", line(d->getLocation()));
    o += ",\"e\":[";
    bool f = true;
    for (auto *c : d->enumerators()) {
      if (!f) o += ",";
      f = false;
      o += "[";
      esc(o, qual(c));
      llvm::SmallString<32> s;
      c->getInitVal().toString(s, 10);
      o += ",";
      o += s.str();
      o += "]";
    }
    o += "]}\n";
    flush(o);
    return true;
  }
  void flush(const std::string &o) {
    fwrite(o.data(), 1, o.size(), gOut);
    if (!pending.empty()) {
      fwrite(pending.data(), 1, pending.size(), gOut);
      pending.clear();
    }
  }
  void finish() {
    if (!pending.empty()) { fwrite(pending.data(), 1, pending.size(), gOut); pending.clear(); }
  }

 private:
  ASTContext &ctx;
  SourceManager &sm;
  PrintingPolicy pp;
  std::map<unsigned, std::pair<bool, std::string>> rootCache;
  std::unordered_map<void *, std::string> typeCache;
  std::unordered_map<const Decl *, std::string> usrCache;
  std::unordered_map<const Decl *, int> ids;
  std::string pending;
  static int nextId;
};
int Exporter::nextId = 1;

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(std::string f) : file(std::move(f)) {}
  void HandleTranslationUnit(ASTContext &ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) {
      std::string o = "{\"rec\":\"error\",\"file\":";
      esc(o, file);
      o += "}\n";
      fwrite(o.data(), 1, o.size(), gOut);
      return;
    }
    Exporter e(ctx);
    e.TraverseDecl(ctx.getTranslationUnitDecl());
    e.finish();
    std::string o = "{\"rec\":\"tu\",\"file\":";
    esc(o, file);
    o += "}\n";
    fwrite(o.data(), 1, o.size(), gOut);
  }
  std::string file;
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef f) override {
    return std::make_unique<Consumer>(f.str());
  }
};
class Factory : public tooling::FrontendActionFactory {
 public:
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
  gOut = fopen(argv[1], "wb");
  if (!gOut) { perror("open"); return 2; }
  gRoot = argv[2];
  if (gRoot.back() != '/') gRoot += '/';
  std::vector<std::string> files, args;
  int i = 3;
  for (; i < argc && std::string(argv[i]) != "--"; i++) files.push_back(argv[i]);
  for (i++; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, files);
  Factory f;
  int r = tool.run(&f);
  fclose(gOut);
  return r;
}
