// slugsx: dumps the resolved, template-instantiated program of one translation unit as JSON.
// Only declarations located below one of the given root directories are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutFile;

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl*, int> ids;
  int nextId = 0;
  std::map<std::string,int> strtab; std::vector<std::string> strs;
  Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
  }
  int S(const std::string &s) { auto it = strtab.find(s); if (it!=strtab.end()) return it->second; int n=strs.size(); strs.push_back(s); strtab[s]=n; return n; }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it!=ids.end()) return it->second; return ids[D] = nextId++; }
  std::string usr(const Decl *D) { llvm::SmallString<128> b; if (index::generateUSRForDecl(D,b)) return "?"+std::to_string(id(D)); return std::string(b.str()); }
  std::string ty(QualType T) { return T.isNull()?"":T.getCanonicalType().getAsString(PP); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto FE = SM.getFilename(L);
    llvm::SmallString<256> p(FE);
    return inRootName(realname(L));
  }
  std::string realname(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto R = SM.getFileEntryRefForID(F);
    if (!R) return "";
    auto &FE = R->getFileEntry();
    auto rp = FE.tryGetRealPathName();
    if (!rp.empty()) return rp.str();
    return R->getName().str();
  }
  bool inRootName(const std::string &n) { for (auto &r:Roots) if (n.compare(0,r.size(),r)==0) return true; return false; }
  int line(SourceLocation L) { if (L.isInvalid()) return 0; return SM.getExpansionLineNumber(L); }

  json::Value exprs(ArrayRef<const Expr*> a) { json::Array r; for (auto *e:a) r.push_back(E(e)); return std::move(r); }

  const Expr *strip(const Expr *e) {
    while (e) {
      if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
      else if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) return e; e = x->getSourceExpr(); }
      else if (auto *x = dyn_cast<ChooseExpr>(e)) e = x->getChosenSubExpr();
      else if (auto *x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
      else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean:
          case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast: case CK_FloatingToBoolean:
            return e;
          default: e = x->getSubExpr();
        }
      } else break;
    }
    return e;
  }

  json::Object mk(const char *k, const Expr *e) { json::Object o; o["k"]=k; o["l"]=line(e->getBeginLoc()); return o; }
  static std::string opname(OverloadedOperatorKind k) { return getOperatorSpelling(k); }

  void callee(json::Object &o, const FunctionDecl *FD) {
    if (!FD) return;
    o["f"] = S(usr(FD));
    o["n"] = S(FD->getNameAsString());
    o["q"] = S(FD->getQualifiedNameAsString());
    if (auto *TA = FD->getTemplateSpecializationArgs())
      if (TA->size() && TA->get(0).getKind() == TemplateArgument::Integral) o["gi"] = (int64_t)TA->get(0).getAsIntegral().getExtValue();
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["c"] = S(ty(C.getRecordType(M->getParent())));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["st"] = true;
    }
  }

  json::Value E(const Expr *e0) {
    const Expr *e = strip(e0);
    if (!e) return nullptr;
    if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
      auto o = mk("icast",e); o["t"]=S(ty(x->getType())); o["ft"]=S(ty(x->getSubExpr()->getType())); o["e"]=E(x->getSubExpr()); return std::move(o);
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { auto o=mk("int",e); llvm::SmallString<32> b; x->getValue().toString(b,10,x->getType()->isSignedIntegerType()); o["v"]=b.str().str(); return std::move(o); }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o=mk("bool",e); o["v"]=x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { auto o=mk("char",e); o["v"]=(int)x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { auto o=mk("float",e); llvm::SmallString<32> b; x->getValue().toString(b); o["v"]=b.str().str(); return std::move(o); }
    if (auto *x = dyn_cast<StringLiteral>(e)) { auto o=mk("str",e); std::string v = x->isOrdinary()||x->isUTF8()? x->getString().str() : ""; if (!json::isUTF8(v)) v = json::fixUTF8(v); o["v"]=v; return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { return mk("null",e); }
    if (isa<CXXThisExpr>(e)) { auto o=mk("this",e); return std::move(o); }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *D = x->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto o=mk("enum",e); o["n"]=S(EC->getNameAsString()); llvm::SmallString<32> b; EC->getInitVal().toString(b,10); o["v"]=b.str().str(); o["t"]=S(ty(x->getType())); return std::move(o); }
      if (auto *FD = dyn_cast<FunctionDecl>(D)) { auto o=mk("fref",e); callee(o,FD); return std::move(o); }
      auto o=mk("var",e); o["n"]=S(D->getNameAsString()); o["d"]=id(D); o["t"]=S(ty(x->getType()));
      if (auto *VD = dyn_cast<VarDecl>(D)) { if (!VD->isLocalVarDeclOrParm()) { o["g"]=true; o["q"]=S(VD->getQualifiedNameAsString()); } else if (VD->isStaticLocal()) o["sl"]=true; }
      return std::move(o);
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      if (auto *FD = dyn_cast<FunctionDecl>(x->getMemberDecl())) { auto o=mk("mref",e); callee(o,FD); o["b"]=E(x->getBase()); return std::move(o); }
      auto o=mk("mem",e); o["b"]=E(x->getBase()); o["n"]=S(x->getMemberDecl()->getNameAsString());
      if (auto *FD = dyn_cast<FieldDecl>(x->getMemberDecl())) { o["c"]=S(ty(C.getRecordType(FD->getParent()))); }
      else o["g"]=true;
      o["t"]=S(ty(x->getType())); o["arr"]=x->isArrow(); return std::move(o);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      auto o=mk("op",e); o["op"]=opname(x->getOperator()); callee(o,x->getDirectCallee());
      json::Array a; for (unsigned i=0;i<x->getNumArgs();i++) a.push_back(E(x->getArg(i))); o["a"]=std::move(a); o["t"]=S(ty(x->getType())); return std::move(o);
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto o=mk("mcall",e); callee(o,x->getMethodDecl()); o["b"]=E(x->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) { if (ME->hasQualifier()) o["nv"]=true; }
      if (!x->getMethodDecl()) o["ce"]=E(x->getCallee());
      json::Array a; for (unsigned i=0;i<x->getNumArgs();i++) a.push_back(E(x->getArg(i))); o["a"]=std::move(a); o["t"]=S(ty(x->getType())); return std::move(o);
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      auto o=mk("call",e); const FunctionDecl *FD=x->getDirectCallee(); callee(o,FD); if (!FD) o["ce"]=E(x->getCallee());
      json::Array a; for (unsigned i=0;i<x->getNumArgs();i++) a.push_back(E(x->getArg(i))); o["a"]=std::move(a); o["t"]=S(ty(x->getType())); return std::move(o);
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      auto *CD = x->getConstructor();
      if (CD->isCopyOrMoveConstructor() && x->getNumArgs()>=1) {
        auto o=mk("copy",e); o["e"]=E(x->getArg(0)); o["t"]=S(ty(x->getType())); if (CD->isMoveConstructor()) o["mv"]=true; return std::move(o);
      }
      auto o=mk("ctor",e); callee(o,CD); json::Array a; for (unsigned i=0;i<x->getNumArgs();i++) a.push_back(E(x->getArg(i))); o["a"]=std::move(a); o["t"]=S(ty(x->getType())); return std::move(o);
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) { auto o=mk("un",e); o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str()+(x->isPostfix()?"p":""); o["e"]=E(x->getSubExpr()); o["t"]=S(ty(x->getType())); return std::move(o); }
    if (auto *x = dyn_cast<BinaryOperator>(e)) { auto o=mk("bin",e); o["op"]=x->getOpcodeStr().str(); o["x"]=E(x->getLHS()); o["y"]=E(x->getRHS()); o["t"]=S(ty(x->getType())); return std::move(o); }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { auto o=mk("cond",e); o["c"]=E(x->getCond()); o["x"]=E(x->getTrueExpr()); o["y"]=E(x->getFalseExpr()); o["t"]=S(ty(x->getType())); return std::move(o); }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { auto o=mk("idx",e); o["x"]=E(x->getBase()); o["y"]=E(x->getIdx()); o["t"]=S(ty(x->getType())); return std::move(o); }
    if (auto *x = dyn_cast<ExplicitCastExpr>(e)) { auto o=mk("cast",e); o["t"]=S(ty(x->getType())); o["ft"]=S(ty(x->getSubExpr()->getType())); o["ck"]=x->getCastKindName(); o["e"]=E(x->getSubExpr()); return std::move(o); }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) { auto o=mk("new",e); o["t"]=S(ty(x->getAllocatedType())); o["arr"]=x->isArray(); if (x->isArray() && x->getArraySize()) o["n"]=E(*x->getArraySize()); if (x->getInitializer()) o["e"]=E(x->getInitializer()); return std::move(o); }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { auto o=mk("delete",e); o["arr"]=x->isArrayForm(); o["e"]=E(x->getArgument()); return std::move(o); }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { auto o=mk("throw",e); if (x->getSubExpr()) { o["e"]=E(x->getSubExpr()); o["t"]=S(ty(x->getSubExpr()->getType())); } return std::move(o); }
    if (auto *x = dyn_cast<InitListExpr>(e)) { auto o=mk("list",e); auto *sf = x->isSemanticForm()?x:x->getSemanticForm(); if (!sf) sf=x; json::Array a; for (auto *i:sf->inits()) a.push_back(E(i)); o["a"]=std::move(a); o["t"]=S(ty(x->getType())); return std::move(o); }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { auto o=mk("sizeof",e); o["t"]=S(ty(x->getTypeOfArgument())); return std::move(o); }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      auto o=mk("lambda",e); auto *M=x->getCallOperator(); callee(o,M); json::Array ps; for (auto *p:M->parameters()) ps.push_back(param(p)); o["p"]=std::move(ps); o["body"]=St(x->getBody()); 
      json::Array cs; for (auto &cap: x->captures()) { json::Object c; if (cap.capturesVariable()) { c["d"]=id(cap.getCapturedVar()); c["n"]=S(cap.getCapturedVar()->getNameAsString()); } else c["this"]=true; c["ref"]=cap.getCaptureKind()==LCK_ByRef; cs.push_back(std::move(c)); } o["cap"]=std::move(cs);
      return std::move(o);
    }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { auto o=mk("zero",e); o["t"]=S(ty(e->getType())); return std::move(o); }
    if (auto *x = dyn_cast<StmtExpr>(e)) { auto o=mk("stmtexpr",e); o["s"]=St(x->getSubStmt()); return std::move(o); }
    auto o=mk("other",e); o["cls"]=S(e->getStmtClassName()); o["t"]=S(ty(e->getType())); json::Array a; for (auto *c: e->children()) if (c) { if (auto *ce=dyn_cast<Expr>(c)) a.push_back(E(ce)); } o["a"]=std::move(a); return std::move(o);
  }

  json::Value param(const ParmVarDecl *p) { json::Object o; o["n"]=S(p->getNameAsString()); o["d"]=id(p); o["t"]=S(ty(p->getType())); return std::move(o); }

  json::Value var(const VarDecl *v) {
    json::Object o; o["n"]=S(v->getNameAsString()); o["d"]=id(v); o["t"]=S(ty(v->getType())); o["l"]=line(v->getLocation());
    if (v->isStaticLocal()) o["sl"]=true;
    if (v->getInit()) { o["i"]=E(v->getInit()); if (v->getInitStyle()!=VarDecl::CInit) o["is"]=(int)v->getInitStyle(); }
    return std::move(o);
  }
  json::Object mks(const char *k, const Stmt *s) { json::Object o; o["k"]=k; o["l"]=line(s->getBeginLoc()); return o; }
  json::Value St(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *x = dyn_cast<Expr>(s)) { auto o=mks("expr",s); o["e"]=E(x); return std::move(o); }
    if (auto *x = dyn_cast<CompoundStmt>(s)) { auto o=mks("block",s); json::Array a; for (auto *c:x->body()) a.push_back(St(c)); o["b"]=std::move(a); o["el"]=line(x->getRBracLoc()); return std::move(o); }
    if (auto *x = dyn_cast<DeclStmt>(s)) { auto o=mks("decl",s); json::Array a; for (auto *d:x->decls()) if (auto *v=dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"]=std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<IfStmt>(s)) { auto o=mks("if",s); if (x->getInit()) o["init"]=St(x->getInit()); if (auto *v=x->getConditionVariable()) o["cv"]=var(v); o["c"]=E(x->getCond()); o["t"]=St(x->getThen()); if (x->getElse()) o["e"]=St(x->getElse()); return std::move(o); }
    if (auto *x = dyn_cast<ForStmt>(s)) { auto o=mks("for",s); o["i"]=St(x->getInit()); o["c"]=x->getCond()?E(x->getCond()):json::Value(nullptr); o["n"]=x->getInc()?E(x->getInc()):json::Value(nullptr); o["b"]=St(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<WhileStmt>(s)) { auto o=mks("while",s); if (auto *v=x->getConditionVariable()) o["cv"]=var(v); o["c"]=E(x->getCond()); o["b"]=St(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<DoStmt>(s)) { auto o=mks("do",s); o["c"]=E(x->getCond()); o["b"]=St(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { auto o=mks("forr",s); o["v"]=var(x->getLoopVariable()); o["r"]=E(x->getRangeInit()); o["b"]=St(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { auto o=mks("ret",s); o["e"]=x->getRetValue()?E(x->getRetValue()):json::Value(nullptr); return std::move(o); }
    if (isa<BreakStmt>(s)) return mks("break",s);
    if (isa<ContinueStmt>(s)) return mks("cont",s);
    if (isa<NullStmt>(s)) return mks("null",s);
    if (auto *x = dyn_cast<SwitchStmt>(s)) { auto o=mks("switch",s); if (auto *v=x->getConditionVariable()) o["cv"]=var(v); o["c"]=E(x->getCond()); o["b"]=St(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CaseStmt>(s)) { auto o=mks("case",s); o["e"]=E(x->getLHS()); if (x->getRHS()) o["e2"]=E(x->getRHS()); o["b"]=St(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { auto o=mks("default",s); o["b"]=St(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<LabelStmt>(s)) { auto o=mks("label",s); o["n"]=S(x->getName()); o["b"]=St(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<GotoStmt>(s)) { auto o=mks("goto",s); o["n"]=S(x->getLabel()->getNameAsString()); return std::move(o); }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) { auto o=mks("try",s); o["b"]=St(x->getTryBlock()); json::Array a; for (unsigned i=0;i<x->getNumHandlers();i++) { auto *h=x->getHandler(i); json::Object ho; ho["l"]=line(h->getBeginLoc()); if (h->getExceptionDecl()) { ho["v"]=var(h->getExceptionDecl()); ho["t"]=S(ty(h->getCaughtType())); } else ho["t"]=S("..."); ho["b"]=St(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"]=std::move(a); return std::move(o); }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return St(x->getSubStmt());
    auto o=mks("otherst",s); o["cls"]=S(s->getStmtClassName()); json::Array a; for (auto *c:s->children()) if (c) a.push_back(St(c)); o["a"]=std::move(a); return std::move(o);
  }

  json::Value fn(const FunctionDecl *FD) {
    json::Object o; o["f"]=S(usr(FD)); o["n"]=S(FD->getNameAsString()); o["q"]=S(FD->getQualifiedNameAsString()); o["rt"]=S(ty(FD->getReturnType()));
    o["file"]=S(realname(FD->getLocation())); o["l"]=line(FD->getLocation());
    o["el"]=line(FD->getEndLoc());
    if (FD->getStorageClass()==SC_Static) o["static"]=true;
    json::Array ps; for (auto *p:FD->parameters()) ps.push_back(param(p)); o["p"]=std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
      o["c"]=S(ty(C.getRecordType(M->getParent()))); if (M->isVirtual()) o["virt"]=true; if (M->isStatic()) o["st"]=true; if (M->isConst()) o["const"]=true;
      json::Array ov; for (auto *x: M->overridden_methods()) ov.push_back(S(usr(x))); o["ov"]=std::move(ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(FD)) {
        o["ctor"]=true; if (CD->isCopyConstructor()) o["cc"]=true; if (CD->isMoveConstructor()) o["mc"]=true; if (CD->isDefaultConstructor()) o["dc"]=true; if (CD->isImplicit()) o["impl"]=true;
        json::Array is; for (auto *i: CD->inits()) { json::Object io; if (i->isAnyMemberInitializer()) io["m"]=S(i->getAnyMember()->getNameAsString()); else if (i->getBaseClass()) io["base"]=S(ty(QualType(i->getBaseClass(),0))); io["w"]=i->isWritten(); io["e"]=E(i->getInit()); is.push_back(std::move(io)); } o["inits"]=std::move(is);
      }
      if (isa<CXXDestructorDecl>(FD)) o["dtor"]=true;
      if (M->isCopyAssignmentOperator()) o["ca"]=true; if (M->isMoveAssignmentOperator()) o["ma"]=true;
    }
    if (FD->isTemplateInstantiation()) o["inst"]=true;
    o["body"]=St(FD->getBody());
    return std::move(o);
  }
  json::Value rec(const CXXRecordDecl *R) {
    json::Object o; o["n"]=S(ty(C.getRecordType(R))); o["sn"]=S(R->getNameAsString()); o["file"]=S(realname(R->getLocation())); o["l"]=line(R->getLocation());
    json::Array bs; for (auto &b: R->bases()) bs.push_back(S(ty(b.getType()))); o["bases"]=std::move(bs);
    json::Array fs; for (auto *f: R->fields()) { json::Object fo; fo["n"]=S(f->getNameAsString()); fo["t"]=S(ty(f->getType())); fo["l"]=line(f->getLocation()); if (auto *ie=f->getInClassInitializer()) { fo["i"]=E(ie); } fs.push_back(std::move(fo)); } o["fields"]=std::move(fs);
    json::Array ms; for (auto *m: R->methods()) { json::Object mo; mo["f"]=S(usr(m)); mo["n"]=S(m->getNameAsString()); if (m->isVirtual()) mo["virt"]=true; if (m->isImplicit()) mo["impl"]=true; if (m->isDeleted()) mo["del"]=true; json::Array ov; for (auto *x: m->overridden_methods()) ov.push_back(S(usr(x))); mo["ov"]=std::move(ov);
       if (isa<CXXDestructorDecl>(m)) mo["dtor"]=true; ms.push_back(std::move(mo)); } o["methods"]=std::move(ms);
    if (auto *SP = dyn_cast<ClassTemplateSpecializationDecl>(R)) { json::Array ta; for (auto &a: SP->getTemplateArgs().asArray()) { std::string b; llvm::raw_string_ostream os(b); a.print(PP,os,true); ta.push_back(S(os.str())); } o["targs"]=std::move(ta); }
    return std::move(o);
  }
};

struct Vis : RecursiveASTVisitor<Vis> {
  Dumper &D; json::Array &fns,&recs,&globs,&enums;
  std::set<const Decl*> seen;
  Vis(Dumper &d,json::Array &f,json::Array &r,json::Array &g,json::Array &e):D(d),fns(f),recs(r),globs(g),enums(e){}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *FD) {
    if (!FD->doesThisDeclarationHaveABody() || FD->isDependentContext() || !D.inRoot(FD->getLocation())) return true;
    if (FD->isDefaulted() && !FD->isUserProvided() && !isa<CXXConstructorDecl>(FD)) return true;
    if (auto *M=dyn_cast<CXXMethodDecl>(FD)) if (M->getParent()->isLambda()) return true;
    if (!seen.insert(FD).second) return true;
    fns.push_back(D.fn(FD)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda() || !D.inRoot(R->getLocation())) return true;
    if (!seen.insert(R).second) return true;
    recs.push_back(D.rec(R)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->isFileVarDecl() || !D.inRoot(V->getLocation()) || V->getDeclContext()->isDependentContext()) return true;
    if (!V->getInit() || isa<ParmVarDecl>(V)) { }
    if (!seen.insert(V).second) return true;
    auto o = D.var(V); (*o.getAsObject())["file"]=D.S(D.realname(V->getLocation())); if (V->getStorageClass()==SC_Static) (*o.getAsObject())["static"]=true; globs.push_back(std::move(o)); return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation())) return true;
    json::Object o; o["n"]=D.S(E->getNameAsString()); o["file"]=D.S(D.realname(E->getLocation())); json::Array a; for (auto *c:E->enumerators()) { llvm::SmallString<32> b; c->getInitVal().toString(b,10); json::Array p; p.push_back(D.S(c->getNameAsString())); p.push_back(b.str().str()); a.push_back(std::move(p)); } o["v"]=std::move(a); enums.push_back(std::move(o)); return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C); json::Array f,r,g,e; Vis V(D,f,r,g,e); V.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o; o["functions"]=std::move(f); o["classes"]=std::move(r); o["globals"]=std::move(g); o["enums"]=std::move(e);
    o["errors"]=C.getDiagnostics().hasErrorOccurred();
    json::Array st; for (auto &s: D.strs) st.push_back(json::isUTF8(s)?s:json::fixUTF8(s)); o["strings"]=std::move(st);
    std::error_code EC; llvm::raw_fd_ostream os(OutFile,EC); os << json::Value(std::move(o)); 
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef) override { return std::make_unique<Cons>(); } };
}

// usage: slugsx OUT.json SOURCE ROOT[,ROOT..] -- compiler args
int main(int argc,const char **argv) {
  if (argc<5) { llvm::errs() << "usage\n"; return 2; }
  OutFile=argv[1]; std::string src=argv[2]; std::string roots=argv[3];
  size_t p=0; while (p<=roots.size()) { size_t q=roots.find(',',p); if (q==std::string::npos) q=roots.size(); if (q>p) Roots.push_back(roots.substr(p,q-p)); p=q+1; }
  std::vector<std::string> args; for (int i=5;i<argc;i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".",args);
  tooling::ClangTool T(DB,{src});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
