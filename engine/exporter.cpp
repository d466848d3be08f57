// Clang plugin: exports the resolved AST of the functions of /repo that a check needs, as JSON lines
// (one function or record per line).  Nothing is rewritten: every statement and expression of the body is
// exported after overload resolution and template instantiation.  Dropped: parentheses, implicit
// lvalue-to-rvalue conversions, temporaries' bookkeeping nodes, source comments.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include <deque>
#include <set>
#include <map>
#include <fstream>
using namespace clang;
using llvm::json::Value;
using llvm::json::Object;
using llvm::json::Array;
namespace {
struct Opts { std::string out; std::vector<std::string> roots; std::vector<std::string> dirs; };

struct Exp {
  ASTContext &C; Opts &O; PrintingPolicy P; llvm::raw_fd_ostream &OS;
  std::deque<const FunctionDecl*> work; std::set<const FunctionDecl*> seen;
  std::set<const CXXRecordDecl*> recs; std::deque<const CXXRecordDecl*> rwork;
  std::set<const VarDecl*> gvars; std::deque<const VarDecl*> gwork;
  std::map<const Decl*, int> ids; int next=1;
  Exp(ASTContext&c, Opts&o, llvm::raw_fd_ostream&os):C(c),O(o),P(c.getLangOpts()),OS(os){
    P.SuppressTagKeyword=true; P.Bool=true; P.PrintCanonicalTypes=true; P.SuppressUnwrittenScope=true; P.AnonymousTagLocations=false;
    P.UsePreferredNames=false;
  }
  int id(const Decl*d){ d=d->getCanonicalDecl(); auto it=ids.find(d); if(it!=ids.end()) return it->second; return ids[d]=next++; }
  std::string T(QualType q){ return q.getCanonicalType().getAsString(P); }
  bool inRepo(const Decl*d){
    SourceManager&S=C.getSourceManager(); SourceLocation L=S.getExpansionLoc(d->getLocation());
    if(L.isInvalid()) return false; StringRef f=S.getFilename(L);
    for(auto&x:O.dirs) if(f.contains(x)) return true; return false;
  }
  std::string qn(const NamedDecl*d){ std::string s; llvm::raw_string_ostream os(s); d->getNameForDiagnostic(os,P,true); return s; }
  std::string plain(const NamedDecl*d){ return d->getQualifiedNameAsString(); }
  std::string key(const FunctionDecl*f){
    std::string s=qn(f); s+="("; bool first=true;
    for(auto*p:f->parameters()){ if(!first) s+=", "; first=false; s+=T(p->getType()); }
    s+=")"; if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->isConst()) s+=" const";
    return s;
  }
  void need(const FunctionDecl*f){
    if(!f) return; const FunctionDecl*def=nullptr;
    if(!f->hasBody(def)) { 
      return; }
    if(!def||def->isDependentContext()) return;
    if(!inRepo(def)) return;
    if(seen.insert(def->getCanonicalDecl()).second) work.push_back(def);
  }
  std::string locs(SourceLocation L){ SourceManager&S=C.getSourceManager(); auto p=S.getPresumedLoc(S.getExpansionLoc(L)); if(p.isInvalid()) return ""; std::string f=p.getFilename(); auto k=f.rfind("/core/"); if(k!=std::string::npos) f=f.substr(k+1); return f+":"+std::to_string(p.getLine()); }
  int line(SourceLocation L){ SourceManager&S=C.getSourceManager(); return S.getExpansionLineNumber(L); }
  Object var(const VarDecl*v){
    Object o{{"id",id(v)},{"name",v->getNameAsString()},{"t",T(v->getType())}};
    return o;
  }
  Array args(CallExpr*c, unsigned from=0){ Array a; for(unsigned i=from;i<c->getNumArgs();++i) a.push_back(E(c->getArg(i))); return a; }
  Value fnref(const FunctionDecl*f){
    Object o{{"q",plain(f)},{"key",key(f)},{"n",f->getNameAsString()}};
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=qn(m->getParent()); o["clsp"]=plain(m->getParent()); if(m->isVirtual()) o["virt"]=true; if(m->isStatic()) o["static"]=true; }
    if(inRepo(f)) o["repo"]=true;
    if(auto*ta=f->getTemplateSpecializationArgs()){ Array a; for(auto&x:ta->asArray()){ std::string s; llvm::raw_string_ostream os(s); if(x.getKind()==TemplateArgument::Type) os<<T(x.getAsType()); else x.print(P,os,true); a.push_back(os.str()); } o["targs"]=std::move(a);}
    o["ret"]=T(f->getReturnType());
    Array pt; for(auto*p:f->parameters()) pt.push_back(T(p->getType())); o["pt"]=std::move(pt);
    need(f);
    return o;
  }
  Value E(const Expr*e){
    if(!e) return nullptr;
    const Expr*x=e;
    for(;;){
      if(auto*p=dyn_cast<ParenExpr>(x)) x=p->getSubExpr();
      else if(auto*p=dyn_cast<FullExpr>(x)) x=p->getSubExpr();
      else if(auto*p=dyn_cast<MaterializeTemporaryExpr>(x)) x=p->getSubExpr();
      else if(auto*p=dyn_cast<CXXBindTemporaryExpr>(x)) x=p->getSubExpr();
      else if(auto*p=dyn_cast<SubstNonTypeTemplateParmExpr>(x)) x=p->getReplacement();
      else if(auto*p=dyn_cast<CXXDefaultArgExpr>(x)) x=p->getExpr();
      else if(auto*p=dyn_cast<CXXDefaultInitExpr>(x)) x=p->getExpr();
      else if(auto*p=dyn_cast<CXXStdInitializerListExpr>(x)) x=p->getSubExpr();
      else if(auto*p=dyn_cast<GenericSelectionExpr>(x)) x=p->getResultExpr();
      else if(auto*p=dyn_cast<ImplicitCastExpr>(x)){
        switch(p->getCastKind()){
          case CK_LValueToRValue: case CK_NoOp: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
            x=p->getSubExpr(); continue;
          default: break;
        }
        break;
      }
      else break;
    }
    e=x;
    Object o; o["t"]=T(e->getType()); o["l"]=line(e->getExprLoc());
    auto K=[&](const char*k){ o["k"]=k; };
    if(auto*p=dyn_cast<IntegerLiteral>(e)){ K("int"); llvm::SmallString<32> s; p->getValue().toString(s,10,e->getType()->isSignedIntegerType()); o["v"]=std::string(s.str()); }
    else if(auto*p=dyn_cast<CXXBoolLiteralExpr>(e)){ K("bool"); o["v"]=p->getValue(); }
    else if(auto*p=dyn_cast<FloatingLiteral>(e)){ K("float"); llvm::SmallString<32> s; p->getValue().toString(s,40,0); o["v"]=std::string(s.str()); }
    else if(auto*p=dyn_cast<CharacterLiteral>(e)){ K("int"); o["v"]=std::to_string(p->getValue()); }
    else if(auto*p=dyn_cast<clang::StringLiteral>(e)){ K("str"); o["v"]=p->isOrdinary()?llvm::json::fixUTF8(p->getString()):std::string(); }
    else if(isa<PredefinedExpr>(e)){ K("str"); o["v"]=""; }
    else if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){ K("null"); }
    else if(isa<CXXThisExpr>(e)){ K("this"); }
    else if(auto*p=dyn_cast<DeclRefExpr>(e)){
      const ValueDecl*d=p->getDecl();
      if(auto*f=dyn_cast<FunctionDecl>(d)){ K("fn"); o["f"]=fnref(f); }
      else if(auto*c=dyn_cast<EnumConstantDecl>(d)){ K("enum"); o["q"]=plain(c); o["v"]=c->getInitVal().getExtValue(); }
      else if(auto*v=dyn_cast<VarDecl>(d)){
        K("ref"); o["id"]=id(v); o["name"]=v->getNameAsString();
        if(v->hasGlobalStorage()){ o["global"]=plain(v); o["gq"]=qn(v);
           if(inRepo(v)) { const VarDecl*def=v->getDefinition(); if(def && !def->getType()->isDependentType() && gvars.insert(def).second) gwork.push_back(def); }
           Expr::EvalResult R; if(v->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(R,C)) o["cv"]=(int64_t)R.Val.getInt().getExtValue(); }
      }
      else if(auto*b=dyn_cast<BindingDecl>(d)){ K("ref"); o["id"]=id(b); o["name"]=b->getNameAsString(); o["binding"]=true; }
      else { K("unk"); o["c"]="DeclRef"; }
    }
    else if(auto*p=dyn_cast<MemberExpr>(e)){
      const ValueDecl*d=p->getMemberDecl();
      if(auto*f=dyn_cast<FunctionDecl>(d)){ K("mfn"); o["f"]=fnref(f); o["base"]=E(p->getBase()); o["arrow"]=p->isArrow(); }
      else if(auto*v=dyn_cast<VarDecl>(d)){ K("ref"); o["id"]=id(v); o["name"]=v->getNameAsString(); o["global"]=plain(v); o["gq"]=qn(v);
           if(inRepo(v)) { const VarDecl*def=v->getDefinition(); if(def && gvars.insert(def).second) gwork.push_back(def); } }
      else if(auto*c=dyn_cast<EnumConstantDecl>(d)){ K("enum"); o["q"]=plain(c); o["v"]=c->getInitVal().getExtValue(); }
      else { K("mem"); o["base"]=E(p->getBase()); o["arrow"]=p->isArrow(); o["name"]=d->getNameAsString();
        if(auto*fd=dyn_cast<FieldDecl>(d)) { o["cls"]=plain(cast<NamedDecl>(fd->getParent())); } }
    }
    else if(auto*p=dyn_cast<CXXOperatorCallExpr>(e)){
      K("op"); o["op"]=getOperatorSpelling(p->getOperator());
      if(p->getOperator()==OO_Call) o["op"]="()"; if(p->getOperator()==OO_Subscript) o["op"]="[]";
      if(auto*f=p->getDirectCallee()) { o["f"]=fnref(f); o["meth"]=isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic(); }
      o["args"]=args(const_cast<CXXOperatorCallExpr*>(p));
    }
    else if(auto*p=dyn_cast<CXXMemberCallExpr>(e)){
      K("mcall");
      if(auto*f=p->getMethodDecl()) o["f"]=fnref(f);
      const Expr*cal=p->getCallee()->IgnoreParenImpCasts();
      if(auto*me=dyn_cast<MemberExpr>(cal)){ o["arrow"]=me->isArrow(); o["obj"]=E(me->getBase()); if(me->hasQualifier()) o["qualified"]=true; }
      else if(auto*bo=dyn_cast<BinaryOperator>(cal)){ o["obj"]=E(bo->getLHS()); o["fp"]=E(bo->getRHS()); o["arrow"]=bo->getOpcode()==BO_PtrMemI; }
      o["args"]=args(const_cast<CXXMemberCallExpr*>(p));
    }
    else if(auto*p=dyn_cast<UserDefinedLiteral>(e)){ K("unk"); o["c"]="UDL"; }
    else if(auto*p=dyn_cast<CallExpr>(e)){
      K("call");
      if(auto*f=p->getDirectCallee()) o["f"]=fnref(f); else o["fe"]=E(p->getCallee());
      o["args"]=args(const_cast<CallExpr*>(p));
    }
    else if(auto*p=dyn_cast<CXXConstructExpr>(e)){
      auto*cd=p->getConstructor();
      K("ctor"); o["f"]=fnref(cd); o["elide"]=p->isElidable();
      if(cd->isCopyConstructor()) o["copy"]=true; if(cd->isMoveConstructor()) o["move"]=true;
      if(p->isListInitialization()) o["list"]=true;
      needrec(cd->getParent());
      Array a; for(auto*x:p->arguments()) a.push_back(E(x)); o["args"]=std::move(a);
    }
    else if(auto*p=dyn_cast<CXXInheritedCtorInitExpr>(e)){ K("unk"); o["c"]="InheritedCtor"; }
    else if(isa<CXXScalarValueInitExpr>(e)||isa<ImplicitValueInitExpr>(e)){ K("zero"); }
    else if(auto*p=dyn_cast<InitListExpr>(e)){ K("ilist"); if(p->isSemanticForm()==false && p->getSemanticForm()) p=p->getSemanticForm(); Array a; for(auto*x:p->inits()) a.push_back(E(x)); o["args"]=std::move(a); }
    else if(auto*p=dyn_cast<UnaryOperator>(e)){ K("un"); o["op"]=UnaryOperator::getOpcodeStr(p->getOpcode()).str(); o["post"]=p->isPostfix(); o["e"]=E(p->getSubExpr()); }
    else if(auto*p=dyn_cast<CompoundAssignOperator>(e)){ K("cassign"); o["op"]=BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(p->getOpcode())).str(); o["a"]=E(p->getLHS()); o["b"]=E(p->getRHS()); o["ct"]=T(p->getComputationResultType()); }
    else if(auto*p=dyn_cast<BinaryOperator>(e)){ if(p->isAssignmentOp()) K("assign"); else if(p->getOpcode()==BO_Comma) K("comma"); else K("bin"); o["op"]=p->getOpcodeStr().str(); o["a"]=E(p->getLHS()); o["b"]=E(p->getRHS()); }
    else if(auto*p=dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(p->getSemanticForm());
    else if(auto*p=dyn_cast<ConditionalOperator>(e)){ K("cond"); o["c"]=E(p->getCond()); o["a"]=E(p->getTrueExpr()); o["b"]=E(p->getFalseExpr()); }
    else if(auto*p=dyn_cast<ArraySubscriptExpr>(e)){ K("idx"); o["a"]=E(p->getBase()); o["b"]=E(p->getIdx()); }
    else if(auto*p=dyn_cast<LambdaExpr>(e)){
      K("lambda"); Array caps; 
      for(auto&c:p->captures()){ Object co; if(c.capturesThis()) co["this"]=true; else if(c.capturesVariable()){ co["id"]=id(c.getCapturedVar()); co["name"]=c.getCapturedVar()->getNameAsString(); } co["byref"]=c.getCaptureKind()==LCK_ByRef; caps.push_back(std::move(co)); }
      o["caps"]=std::move(caps);
      auto*cm=p->getCallOperator();
      if(cm && cm->isDependentContext()) { 
        // generic lambda: export its instantiations
        Array insts; if(auto*ft=cm->getDescribedFunctionTemplate()) for(auto*s:ft->specializations()) { const FunctionDecl*def; if(s->hasBody(def)) insts.push_back(fnbody(def)); }
        o["insts"]=std::move(insts);
      } else if(cm) o["fn"]=fnbody(cm);
    }
    else if(auto*p=dyn_cast<CXXNewExpr>(e)){ K("new"); o["at"]=T(p->getAllocatedType()); if(p->isArray()){ o["arr"]=true; if(auto sz=p->getArraySize()) o["size"]=E(*sz);} if(auto*ce=p->getConstructExpr()) o["ctor"]=E(ce); else if(p->getInitializer()) o["init"]=E(p->getInitializer()); }
    else if(isa<CXXDeleteExpr>(e)){ K("delete"); }
    else if(auto*p=dyn_cast<CXXThrowExpr>(e)){ K("throw"); o["e"]=E(p->getSubExpr()); }
    else if(auto*p=dyn_cast<ExplicitCastExpr>(e)){ 
      K("cast"); o["ck"]=p->getCastKindName(); o["e"]=E(p->getSubExpr()); o["explicit"]=true; o["style"]=p->getStmtClassName(); }
    else if(auto*p=dyn_cast<CastExpr>(e)){ K("cast"); o["ck"]=p->getCastKindName(); o["e"]=E(p->getSubExpr()); }
    else if(auto*p=dyn_cast<TypeTraitExpr>(e)){ K("bool"); o["v"]=p->getValue(); }
    else if(auto*p=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){ Expr::EvalResult R; if(e->EvaluateAsInt(R,C)){ K("int"); o["v"]=std::to_string(R.Val.getInt().getExtValue()); } else { K("unk"); o["c"]="sizeof"; } }
    else if(auto*p=dyn_cast<CXXTypeidExpr>(e)){ K("typeid"); if(p->isTypeOperand()) o["ty"]=T(p->getTypeOperand(C)); else o["e"]=E(p->getExprOperand()); }
    else if(auto*p=dyn_cast<SourceLocExpr>(e)){ K("str"); o["v"]=""; }
    else if(auto*p=dyn_cast<OpaqueValueExpr>(e)) return E(p->getSourceExpr());
    else if(auto*p=dyn_cast<CXXParenListInitExpr>(e)){ K("ilist"); Array a; for(auto*x:p->getInitExprs()) a.push_back(E(x)); o["args"]=std::move(a);}
    else { K("unk"); o["c"]=e->getStmtClassName(); }
    return o;
  }
  Value D(const Decl*d){
    Object o;
    if(auto*v=dyn_cast<VarDecl>(d)){ o=var(v); o["k"]="vd"; if(v->isStaticLocal()) o["static"]=true; if(v->getInit()) o["init"]=E(v->getInit());
      if(auto*dd=dyn_cast<DecompositionDecl>(v)){ Array b; for(auto*x:dd->bindings()){ b.push_back(Object{{"id",id(x)},{"name",x->getNameAsString()},{"t",T(x->getType())}}); } o["bindings"]=std::move(b);} }
    else { o["k"]="od"; o["c"]=d->getDeclKindName(); }
    return o;
  }
  Value S(const Stmt*s){
    if(!s) return nullptr;
    Object o; 
    if(auto*e=dyn_cast<Expr>(s)){ o["k"]="expr"; o["l"]=line(s->getBeginLoc()); o["e"]=E(e); return o; }
    o["l"]=line(s->getBeginLoc());
    auto K=[&](const char*k){ o["k"]=k; };
    if(auto*p=dyn_cast<CompoundStmt>(s)){ K("block"); Array a; for(auto*x:p->body()) a.push_back(S(x)); o["s"]=std::move(a); }
    else if(auto*p=dyn_cast<DeclStmt>(s)){ K("decl"); Array a; for(auto*x:p->decls()) a.push_back(D(x)); o["d"]=std::move(a); }
    else if(auto*p=dyn_cast<IfStmt>(s)){ K("if"); if(p->isConstexpr()) o["constexpr"]=true; if(p->getInit()) o["init"]=S(p->getInit()); if(auto*v=p->getConditionVariable()) o["var"]=D(v); o["c"]=E(p->getCond()); o["a"]=S(p->getThen()); if(p->getElse()) o["b"]=S(p->getElse()); }
    else if(auto*p=dyn_cast<WhileStmt>(s)){ K("while"); if(auto*v=p->getConditionVariable()) o["var"]=D(v); o["c"]=E(p->getCond()); o["b"]=S(p->getBody()); }
    else if(auto*p=dyn_cast<DoStmt>(s)){ K("do"); o["c"]=E(p->getCond()); o["b"]=S(p->getBody()); }
    else if(auto*p=dyn_cast<ForStmt>(s)){ K("for"); if(p->getInit()) o["init"]=S(p->getInit()); if(p->getCond()) o["c"]=E(p->getCond()); if(p->getInc()) o["inc"]=E(p->getInc()); o["b"]=S(p->getBody()); }
    else if(auto*p=dyn_cast<CXXForRangeStmt>(s)){ K("rfor"); o["var"]=D(p->getLoopVariable()); o["range"]=E(p->getRangeInit()); o["b"]=S(p->getBody()); }
    else if(auto*p=dyn_cast<SwitchStmt>(s)){ K("switch"); if(p->getInit()) o["init"]=S(p->getInit()); o["c"]=E(p->getCond()); o["b"]=S(p->getBody()); }
    else if(auto*p=dyn_cast<CaseStmt>(s)){ K("case"); o["v"]=E(p->getLHS()); o["s"]=S(p->getSubStmt()); }
    else if(auto*p=dyn_cast<DefaultStmt>(s)){ K("default"); o["s"]=S(p->getSubStmt()); }
    else if(isa<BreakStmt>(s)) K("break");
    else if(isa<ContinueStmt>(s)) K("continue");
    else if(auto*p=dyn_cast<ReturnStmt>(s)){ K("return"); if(p->getRetValue()) o["e"]=E(p->getRetValue()); }
    else if(auto*p=dyn_cast<CXXTryStmt>(s)){ K("try"); o["b"]=S(p->getTryBlock()); Array a; for(unsigned i=0;i<p->getNumHandlers();++i){ auto*h=p->getHandler(i); Object ho; if(auto*v=h->getExceptionDecl()) ho["var"]=D(v); if(!h->getCaughtType().isNull()) ho["t"]=T(h->getCaughtType()); ho["b"]=S(h->getHandlerBlock()); a.push_back(std::move(ho)); } o["h"]=std::move(a); }
    else if(isa<NullStmt>(s)) K("null");
    else if(auto*p=dyn_cast<AttributedStmt>(s)) return S(p->getSubStmt());
    else { K("unk"); o["c"]=s->getStmtClassName(); }
    return o;
  }
  Object fnbody(const FunctionDecl*f){
    Object o{{"k","function"},{"key",key(f)},{"q",plain(f)},{"qn",qn(f)},{"n",f->getNameAsString()},{"ret",T(f->getReturnType())},{"loc",locs(f->getLocation())}};
    Array ps; for(auto*p:f->parameters()) { Object po=var(p); ps.push_back(std::move(po)); } o["params"]=std::move(ps);
    if(auto*ta=f->getTemplateSpecializationArgs()){ Array a; for(auto&x:ta->asArray()){ std::string s; llvm::raw_string_ostream os(s); if(x.getKind()==TemplateArgument::Type) os<<T(x.getAsType()); else x.print(P,os,true); a.push_back(os.str()); } o["targs"]=std::move(a);}
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=qn(m->getParent()); o["clsp"]=plain(m->getParent()); o["const"]=m->isConst(); o["virt"]=m->isVirtual(); o["static"]=m->isStatic(); needrec(m->getParent());
      Array ov; for(auto*b:m->overridden_methods()) ov.push_back(key(b)); o["over"]=std::move(ov); }
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ Array in; for(auto*i:c->inits()){ Object io; if(i->isAnyMemberInitializer()) io["field"]=i->getAnyMember()->getNameAsString(); else if(i->isBaseInitializer()) io["base"]=T(QualType(i->getBaseClass(),0)); else if(i->isDelegatingInitializer()) io["deleg"]=true; io["e"]=E(i->getInit()); in.push_back(std::move(io)); } o["inits"]=std::move(in); }
    SourceManager&SM=C.getSourceManager(); o["endl"]=(int)SM.getExpansionLineNumber(f->getEndLoc());
    o["body"]=S(f->getBody());
    return o;
  }
  void needrec(const CXXRecordDecl*r){ if(!r) return; r=r->getDefinition(); if(!r||r->isDependentContext()||r->isLambda()) return; if(!inRepo(r)){ auto*sp=dyn_cast<ClassTemplateSpecializationDecl>(r); if(!sp||!inRepo(sp->getSpecializedTemplate()->getTemplatedDecl())) return; } if(recs.insert(r).second) rwork.push_back(r); }
  void rec(const CXXRecordDecl*r){
    Object o{{"k","record"},{"q",plain(r)},{"qn",qn(r)}};
    Array b; for(auto&x:r->bases()){ b.push_back(T(x.getType())); if(auto*c=x.getType()->getAsCXXRecordDecl()) needrec(c); } o["bases"]=std::move(b);
    Array f; for(auto*x:r->fields()){ Object fo{{"name",x->getNameAsString()},{"t",T(x->getType())}}; if(x->hasInClassInitializer()&&x->getInClassInitializer()) fo["init"]=E(x->getInClassInitializer()); f.push_back(std::move(fo)); } o["fields"]=std::move(f);
    Array m; for(auto*x:r->methods()){ Object mo{{"n",x->getNameAsString()},{"key",key(x)},{"virt",x->isVirtual()},{"pure",x->isPureVirtual()}}; Array ov; for(auto*b:x->overridden_methods()) ov.push_back(key(b)); mo["over"]=std::move(ov); m.push_back(std::move(mo)); } o["methods"]=std::move(m);
    emit(std::move(o));
  }
  void emit(Object o){ OS<<Value(std::move(o))<<"\n"; }
  void run(){
    while(!work.empty()||!rwork.empty()||!gwork.empty()){
      if(!work.empty()){ auto*f=work.front(); work.pop_front(); emit(fnbody(f)); }
      else if(!rwork.empty()){ auto*r=rwork.front(); rwork.pop_front(); rec(r); }
      else { auto*v=gwork.front(); gwork.pop_front(); Object o{{"k","global"},{"q",plain(v)},{"gq",qn(v)},{"t",T(v->getType())}}; if(v->getInit()) o["init"]=E(v->getInit()); emit(std::move(o)); }
    }
  }
};
struct V: RecursiveASTVisitor<V>{
  Exp&X; std::vector<llvm::Regex> re; 
  V(Exp&x):X(x){ for(auto&r:x.O.roots) re.emplace_back(r); }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl*f){
    if(f->isDependentContext()||!f->doesThisDeclarationHaveABody()||!X.inRepo(f)) return true;
    std::string q=X.plain(f); for(auto&r:re) if(r.match(q)) { X.need(f); break; }
    return true;
  }
};
struct Cons: ASTConsumer{ Opts O; Cons(Opts o):O(std::move(o)){} 
  void HandleTranslationUnit(ASTContext&C) override { std::error_code ec; llvm::raw_fd_ostream OS(O.out,ec); Exp X(C,O,OS); V v(X); v.TraverseDecl(C.getTranslationUnitDecl()); X.run(); } };
struct Act: PluginASTAction{ Opts O;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef) override { return std::make_unique<Cons>(O); }
  bool ParseArgs(const CompilerInstance&,const std::vector<std::string>&a) override { for(size_t i=0;i+1<a.size();i+=2){ if(a[i]=="out") O.out=a[i+1]; else if(a[i]=="root") O.roots.push_back(a[i+1]); else if(a[i]=="dir") O.dirs.push_back(a[i+1]); } return true; }
  ActionType getActionType() override { return ReplaceAction; } };
}
static FrontendPluginRegistry::Add<Act> Reg("b2export","export AST");
