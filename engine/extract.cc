// USML fact extractor: a libTooling program that dumps, for every non-dependent
// function defined in /repo's library modules, its expression nodes, statement
// tree and control-flow graph, together with class, enum and global records.
// It does not decide anything; the Python analyses do.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string REPO;           // realpath of repository root
static std::string INCROOT;        // include root containing the usml symlink
static std::set<std::string> emittedFn, emittedCls, emittedEnum, emittedVar;
static llvm::raw_ostream *OUT;

static std::string relFile(std::string f) {
    for (const std::string &pre : {INCROOT + "/usml/", REPO + "/"}) {
        if (f.compare(0, pre.size(), pre) == 0) return f.substr(pre.size());
    }
    return "";
}

static std::string usr(const Decl *D) {
    if (!D) return "";
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(D, buf)) return "";
    return std::string(buf.str());
}

struct FnDumper {
    ASTContext &C;
    const SourceManager &SM;
    PrintingPolicy PP;
    std::vector<json::Value> nodes;
    std::map<const Stmt *, int> ids;
    std::map<const Decl *, int> declIds;
    std::vector<const LambdaExpr *> lambdas;
    std::set<std::string> *extraFns = nullptr;

    FnDumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
    }

    int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
    std::string ty(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    int declId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int n = (int)declIds.size() + 1;
        declIds[D] = n;
        return n;
    }
    static std::string qn(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P(D->getASTContext().getLangOpts());
        P.SuppressTagKeyword = true;
        D->printQualifiedName(os, P);
        return os.str();
    }
    // class name including template args
    std::string cls(const CXXRecordDecl *R) {
        if (!R) return "";
        return C.getRecordType(R).getCanonicalType().getAsString(PP);
    }

    const Stmt *strip(const Stmt *S, bool &rd, std::string &ic) {
        while (S) {
            if (auto *e = dyn_cast<ImplicitCastExpr>(S)) {
                if (e->getCastKind() == CK_LValueToRValue) rd = true;
                if (e->getCastKind() == CK_FloatingToIntegral) ic = "f2i";
                if (e->getCastKind() == CK_IntegralToFloating) ic = "i2f";
                if (e->getCastKind() == CK_PointerToBoolean) ic = "p2b";
                S = e->getSubExpr();
            } else if (auto *e = dyn_cast<ParenExpr>(S)) S = e->getSubExpr();
            else if (auto *e = dyn_cast<ExprWithCleanups>(S)) S = e->getSubExpr();
            else if (auto *e = dyn_cast<MaterializeTemporaryExpr>(S)) S = e->getSubExpr();
            else if (auto *e = dyn_cast<CXXBindTemporaryExpr>(S)) S = e->getSubExpr();
            else if (auto *e = dyn_cast<ConstantExpr>(S)) S = e->getSubExpr();
            else if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = e->getReplacement();
            else if (auto *e = dyn_cast<CXXDefaultArgExpr>(S)) S = e->getExpr();
            else if (auto *e = dyn_cast<CXXDefaultInitExpr>(S)) S = e->getExpr();
            else if (auto *e = dyn_cast<CXXStdInitializerListExpr>(S)) S = e->getSubExpr();
            else if (auto *e = dyn_cast<OpaqueValueExpr>(S)) {
                if (e->getSourceExpr()) S = e->getSourceExpr(); else break;
            }
            else break;
        }
        return S;
    }

    int node(const Stmt *S0) {
        if (!S0) return -1;
        auto it0 = ids.find(S0);
        if (it0 != ids.end()) return it0->second;
        bool rd = false;
        std::string ic;
        const Stmt *S = strip(S0, rd, ic);
        auto it = ids.find(S);
        int id;
        if (it != ids.end()) {
            id = it->second;
        } else {
            json::Object o = build(S);
            o["l"] = line(S->getBeginLoc());
            if (auto *e = dyn_cast<Expr>(S)) {
                if (!o.get("t")) o["t"] = ty(e->getType());
            }
            id = (int)nodes.size();
            nodes.push_back(std::move(o));
            ids[S] = id;
        }
        if (rd) (*nodes[id].getAsObject())["rd"] = 1;
        if (!ic.empty()) (*nodes[id].getAsObject())["ic"] = ic;
        ids[S0] = id;
        return id;
    }

    json::Array kids(llvm::ArrayRef<const Expr *> v) {
        json::Array a;
        for (auto *e : v) a.push_back(node(e));
        return a;
    }
    void callee(json::Object &o, const FunctionDecl *F) {
        if (!F) return;
        o["q"] = qn(F);
        const FunctionDecl *Fp = F;
        o["u"] = usr(Fp);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = cls(M->getParent());
            if (M->isConst()) o["cst"] = 1;
            if (M->isStatic()) o["stat"] = 1;
        }
        json::Array pt;
        for (auto *p : F->parameters()) pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = ty(F->getReturnType());
        // parameter names (declaration)
        json::Array pn;
        for (auto *p : F->parameters()) pn.push_back(p->getNameAsString());
        o["pn"] = std::move(pn);
    }

    json::Object build(const Stmt *S) {
        json::Object o;
        if (auto *e = dyn_cast<DeclRefExpr>(S)) {
            o["k"] = "ref";
            const ValueDecl *D = e->getDecl();
            o["n"] = D->getNameAsString();
            if (isa<ParmVarDecl>(D)) { o["vk"] = "param"; o["d"] = declId(D); }
            else if (auto *V = dyn_cast<VarDecl>(D)) {
                if (V->isStaticDataMember()) { o["vk"] = "smem"; o["q"] = qn(V);
                    o["cls"] = cls(cast<CXXRecordDecl>(V->getDeclContext())); }
                else if (V->isStaticLocal()) { o["vk"] = "slocal"; o["d"] = declId(D); o["q"] = qn(V); }
                else if (V->hasGlobalStorage()) { o["vk"] = "global"; o["q"] = qn(V); }
                else { o["vk"] = "local"; o["d"] = declId(D); }
                if (auto *IC = V->getAnyInitializer()) {
                    if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && !IC->isValueDependent()) {
                        Expr::EvalResult r;
                        if (IC->EvaluateAsInt(r, C)) o["cv"] = (int64_t)r.Val.getInt().getExtValue();
                    }
                }
            } else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                o["vk"] = "enum"; o["q"] = qn(EC); o["v"] = (int64_t)EC->getInitVal().getExtValue();
            } else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["vk"] = "func"; callee(o, F); }
            else if (auto *B = dyn_cast<BindingDecl>(D)) { o["vk"] = "local"; o["d"] = declId(B); }
            else o["vk"] = "other";
        } else if (auto *e = dyn_cast<MemberExpr>(S)) {
            const ValueDecl *D = e->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(D)) {
                o["k"] = "mem";
                o["n"] = F->getNameAsString();
                o["cls"] = cls(dyn_cast<CXXRecordDecl>(F->getParent()));
                o["c"] = json::Array{node(e->getBase())};
                if (e->isArrow()) o["arrow"] = 1;
            } else if (auto *V = dyn_cast<VarDecl>(D)) {
                o["k"] = "ref"; o["vk"] = "smem"; o["n"] = V->getNameAsString(); o["q"] = qn(V);
                o["cls"] = cls(dyn_cast<CXXRecordDecl>(V->getDeclContext()));
            } else {
                o["k"] = "memfn"; o["n"] = D->getNameAsString();
                if (auto *F = dyn_cast<FunctionDecl>(D)) callee(o, F);
                o["c"] = json::Array{node(e->getBase())};
            }
        } else if (isa<CXXThisExpr>(S)) o["k"] = "this";
        else if (auto *e = dyn_cast<CXXOperatorCallExpr>(S)) {
            o["k"] = "call";
            o["op"] = std::string(getOperatorSpelling(e->getOperator()));
            callee(o, e->getDirectCallee());
            json::Array a;
            unsigned i = 0;
            const FunctionDecl *F = e->getDirectCallee();
            bool isM = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
            for (auto *x : e->arguments()) {
                if (i == 0 && isM) { o["recv"] = node(x); }
                else a.push_back(node(x));
                i++;
            }
            o["c"] = std::move(a);
            if (isM && cast<CXXMethodDecl>(F)->isVirtual()) o["virt"] = 1;
        } else if (auto *e = dyn_cast<CXXMemberCallExpr>(S)) {
            o["k"] = "call";
            const CXXMethodDecl *M = e->getMethodDecl();
            callee(o, M);
            o["recv"] = node(e->getImplicitObjectArgument());
            if (M && M->isOverloadedOperator() && !e->getImplicitObjectArgument()->getType()->isPointerType())
                o["op"] = std::string(getOperatorSpelling(M->getOverloadedOperator()));
            if (auto *me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) {
                if (me->isArrow()) o["arrow"] = 1;
                if (M && M->isVirtual() && me->performsVirtualDispatch(C.getLangOpts())) o["virt"] = 1;
                if (me->isImplicitAccess()) o["ithis"] = 1;
            }
            std::vector<const Expr *> v(e->arg_begin(), e->arg_end());
            o["c"] = kids(v);
        } else if (auto *e = dyn_cast<CallExpr>(S)) {
            o["k"] = "call";
            const FunctionDecl *F = e->getDirectCallee();
            if (F) callee(o, F);
            else o["fn"] = node(e->getCallee());
            std::vector<const Expr *> v(e->arg_begin(), e->arg_end());
            o["c"] = kids(v);
        } else if (auto *e = dyn_cast<CXXConstructExpr>(S)) {
            o["k"] = "ctor";
            callee(o, e->getConstructor());
            if (e->isElidable()) o["el"] = 1;
            if (e->getConstructor()->isCopyOrMoveConstructor()) o["cm"] = 1;
            std::vector<const Expr *> v(e->arg_begin(), e->arg_end());
            o["c"] = kids(v);
        } else if (auto *e = dyn_cast<CXXInheritedCtorInitExpr>(S)) {
            o["k"] = "ctor"; callee(o, e->getConstructor()); o["c"] = json::Array{}; o["inh"] = 1;
        } else if (auto *e = dyn_cast<CXXNewExpr>(S)) {
            o["k"] = "new";
            o["ty"] = ty(e->getAllocatedType());
            if (e->isArray()) o["arr"] = 1;
            json::Array a;
            if (e->isArray() && e->getArraySize()) { o["size"] = node(*e->getArraySize()); a.push_back(node(*e->getArraySize())); }
            if (e->getInitializer()) { o["ini"] = node(e->getInitializer()); a.push_back(node(e->getInitializer())); }
            if (e->getNumPlacementArgs()) o["place"] = 1;
            o["c"] = std::move(a);
        } else if (auto *e = dyn_cast<CXXDeleteExpr>(S)) {
            o["k"] = "del";
            if (e->isArrayForm()) o["arr"] = 1;
            o["dt"] = ty(e->getDestroyedType());
            o["c"] = json::Array{node(e->getArgument())};
        } else if (auto *e = dyn_cast<BinaryOperator>(S)) {
            o["k"] = "bin";
            o["op"] = e->getOpcodeStr().str();
            if (e->isAssignmentOp()) o["asg"] = 1;
            o["c"] = json::Array{node(e->getLHS()), node(e->getRHS())};
        } else if (auto *e = dyn_cast<UnaryOperator>(S)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if (e->isPostfix()) o["post"] = 1;
            o["c"] = json::Array{node(e->getSubExpr())};
        } else if (auto *e = dyn_cast<AbstractConditionalOperator>(S)) {
            o["k"] = "cond";
            o["c"] = json::Array{node(e->getCond()), node(e->getTrueExpr()), node(e->getFalseExpr())};
        } else if (auto *e = dyn_cast<IntegerLiteral>(S)) {
            o["k"] = "lit"; llvm::SmallString<32> s; e->getValue().toString(s, 10, true); 
            o["v"] = (int64_t)e->getValue().getLimitedValue();
        } else if (auto *e = dyn_cast<FloatingLiteral>(S)) { o["k"] = "lit"; double d = e->getValueAsApproximateDouble(); if (d==d && d<1e308 && d>-1e308) o["v"] = d; else o["v"] = "inf";
        } else if (auto *e = dyn_cast<clang::StringLiteral>(S)) { o["k"] = "str"; o["v"] = e->getCharByteWidth()==1 ? json::fixUTF8(e->getString()) : std::string("?");
        } else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(S)) { o["k"] = "lit"; o["v"] = e->getValue();
        } else if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { o["k"] = "null";
        } else if (auto *e = dyn_cast<CharacterLiteral>(S)) { o["k"] = "lit"; o["v"] = (int64_t)e->getValue();
        } else if (auto *e = dyn_cast<ExplicitCastExpr>(S)) {
            o["k"] = "cast"; o["style"] = e->getStmtClassName();
            o["c"] = json::Array{node(e->getSubExpr())};
        } else if (auto *e = dyn_cast<LambdaExpr>(S)) {
            o["k"] = "lambda";
            o["u"] = usr(e->getCallOperator());
            json::Array a, caps;
            unsigned i = 0;
            for (auto &c : e->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = 1;
                else if (c.capturesVariable()) {
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["d"] = declId(c.getCapturedVar());
                    co["t"] = ty(c.getCapturedVar()->getType());
                }
                co["byref"] = c.getCaptureKind() == LCK_ByRef;
                caps.push_back(std::move(co));
                i++;
            }
            for (auto *ini : e->capture_inits()) if (ini) a.push_back(node(ini));
            o["caps"] = std::move(caps);
            o["c"] = std::move(a);
            lambdas.push_back(e);
        } else if (auto *e = dyn_cast<ArraySubscriptExpr>(S)) {
            o["k"] = "sub"; o["c"] = json::Array{node(e->getBase()), node(e->getIdx())};
        } else if (auto *e = dyn_cast<InitListExpr>(S)) {
            o["k"] = "init"; json::Array a;
            for (auto *x : e->inits()) if (x) a.push_back(node(x));
            o["c"] = std::move(a);
        } else if (auto *e = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl"; json::Array vs, a;
            for (auto *D : e->decls()) if (auto *V = dyn_cast<VarDecl>(D)) {
                json::Object v; v["d"] = declId(V); v["n"] = V->getNameAsString(); v["t"] = ty(V->getType());
                if (V->isStaticLocal()) { v["static"] = 1; v["q"] = qn(V);} 
                if (V->getType().isConstQualified()) v["const"]=1;
                int in = V->hasInit() ? node(V->getInit()) : -1;
                v["init"] = in;
                if (in >= 0) a.push_back(in);
                // array extent
                if (auto *AT = C.getAsConstantArrayType(V->getType())) v["ext"] = (int64_t)AT->getSize().getLimitedValue();
                vs.push_back(std::move(v));
            }
            o["vars"] = std::move(vs); o["c"] = std::move(a);
        } else if (auto *e = dyn_cast<ReturnStmt>(S)) {
            o["k"] = "ret"; json::Array a; if (e->getRetValue()) a.push_back(node(e->getRetValue())); o["c"] = std::move(a);
        } else if (auto *e = dyn_cast<CXXThrowExpr>(S)) {
            o["k"] = "throw"; json::Array a; if (e->getSubExpr()) a.push_back(node(e->getSubExpr())); o["c"] = std::move(a);
        } else if (isa<CXXScalarValueInitExpr>(S) || isa<ImplicitValueInitExpr>(S)) { o["k"] = "zero";
        } else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { o["k"] = "sizeof"; if (e->isArgumentType()) o["ty"] = ty(e->getArgumentType());
        } else if (auto *e = dyn_cast<CXXTypeidExpr>(S)) { (void)e; o["k"] = "typeid";
        } else {
            o["k"] = "x"; o["sc"] = S->getStmtClassName(); json::Array a;
            if (isa<Expr>(S)) for (auto *ch : S->children()) if (ch && isa<Expr>(ch)) a.push_back(node(ch));
            o["c"] = std::move(a);
        }
        return o;
    }

    json::Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        json::Object o;
        o["l"] = line(S->getBeginLoc());
        if (auto *s = dyn_cast<CompoundStmt>(S)) {
            o["s"] = "block"; json::Array a; for (auto *x : s->body()) a.push_back(stmt(x)); o["b"] = std::move(a);
        } else if (auto *s = dyn_cast<IfStmt>(S)) {
            o["s"] = "if"; if (s->getInit()) o["init"] = stmt(s->getInit());
            if (s->getConditionVariableDeclStmt()) o["cv"] = node(s->getConditionVariableDeclStmt());
            o["c"] = node(s->getCond()); o["then"] = stmt(s->getThen()); o["else"] = stmt(s->getElse());
            if (s->isConstexpr()) o["cx"] = 1;
        } else if (auto *s = dyn_cast<ForStmt>(S)) {
            o["s"] = "for"; o["init"] = stmt(s->getInit()); o["c"] = node(s->getCond()); o["inc"] = node(s->getInc()); o["body"] = stmt(s->getBody());
        } else if (auto *s = dyn_cast<WhileStmt>(S)) { o["s"] = "while"; o["c"] = node(s->getCond()); o["body"] = stmt(s->getBody());
        } else if (auto *s = dyn_cast<DoStmt>(S)) { o["s"] = "do"; o["c"] = node(s->getCond()); o["body"] = stmt(s->getBody());
        } else if (auto *s = dyn_cast<CXXForRangeStmt>(S)) {
            o["s"] = "rangefor"; o["range"] = node(s->getRangeInit()); o["var"] = declId(s->getLoopVariable()); o["vn"] = s->getLoopVariable()->getNameAsString();
            o["vt"] = ty(s->getLoopVariable()->getType()); o["body"] = stmt(s->getBody());
        } else if (auto *s = dyn_cast<SwitchStmt>(S)) { o["s"] = "switch"; o["c"] = node(s->getCond()); o["body"] = stmt(s->getBody());
            o["t"] = ty(s->getCond()->IgnoreImpCasts()->getType());
        } else if (auto *s = dyn_cast<CaseStmt>(S)) { o["s"] = "case"; o["c"] = node(s->getLHS());
            Expr::EvalResult r; if (s->getLHS()->EvaluateAsInt(r, C)) o["v"] = (int64_t)r.Val.getInt().getExtValue(); o["body"] = stmt(s->getSubStmt());
        } else if (auto *s = dyn_cast<DefaultStmt>(S)) { o["s"] = "default"; o["body"] = stmt(s->getSubStmt());
        } else if (isa<BreakStmt>(S)) o["s"] = "break";
        else if (isa<ContinueStmt>(S)) o["s"] = "continue";
        else if (isa<NullStmt>(S)) o["s"] = "null";
        else if (auto *s = dyn_cast<CXXTryStmt>(S)) { o["s"] = "try"; o["body"] = stmt(s->getTryBlock()); json::Array a;
            for (unsigned i = 0; i < s->getNumHandlers(); i++) { json::Object h; auto *c = s->getHandler(i); h["t"] = c->getExceptionDecl() ? ty(c->getCaughtType()) : "..."; h["body"] = stmt(c->getHandlerBlock()); a.push_back(std::move(h)); }
            o["h"] = std::move(a);
        } else if (auto *s = dyn_cast<LabelStmt>(S)) { o["s"] = "label"; o["body"] = stmt(s->getSubStmt()); }
        else if (auto *s = dyn_cast<ReturnStmt>(S)) { o["s"] = "ret"; o["n"] = node(s); }
        else if (auto *s = dyn_cast<DeclStmt>(S)) { o["s"] = "decl"; o["n"] = node(s); }
        else { o["s"] = "expr"; o["n"] = node(S); }
        return o;
    }

    json::Object dump(const FunctionDecl *F, const std::string &id, const std::string &lambdaOf) {
        json::Object o;
        o["rec"] = "fn"; o["u"] = id; o["q"] = qn(F); o["n"] = F->getNameAsString();
        SourceLocation L = SM.getExpansionLoc(F->getLocation());
        o["file"] = relFile(SM.getFilename(L).str());
        o["l"] = line(L);
        o["end"] = line(F->getEndLoc());
        o["rt"] = ty(F->getReturnType());
        if (!lambdaOf.empty()) o["lambdaOf"] = lambdaOf;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = cls(M->getParent());
            if (M->isConst()) o["cst"] = 1;
            if (M->isStatic()) o["stat"] = 1;
            if (M->isVirtual()) o["virt"] = 1;
            o["acc"] = (int)M->getAccess();
            if (isa<CXXConstructorDecl>(M)) { o["kind"] = "ctor"; if (cast<CXXConstructorDecl>(M)->isCopyOrMoveConstructor()) o["cm"] = 1; }
            else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor";
            else o["kind"] = "method";
            json::Array ov; for (auto *x : M->overridden_methods()) ov.push_back(usr(x)); o["ov"] = std::move(ov);
        } else o["kind"] = "func";
        if (auto *MF = F->getTemplateInstantiationPattern()) o["pat"] = usr(MF);
        if (F->isDefaulted()) o["dflt"] = 1;
        json::Array ps;
        for (auto *p : F->parameters()) { json::Object v; v["d"] = declId(p); v["n"] = p->getNameAsString(); v["t"] = ty(p->getType()); if (p->hasDefaultArg()) v["def"] = 1; ps.push_back(std::move(v)); }
        o["params"] = std::move(ps);
        json::Array inits;
        if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) for (auto *I : CD->inits()) {
            json::Object v; v["w"] = I->isWritten();
            if (I->isAnyMemberInitializer()) { v["f"] = I->getAnyMember()->getNameAsString(); if (I->isInClassMemberInitializer()) v["inclass"] = 1; }
            else if (I->isBaseInitializer()) v["base"] = ty(QualType(I->getBaseClass(), 0));
            else if (I->isDelegatingInitializer()) v["deleg"] = 1;
            v["l"] = line(I->getSourceLocation());
            v["n"] = node(I->getInit());
            inits.push_back(std::move(v));
        }
        o["inits"] = std::move(inits);
        o["body"] = stmt(F->getBody());
        CFG::BuildOptions BO;
        BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddEHEdges = false; BO.PruneTriviallyFalseEdges = false;
        BO.setAllAlwaysAdd();
        std::unique_ptr<CFG> cfg = CFG::buildCFG(F, F->getBody(), &C, BO);
        if (cfg) {
            json::Object g; g["entry"] = (int)cfg->getEntry().getBlockID(); g["exit"] = (int)cfg->getExit().getBlockID();
            json::Array bs;
            for (auto *B : *cfg) {
                json::Object b; b["id"] = (int)B->getBlockID();
                json::Array el; int last = -2;
                for (auto &E : *B) {
                    if (auto S = E.getAs<CFGStmt>()) { const Stmt *st = S->getStmt();
                        int n = node(st); if (n != last && n >= 0) el.push_back(n); last = n; }
                    else if (auto I = E.getAs<CFGInitializer>()) { json::Object v; auto *ci = I->getInitializer();
                        if (ci->isAnyMemberInitializer()) v["initf"] = ci->getAnyMember()->getNameAsString();
                        else if (ci->isBaseInitializer()) v["initb"] = ty(QualType(ci->getBaseClass(), 0)); else v["deleg"] = 1;
                        v["n"] = node(ci->getInit()); el.push_back(std::move(v)); last = -2; }
                    else if (auto D = E.getAs<CFGAutomaticObjDtor>()) { json::Object v; v["dtor"] = declId(D->getVarDecl()); v["t"] = ty(D->getVarDecl()->getType());
                        v["l"] = line(D->getTriggerStmt()->getEndLoc()); el.push_back(std::move(v)); last = -2; }
                    else if (auto D = E.getAs<CFGMemberDtor>()) { json::Object v; v["mdtor"] = D->getFieldDecl()->getNameAsString(); el.push_back(std::move(v)); last = -2; }
                    else if (auto D = E.getAs<CFGDeleteDtor>()) { (void)D; }
                }
                b["el"] = std::move(el);
                json::Array su; for (auto it = B->succ_begin(); it != B->succ_end(); ++it) { const CFGBlock *s = it->getReachableBlock(); if (!s) s = it->getPossiblyUnreachableBlock(); su.push_back(s ? (int)s->getBlockID() : -1); }
                b["su"] = std::move(su);
                if (auto *T = B->getTerminatorStmt()) {
                    b["tk"] = T->getStmtClassName();
                    b["tl"] = line(T->getBeginLoc());
                    if (auto *bo = dyn_cast<BinaryOperator>(T)) b["tk"] = bo->getOpcodeStr().str();
                    if (auto *c = B->getTerminatorCondition(false)) b["tc"] = node(c);
                    if (auto *lc = B->getLastCondition()) b["lc"] = node(lc);
                }
                if (auto *Lb = B->getLabel()) {
                    if (auto *cs = dyn_cast<CaseStmt>(Lb)) { Expr::EvalResult r; b["case"] = node(cs->getLHS()); if (cs->getLHS()->EvaluateAsInt(r, C)) b["casev"] = (int64_t)r.Val.getInt().getExtValue(); }
                    else if (isa<DefaultStmt>(Lb)) b["default"] = 1;
                    else if (auto *ct = dyn_cast<CXXCatchStmt>(Lb)) b["catch"] = ct->getExceptionDecl() ? ty(ct->getCaughtType()) : "...";
                }
                if (B->hasNoReturnElement()) b["noret"] = 1;
                bs.push_back(std::move(b));
            }
            g["b"] = std::move(bs);
            o["cfg"] = std::move(g);
        }
        o["nodes"] = json::Array(std::move(nodes));
        return o;
    }
};

class V : public RecursiveASTVisitor<V> {
    ASTContext &C;
    const SourceManager &SM;
public:
    V(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    std::string file(const Decl *D) { return relFile(SM.getFilename(SM.getExpansionLoc(D->getLocation())).str()); }
    bool inRepo(const Decl *D) {
        std::string f = file(D);
        if (f.empty()) return false;
        if (f.find("/test/") != std::string::npos || f.compare(0, 7, "studies") == 0) return false;
        return true;
    }
    void put(json::Object o) { *OUT << json::Value(std::move(o)) << "\n"; }

    void doFn(const FunctionDecl *F, const std::string &id, const std::string &lam) {
        if (!emittedFn.insert(id).second) return;
        FnDumper d(C);
        json::Object o = d.dump(F, id, lam);
        auto ls = d.lambdas;
        put(std::move(o));
        for (auto *l : ls) doFn(l->getCallOperator(), usr(l->getCallOperator()), id);
    }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
        if (F->isDeleted()) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (!F->getBody()) return true;
        if (!inRepo(F)) return true;
        std::string id = usr(F);
        if (id.empty()) return true;
        doFn(F, id, "");
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isLambda() || R->isDependentContext()) return true;
        if (!inRepo(R)) return true;
        std::string id = usr(R);
        if (!emittedCls.insert(id).second) return true;
        FnDumper d(C);
        json::Object o;
        o["rec"] = "cls"; o["u"] = id; o["q"] = FnDumper::qn(R); o["cls"] = d.cls(R); o["n"] = R->getNameAsString();
        o["file"] = file(R); o["l"] = d.line(R->getLocation());
        if (R->isAbstract()) o["abs"] = 1;
        if (R->isPolymorphic()) o["poly"] = 1;
        if (R->hasUserDeclaredDestructor()) o["udtor"] = 1;
        if (auto *D = R->getDestructor()) if (D->isVirtual()) o["vdtor"] = 1;
        if (R->hasUserDeclaredCopyConstructor()) o["ucc"] = 1;
        if (R->hasUserDeclaredCopyAssignment()) o["uca"] = 1;
        if (R->hasSimpleCopyConstructor() || (!R->defaultedCopyConstructorIsDeleted() && !R->hasUserDeclaredCopyConstructor())) o["icc"] = 1;
        json::Array bs; for (auto &b : R->bases()) { json::Object v; v["t"] = d.ty(b.getType()); v["acc"] = (int)b.getAccessSpecifier(); bs.push_back(std::move(v)); }
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto *Dc : R->decls()) {
            json::Object v;
            if (auto *F = dyn_cast<FieldDecl>(Dc)) {
                v["n"] = F->getNameAsString(); v["t"] = d.ty(F->getType()); v["ts"] = F->getType().getAsString(); v["l"] = d.line(F->getLocation()); v["acc"] = (int)F->getAccess();
                if (F->isMutable()) v["mut"] = 1;
                if (F->getType().isConstQualified()) v["const"] = 1;
                QualType T = F->getType();
                const char *kd = T->isReferenceType() ? "ref" : T->isAnyPointerType() ? "ptr" : T->isRecordType() ? "rec" : T->isEnumeralType() ? "enum" : T->isConstantArrayType() ? "arr" : "scalar";
                v["kd"] = kd;
                if (auto *AT = C.getAsConstantArrayType(T)) { v["ext"] = (int64_t)AT->getSize().getLimitedValue(); }
                if (F->hasInClassInitializer()) v["ini"] = 1;
                if (auto *RR = T->getAsCXXRecordDecl()) if (RR->hasDefinition()) {
                    if (RR->isPOD()) v["pod"] = 1;
                    bool udc = false; for (auto *c : RR->ctors()) if (c->isDefaultConstructor() && c->isUserProvided()) udc = true;
                    if (udc) v["udc"] = 1;
                }
                v["rec"] = "field";
            } else if (auto *VD = dyn_cast<VarDecl>(Dc)) {
                v["n"] = VD->getNameAsString(); v["t"] = d.ty(VD->getType()); v["l"] = d.line(VD->getLocation()); v["static"] = 1; v["acc"] = (int)VD->getAccess();
                if (VD->getType().isConstQualified()) v["const"] = 1;
                v["q"] = FnDumper::qn(VD);
            } else continue;
            fs.push_back(std::move(v));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto *M : R->methods()) {
            json::Object v; v["n"] = M->getNameAsString(); v["u"] = usr(M); v["acc"] = (int)M->getAccess();
            if (M->isVirtual()) v["virt"] = 1; if (M->isPureVirtual()) v["pure"] = 1; if (M->isConst()) v["cst"] = 1; if (M->isStatic()) v["stat"] = 1;
            if (M->isImplicit()) v["impl"] = 1; if (M->isDeleted()) v["del"] = 1; if (M->isDefaulted()) v["dflt"] = 1;
            if (isa<CXXConstructorDecl>(M)) v["kind"] = "ctor"; else if (isa<CXXDestructorDecl>(M)) v["kind"] = "dtor"; else v["kind"] = "method";
            v["rt"] = d.ty(M->getReturnType()); v["l"] = d.line(M->getLocation());
            json::Array ps; for (auto *p : M->parameters()) { json::Object x; x["n"] = p->getNameAsString(); x["t"] = d.ty(p->getType()); if (p->hasDefaultArg()) x["def"] = 1; ps.push_back(std::move(x)); } v["params"] = std::move(ps);
            json::Array ov; for (auto *x : M->overridden_methods()) ov.push_back(usr(x)); v["ov"] = std::move(ov);
            ms.push_back(std::move(v));
        }
        o["methods"] = std::move(ms);
        put(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !inRepo(E)) return true;
        std::string id = usr(E);
        if (!emittedEnum.insert(id).second) return true;
        json::Object o; o["rec"] = "enum"; o["q"] = FnDumper::qn(E); o["file"] = file(E); o["l"] = (int)SM.getExpansionLineNumber(E->getLocation());
        json::Array a; for (auto *c : E->enumerators()) { json::Object v; v["n"] = c->getNameAsString(); v["q"] = FnDumper::qn(c); v["v"] = (int64_t)c->getInitVal().getExtValue(); a.push_back(std::move(v)); }
        o["vals"] = std::move(a); put(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *D) {
        if (!D->hasGlobalStorage() || D->isThisDeclarationADefinition() == VarDecl::DeclarationOnly || D->isStaticLocal()) return true;
        if (D->getDeclContext()->isDependentContext() || isa<ParmVarDecl>(D)) return true;
        if (D->getDescribedVarTemplate()) return true;
        if (D->getType()->isDependentType()) return true;
        if (!inRepo(D)) return true;
        std::string id = usr(D);
        if (!emittedVar.insert(id).second) return true;
        FnDumper d(C); json::Object o; o["rec"] = "var"; o["q"] = FnDumper::qn(D); o["n"] = D->getNameAsString(); o["file"] = file(D); o["l"] = d.line(D->getLocation()); o["t"] = d.ty(D->getType());
        if (D->getType().isConstQualified()) o["const"] = 1;
        if (D->getInit() && !D->getInit()->isValueDependent() && !D->getInit()->isTypeDependent()) { o["init"] = d.node(D->getInit()); o["nodes"] = json::Array(std::move(d.nodes)); }
        put(std::move(o));
        return true;
    }
};

class Cons : public ASTConsumer {
public:
    std::vector<Decl *> tops;   // only this unit's own declarations, never the precompiled system headers
    bool HandleTopLevelDecl(DeclGroupRef g) override { for (Decl *d : g) tops.push_back(d); return true; }
    void HandleTranslationUnit(ASTContext &C) override { V v(C); std::vector<Decl *> mine; for (Decl *d : tops) if (d && !d->isFromASTFile()) mine.push_back(d); for (Decl *d : mine) v.TraverseDecl(d); }
};
class Act : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char **argv) {
    // extract REPO INCROOT OUTFILE file... -- flags...
    if (argc < 5) return 2;
    REPO = argv[1]; INCROOT = argv[2];
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[3], ec);
    if (ec) return 2;
    OUT = &os;
    std::vector<std::string> files, flags;
    bool fl = false;
    for (int i = 4; i < argc; i++) { std::string a = argv[i]; if (a == "--") { fl = true; continue; } (fl ? flags : files).push_back(a); }
    int bad = 0;
    for (auto &f : files) {
        tooling::FixedCompilationDatabase db(".", flags);
        tooling::ClangTool tool(db, {f});
        int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
        json::Object o; o["rec"] = "tu"; o["file"] = f; o["rc"] = rc;
        os << json::Value(std::move(o)) << "\n";
        if (rc) bad++;
    }
    os.flush();
    return bad ? 3 : 0;
}
