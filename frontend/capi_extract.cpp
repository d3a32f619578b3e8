// capi_extract: dumps the resolved, type-checked program of one translation unit as JSON.
//
// Only declarations whose (expansion) location lies under one of the --root directories are
// dumped; references into other code keep their resolved qualified name, type and constness.
// Constant expressions are folded by clang itself, implicit conversions that change a value are
// explicit nodes, range-for / structured bindings / lambdas / OpenMP directives keep their shape.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> Roots;

namespace {

class Dumper : public RecursiveASTVisitor<Dumper> {
  public:
    explicit Dumper(ASTContext &ctx) : Ctx(ctx), SM(ctx.getSourceManager()), PP(ctx.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = true;
    }

    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    Array Types, Functions, Records, Globals;
    std::map<const void *, int> TypeIds;
    std::map<const Decl *, int> DeclIds;
    std::set<const Decl *> Done;
    std::vector<const FunctionDecl *> Pending; // instantiated call operators of generic lambdas

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    // ---- locations -----------------------------------------------------------------------------
    std::string fileOf(SourceLocation l) {
        auto e = SM.getExpansionLoc(l);
        auto f = SM.getFilename(e);
        llvm::SmallString<256> p(f);
        if (auto fe = SM.getFileEntryRefForID(SM.getFileID(e))) {
            auto real = fe->getFileEntry().tryGetRealPathName();
            if (!real.empty())
                return real.str();
        }
        return p.str().str();
    }
    int lineOf(SourceLocation l) { return (int)SM.getExpansionLineNumber(l); }
    bool inRoots(SourceLocation l) {
        if (l.isInvalid())
            return false;
        auto f = fileOf(l);
        for (auto &r : Roots)
            if (f.rfind(r, 0) == 0)
                return true;
        return false;
    }

    // ---- names ---------------------------------------------------------------------------------
    std::string usr(const Decl *d) {
        // a definition may spell its parameters with a const its declaration lacks: always name the first declaration
        if (const auto *fd = dyn_cast<FunctionDecl>(d))
            d = fd->getCanonicalDecl();
        llvm::SmallString<256> buf;
        if (index::generateUSRForDecl(d, buf) || buf.empty())
            return "loc:" + fileOf(d->getLocation()) + ":" + std::to_string(lineOf(d->getLocation())) + ":" +
                   std::to_string(SM.getExpansionColumnNumber(d->getLocation()));
        std::string s = buf.str().str();
        if (auto *fd = dyn_cast<FunctionDecl>(d)) {
            if (fd->isTemplateInstantiation() || s.find("#$") != std::string::npos || isLambdaMember(fd))
                s += "|" + fd->getType().getCanonicalType().getAsString(PP);
            if (isLambdaMember(fd))
                s += "|" + fileOf(fd->getLocation()) + ":" + std::to_string(lineOf(fd->getLocation())) + ":" +
                     std::to_string(SM.getExpansionColumnNumber(fd->getLocation()));
        }
        return s;
    }
    static bool isLambdaMember(const FunctionDecl *fd) {
        auto *m = dyn_cast<CXXMethodDecl>(fd);
        return m && m->getParent()->isLambda();
    }
    std::string qn(const NamedDecl *d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p = PP;
        p.SuppressUnwrittenScope = true;
        p.SuppressInlineNamespace = true;
        d->printQualifiedName(os, p);
        return os.str();
    }
    int did(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = DeclIds.find(d);
        if (it != DeclIds.end())
            return it->second;
        int n = (int)DeclIds.size() + 1;
        DeclIds[d] = n;
        return n;
    }

    // ---- types ---------------------------------------------------------------------------------
    int ty(QualType q) {
        if (q.isNull())
            return -1;
        QualType c = q.getCanonicalType();
        const void *key = c.getAsOpaquePtr();
        auto it = TypeIds.find(key);
        if (it != TypeIds.end())
            return it->second;
        int id = (int)Types.size();
        TypeIds[key] = id;
        Types.push_back(nullptr); // reserve
        Object o;
        o["s"] = c.getAsString(PP);
        QualType u = c.getUnqualifiedType();
        if (c.isConstQualified())
            o["const"] = true;
        if (auto *r = c->getAs<ReferenceType>()) {
            o["k"] = "ref";
            o["rv"] = c->isRValueReferenceType();
            o["pt"] = ty(r->getPointeeType());
        } else if (auto *p = c->getAs<PointerType>()) {
            o["k"] = "ptr";
            o["pt"] = ty(p->getPointeeType());
        } else if (c->isBooleanType()) {
            o["k"] = "bool";
        } else if (c->isEnumeralType()) {
            o["k"] = "enum";
            if (!c->isDependentType() && !c->isIncompleteType()) {
                o["w"] = (int)Ctx.getIntWidth(u);
                o["sg"] = c->isSignedIntegerOrEnumerationType();
            }
            if (auto *ed = c->getAs<EnumType>()) {
                o["rec"] = qn(ed->getDecl());
                Array es;
                if (inRoots(ed->getDecl()->getLocation()))
                    for (auto *e : ed->getDecl()->enumerators())
                        es.push_back(Object{{"n", e->getNameAsString()}, {"v", e->getInitVal().getExtValue()}});
                o["en"] = std::move(es);
            }
        } else if (c->isIntegerType()) {
            o["k"] = "int";
            if (!c->isDependentType()) {
                o["w"] = (int)Ctx.getIntWidth(u);
                o["sg"] = c->isSignedIntegerType();
            }
        } else if (c->isRealFloatingType()) {
            o["k"] = "float";
            o["w"] = (int)Ctx.getTypeSize(u);
        } else if (auto *rt = c->getAs<RecordType>()) {
            o["k"] = "rec";
            auto *rd = rt->getDecl();
            o["rec"] = qn(rd);
            if (auto *cx = dyn_cast<CXXRecordDecl>(rd)) {
                if (cx->isLambda())
                    o["lam"] = true;
                if (inRoots(rd->getLocation()))
                    o["repo"] = true;
                if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(cx)) {
                    Array ta;
                    for (auto &a : sp->getTemplateArgs().asArray())
                        addTArg(ta, a);
                    o["ta"] = std::move(ta);
                }
            }
        } else if (c->isArrayType()) {
            o["k"] = "arr";
            o["pt"] = ty(Ctx.getAsArrayType(c)->getElementType());
            if (auto *ca = dyn_cast<ConstantArrayType>(Ctx.getAsArrayType(c)))
                o["n"] = (int64_t)ca->getSize().getZExtValue();
        } else if (c->isVoidType()) {
            o["k"] = "void";
        } else if (c->isFunctionType()) {
            o["k"] = "func";
        } else {
            o["k"] = "other";
        }
        Types[id] = std::move(o);
        return id;
    }
    void addTArg(Array &ta, const TemplateArgument &a) {
        switch (a.getKind()) {
        case TemplateArgument::Type:
            ta.push_back(ty(a.getAsType()));
            break;
        case TemplateArgument::Pack:
            for (auto &b : a.pack_elements())
                addTArg(ta, b);
            break;
        default:
            ta.push_back(-1);
        }
    }

    // ---- functions -----------------------------------------------------------------------------
    bool hasRepoBody(const FunctionDecl *fd) {
        const FunctionDecl *def = nullptr;
        if (!fd->hasBody(def)) {
            // defined in another unit: in the repository if declared there
            return inRoots(fd->getLocation()) && !fd->isDefaulted() && !fd->isDeleted() && !isPure(fd);
        }
        return inRoots(def->getLocation()) && !def->isDefaulted();
    }
    static bool isPure(const FunctionDecl *fd) { return fd->isPureVirtual(); }

    Value paramList(const FunctionDecl *fd) {
        Array ps;
        for (auto *p : fd->parameters()) {
            Object o{{"id", did(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}};
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                o["def"] = expr(p->getDefaultArg());
            ps.push_back(std::move(o));
        }
        return ps;
    }

    void dumpFunction(const FunctionDecl *fd, bool declOnly = false) {
        Object o;
        o["usr"] = usr(fd);
        o["qn"] = qn(fd);
        o["n"] = fd->getNameAsString();
        o["file"] = fileOf(fd->getLocation());
        o["line"] = lineOf(fd->getLocation());
        o["end"] = lineOf(fd->getEndLoc());
        o["ret"] = ty(fd->getReturnType());
        o["params"] = paramList(fd);
        o["decl"] = declOnly;
        if (fd->getExceptionSpecType() != EST_None && !fd->getType()->isDependentType())
            if (auto *pt = fd->getType()->getAs<FunctionProtoType>())
                if (!isUnresolvedExceptionSpec(pt->getExceptionSpecType()))
                    o["noexcept"] = pt->isNothrow();
        std::string kind = "function";
        if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
            kind = "method";
            o["cls"] = qn(m->getParent());
            o["const"] = m->isConst();
            o["static"] = m->isStatic();
            o["virt"] = m->isVirtual();
            o["pure"] = isPure(m);
            o["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
            Array ov;
            for (auto *b : m->overridden_methods())
                ov.push_back(usr(b));
            o["over"] = std::move(ov);
            if (m->getParent()->isLambda())
                kind = "lambda";
            if (auto *c = dyn_cast<CXXConstructorDecl>(fd)) {
                kind = "ctor";
                o["copy"] = c->isCopyConstructor();
                o["move"] = c->isMoveConstructor();
                Array in;
                if (!declOnly)
                    for (auto *i : c->inits()) {
                        Object io;
                        if (i->isMemberInitializer())
                            io["f"] = i->getMember()->getNameAsString();
                        else if (i->isBaseInitializer())
                            io["base"] = QualType(i->getBaseClass(), 0).getCanonicalType().getAsString(PP);
                        else
                            io["deleg"] = true;
                        io["e"] = expr(i->getInit());
                        in.push_back(std::move(io));
                    }
                o["inits"] = std::move(in);
            } else if (isa<CXXDestructorDecl>(fd))
                kind = "dtor";
        }
        o["kind"] = kind;
        if (!declOnly)
            o["body"] = stmt(fd->getBody());
        Functions.push_back(std::move(o));
    }

    bool VisitFunctionDecl(FunctionDecl *fd) {
        if (fd->isDependentContext() || fd->isTemplated())
            return true;
        if (!inRoots(fd->getLocation()))
            return true;
        if (fd->isDefaulted() || fd->isDeleted())
            return true;
        if (fd->isThisDeclarationADefinition() && fd->getBody()) {
            if (isLambdaMember(fd) && !isa<CXXConversionDecl>(fd) && fd->getOverloadedOperator() != OO_Call)
                return true;
            if (isa<CXXConversionDecl>(fd) && isLambdaMember(fd))
                return true;
            if (isLambdaMember(fd) && fd->isImplicit() && fd->getOverloadedOperator() != OO_Call)
                return true;
            if (Done.insert(fd).second)
                dumpFunction(fd);
            while (!Pending.empty()) {
                auto *sp = Pending.back();
                Pending.pop_back();
                if (Done.insert(sp).second)
                    dumpFunction(sp);
            }
        } else if (!fd->isImplicit() && Done.insert(fd).second) {
            dumpFunction(fd, true);
        }
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
        if (!rd->isThisDeclarationADefinition() || rd->isDependentContext() || rd->isLambda())
            return true;
        if (!inRoots(rd->getLocation()) || !Done.insert(rd).second)
            return true;
        Object o;
        o["qn"] = qn(rd);
        o["ty"] = ty(Ctx.getRecordType(rd));
        o["file"] = fileOf(rd->getLocation());
        o["line"] = lineOf(rd->getLocation());
        Array fs, bs;
        for (auto *f : rd->fields()) {
            Object fo{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"mut", f->isMutable()}};
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        for (auto &b : rd->bases())
            bs.push_back(b.getType().getCanonicalType().getAsString(PP));
        o["fields"] = std::move(fs);
        o["bases"] = std::move(bs);
        o["abstract"] = rd->isAbstract();
        if (auto *d = rd->getDestructor())
            if (hasRepoBody(d))
                o["dtor"] = usr(d);
        Records.push_back(std::move(o));
        return true;
    }

    bool VisitVarDecl(VarDecl *v) {
        if (!v->hasGlobalStorage() || isa<ParmVarDecl>(v) || !inRoots(v->getLocation()) || v->isTemplated())
            return true;
        if (!Done.insert(v).second)
            return true;
        Object o{{"id", did(v)}, {"qn", qn(v)}, {"t", ty(v->getType())}, {"line", lineOf(v->getLocation())}};
        o["file"] = fileOf(v->getLocation());
        o["const"] = v->getType().isConstQualified() || v->isConstexpr();
        o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
        o["local"] = v->isStaticLocal();
        if (v->getInit() && !v->getInit()->isValueDependent())
            o["init"] = expr(v->getInit());
        Globals.push_back(std::move(o));
        return true;
    }

    // ---- statements ----------------------------------------------------------------------------
    Value stmt(const Stmt *s) {
        if (!s)
            return nullptr;
        Object o;
        o["l"] = lineOf(s->getBeginLoc());
        if (auto *e = dyn_cast<Expr>(s)) {
            o["s"] = "expr";
            o["e"] = expr(e);
            return o;
        }
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            o["s"] = "block";
            Array b;
            for (auto *c : cast<CompoundStmt>(s)->body())
                b.push_back(stmt(c));
            o["b"] = std::move(b);
            return o;
        }
        case Stmt::DeclStmtClass: {
            o["s"] = "decl";
            Array vs;
            for (auto *d : cast<DeclStmt>(s)->decls())
                if (auto *v = dyn_cast<VarDecl>(d))
                    vs.push_back(var(v));
            o["v"] = std::move(vs);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto *i = cast<IfStmt>(s);
            o["s"] = "if";
            if (i->getInit())
                o["init"] = stmt(i->getInit());
            if (auto *cv = i->getConditionVariable())
                o["cv"] = var(cv);
            o["c"] = expr(i->getCond());
            o["a"] = stmt(i->getThen());
            o["b"] = stmt(i->getElse());
            o["cx"] = i->isConstexpr();
            return o;
        }
        case Stmt::ForStmtClass: {
            auto *f = cast<ForStmt>(s);
            o["s"] = "for";
            o["init"] = stmt(f->getInit());
            o["c"] = f->getCond() ? expr(f->getCond()) : Value(nullptr);
            o["inc"] = f->getInc() ? expr(f->getInc()) : Value(nullptr);
            o["b"] = stmt(f->getBody());
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto *w = cast<WhileStmt>(s);
            o["s"] = "while";
            if (auto *cv = w->getConditionVariable())
                o["cv"] = var(cv);
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::DoStmtClass: {
            auto *w = cast<DoStmt>(s);
            o["s"] = "do";
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto *f = cast<CXXForRangeStmt>(s);
            o["s"] = "rfor";
            if (f->getInit())
                o["init"] = stmt(f->getInit());
            o["v"] = var(f->getLoopVariable(), true);
            o["r"] = expr(f->getRangeInit());
            o["b"] = stmt(f->getBody());
            return o;
        }
        case Stmt::ReturnStmtClass:
            o["s"] = "ret";
            o["e"] = cast<ReturnStmt>(s)->getRetValue() ? expr(cast<ReturnStmt>(s)->getRetValue()) : Value(nullptr);
            return o;
        case Stmt::BreakStmtClass:
            o["s"] = "brk";
            return o;
        case Stmt::ContinueStmtClass:
            o["s"] = "cont";
            return o;
        case Stmt::NullStmtClass:
            o["s"] = "null";
            return o;
        case Stmt::CXXTryStmtClass: {
            auto *t = cast<CXXTryStmt>(s);
            o["s"] = "try";
            o["b"] = stmt(t->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
                auto *h = t->getHandler(i);
                Object ho{{"l", lineOf(h->getBeginLoc())}};
                ho["t"] = h->getCaughtType().isNull() ? Value(nullptr) : Value(ty(h->getCaughtType()));
                if (h->getExceptionDecl())
                    ho["v"] = var(h->getExceptionDecl());
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        case Stmt::SwitchStmtClass: {
            auto *w = cast<SwitchStmt>(s);
            o["s"] = "switch";
            if (w->getInit())
                o["init"] = stmt(w->getInit());
            if (auto *cv = w->getConditionVariable())
                o["cv"] = var(cv);
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            auto *c = cast<CaseStmt>(s);
            o["s"] = "case";
            o["v"] = expr(c->getLHS());
            o["b"] = stmt(c->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass:
            o["s"] = "default";
            o["b"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
            return o;
        case Stmt::LabelStmtClass:
            return stmt(cast<LabelStmt>(s)->getSubStmt());
        case Stmt::AttributedStmtClass:
            return stmt(cast<AttributedStmt>(s)->getSubStmt());
        default:
            break;
        }
        if (auto *d = dyn_cast<OMPExecutableDirective>(s)) {
            o["s"] = "omp";
            o["d"] = llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str();
            Array cl;
            for (auto *c : d->clauses()) {
                if (!c || c->isImplicit())
                    continue;
                Object co{{"n", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
                Array vs;
                auto addVars = [&](auto range) {
                    for (auto *e : range) {
                        auto *ie = e->IgnoreParenImpCasts();
                        if (auto *dr = dyn_cast<DeclRefExpr>(ie))
                            vs.push_back(Object{{"id", did(dr->getDecl())}, {"n", dr->getDecl()->getNameAsString()}});
                        else
                            vs.push_back(Object{{"e", expr(e)}});
                    }
                };
                if (auto *x = dyn_cast<OMPSharedClause>(c))
                    addVars(x->varlists());
                else if (auto *x = dyn_cast<OMPPrivateClause>(c))
                    addVars(x->varlists());
                else if (auto *x = dyn_cast<OMPFirstprivateClause>(c))
                    addVars(x->varlists());
                else if (auto *x = dyn_cast<OMPLastprivateClause>(c))
                    addVars(x->varlists());
                else if (auto *x = dyn_cast<OMPReductionClause>(c)) {
                    addVars(x->varlists());
                    co["op"] = x->getNameInfo().getAsString();
                }
                co["v"] = std::move(vs);
                cl.push_back(std::move(co));
            }
            o["cl"] = std::move(cl);
            if (auto *cr = dyn_cast<OMPCriticalDirective>(d))
                o["cn"] = cr->getDirectiveName().getAsString();
            const Stmt *body = nullptr;
            if (d->hasAssociatedStmt()) {
                body = d->getAssociatedStmt();
                while (auto *cs = dyn_cast_or_null<CapturedStmt>(body))
                    body = cs->getCapturedStmt();
            }
            o["b"] = stmt(body);
            return o;
        }
        o["s"] = "unk";
        o["c"] = s->getStmtClassName();
        Array ch;
        for (auto *c : s->children())
            if (c)
                ch.push_back(stmt(c));
        o["ch"] = std::move(ch);
        return o;
    }

    Value var(const VarDecl *v, bool noInit = false) {
        Object o{{"id", did(v)}, {"n", v->getNameAsString()}, {"t", ty(v->getType())}, {"l", lineOf(v->getLocation())}};
        if (v->isStaticLocal())
            o["static"] = true;
        if (v->isConstexpr())
            o["cx"] = true;
        if (!noInit && v->getInit())
            o["init"] = expr(v->getInit());
        if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
            Array bs;
            for (auto *b : dd->bindings()) {
                Object bo{{"id", did(b)}, {"n", b->getNameAsString()}};
                if (b->getHoldingVar()) {
                    bo["hv"] = did(b->getHoldingVar());
                    if (b->getHoldingVar()->getInit())
                        bo["e"] = expr(b->getHoldingVar()->getInit());
                } else if (b->getBinding())
                    bo["e"] = expr(b->getBinding());
                bs.push_back(std::move(bo));
            }
            o["bind"] = std::move(bs);
        }
        return o;
    }

    // ---- expressions ---------------------------------------------------------------------------
    bool fold(const Expr *e, Object &o) {
        if (e->isValueDependent() || e->isTypeDependent() || !e->isPRValue())
            return false;
        QualType q = e->getType();
        if (!(q->isIntegralOrEnumerationType() || q->isRealFloatingType()))
            return false;
        Expr::EvalResult r;
        if (!e->EvaluateAsRValue(r, Ctx) || r.HasSideEffects)
            return false;
        if (r.Val.isInt()) {
            o["k"] = "const";
            if (q->isBooleanType())
                o["v"] = r.Val.getInt().getBoolValue();
            else {
                llvm::SmallString<32> str;
                r.Val.getInt().toString(str, 10);
                o["k"] = "const";
                if (r.Val.getInt().isRepresentableByInt64())
                    o["v"] = r.Val.getInt().getExtValue();
                else
                    o["vs"] = str.str().str();
            }
        } else if (r.Val.isFloat()) {
            o["k"] = "const";
            double d = r.Val.getFloat().convertToDouble();
            if (std::isfinite(d))
                o["v"] = d;
            else
                o["vs"] = std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf";
            o["fl"] = true;
        } else
            return false;
        if (auto *dr = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts()))
            o["n"] = dr->getDecl()->getNameAsString();
        return true;
    }

    Value expr(const Expr *e) {
        if (!e)
            return nullptr;
        if (auto *x = dyn_cast<ParenExpr>(e))
            return expr(x->getSubExpr());
        if (auto *x = dyn_cast<FullExpr>(e))
            return expr(x->getSubExpr());
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e))
            return expr(x->getSubExpr());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return expr(x->getReplacement());
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e))
            return expr(x->getExpr());
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(e))
            return expr(x->getExpr());
        if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            return expr(x->getSubExpr());
        }
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) {
            Object o{{"k", "bind"}, {"t", ty(e->getType())}};
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        Object o;
        o["t"] = ty(e->getType());
        o["l"] = lineOf(e->getExprLoc());
        if (fold(e, o))
            return o;
        if (auto *x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            o["v"] = llvm::json::fixUTF8(x->getBytes());
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            o["k"] = "null";
            return o;
        }
        if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            auto *d = x->getDecl();
            if (auto *fd = dyn_cast<FunctionDecl>(d)) {
                o["k"] = "fref";
                o["n"] = fd->getNameAsString();
                o["usr"] = usr(fd);
                o["qn"] = qn(fd);
                return o;
            }
            o["k"] = "ref";
            o["id"] = did(d);
            o["n"] = d->getNameAsString();
            if (isa<ParmVarDecl>(d))
                o["dk"] = "parm";
            else if (isa<BindingDecl>(d))
                o["dk"] = "binding";
            else if (auto *v = dyn_cast<VarDecl>(d)) {
                o["dk"] = v->isStaticLocal() ? "slocal" : v->hasGlobalStorage() ? "global" : "var";
                if (v->hasGlobalStorage())
                    o["qn"] = qn(v);
            } else
                o["dk"] = d->getDeclKindName();
            return o;
        }
        if (isa<CXXThisExpr>(e)) {
            o["k"] = "this";
            return o;
        }
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            if (auto *fd = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                o["k"] = "mem";
                o["b"] = expr(x->getBase());
                o["f"] = fd->getNameAsString();
                o["rec"] = qn(fd->getParent());
                o["arrow"] = x->isArrow();
                if (fd->isMutable())
                    o["mut"] = true;
                return o;
            }
            if (auto *vd = dyn_cast<VarDecl>(x->getMemberDecl())) {
                o["k"] = "ref";
                o["id"] = did(vd);
                o["n"] = vd->getNameAsString();
                o["dk"] = "global";
                o["qn"] = qn(vd);
                return o;
            }
            o["k"] = "mref";
            o["b"] = expr(x->getBase());
            o["qn"] = qn(x->getMemberDecl());
            return o;
        }
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            auto *c = x->getConstructor();
            o["k"] = "ctor";
            o["cls"] = qn(c->getParent());
            o["usr"] = usr(c);
            o["copy"] = c->isCopyConstructor();
            o["move"] = c->isMoveConstructor();
            o["def"] = hasRepoBody(c);
            o["list"] = x->isListInitialization();
            if (isa<CXXTemporaryObjectExpr>(x))
                o["tmp"] = true;
            Array a;
            for (auto *g : x->arguments())
                a.push_back(expr(g));
            o["a"] = std::move(a);
            noexceptOf(c, o);
            return o;
        }
        if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["k"] = "ctor";
            o["cls"] = qn(x->getConstructor()->getParent());
            o["usr"] = usr(x->getConstructor());
            o["a"] = Array{};
            return o;
        }
        if (auto *x = dyn_cast<CallExpr>(e))
            return call(x, std::move(o));
        if (auto *x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<BinaryOperator>(e)) {
            if (x->isAssignmentOp()) {
                o["k"] = "asg";
                o["op"] = x->getOpcodeStr().str();
                o["a"] = expr(x->getLHS());
                o["b"] = expr(x->getRHS());
                if (auto *ca = dyn_cast<CompoundAssignOperator>(x))
                    o["ct"] = ty(ca->getComputationResultType());
                return o;
            }
            o["k"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            return o;
        }
        if (auto *x = dyn_cast<AbstractConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto *x = dyn_cast<CastExpr>(e)) {
            switch (x->getCastKind()) {
            case CK_LValueToRValue:
            case CK_NoOp:
            case CK_FunctionToPointerDecay:
            case CK_ArrayToPointerDecay:
            case CK_ConstructorConversion:
            case CK_UserDefinedConversion:
            case CK_UncheckedDerivedToBase:
            case CK_DerivedToBase:
            case CK_BaseToDerived: {
                bool constCast = isa<CXXConstCastExpr>(x);
                if (!constCast)
                    return expr(x->getSubExpr());
                break;
            }
            default:
                break;
            }
            o["k"] = "cast";
            o["ck"] = isa<CXXConstCastExpr>(x) ? "ConstCast" : x->getCastKindName();
            o["exp"] = isa<ExplicitCastExpr>(x);
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto *x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lam";
            const FunctionDecl *op = x->getCallOperator();
            if (x->isGenericLambda()) {
                // the instantiation actually called; with several, the pattern stays without a body and is not modelled
                if (auto *ft = x->getDependentCallOperator()) {
                    const FunctionDecl *one = nullptr;
                    int n = 0;
                    for (auto *sp : ft->specializations())
                        if (sp->getDefinition()) {
                            one = sp->getDefinition();
                            ++n;
                        }
                    if (n == 1) {
                        op = one;
                        Pending.push_back(one);
                    }
                }
            }
            o["usr"] = usr(op);
            Array caps;
            auto ii = x->capture_init_begin();
            for (auto &c : x->captures()) {
                Object co;
                if (c.capturesThis()) {
                    co["this"] = true;
                    co["copy"] = c.getCaptureKind() == LCK_StarThis;
                } else if (c.capturesVariable()) {
                    co["id"] = did(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                    if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar()))
                        if (vd->isInitCapture())
                            co["init"] = expr(vd->getInit());
                }
                caps.push_back(std::move(co));
                ++ii;
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto *x = dyn_cast<InitListExpr>(e)) {
            if (auto *sem = x->isSemanticForm() ? x : x->getSemanticForm())
                x = sem;
            if (x->isTransparent() && x->getNumInits() == 1)
                return expr(x->getInit(0));
            o["k"] = "init";
            Array a, f;
            for (auto *g : x->inits())
                a.push_back(expr(g));
            if (auto *rt = x->getType()->getAs<RecordType>()) {
                for (auto *fd : rt->getDecl()->fields())
                    f.push_back(fd->getNameAsString());
                o["f"] = std::move(f);
            }
            if (x->hasArrayFiller())
                o["fill"] = true;
            o["a"] = std::move(a);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            o["k"] = "vinit";
            return o;
        }
        if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["at"] = ty(x->getAllocatedType());
            o["arr"] = x->isArray();
            o["e"] = x->getInitializer() ? expr(x->getInitializer()) : Value(nullptr);
            return o;
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "del";
            o["arr"] = x->isArrayForm();
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx";
            o["a"] = expr(x->getBase());
            o["b"] = expr(x->getIdx());
            return o;
        }
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            if (x->getSubExpr()) {
                o["e"] = expr(x->getSubExpr());
                o["xt"] = ty(x->getSubExpr()->getType());
            } else
                o["e"] = nullptr;
            return o;
        }
        if (auto *x = dyn_cast<OpaqueValueExpr>(e))
            if (x->getSourceExpr())
                return expr(x->getSourceExpr());
        o["k"] = "unk";
        o["c"] = e->getStmtClassName();
        Array ch;
        for (auto *c : e->children())
            if (auto *ce = dyn_cast_or_null<Expr>(c))
                ch.push_back(expr(ce));
        o["ch"] = std::move(ch);
        return o;
    }

    void noexceptOf(const FunctionDecl *fd, Object &o) {
        if (auto *pt = fd->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(pt->getExceptionSpecType()) && pt->isNothrow())
                o["nx"] = true;
    }

    Value call(const CallExpr *x, Object o) {
        const FunctionDecl *fd = x->getDirectCallee();
        Array a;
        if (!fd) {
            o["k"] = "icall";
            o["f"] = expr(x->getCallee());
            for (auto *g : x->arguments())
                a.push_back(expr(g));
            o["a"] = std::move(a);
            return o;
        }
        o["k"] = "call";
        o["n"] = fd->getNameAsString();
        o["qn"] = qn(fd);
        o["usr"] = usr(fd);
        o["def"] = hasRepoBody(fd);
        noexceptOf(fd, o);
        if (fd->getReturnType()->isReferenceType())
            o["rr"] = true;
        if (fd->isNoReturn())
            o["nr"] = true;
        unsigned start = 0;
        auto *m = dyn_cast<CXXMethodDecl>(fd);
        if (m) {
            o["cls"] = qn(m->getParent());
            o["const"] = m->isConst();
            o["virt"] = m->isVirtual();
            if (m->getParent()->isLambda())
                o["lam"] = true;
        }
        if (auto *mc = dyn_cast<CXXMemberCallExpr>(x)) {
            const Expr *obj = mc->getImplicitObjectArgument();
            o["o"] = expr(obj);
            if (obj) {
                o["ot"] = ty(obj->getType());
                auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParenImpCasts());
                o["arrow"] = me && me->isArrow();
                if (me && me->hasQualifier())
                    o["virt"] = false;
            }
        } else if (auto *oc = dyn_cast<CXXOperatorCallExpr>(x)) {
            o["op"] = getOperatorSpelling(oc->getOperator());
            if (m && !m->isStatic()) {
                o["o"] = expr(x->getArg(0));
                o["ot"] = ty(x->getArg(0)->getType());
                start = 1;
            }
        }
        Array pt;
        for (auto *p : fd->parameters())
            pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        for (unsigned i = start; i < x->getNumArgs(); ++i)
            a.push_back(expr(x->getArg(i)));
        o["a"] = std::move(a);
        if (auto *ta = fd->getTemplateSpecializationArgs()) {
            Array tt;
            for (auto &t : ta->asArray())
                addTArg(tt, t);
            o["ta"] = std::move(tt);
        }
        return o;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &ctx) override {
        if (ctx.getDiagnostics().hasErrorOccurred()) {
            llvm::errs() << "capi_extract: errors in the translation unit\n";
            return;
        }
        Dumper d(ctx);
        d.TraverseDecl(ctx.getTranslationUnitDecl());
        Object o;
        o["types"] = std::move(d.Types);
        o["functions"] = std::move(d.Functions);
        o["records"] = std::move(d.Records);
        o["globals"] = std::move(d.Globals);
        llvm::outs() << Value(std::move(o)) << "\n";
    }
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

// usage: capi_extract ROOT[:ROOT...] FILE -- FLAGS...
int main(int argc, const char **argv) {
    if (argc < 4) {
        llvm::errs() << "usage: capi_extract ROOTS FILE -- FLAGS\n";
        return 2;
    }
    llvm::SmallVector<llvm::StringRef, 4> rs;
    llvm::StringRef(argv[1]).split(rs, ':');
    for (auto &r : rs)
        Roots.push_back(r.str());
    std::vector<std::string> flags;
    for (int i = 4; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {std::string(argv[2])});
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    tool.appendArgumentsAdjuster(tooling::getClangStripOutputAdjuster());
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
