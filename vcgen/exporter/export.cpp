// Clang plugin: exports the resolved, typed AST of every function whose body
// lies below one of the given root directories, as JSON.  It drops only
// source locations, implicit no-op nodes (parentheses, temporaries' cleanup
// markers, lvalue-to-rvalue markers) and attributes.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
namespace json = llvm::json;

namespace
{
std::vector<std::string> Roots;
std::string OutFile;

class Exporter
{
public:
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> Ids;
    json::Object Records, Enums;
    std::set<std::string> Unsupported;

    explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.TerseOutput = true;
        PP.AnonymousTagLocations = false;
    }

    int id(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = Ids.find(d);
        if (it == Ids.end())
            it = Ids.emplace(d, int(Ids.size()) + 1).first;
        return it->second;
    }

    bool inRoots(SourceLocation loc)
    {
        if (loc.isInvalid())
            return false;
        auto f = SM.getFilename(SM.getExpansionLoc(loc));
        for (auto& r : Roots)
            if (f.starts_with(r))
                return true;
        return false;
    }

    std::string file(SourceLocation loc) { return SM.getFilename(SM.getExpansionLoc(loc)).str(); }
    int line(SourceLocation loc) { return int(SM.getExpansionLineNumber(loc)); }

    std::string qname(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        os.flush();
        // remove inline/anonymous namespace noise
        for (const char* pat : {"(anonymous namespace)::", "__cxx11::", "__1::"})
        {
            size_t p;
            while ((p = s.find(pat)) != std::string::npos)
                s.erase(p, strlen(pat));
        }
        return s;
    }

    json::Value type(QualType q)
    {
        if (q.isNull())
            return json::Object{{"k", "none"}};
        q = q.getCanonicalType();
        json::Object o;
        bool c = q.isConstQualified();
        const Type* t = q.getTypePtr();
        if (auto* r = dyn_cast<ReferenceType>(t))
        {
            o["k"] = "ref";
            o["to"] = type(r->getPointeeType());
            o["rv"] = isa<RValueReferenceType>(r);
        }
        else if (auto* p = dyn_cast<PointerType>(t))
        {
            o["k"] = "ptr";
            o["to"] = type(p->getPointeeType());
        }
        else if (auto* b = dyn_cast<BuiltinType>(t))
        {
            if (b->getKind() == BuiltinType::Bool)
                o["k"] = "bool";
            else if (b->isInteger())
            {
                o["k"] = "int";
                o["w"] = int(C.getTypeSize(q));
                o["s"] = b->isSignedInteger();
            }
            else if (b->isFloatingPoint())
            {
                o["k"] = "float";
                o["w"] = int(C.getTypeSize(q));
            }
            else if (b->isVoidType())
                o["k"] = "void";
            else
                o["k"] = "builtin";
            o["n"] = b->getName(PP).str();
        }
        else if (auto* e = dyn_cast<EnumType>(t))
        {
            o["k"] = "enum";
            o["n"] = qname(e->getDecl());
            QualType u = e->getDecl()->getIntegerType();
            if (!u.isNull())
            {
                o["w"] = int(C.getTypeSize(u));
                o["s"] = u->isSignedIntegerType();
            }
            addEnum(e->getDecl());
        }
        else if (auto* rt = dyn_cast<RecordType>(t))
        {
            auto* rd = cast<CXXRecordDecl>(rt->getDecl());
            o["k"] = "rec";
            o["n"] = recName(rd);
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
            {
                json::Array a;
                for (auto& ta : sp->getTemplateArgs().asArray())
                    addTArg(a, ta);
                o["a"] = std::move(a);
            }
            if (rd->isLambda())
                o["lam"] = id(rd);
            addRecord(rd);
        }
        else if (auto* at = dyn_cast<ConstantArrayType>(t))
        {
            o["k"] = "arr";
            o["to"] = type(at->getElementType());
            o["len"] = int64_t(at->getSize().getZExtValue());
        }
        else if (isa<FunctionType>(t))
            o["k"] = "func";
        else
        {
            o["k"] = "other";
            o["n"] = q.getAsString(PP);
        }
        if (c)
            o["c"] = true;
        return o;
    }

    void addTArg(json::Array& a, const TemplateArgument& ta)
    {
        switch (ta.getKind())
        {
        case TemplateArgument::Type: a.push_back(type(ta.getAsType())); break;
        case TemplateArgument::Integral:
            a.push_back(json::Object{{"k", "val"}, {"v", llvm::toString(ta.getAsIntegral(), 10)}});
            break;
        case TemplateArgument::Pack:
            for (auto& p : ta.pack_elements())
                addTArg(a, p);
            break;
        default: a.push_back(json::Object{{"k", "targ"}}); break;
        }
    }

    std::string recName(const CXXRecordDecl* rd)
    {
        std::string s = qname(rd);
        if (rd->isLambda())
            return "lambda#" + std::to_string(id(rd));
        return s;
    }

    void addEnum(const EnumDecl* e)
    {
        std::string n = qname(e);
        if (Enums.get(n))
            return;
        json::Object o;
        for (auto* c : e->enumerators())
            o[c->getName()] = llvm::toString(c->getInitVal(), 10);
        Enums[n] = std::move(o);
    }

    void addRecord(const CXXRecordDecl* rd)
    {
        rd = rd->getDefinition();
        if (!rd || rd->isLambda() || !inRoots(rd->getLocation()))
            return;
        std::string n = recName(rd);
        if (isa<ClassTemplateSpecializationDecl>(rd))
        {
            std::string s;
            llvm::raw_string_ostream os(s);
            rd->getNameForDiagnostic(os, PP, true);
            n = os.str();
        }
        if (Records.get(n))
            return;
        Records[n] = json::Object{};
        json::Array fs;
        for (auto* f : rd->fields())
        {
            json::Object fo{{"n", f->getName()}, {"t", type(f->getType())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        json::Array bs;
        for (auto& b : rd->bases())
            bs.push_back(type(b.getType()));
        json::Object o{{"fields", std::move(fs)}, {"bases", std::move(bs)},
                       {"file", file(rd->getLocation())}};
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd))
        {
            json::Array a;
            for (auto& ta : sp->getTemplateArgs().asArray())
                addTArg(a, ta);
            o["a"] = std::move(a);
            o["tn"] = qname(rd);
        }
        o["aggregate"] = rd->isAggregate();
        Records[n] = std::move(o);
    }

    json::Value callee(const FunctionDecl* f)
    {
        json::Object o;
        o["q"] = qname(f);
        o["n"] = f->getNameAsString();
        o["key"] = fkey(f);
        json::Array pt;
        for (auto* p : f->parameters())
            pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        o["ret"] = type(f->getReturnType());
        if (f->isVariadic())
            o["variadic"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = type(C.getRecordType(m->getParent()));
            o["static"] = m->isStatic();
            o["const"] = m->isConst();
            o["virtual"] = m->isVirtual();
            o["defaulted"] = f->isDefaulted() || f->isImplicit();
            if (auto* cd = dyn_cast<CXXConstructorDecl>(m))
            {
                o["ctor"] = true;
                if (cd->isCopyConstructor()) o["ck"] = "copy";
                else if (cd->isMoveConstructor()) o["ck"] = "move";
                else if (cd->isDefaultConstructor()) o["ck"] = "default";
            }
            if (m->isCopyAssignmentOperator()) o["ak"] = "copy";
            if (m->isMoveAssignmentOperator()) o["ak"] = "move";
        }
        if (auto* ta = f->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (auto& x : ta->asArray())
                addTArg(a, x);
            o["ta"] = std::move(a);
        }
        if (f->isOverloadedOperator())
            o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        const FunctionDecl* def = nullptr;
        bool repo = inRoots(f->getLocation());
        if (f->hasBody(def) && def)
            repo = inRoots(def->getLocation());
        o["repo"] = repo;
        o["noreturn"] = f->isNoReturn();
        return o;
    }

    std::string fkey(const FunctionDecl* f)
    {
        std::string s = qname(f);
        if (auto* ta = f->getTemplateSpecializationArgs())
        {
            std::string t;
            llvm::raw_string_ostream os(t);
            printTemplateArgumentList(os, ta->asArray(), PP);
            s += os.str();
        }
        s += "(";
        bool first = true;
        for (auto* p : f->parameters())
        {
            if (!first) s += ", ";
            first = false;
            s += p->getType().getCanonicalType().getAsString(PP);
        }
        s += ")";
        if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->isConst())
            s += " const";
        for (const char* pat : {"(anonymous namespace)::", "__cxx11::"})
        {
            size_t p;
            while ((p = s.find(pat)) != std::string::npos)
                s.erase(p, strlen(pat));
        }
        return s;
    }

    // ------------------------------------------------------------- statements
    json::Value var(const VarDecl* v)
    {
        json::Object o{{"id", id(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}};
        if (v->isStaticLocal())
            o["static"] = true;
        if (v->hasInit())
        {
            o["init"] = expr(v->getInit());
            o["is"] = v->getInitStyle() == VarDecl::ListInit ? "list" : v->getInitStyle() == VarDecl::CallInit ? "call" : "c";
        }
        if (auto* d = dyn_cast<DecompositionDecl>(v))
        {
            json::Array bs;
            for (auto* b : d->bindings())
                bs.push_back(json::Object{{"id", id(b)}, {"n", b->getNameAsString()}, {"t", type(b->getType())}});
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    json::Value stmt(const Stmt* s)
    {
        if (!s)
            return nullptr;
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* c = dyn_cast<CompoundStmt>(s))
        {
            json::Array a;
            for (auto* x : c->body())
                a.push_back(stmt(x));
            o["k"] = "block";
            o["s"] = std::move(a);
        }
        else if (auto* d = dyn_cast<DeclStmt>(s))
        {
            json::Array a;
            for (auto* x : d->decls())
            {
                if (auto* v = dyn_cast<VarDecl>(x))
                    a.push_back(var(v));
            }
            o["k"] = "decl";
            o["vars"] = std::move(a);
        }
        else if (auto* i = dyn_cast<IfStmt>(s))
        {
            if (i->isConstexpr())
            {
                auto nd = i->getNondiscardedCase(C);
                if (nd)
                {
                    if (*nd)
                        return stmt(*nd);
                    o["k"] = "null";
                    return o;
                }
            }
            o["k"] = "if";
            o["init"] = stmt(i->getInit());
            if (i->getConditionVariable())
                o["cv"] = var(i->getConditionVariable());
            o["c"] = expr(i->getCond());
            o["t"] = stmt(i->getThen());
            o["e"] = stmt(i->getElse());
        }
        else if (auto* w = dyn_cast<WhileStmt>(s))
        {
            o["k"] = "while";
            if (w->getConditionVariable())
                o["cv"] = var(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
        }
        else if (auto* w = dyn_cast<DoStmt>(s))
        {
            o["k"] = "do";
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
        }
        else if (auto* f = dyn_cast<ForStmt>(s))
        {
            o["k"] = "for";
            o["init"] = stmt(f->getInit());
            if (f->getConditionVariable())
                o["cv"] = var(f->getConditionVariable());
            if (f->getCond())
                o["c"] = expr(f->getCond());
            if (f->getInc())
                o["inc"] = expr(f->getInc());
            o["b"] = stmt(f->getBody());
        }
        else if (auto* f = dyn_cast<CXXForRangeStmt>(s))
        {
            o["k"] = "range";
            o["init"] = stmt(f->getInit());
            o["r"] = expr(f->getRangeInit());
            o["v"] = var(f->getLoopVariable());
            o["b"] = stmt(f->getBody());
        }
        else if (auto* sw = dyn_cast<SwitchStmt>(s))
        {
            o["k"] = "switch";
            o["init"] = stmt(sw->getInit());
            if (sw->getConditionVariable())
                o["cv"] = var(sw->getConditionVariable());
            o["c"] = expr(sw->getCond());
            o["b"] = stmt(sw->getBody());
        }
        else if (auto* cs = dyn_cast<CaseStmt>(s))
        {
            o["k"] = "case";
            o["v"] = expr(cs->getLHS());
            if (cs->getRHS())
                o["hi"] = expr(cs->getRHS());
            o["s"] = stmt(cs->getSubStmt());
        }
        else if (auto* ds = dyn_cast<DefaultStmt>(s))
        {
            o["k"] = "default";
            o["s"] = stmt(ds->getSubStmt());
        }
        else if (auto* r = dyn_cast<ReturnStmt>(s))
        {
            o["k"] = "return";
            if (r->getRetValue())
                o["e"] = expr(r->getRetValue());
        }
        else if (isa<BreakStmt>(s))
            o["k"] = "break";
        else if (isa<ContinueStmt>(s))
            o["k"] = "continue";
        else if (isa<NullStmt>(s))
            o["k"] = "null";
        else if (auto* a = dyn_cast<AttributedStmt>(s))
            return stmt(a->getSubStmt());
        else if (auto* t = dyn_cast<CXXTryStmt>(s))
        {
            o["k"] = "try";
            o["b"] = stmt(t->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                auto* h = t->getHandler(i);
                json::Object ho{{"b", stmt(h->getHandlerBlock())}, {"t", type(h->getCaughtType())}};
                if (h->getExceptionDecl())
                    ho["v"] = var(h->getExceptionDecl());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        }
        else if (auto* e = dyn_cast<Expr>(s))
        {
            o["k"] = "expr";
            o["e"] = expr(e);
        }
        else
        {
            o["k"] = "unsupported";
            o["c"] = s->getStmtClassName();
            Unsupported.insert(s->getStmtClassName());
        }
        return o;
    }

    // ------------------------------------------------------------ expressions
    const Expr* strip(const Expr* e)
    {
        while (true)
        {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<FullExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<ImplicitCastExpr>(e))
            {
                switch (p->getCastKind())
                {
                case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
                case CK_UserDefinedConversion: case CK_ConstructorConversion:
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
                case CK_BuiltinFnToFnPtr: case CK_AtomicToNonAtomic:
                    e = p->getSubExpr();
                    continue;
                default:
                    return e;
                }
            }
            else return e;
        }
    }

    json::Value expr(const Expr* e0)
    {
        if (!e0)
            return nullptr;
        const Expr* e = strip(e0);
        json::Object o;
        o["t"] = type(e->getType());
        // fold integral constants
        if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType()
            && e->isPRValue())
        {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
            {
                o["k"] = "int";
                o["v"] = llvm::toString(r.Val.getInt(), 10);
                return o;
            }
        }
        if (auto* d = dyn_cast<DeclRefExpr>(e))
        {
            auto* vd = d->getDecl();
            o["k"] = "ref";
            o["d"] = id(vd);
            o["n"] = vd->getNameAsString();
            if (auto* f = dyn_cast<FunctionDecl>(vd))
            {
                o["dk"] = "func";
                o["fn"] = callee(f);
            }
            else if (isa<ParmVarDecl>(vd)) o["dk"] = "param";
            else if (isa<BindingDecl>(vd)) o["dk"] = "binding";
            else if (auto* v = dyn_cast<VarDecl>(vd))
            {
                o["dk"] = v->isLocalVarDecl() ? "var" : "global";
                if (!v->isLocalVarDecl())
                {
                    o["q"] = qname(v);
                    if (v->getAnyInitializer() && inRoots(v->getLocation())
                        && (v->isConstexpr() || v->getType().isConstQualified()))
                        o["init"] = expr(v->getAnyInitializer());
                }
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(vd))
            {
                o["k"] = "int";
                o["v"] = llvm::toString(ec->getInitVal(), 10);
            }
            else o["dk"] = "other";
        }
        else if (auto* m = dyn_cast<MemberExpr>(e))
        {
            if (auto* v = dyn_cast<VarDecl>(m->getMemberDecl()))
            {
                o["k"] = "ref";
                o["d"] = id(v);
                o["n"] = v->getNameAsString();
                o["dk"] = "global";
                o["q"] = qname(v);
                if (v->getAnyInitializer())
                    o["init"] = expr(v->getAnyInitializer());
            }
            else
            {
                o["k"] = "mem";
                o["f"] = m->getMemberDecl()->getNameAsString();
                o["arrow"] = m->isArrow();
                o["b"] = expr(m->getBase());
                if (auto* f = dyn_cast<FieldDecl>(m->getMemberDecl()))
                    o["rec"] = type(C.getRecordType(f->getParent()));
            }
        }
        else if (auto* c = dyn_cast<CXXOperatorCallExpr>(e))
        {
            auto* f = c->getDirectCallee();
            o["k"] = "call";
            if (f)
            {
                o["fn"] = callee(f);
                unsigned i = 0;
                if (auto* md = dyn_cast<CXXMethodDecl>(f); md && !md->isStatic())
                {
                    o["obj"] = expr(c->getArg(0));
                    i = 1;
                }
                json::Array a;
                for (; i < c->getNumArgs(); ++i)
                    a.push_back(expr(c->getArg(i)));
                o["args"] = std::move(a);
            }
            else
                o["k"] = "unsupported";
        }
        else if (auto* c = dyn_cast<CXXMemberCallExpr>(e))
        {
            o["k"] = "call";
            if (auto* f = c->getDirectCallee())
            {
                o["fn"] = callee(f);
                o["obj"] = expr(c->getImplicitObjectArgument());
                if (auto* me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens()))
                    o["arrow"] = me->isArrow();
            }
            else o["k"] = "unsupported";
            json::Array a;
            for (auto* x : c->arguments())
                a.push_back(expr(x));
            o["args"] = std::move(a);
        }
        else if (auto* c = dyn_cast<CallExpr>(e))
        {
            o["k"] = "call";
            if (auto* f = c->getDirectCallee())
                o["fn"] = callee(f);
            else
            {
                o["k"] = "icall";
                o["f"] = expr(c->getCallee());
            }
            json::Array a;
            for (auto* x : c->arguments())
                a.push_back(expr(x));
            o["args"] = std::move(a);
        }
        else if (auto* c = dyn_cast<CXXConstructExpr>(e))
        {
            o["k"] = "ctor";
            o["fn"] = callee(c->getConstructor());
            o["list"] = c->isListInitialization();
            o["elidable"] = c->isElidable();
            json::Array a;
            for (auto* x : c->arguments())
                a.push_back(expr(x));
            o["args"] = std::move(a);
        }
        else if (auto* c = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            o["k"] = "inhctor";
            o["fn"] = callee(c->getConstructor());
        }
        else if (auto* il = dyn_cast<InitListExpr>(e))
        {
            o["k"] = "ilist";
            json::Array a;
            for (auto* x : il->inits())
                a.push_back(expr(x));
            o["els"] = std::move(a);
            if (il->hasArrayFiller())
                o["filler"] = true;
        }
        else if (auto* il = dyn_cast<CXXStdInitializerListExpr>(e))
        {
            o["k"] = "stdilist";
            o["e"] = expr(il->getSubExpr());
        }
        else if (auto* sl = dyn_cast<StringLiteral>(e))
        {
            o["k"] = "str";
            json::Array a;
            for (unsigned char ch : sl->getBytes())
                a.push_back(int(ch));
            o["v"] = std::move(a);
        }
        else if (auto* p = dyn_cast<PredefinedExpr>(e))
        {
            o["k"] = "str";
            o["v"] = json::Array{};
            o["predef"] = true;
        }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            o["k"] = "null";
        else if (isa<CXXThisExpr>(e))
            o["k"] = "this";
        else if (auto* fl = dyn_cast<FloatingLiteral>(e))
        {
            o["k"] = "float";
            llvm::SmallString<32> s;
            fl->getValue().toString(s);
            o["v"] = s.str();
        }
        else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
            o["k"] = "zero";
        else if (auto* u = dyn_cast<UnaryOperator>(e))
        {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode());
            o["post"] = u->isPostfix();
            o["e"] = expr(u->getSubExpr());
        }
        else if (auto* b = dyn_cast<CompoundAssignOperator>(e))
        {
            o["k"] = "cassign";
            std::string op = b->getOpcodeStr().str();
            op.pop_back();
            o["op"] = op;
            o["l"] = expr(b->getLHS());
            o["r"] = expr(b->getRHS());
            o["ct"] = type(b->getComputationResultType());
        }
        else if (auto* b = dyn_cast<BinaryOperator>(e))
        {
            o["k"] = b->getOpcode() == BO_Assign ? "assign" : "bin";
            o["op"] = b->getOpcodeStr();
            o["l"] = expr(b->getLHS());
            o["r"] = expr(b->getRHS());
        }
        else if (auto* r = dyn_cast<CXXRewrittenBinaryOperator>(e))
            return expr(r->getSemanticForm());
        else if (auto* c = dyn_cast<ConditionalOperator>(e))
        {
            o["k"] = "cond";
            o["c"] = expr(c->getCond());
            o["a"] = expr(c->getTrueExpr());
            o["b"] = expr(c->getFalseExpr());
        }
        else if (auto* c = dyn_cast<CastExpr>(e))
        {
            o["k"] = "cast";
            o["ck"] = c->getCastKindName();
            o["expl"] = !isa<ImplicitCastExpr>(c);
            o["e"] = expr(c->getSubExpr());
            if (c->getCastKind() == CK_Dynamic)
                o["dst"] = type(c->getType());
        }
        else if (auto* l = dyn_cast<LambdaExpr>(e))
        {
            o["k"] = "lambda";
            o["id"] = id(l->getLambdaClass());
            json::Array caps;
            for (auto& cap : l->captures())
            {
                json::Object co;
                if (cap.capturesThis()) co["this"] = true;
                else if (cap.capturesVariable())
                {
                    co["id"] = id(cap.getCapturedVar());
                    co["n"] = cap.getCapturedVar()->getNameAsString();
                    co["byref"] = cap.getCaptureKind() == LCK_ByRef;
                    if (l->isInitCapture(&cap))
                        if (auto* v = dyn_cast<VarDecl>(cap.getCapturedVar()))
                            co["init"] = expr(v->getInit());
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            json::Array ops;
            auto* op = l->getCallOperator();
            if (auto* ft = op->getDescribedFunctionTemplate())
            {
                for (auto* sp : ft->specializations())
                    if (sp->hasBody() && !sp->isDependentContext())
                        ops.push_back(lambdaOp(sp));
            }
            else if (!op->isDependentContext())
                ops.push_back(lambdaOp(op));
            o["ops"] = std::move(ops);
        }
        else if (auto* n = dyn_cast<CXXNewExpr>(e))
        {
            o["k"] = "new";
            o["at"] = type(n->getAllocatedType());
            if (n->getInitializer())
                o["init"] = expr(n->getInitializer());
        }
        else if (auto* t = dyn_cast<CXXThrowExpr>(e))
        {
            o["k"] = "throw";
            if (t->getSubExpr())
                o["e"] = expr(t->getSubExpr());
        }
        else if (auto* a = dyn_cast<ArraySubscriptExpr>(e))
        {
            o["k"] = "index";
            o["b"] = expr(a->getBase());
            o["i"] = expr(a->getIdx());
        }
        else if (auto* st = dyn_cast<StmtExpr>(e))
        {
            o["k"] = "unsupported";
            o["c"] = "StmtExpr";
            (void)st;
        }
        else
        {
            o["k"] = "unsupported";
            o["c"] = e->getStmtClassName();
            Unsupported.insert(e->getStmtClassName());
        }
        if (o.getString("k") == "call" || o.getString("k") == "un" || o.getString("k") == "ctor"
            || o.getString("k") == "bin" || o.getString("k") == "index")
            o["ln"] = line(e->getExprLoc());
        return o;
    }

    json::Value lambdaOp(const FunctionDecl* f)
    {
        json::Object o;
        json::Array ps;
        for (auto* p : f->parameters())
            ps.push_back(var(p));
        o["params"] = std::move(ps);
        o["ret"] = type(f->getReturnType());
        o["body"] = stmt(f->getBody());
        return o;
    }

    json::Value function(const FunctionDecl* f)
    {
        json::Object o;
        o["q"] = qname(f);
        o["key"] = fkey(f);
        o["n"] = f->getNameAsString();
        o["file"] = file(f->getLocation());
        o["l"] = line(f->getLocation());
        o["end"] = line(f->getEndLoc());
        o["internal"] = !f->isExternallyVisible();
        json::Array ps;
        for (auto* p : f->parameters())
        {
            json::Object po{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}};
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        o["ret"] = type(f->getReturnType());
        o["defaulted"] = f->isDefaulted();
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = type(C.getRecordType(m->getParent()));
            o["static"] = m->isStatic();
            o["const"] = m->isConst();
            o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_private ? "private" : "protected";
        }
        if (auto* ta = f->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (auto& x : ta->asArray())
                addTArg(a, x);
            o["ta"] = std::move(a);
        }
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f))
        {
            o["ctor"] = true;
            json::Array is;
            for (auto* i : cd->inits())
            {
                json::Object io;
                if (i->isAnyMemberInitializer())
                {
                    io["f"] = i->getAnyMember()->getNameAsString();
                    io["ft"] = type(i->getAnyMember()->getType());
                }
                else if (i->isDelegatingInitializer()) io["deleg"] = true;
                else io["base"] = type(QualType(i->getBaseClass(), 0));
                io["w"] = i->isWritten();
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (isa<CXXDestructorDecl>(f))
            o["dtor"] = true;
        o["body"] = stmt(f->getBody());
        return o;
    }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
public:
    Exporter& X;
    json::Array Functions;
    std::set<const FunctionDecl*> Seen;
    explicit Visitor(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (!f->isThisDeclarationADefinition() && !f->isExplicitlyDefaulted())
            return true;
        if (f->isDependentContext() || f->isDeleted())
            return true;
        if (!X.inRoots(f->getLocation()))
            return true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f); m && m->getParent()->isLambda())
            return true;
        if (!f->getBody() && !f->isDefaulted())
            return true;
        if (!Seen.insert(f).second)
            return true;
        Functions.push_back(X.function(f));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (r->isThisDeclarationADefinition() && !r->isDependentContext())
            X.addRecord(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (X.inRoots(e->getLocation()))
            X.addEnum(e);
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& c) override
    {
        if (c.getDiagnostics().hasErrorOccurred())
            return;
        Exporter x(c);
        Visitor v(x);
        v.TraverseDecl(c.getTranslationUnitDecl());
        json::Array us;
        for (auto& u : x.Unsupported)
            us.push_back(u);
        json::Object top{{"functions", std::move(v.Functions)}, {"records", std::move(x.Records)},
                         {"enums", std::move(x.Enums)}, {"unsupported", std::move(us)}};
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << json::Value(std::move(top));
    }
};

class Action : public PluginASTAction
{
protected:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
        return std::make_unique<Consumer>();
    }
    bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& args) override
    {
        for (auto& a : args)
        {
            if (a.rfind("out=", 0) == 0) OutFile = a.substr(4);
            else if (a.rfind("root=", 0) == 0) Roots.push_back(a.substr(5));
        }
        return true;
    }
};
}
static FrontendPluginRegistry::Add<Action> Reg("argos-export", "export AST as JSON");
