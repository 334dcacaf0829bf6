// bnextract: serialises the instantiated, non-dependent function bodies of a
// translation unit to JSON, with all implicit conversions made explicit.
//
// It is a pure serialiser: it decides nothing. Every statement or expression
// class it does not know is emitted as {"e":"unsupported","cls":...} and makes
// the verifier refuse the function that contains it.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <memory>
#include <set>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

namespace {

struct Ser {
    ASTContext &C;
    SourceManager &SM;
    std::unique_ptr<MangleContext> MC;
    std::map<const Decl *, int64_t> ids;
    Object records;
    Object functions;
    Object globals;
    std::set<const FunctionDecl *> done;

    explicit Ser(ASTContext &c) : C(c), SM(c.getSourceManager()), MC(c.createMangleContext()) {}

    int64_t id(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int64_t n = (int64_t)ids.size() + 1;
        ids[d] = n;
        return n;
    }

    bool sys(const Decl *d) {
        SourceLocation l = SM.getExpansionLoc(d->getLocation());
        if (l.isInvalid()) return true;
        return SM.isInSystemHeader(l);
    }

    std::string loc(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        PresumedLoc p = SM.getPresumedLoc(l);
        if (p.isInvalid()) return "?";
        return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
    }

    // ----------------------------------------------------------------- types
    std::string tyName(QualType t) {
        PrintingPolicy pp(C.getLangOpts());
        pp.SuppressTagKeyword = true;
        pp.Bool = true;
        return t.getCanonicalType().getUnqualifiedType().getAsString(pp);
    }

    Value type(QualType t) {
        t = t.getCanonicalType();
        Object o;
        if (t.isConstQualified()) o["c"] = true;
        const Type *p = t.getTypePtr();
        if (auto *b = dyn_cast<BuiltinType>(p)) {
            if (b->getKind() == BuiltinType::Bool) o["k"] = "bool";
            else if (b->isInteger()) {
                o["k"] = "int";
                o["w"] = (int64_t)C.getTypeSize(t);
                o["s"] = b->isSignedInteger();
                if (b->isAnyCharacterType()) o["ch"] = true;
                o["n"] = tyName(t);
            } else if (b->isFloatingPoint()) {
                o["k"] = "float";
                o["w"] = (int64_t)C.getTypeSize(t);
            } else if (b->isVoidType()) o["k"] = "void";
            else if (b->getKind() == BuiltinType::NullPtr) o["k"] = "nullptr";
            else { o["k"] = "other"; o["n"] = tyName(t); }
        } else if (auto *e = dyn_cast<EnumType>(p)) {
            o["k"] = "enum";
            QualType u = e->getDecl()->getIntegerType();
            if (u.isNull()) u = C.IntTy;
            o["w"] = (int64_t)C.getTypeSize(u);
            o["s"] = u->isSignedIntegerType();
            o["n"] = tyName(t);
            Array vals;
            for (auto *ec : e->getDecl()->enumerators()) {
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                vals.push_back(Array{ec->getNameAsString(), std::string(s)});
            }
            o["vals"] = std::move(vals);
        } else if (auto *r = dyn_cast<ReferenceType>(p)) {
            o["k"] = "ref";
            o["t"] = type(r->getPointeeType());
            if (isa<RValueReferenceType>(r)) o["rv"] = true;
        } else if (auto *r = dyn_cast<PointerType>(p)) {
            o["k"] = "ptr";
            if (r->getPointeeType()->isFunctionType()) o["t"] = Object{{"k", "fn"}};
            else o["t"] = type(r->getPointeeType());
        } else if (auto *a = dyn_cast<ConstantArrayType>(p)) {
            o["k"] = "array";
            o["n"] = (int64_t)a->getSize().getZExtValue();
            o["t"] = type(a->getElementType());
        } else if (auto *r = dyn_cast<RecordType>(p)) {
            o["k"] = "rec";
            const auto *d = cast<CXXRecordDecl>(r->getDecl());
            o["n"] = d->isLambda() ? "lambda#" + std::to_string(id(d)) : tyName(t);
            o["b"] = d->isLambda() ? std::string("lambda") : d->getQualifiedNameAsString();
            record(d);
            if (auto *s = dyn_cast<ClassTemplateSpecializationDecl>(d)) {
                Array as;
                for (auto &ta : s->getTemplateArgs().asArray()) as.push_back(targ(ta));
                o["a"] = std::move(as);
            }
        } else if (isa<FunctionProtoType>(p)) {
            o["k"] = "fn";
        } else {
            o["k"] = "other";
            o["n"] = tyName(t);
        }
        return Value(std::move(o));
    }

    Value targ(const TemplateArgument &ta) {
        switch (ta.getKind()) {
        case TemplateArgument::Type: return type(ta.getAsType());
        case TemplateArgument::Integral: {
            llvm::SmallString<32> s;
            ta.getAsIntegral().toString(s, 10);
            return Object{{"k", "val"}, {"v", std::string(s)}};
        }
        default: return Object{{"k", "other"}};
        }
    }

    std::set<const CXXRecordDecl *> recDone;
    void record(const CXXRecordDecl *d) {
        d = d->getDefinition();
        if (!d || !recDone.insert(d).second) return;
        std::string n = d->isLambda() ? "lambda#" + std::to_string(id(d)) : tyName(C.getRecordType(d));
        if (sys(d) && !d->isLambda()) {
            records[n] = Object{{"sys", true}};
            return;
        }
        Object o;
        Array fs;
        for (auto *f : d->fields()) {
            Object fo{{"n", f->getNameAsString()}, {"id", id(f)}, {"t", type(f->getType())}};
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["f"] = std::move(fs);
        Array bs;
        for (auto &b : d->bases()) bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        records[n] = std::move(o);
    }

    // ----------------------------------------------------------- functions
    std::string mangled(const FunctionDecl *f) {
        std::string s;
        llvm::raw_string_ostream os(s);
        GlobalDecl gd;
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) gd = GlobalDecl(c, Ctor_Complete);
        else if (auto *c = dyn_cast<CXXDestructorDecl>(f)) gd = GlobalDecl(c, Dtor_Complete);
        else gd = GlobalDecl(f);
        if (MC->shouldMangleDeclName(f)) MC->mangleName(gd, os);
        else os << f->getNameAsString();
        os.flush();
        return s;
    }

    Object callee(const FunctionDecl *f) {
        Object o;
        o["qn"] = f->getQualifiedNameAsString();
        o["id"] = id(f);
        if (sys(f)) o["sys"] = true;
        if (f->isDefaulted() || f->isImplicit()) o["def"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = type(C.getRecordType(m->getParent()));
            if (m->isStatic()) o["static"] = true;
            if (m->isConst()) o["const"] = true;
            if (m->isCopyAssignmentOperator()) o["asgn"] = "copy";
            if (m->isMoveAssignmentOperator()) o["asgn"] = "move";
            if (auto *c = dyn_cast<CXXConstructorDecl>(m)) {
                o["ctor"] = c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other";
            }
        }
        Array ps;
        for (auto *p : f->parameters()) ps.push_back(type(p->getType()));
        o["ps"] = std::move(ps);
        o["rt"] = type(f->getReturnType());
        if (auto *ta = f->getTemplateSpecializationArgs()) {
            Array as;
            for (auto &a : ta->asArray()) as.push_back(targ(a));
            o["ta"] = std::move(as);
        }
        return o;
    }

    void function(const FunctionDecl *f) {
        if (f->isDependentContext() || !f->isThisDeclarationADefinition()) return;
        if (!f->hasBody() && !f->isDefaulted()) return;
        if (!done.insert(f->getCanonicalDecl()).second) return;
        Object o = callee(f);
        o["loc"] = loc(f->getLocation());
        Array ps;
        for (auto *p : f->parameters()) ps.push_back(Object{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", type(p->getType())}});
        o["params"] = std::move(ps);
        o["mangled"] = isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda() ? std::string("lambda") : mangled(f);
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
            Array is;
            for (auto *i : c->inits()) {
                Object io;
                if (i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString();
                else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
                else io["other"] = true;
                io["x"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (f->hasBody()) o["body"] = stmt(f->getBody());
        functions[std::to_string(id(f))] = std::move(o);
    }

    // ---------------------------------------------------------- statements
    Value opt(const Stmt *s) { return s ? stmt(s) : Value(nullptr); }
    Value opte(const Expr *s) { return s ? expr(s) : Value(nullptr); }

    Value var(const VarDecl *v) {
        Object o{{"id", id(v)}, {"n", v->getNameAsString()}, {"t", type(v->getType())}};
        if (v->isStaticLocal() || v->hasGlobalStorage()) o["static"] = true;
        if (v->isConstexpr()) o["constexpr"] = true;
        if (v->getInit()) o["x"] = expr(v->getInit());
        return Value(std::move(o));
    }

    Value stmt(const Stmt *s) {
        if (auto *e = dyn_cast<Expr>(s)) return Object{{"s", "expr"}, {"x", expr(e)}, {"l", loc(s->getBeginLoc())}};
        Object o;
        o["l"] = loc(s->getBeginLoc());
        if (auto *c = dyn_cast<CompoundStmt>(s)) {
            o["s"] = "block";
            Array b;
            for (auto *x : c->body()) b.push_back(stmt(x));
            o["b"] = std::move(b);
        } else if (auto *d = dyn_cast<DeclStmt>(s)) {
            o["s"] = "decl";
            Array ds;
            for (auto *x : d->decls()) {
                if (auto *v = dyn_cast<VarDecl>(x)) ds.push_back(var(v));
                else if (isa<TypedefNameDecl>(x) || isa<UsingDecl>(x) || isa<StaticAssertDecl>(x) || isa<UsingDirectiveDecl>(x) || isa<EmptyDecl>(x)) continue;
                else if (auto *r = dyn_cast<CXXRecordDecl>(x)) { record(r); continue; }
                else ds.push_back(Object{{"unsupported", x->getDeclKindName()}});
            }
            o["d"] = std::move(ds);
        } else if (auto *x = dyn_cast<IfStmt>(s)) {
            o["s"] = "if";
            o["init"] = opt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["then"] = stmt(x->getThen());
            o["else"] = opt(x->getElse());
        } else if (auto *x = dyn_cast<WhileStmt>(s)) {
            o["s"] = "while";
            if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
        } else if (auto *x = dyn_cast<DoStmt>(s)) {
            o["s"] = "do";
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
        } else if (auto *x = dyn_cast<ForStmt>(s)) {
            o["s"] = "for";
            o["init"] = opt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
            o["c"] = opte(x->getCond());
            o["inc"] = opte(x->getInc());
            o["b"] = stmt(x->getBody());
        } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
            o["s"] = "range";
            o["r"] = expr(x->getRangeInit());
            o["begin"] = stmt(x->getBeginStmt());
            o["end"] = stmt(x->getEndStmt());
            o["range"] = stmt(x->getRangeStmt());
            o["c"] = expr(x->getCond());
            o["inc"] = expr(x->getInc());
            o["v"] = stmt(x->getLoopVarStmt());
            o["b"] = stmt(x->getBody());
        } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
            o["s"] = "return";
            o["x"] = opte(x->getRetValue());
        } else if (isa<BreakStmt>(s)) o["s"] = "break";
        else if (isa<ContinueStmt>(s)) o["s"] = "continue";
        else if (isa<NullStmt>(s)) o["s"] = "null";
        else if (auto *x = dyn_cast<SwitchStmt>(s)) {
            o["s"] = "switch";
            o["init"] = opt(x->getInit());
            o["c"] = expr(x->getCond());
            o["b"] = stmt(x->getBody());
        } else if (auto *x = dyn_cast<CaseStmt>(s)) {
            o["s"] = "case";
            o["v"] = expr(x->getLHS());
            if (x->getRHS()) o["v2"] = expr(x->getRHS());
            o["b"] = stmt(x->getSubStmt());
        } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
            o["s"] = "default";
            o["b"] = stmt(x->getSubStmt());
        } else if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            o["s"] = "try";
            o["b"] = stmt(x->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto *h = x->getHandler(i);
                Object ho;
                if (h->getExceptionDecl()) ho["v"] = var(h->getExceptionDecl());
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        } else if (auto *x = dyn_cast<AttributedStmt>(s)) {
            return stmt(x->getSubStmt());
        } else {
            o["s"] = "unsupported";
            o["cls"] = s->getStmtClassName();
        }
        return Value(std::move(o));
    }

    // --------------------------------------------------------- expressions
    void global(const VarDecl *v) {
        std::string k = std::to_string(id(v));
        if (globals.find(k) != globals.end()) return;
        globals[k] = Value(nullptr);
        const VarDecl *def = v->getAnyInitializer() ? v : v;
        const VarDecl *initDecl = nullptr;
        Object o{{"id", id(v)}, {"n", v->getQualifiedNameAsString()}, {"t", type(v->getType())}};
        if (sys(v)) o["sys"] = true;
        else if (const Expr *e = def->getAnyInitializer(initDecl)) o["x"] = expr(e);
        globals[k] = std::move(o);
    }

    Value expr(const Expr *e) {
        // transparent nodes
        if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            Object o{{"e", "mat"}, {"t", type(e->getType())}, {"x", expr(x->getSubExpr())}};
            return Value(std::move(o));
        }
        if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
        if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());

        Object o;
        o["t"] = type(e->getType());
        o["l"] = loc(e->getBeginLoc());
        if (e->isGLValue()) o["lv"] = true;
        if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            o["e"] = "int";
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = std::string(s);
        } else if (auto *x = dyn_cast<FloatingLiteral>(e)) {
            o["e"] = "flt";
            llvm::SmallString<32> s;
            x->getValue().toString(s, 40);
            o["v"] = std::string(s);
        } else if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["e"] = "bool";
            o["v"] = x->getValue();
        } else if (auto *x = dyn_cast<CharacterLiteral>(e)) {
            o["e"] = "int";
            o["v"] = std::to_string((int64_t)x->getValue());
        } else if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
            o["e"] = "str";
            o["v"] = llvm::json::fixUTF8(x->getBytes());
        } else if (auto *x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl *d = x->getDecl();
            if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
                o["e"] = "int";
                llvm::SmallString<32> s;
                ec->getInitVal().toString(s, 10);
                o["v"] = std::string(s);
                o["en"] = ec->getNameAsString();
            } else if (auto *f = dyn_cast<FunctionDecl>(d)) {
                o["e"] = "fn";
                o["f"] = callee(f);
            } else {
                o["e"] = "ref";
                o["id"] = id(d);
                o["n"] = d->getNameAsString();
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    if (v->hasGlobalStorage() && !v->isStaticLocal()) {
                        o["global"] = true;
                        global(v);
                    } else if (v->isStaticLocal()) {
                        o["slocal"] = true;
                        global(v);
                    }
                }
                if (x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            }
        } else if (auto *x = dyn_cast<MemberExpr>(e)) {
            if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                o["e"] = "mem";
                o["x"] = expr(x->getBase());
                o["f"] = f->getNameAsString();
                if (x->isArrow()) o["arrow"] = true;
            } else if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) {
                o["e"] = "ref";
                o["id"] = id(v);
                o["n"] = v->getNameAsString();
                o["global"] = true;
                global(v);
            } else if (auto *f = dyn_cast<FunctionDecl>(x->getMemberDecl())) {
                o["e"] = "memfn";
                o["x"] = expr(x->getBase());
                o["f"] = callee(f);
                if (x->isArrow()) o["arrow"] = true;
            } else {
                o["e"] = "unsupported";
                o["cls"] = "MemberExpr";
            }
        } else if (isa<CXXThisExpr>(e)) {
            o["e"] = "this";
        } else if (auto *x = dyn_cast<UnaryOperator>(e)) {
            o["e"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o["post"] = true;
            o["x"] = expr(x->getSubExpr());
        } else if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
            o["e"] = "casg";
            o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            o["ct"] = type(x->getComputationResultType());
            o["clt"] = type(x->getComputationLHSType());
        } else if (auto *x = dyn_cast<BinaryOperator>(e)) {
            o["e"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
        } else if (auto *x = dyn_cast<ConditionalOperator>(e)) {
            o["e"] = "cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
        } else if (auto *x = dyn_cast<CastExpr>(e)) {
            o["e"] = "cast";
            o["ck"] = x->getCastKindName();
            o["x"] = expr(x->getSubExpr());
        } else if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["e"] = "opcall";
            if (auto *f = x->getDirectCallee()) o["f"] = callee(f);
            Array as;
            for (auto *a : x->arguments()) as.push_back(expr(a));
            o["args"] = std::move(as);
        } else if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["e"] = "mcall";
            if (auto *f = x->getDirectCallee()) o["f"] = callee(f);
            o["obj"] = expr(x->getImplicitObjectArgument());
            if (x->getImplicitObjectArgument()->getType()->isPointerType()) o["arrow"] = true;
            Array as;
            for (auto *a : x->arguments()) as.push_back(expr(a));
            o["args"] = std::move(as);
        } else if (auto *x = dyn_cast<CallExpr>(e)) {
            o["e"] = "call";
            if (auto *f = x->getDirectCallee()) o["f"] = callee(f);
            else o["fx"] = expr(x->getCallee());
            Array as;
            for (auto *a : x->arguments()) as.push_back(expr(a));
            o["args"] = std::move(as);
        } else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            o["e"] = "ctor";
            o["f"] = callee(x->getConstructor());
            if (x->isListInitialization()) o["list"] = true;
            if (x->requiresZeroInitialization()) o["zero"] = true;
            Array as;
            for (auto *a : x->arguments()) as.push_back(expr(a));
            o["args"] = std::move(as);
        } else if (auto *x = dyn_cast<InitListExpr>(e)) {
            const InitListExpr *sem = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!sem) sem = x;
            o["e"] = "init";
            Array as;
            for (auto *a : sem->inits()) as.push_back(expr(a));
            o["args"] = std::move(as);
        } else if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            o["e"] = "stdinit";
            o["x"] = expr(x->getSubExpr());
        } else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            o["e"] = "zero";
        } else if (auto *x = dyn_cast<LambdaExpr>(e)) {
            o["e"] = "lambda";
            o["fid"] = id(x->getCallOperator());
            function(x->getCallOperator());
            Array cs;
            auto ii = x->capture_init_begin();
            for (auto &c : x->captures()) {
                Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["id"] = id(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (*ii) co["x"] = expr(*ii);
                } else co["unsupported"] = true;
                cs.push_back(std::move(co));
                ++ii;
            }
            o["caps"] = std::move(cs);
        } else if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
            o["e"] = "throw";
            o["x"] = opte(x->getSubExpr());
        } else if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["e"] = "sub";
            o["x"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
        } else if (isa<CXXNullPtrLiteralExpr>(e)) {
            o["e"] = "nullptr";
        } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, C)) {
                llvm::SmallString<32> s;
                r.Val.getInt().toString(s, 10);
                o["e"] = "int";
                o["v"] = std::string(s);
            } else { o["e"] = "unsupported"; o["cls"] = "sizeof"; }
        } else {
            o["e"] = "unsupported";
            o["cls"] = e->getStmtClassName();
        }
        return Value(std::move(o));
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Ser &S;
    explicit Visitor(Ser &s) : S(s) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (S.sys(f)) return true;
        if (f->isDependentContext()) return true;
        S.function(f);
        return true;
    }
    // do not descend into system headers
    bool TraverseDecl(Decl *d) {
        if (d && !isa<TranslationUnitDecl>(d) && S.sys(d)) return true;
        return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
    }
};

struct Consumer : ASTConsumer {
    std::string out;
    explicit Consumer(std::string o) : out(std::move(o)) {}
    void HandleTranslationUnit(ASTContext &c) override {
        if (c.getDiagnostics().hasErrorOccurred()) return;
        Ser s(c);
        Visitor v(s);
        v.TraverseDecl(c.getTranslationUnitDecl());
        Object o;
        o["functions"] = std::move(s.functions);
        o["records"] = std::move(s.records);
        o["globals"] = std::move(s.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(out, ec);
        os << Value(std::move(o)) << "\n";
    }
};

std::string outFile;
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
        return std::make_unique<Consumer>(outFile);
    }
};
} // namespace

int main(int argc, const char **argv) {
    // bnextract OUT.json SOURCE -- FLAGS...
    if (argc < 4) return 2;
    outFile = argv[1];
    std::string src = argv[2];
    std::vector<std::string> flags;
    for (int i = 4; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
