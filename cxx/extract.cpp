// Fact extractor: parses one translation unit with clang and prints, as JSON lines,
// every function definition, record, enum and extern "C" declaration that lives below a given root.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include <cstdio>
#include <fstream>
#include <set>
#include <string>
#include <iostream>
#include <sstream>

using namespace clang;

static std::string g_root;

static void js(std::string &o, llvm::StringRef s) {
    o += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    o += '"';
}

class Dumper {
public:
    ASTContext &ctx; SourceManager &sm; PrintingPolicy pol;
    Dumper(ASTContext &c) : ctx(c), sm(c.getSourceManager()), pol(c.getPrintingPolicy()) {
        pol.SuppressTagKeyword = true; pol.Bool = true; pol.SuppressUnwrittenScope = true;
    }
    std::string type(QualType t) { return t.isNull() ? "" : t.getCanonicalType().getAsString(pol); }
    std::string typew(QualType t) { return t.isNull() ? "" : t.getAsString(pol); }
    unsigned line(SourceLocation l) { return sm.getExpansionLineNumber(l); }
    std::string file(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        auto f = sm.getFilename(l);
        return f.str();
    }
    bool mine(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = file(l);
        return f.compare(0, g_root.size(), g_root) == 0;
    }
    std::string qn(const NamedDecl *d) {
        std::string s; llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pol);
        return os.str();
    }
    void kv(std::string &o, const char *k, llvm::StringRef v) { o += ",\""; o += k; o += "\":"; js(o, v); }
    void ki(std::string &o, const char *k, long long v) { o += ",\""; o += k; o += "\":" + std::to_string(v); }

    void children(std::string &o, std::vector<const Stmt *> v) {
        if (v.empty()) return;
        o += ",\"c\":[";
        bool first = true;
        for (auto *s : v) { if (!first) o += ','; first = false; stmt(o, s); }
        o += ']';
    }

    void var(std::string &o, const VarDecl *v) {
        o += "{\"k\":\"Var\"";
        ki(o, "l", line(v->getLocation()));
        kv(o, "n", v->getNameAsString());
        ki(o, "id", (long long)(reinterpret_cast<uintptr_t>(v->getCanonicalDecl()) >> 3));
        kv(o, "t", type(v->getType()));
        kv(o, "tw", typew(v->getType()));
        if (v->isStaticLocal()) ki(o, "static", 1);
        if (v->hasInit()) children(o, { v->getInit() });
        o += '}';
    }

    void declref(std::string &o, const ValueDecl *d) {
        kv(o, "n", d->getNameAsString());
        const char *dk = d->getDeclKindName();
        kv(o, "dk", dk);
        if (isa<ParmVarDecl>(d) || (isa<VarDecl>(d) && cast<VarDecl>(d)->isLocalVarDecl())) {
            ki(o, "id", (long long)(reinterpret_cast<uintptr_t>(d->getCanonicalDecl()) >> 3));
        } else {
            kv(o, "r", qn(d));
        }
        if (auto *ec = dyn_cast<EnumConstantDecl>(d)) ki(o, "ev", ec->getInitVal().getExtValue());
        if (auto *f = dyn_cast<FunctionDecl>(d)) { kv(o, "ft", type(f->getType())); targs(o, f); clst(o, f); }
    }

    void stmt(std::string &o, const Stmt *s) {
        if (!s) { o += "null"; return; }
        // transparent nodes
        for (;;) {
            if (auto *e = dyn_cast<ExprWithCleanups>(s)) s = e->getSubExpr();
            else if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
            else if (auto *e = dyn_cast<ConstantExpr>(s)) s = e->getSubExpr();
            else if (auto *e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
            else if (auto *e = dyn_cast<ImplicitCastExpr>(s)) s = e->getSubExpr();
            else if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) { s = e->getExpr(); }
            else if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) { s = e->getExpr(); }
            else if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
            else if (auto *e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
            else if (auto *e = dyn_cast<OpaqueValueExpr>(s)) { if (!e->getSourceExpr()) break; s = e->getSourceExpr(); }
            else break;
            if (!s) { o += "null"; return; }
        }
        o += "{\"k\":";
        std::string kind = s->getStmtClassName();
        js(o, kind);
        ki(o, "l", line(s->getBeginLoc()));
        if (auto *e = dyn_cast<Expr>(s)) kv(o, "t", type(e->getType()));
        std::vector<const Stmt *> ch;
        if (auto *e = dyn_cast<DeclRefExpr>(s)) { declref(o, e->getDecl()); }
        else if (auto *e = dyn_cast<MemberExpr>(s)) {
            declref(o, e->getMemberDecl());
            if (e->isArrow()) ki(o, "arrow", 1);
            ch.push_back(e->getBase());
        }
        else if (auto *e = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
            kv(o, "n", e->getMember().getAsString());
            if (!e->isImplicitAccess()) ch.push_back(e->getBase());
        }
        else if (auto *e = dyn_cast<UnresolvedMemberExpr>(s)) {
            kv(o, "n", e->getMemberName().getAsString());
            if (!e->isImplicitAccess()) ch.push_back(e->getBase());
        }
        else if (auto *e = dyn_cast<UnresolvedLookupExpr>(s)) { kv(o, "n", e->getName().getAsString()); }
        else if (auto *e = dyn_cast<DependentScopeDeclRefExpr>(s)) { kv(o, "n", e->getDeclName().getAsString()); }
        else if (auto *e = dyn_cast<IntegerLiteral>(s)) {
            llvm::SmallString<32> b; e->getValue().toString(b, 10, e->getType()->isSignedIntegerType()); kv(o, "v", b);
        }
        else if (auto *e = dyn_cast<FloatingLiteral>(s)) {
            llvm::SmallString<32> b; e->getValue().toString(b); kv(o, "v", b);
        }
        else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) { kv(o, "v", e->getValue() ? "true" : "false"); }
        else if (auto *e = dyn_cast<StringLiteral>(s)) { if (e->isOrdinary()) kv(o, "v", e->getString()); }
        else if (auto *e = dyn_cast<UnaryOperator>(s)) {
            kv(o, "op", UnaryOperator::getOpcodeStr(e->getOpcode()));
            ki(o, "post", e->isPostfix()); ch.push_back(e->getSubExpr());
        }
        else if (auto *e = dyn_cast<BinaryOperator>(s)) {
            kv(o, "op", e->getOpcodeStr()); ch = { e->getLHS(), e->getRHS() };
        }
        else if (auto *e = dyn_cast<CXXOperatorCallExpr>(s)) {
            kv(o, "op", getOperatorSpelling(e->getOperator()));
            if (auto *f = e->getDirectCallee()) { kv(o, "r", qn(f)); kv(o, "ft", type(f->getType()));
                if (auto *m = dyn_cast<CXXMethodDecl>(f)) ki(o, "cm", m->isConst()); }
            for (auto *a : e->arguments()) ch.push_back(a);
        }
        else if (auto *e = dyn_cast<CallExpr>(s)) {
            if (auto *f = e->getDirectCallee()) {
                kv(o, "r", qn(f)); kv(o, "n", f->getNameAsString()); kv(o, "ft", type(f->getType()));
                if (auto *m = dyn_cast<CXXMethodDecl>(f)) ki(o, "cm", m->isConst());
                ki(o, "mine", mine(f->getLocation()));
                targs(o, f); clst(o, f);
            }
            ch.push_back(e->getCallee());
            for (auto *a : e->arguments()) ch.push_back(a);
        }
        else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
            kv(o, "r", qn(e->getConstructor())); kv(o, "ft", type(e->getConstructor()->getType()));
            for (auto *a : e->arguments()) ch.push_back(a);
        }
        else if (auto *e = dyn_cast<CXXUnresolvedConstructExpr>(s)) {
            kv(o, "tw", typew(e->getTypeAsWritten()));
            for (auto *a : e->arguments()) ch.push_back(a);
        }
        else if (auto *e = dyn_cast<CXXNewExpr>(s)) {
            kv(o, "nt", type(e->getAllocatedType())); ki(o, "arr", e->isArray());
            if (e->isArray() && e->getArraySize()) ch.push_back(*e->getArraySize());
            else if (e->isArray()) ch.push_back(nullptr);
            if (e->getInitializer()) ch.push_back(e->getInitializer());
        }
        else if (auto *e = dyn_cast<CXXDeleteExpr>(s)) {
            ki(o, "arr", e->isArrayForm()); ch.push_back(e->getArgument());
        }
        else if (auto *e = dyn_cast<ExplicitCastExpr>(s)) {
            kv(o, "ct", type(e->getTypeAsWritten())); ch.push_back(e->getSubExpr());
        }
        else if (auto *e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            if (e->isArgumentType()) kv(o, "at", type(e->getArgumentType())); else ch.push_back(e->getArgumentExpr());
        }
        else if (auto *e = dyn_cast<LambdaExpr>(s)) {
            o += ",\"caps\":[";
            bool first = true;
            for (auto &c : e->captures()) {
                if (!first) o += ','; first = false;
                o += "{\"k\":\"cap\"";
                if (c.capturesThis()) kv(o, "n", "this");
                else if (c.capturesVariable()) {
                    kv(o, "n", c.getCapturedVar()->getNameAsString());
                    ki(o, "id", (long long)(reinterpret_cast<uintptr_t>(c.getCapturedVar()->getCanonicalDecl()) >> 3));
                    kv(o, "t", type(c.getCapturedVar()->getType()));
                }
                ki(o, "ref", c.getCaptureKind() == LCK_ByRef);
                o += '}';
            }
            o += "],\"params\":";
            params(o, e->getCallOperator());
            ch.push_back(e->getBody());
        }
        else if (auto *e = dyn_cast<DeclStmt>(s)) {
            o += ",\"d\":[";
            bool first = true;
            for (auto *d : e->decls()) {
                if (auto *v = dyn_cast<VarDecl>(d)) { if (!first) o += ','; first = false; var(o, v); }
            }
            o += ']';
        }
        else if (auto *e = dyn_cast<IfStmt>(s)) { ch = { e->getInit(), e->getCond(), e->getThen(), e->getElse() };
            if (auto *cv = e->getConditionVariable()) { o += ",\"cv\":"; var(o, cv); } }
        else if (auto *e = dyn_cast<ForStmt>(s)) { ch = { e->getInit(), e->getCond(), e->getInc(), e->getBody() }; }
        else if (auto *e = dyn_cast<WhileStmt>(s)) { ch = { e->getCond(), e->getBody() }; }
        else if (auto *e = dyn_cast<DoStmt>(s)) { ch = { e->getBody(), e->getCond() }; }
        else if (auto *e = dyn_cast<CXXForRangeStmt>(s)) {
            if (e->getLoopVariable()) { o += ",\"v\":"; var2(o, e->getLoopVariable()); }
            ch = { e->getRangeInit(), e->getBody() };
        }
        else if (auto *e = dyn_cast<SwitchStmt>(s)) { ch = { e->getCond(), e->getBody() }; }
        else if (auto *e = dyn_cast<CaseStmt>(s)) { ch = { e->getLHS(), e->getSubStmt() }; }
        else if (auto *e = dyn_cast<DefaultStmt>(s)) { ch = { e->getSubStmt() }; }
        else if (auto *e = dyn_cast<CXXTryStmt>(s)) {
            ch.push_back(e->getTryBlock());
            for (unsigned i = 0; i < e->getNumHandlers(); i++) ch.push_back(e->getHandler(i));
        }
        else if (auto *e = dyn_cast<CXXCatchStmt>(s)) {
            if (auto *v = e->getExceptionDecl()) kv(o, "ct", type(v->getType())); else kv(o, "ct", "...");
            ch.push_back(e->getHandlerBlock());
        }
        else if (auto *e = dyn_cast<InitListExpr>(s)) {
            auto *sf = e->isSemanticForm() ? e : e->getSemanticForm();
            if (!sf) sf = e;
            for (auto *i : sf->inits()) ch.push_back(i);
        }
        else {
            for (auto *c : s->children()) ch.push_back(c);
        }
        children(o, ch);
        o += '}';
    }

    void var2(std::string &o, const VarDecl *v) {
        o += "{\"k\":\"Var\"";
        ki(o, "l", line(v->getLocation()));
        kv(o, "n", v->getNameAsString());
        ki(o, "id", (long long)(reinterpret_cast<uintptr_t>(v->getCanonicalDecl()) >> 3));
        kv(o, "t", type(v->getType())); kv(o, "tw", typew(v->getType()));
        o += '}';
    }

    void targs(std::string &o, const FunctionDecl *f) {
        if (auto *ts = f->getTemplateSpecializationArgs()) {
            std::string s; llvm::raw_string_ostream os(s);
            printTemplateArgumentList(os, ts->asArray(), pol); kv(o, "targs", os.str());
        }
    }

    void clst(std::string &o, const FunctionDecl *f) {
        if (auto *m = dyn_cast<CXXMethodDecl>(f))
            if (auto *spec = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) kv(o, "clst", type(QualType(spec->getTypeForDecl(), 0)));
    }

    void params(std::string &o, const FunctionDecl *f) {
        o += '[';
        bool first = true;
        for (auto *p : f->parameters()) { if (!first) o += ','; first = false; var2(o, p); }
        o += ']';
    }

    void function(const FunctionDecl *f) {
        std::string o = "{\"k\":\"Function\"";
        kv(o, "q", qn(f)); kv(o, "n", f->getNameAsString());
        kv(o, "file", file(f->getLocation())); ki(o, "l", line(f->getLocation()));
        kv(o, "ret", type(f->getReturnType())); kv(o, "retw", typew(f->getReturnType()));
        ki(o, "extc", f->isExternC());
        ki(o, "tmpl", f->isTemplated());
        targs(o, f);
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            kv(o, "cls", qn(m->getParent())); ki(o, "const", m->isConst()); ki(o, "virt", m->isVirtual()); ki(o, "static", m->isStatic());
            if (auto *spec = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) kv(o, "clst", type(QualType(spec->getTypeForDecl(), 0)));
            kv(o, "acc", m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private");
            o += ",\"over\":[";
            bool first = true;
            for (auto *b : m->overridden_methods()) { if (!first) o += ','; first = false; js(o, qn(b)); }
            o += ']';
        }
        kv(o, "dk", static_cast<const Decl *>(f)->getDeclKindName());
        ki(o, "ext", f->isExternallyVisible());
        o += ",\"params\":"; params(o, f);
        const FunctionDecl *def = f;
        ki(o, "def", f->isThisDeclarationADefinition());
        ki(o, "deflt", f->isDefaulted()); ki(o, "deleted", f->isDeleted());
        if (auto *pt = f->getType()->getAs<FunctionProtoType>()) {
            auto e = pt->getExceptionSpecType();
            ki(o, "noex", e == EST_BasicNoexcept || e == EST_NoexceptTrue || e == EST_DynamicNone || e == EST_NoThrow || (isa<CXXDestructorDecl>(f) && e != EST_NoexceptFalse && e != EST_Dynamic && e != EST_MSAny));
        }
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
            kv(o, "ctor", c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : "plain");
            o += ",\"inits\":[";
            bool first = true;
            for (auto *i : c->inits()) {
                if (!i->isWritten() && !(i->getInit() && i->isAnyMemberInitializer() && isa<CXXDefaultInitExpr>(i->getInit()))) continue;
                if (!first) o += ','; first = false;
                o += "{\"k\":\"Init\"";
                if (i->isAnyMemberInitializer()) kv(o, "n", i->getAnyMember()->getNameAsString());
                else if (i->isBaseInitializer()) kv(o, "base", type(QualType(i->getBaseClass(), 0)));
                else kv(o, "deleg", "1");
                children(o, { i->getInit() });
                o += '}';
            }
            o += ']';
        }
        if (def->isThisDeclarationADefinition() && def->getBody()) { o += ",\"body\":"; stmt(o, def->getBody()); }
        o += "}";
        puts(o.c_str());
    }

    void record(const CXXRecordDecl *r) {
        std::string o = "{\"k\":\"Record\"";
        kv(o, "q", qn(r)); kv(o, "n", r->getNameAsString()); kv(o, "file", file(r->getLocation())); ki(o, "l", line(r->getLocation()));
        o += ",\"bases\":[";
        bool first = true;
        for (auto &b : r->bases()) { if (!first) o += ','; first = false; js(o, type(b.getType())); }
        o += "],\"fields\":[";
        first = true;
        for (auto *f : r->fields()) {
            if (!first) o += ','; first = false;
            o += "{\"k\":\"Field\""; kv(o, "n", f->getNameAsString()); kv(o, "t", type(f->getType())); kv(o, "tw", typew(f->getType()));
            ki(o, "l", line(f->getLocation())); ki(o, "mut", f->isMutable());
            if (f->hasInClassInitializer() && f->getInClassInitializer()) children(o, { f->getInClassInitializer() });
            o += '}';
        }
        o += "],\"methods\":[";
        first = true;
        for (auto *m : r->methods()) {
            if (m->isImplicit()) continue;
            if (!first) o += ','; first = false;
            o += "{\"k\":\"M\""; kv(o, "n", m->getNameAsString()); kv(o, "t", type(m->getType())); ki(o, "pure", m->isPureVirtual()); ki(o, "deleted", m->isDeleted()); ki(o, "deflt", m->isDefaulted()); ki(o,"virt",m->isVirtual());
            o += '}';
        }
        o += "]}";
        puts(o.c_str());
    }

    void en(const EnumDecl *e) {
        std::string o = "{\"k\":\"Enum\"";
        kv(o, "q", qn(e)); kv(o, "n", e->getNameAsString()); kv(o, "file", file(e->getLocation())); ki(o, "l", line(e->getLocation()));
        kv(o, "ut", type(e->getIntegerType()));
        o += ",\"vals\":[";
        bool first = true;
        for (auto *c : e->enumerators()) {
            if (!first) o += ','; first = false;
            o += '['; js(o, c->getNameAsString()); o += ',' + std::to_string(c->getInitVal().getExtValue()) + ']';
        }
        o += "]}";
        puts(o.c_str());
    }

    void global(const VarDecl *v) {
        std::string o = "{\"k\":\"Global\"";
        kv(o, "q", qn(v)); kv(o, "file", file(v->getLocation())); ki(o, "l", line(v->getLocation())); kv(o, "t", type(v->getType()));
        if (v->hasInit()) { o += ",\"c\":["; stmt(o, v->getInit()); o += ']'; }
        o += '}';
        puts(o.c_str());
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    Dumper d; std::set<const Decl *> seen;
    explicit Visitor(ASTContext &c) : d(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *f) {
        if (!d.mine(f->getLocation()) || f->isImplicit()) return true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        if (isa<CXXDeductionGuideDecl>(f)) return true;
        if (!f->isThisDeclarationADefinition() && !f->isExternC() && !f->isDeleted() && !f->isDefaulted()) return true;
        if (!seen.insert(f).second) return true;
        d.function(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if (!d.mine(r->getLocation()) || r->isLambda() || !r->isThisDeclarationADefinition() || r->isImplicit()) return true;
        if (isa<ClassTemplateSpecializationDecl>(r)) return true;
        d.record(r); return true;
    }
    bool VisitEnumDecl(EnumDecl *e) { if (d.mine(e->getLocation())) d.en(e); return true; }
    bool VisitVarDecl(VarDecl *v) {
        if (!d.mine(v->getLocation()) || v->isLocalVarDeclOrParm()) return true;
        d.global(v); return true;
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &c) override { Visitor v(c); v.TraverseDecl(c.getTranslationUnitDecl()); }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char **argv) {
    // extract ROOT SOURCE -- flags
    if (argc < 4) return 2;
    g_root = argv[1];
    std::string src = argv[2];
    std::vector<std::string> args;
    for (int i = 4; i < argc; i++) args.push_back(argv[i]);
    std::ifstream f(src); std::stringstream ss; ss << f.rdbuf();
    if (!f) return 2;
    bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Action>(), ss.str(), args, src, "clang++");
    return ok ? 0 : 2;
}
