// dfx: extracts a program model of libdiffpy (one JSON object per line).
//   dfx --root=/repo/src --out=FILE [--] SOURCES... -- CLANG_FLAGS
// Line kinds: {"R":record} {"F":function} {"X":template specialization} {"M":macro use} {"G":global}
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Analysis/CFG.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Lex/PPCallbacks.h>
#include <clang/Lex/Preprocessor.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string Root;
static std::unique_ptr<llvm::raw_fd_ostream> Out;
static std::set<std::string> Seen;      // emitted functions / records

static void emit(const char* tag, json::Object o)
{
    json::Object top;
    top[tag] = std::move(o);
    *Out << json::Value(std::move(top)) << "\n";
}

static std::string usr(const Decl* d)
{
    if (!d) return "";
    llvm::SmallString<256> buf;
    if (index::generateUSRForDecl(d, buf)) return "";
    return std::string(buf.str());
}

static std::string qual(const NamedDecl* d)
{
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os);
    os.flush();
    return s;
}

class Emitter
{
    public:
        Emitter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
        {
            PP.SuppressTagKeyword = true;
            PP.FullyQualifiedName = true;
        }

        ASTContext& C;
        SourceManager& SM;
        PrintingPolicy PP;

        std::string file(SourceLocation l)
        {
            l = SM.getExpansionLoc(l);
            auto f = SM.getFilename(l).str();
            if (f.rfind(Root, 0) == 0)
            {
                f = f.substr(Root.size());
                while (!f.empty() && f[0] == '/') f.erase(0, 1);
                return f;
            }
            return "";
        }

        // true if inside the analyzed tree
        bool mine(SourceLocation l)  { return l.isValid() && !file(l).empty(); }

        int line(SourceLocation l)
        { return SM.getExpansionLineNumber(l); }

        std::string type(QualType t)
        {
            if (t.isNull()) return "";
            return t.getCanonicalType().getAsString(PP);
        }

        std::string recname(const CXXRecordDecl* r)
        { return C.getTypeDeclType(r).getCanonicalType().getAsString(PP); }

        json::Array templargs(const TemplateArgumentList& l)
        {
            json::Array a;
            for (auto& t : l.asArray())
            {
                std::string s;
                llvm::raw_string_ostream os(s);
                if (t.getKind() == TemplateArgument::Type) os << type(t.getAsType());
                else t.print(PP, os, true);
                a.push_back(os.str());
            }
            return a;
        }

        // does the scalar-like type need explicit initialization
        static bool scalar(QualType t)
        {
            t = t.getCanonicalType();
            while (t->isConstantArrayType())
                t = cast<ConstantArrayType>(t.getTypePtr())->getElementType().getCanonicalType();
            return t->isArithmeticType() || t->isEnumeralType() || t->isPointerType() || t->isMemberPointerType();
        }

        const char* special(const CXXMethodDecl* m)
        {
            if (m->isDeleted()) return "deleted";
            if (m->isImplicit() || m->isDefaulted()) return "default";
            return "user";
        }

        void record(const CXXRecordDecl* r)
        {
            std::string u = usr(r);
            if (!Seen.insert("R" + u).second) return;
            json::Object o;
            o["usr"] = u;
            o["name"] = recname(r);
            o["file"] = file(r->getLocation());
            o["line"] = line(r->getLocation());
            o["abstract"] = r->isAbstract();
            o["poly"] = r->isPolymorphic();
            o["anon"] = !r->getIdentifier();
            o["lambda"] = r->isLambda();
            o["anonns"] = r->isInAnonymousNamespace();
            o["pod"] = r->isAggregate();
            if (auto* p = dyn_cast<CXXRecordDecl>(r->getParent())) o["parent"] = usr(p);
            if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r))
            {
                o["template"] = qual(s->getSpecializedTemplate());
                o["targs"] = templargs(s->getTemplateArgs());
            }
            json::Array bases;
            for (auto& b : r->bases())
            {
                json::Object bo;
                if (auto* br = b.getType()->getAsCXXRecordDecl())
                {
                    bo["usr"] = usr(br);
                    bo["name"] = recname(br);
                }
                bo["virtual"] = b.isVirtual();
                bases.push_back(std::move(bo));
            }
            o["bases"] = std::move(bases);
            json::Array fields;
            for (auto* f : r->fields())
            {
                json::Object fo;
                fo["name"] = f->getNameAsString();
                fo["usr"] = usr(f);
                fo["type"] = type(f->getType());
                fo["mutable"] = f->isMutable();
                fo["scalar"] = scalar(f->getType());
                fo["init"] = f->hasInClassInitializer();
                fo["line"] = line(f->getLocation());
                fo["access"] = int(f->getAccess());
                if (auto* fr = f->getType()->getAsCXXRecordDecl()) fo["rec"] = usr(fr);
                fields.push_back(std::move(fo));
            }
            o["fields"] = std::move(fields);
            json::Array methods;
            bool cc = false, ca = false;
            auto addmethod = [&](const CXXMethodDecl* m)
            {
                json::Object mo;
                mo["usr"] = usr(m);
                mo["name"] = m->getNameAsString();
                mo["sig"] = type(m->getType());
                mo["virtual"] = m->isVirtual();
                mo["pure"] = m->isPureVirtual();
                mo["const"] = m->isConst();
                mo["static"] = m->isStatic();
                mo["access"] = int(m->getAccess());
                mo["implicit"] = m->isImplicit();
                mo["line"] = line(m->getLocation());
                json::Array ov;
                for (auto* om : m->overridden_methods()) ov.push_back(usr(om));
                mo["over"] = std::move(ov);
                if (auto* k = dyn_cast<CXXConstructorDecl>(m))
                {
                    mo["ctor"] = true;
                    if (k->isCopyConstructor()) { o["copyctor"] = special(k); cc = true; }
                    if (k->isDefaultConstructor()) o["defctor"] = special(k);
                }
                if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
                if (m->isCopyAssignmentOperator()) { o["copyassign"] = special(m); ca = true; }
                methods.push_back(std::move(mo));
            };
            for (auto* m : r->methods()) addmethod(m);
            for (auto* d : r->decls())
                if (auto* ft = dyn_cast<FunctionTemplateDecl>(d))
                    if (auto* m = dyn_cast<CXXMethodDecl>(ft->getTemplatedDecl()))
                    {
                        json::Object mo;
                        mo["usr"] = usr(m);
                        mo["name"] = m->getNameAsString();
                        mo["tmpl"] = true;
                        mo["const"] = m->isConst();
                        mo["access"] = int(m->getAccess());
                        mo["over"] = json::Array();
                        methods.push_back(std::move(mo));
                    }
            if (!cc) o["copyctor"] = "default";
            if (!ca) o["copyassign"] = "default";
            o["methods"] = std::move(methods);
            emit("R", std::move(o));
        }

        // ---- function bodies -------------------------------------------

        struct FnState
        {
            std::map<const Stmt*, int> ids;
            std::map<const VarDecl*, int> vars;
            json::Array nodes;
            json::Array varinfo;
            int next = 0;
            const FunctionDecl* fd = nullptr;
        };

        FnState* S = nullptr;

        int varid(const VarDecl* v)
        {
            v = v->getCanonicalDecl();
            auto it = S->vars.find(v);
            if (it != S->vars.end()) return it->second;
            int id = S->vars.size();
            S->vars[v] = id;
            json::Object o;
            o["v"] = id;
            o["name"] = v->getNameAsString();
            o["type"] = type(v->getType());
            o["static"] = v->isStaticLocal();
            o["param"] = isa<ParmVarDecl>(v) ? int(cast<ParmVarDecl>(v)->getFunctionScopeIndex()) : -1;
            o["line"] = line(v->getLocation());
            o["scalar"] = scalar(v->getType());
            o["owner"] = usr(dyn_cast<Decl>(v->getDeclContext()));
            S->varinfo.push_back(std::move(o));
            return id;
        }

        // strip expressions that only adjust value category or lifetime
        static const Stmt* strip(const Stmt* s, bool* rv = nullptr)
        {
            while (s)
            {
                if (auto* e = dyn_cast<ImplicitCastExpr>(s))
                {
                    if (rv && e->getCastKind() == CK_LValueToRValue) *rv = true;
                    s = e->getSubExpr();
                }
                else if (auto* e = dyn_cast<FullExpr>(s)) s = e->getSubExpr();
                else if (auto* e = dyn_cast<ParenExpr>(s)) s = e->getSubExpr();
                else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) s = e->getSubExpr();
                else if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) s = e->getSubExpr();
                else if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) s = e->getReplacement();
                else if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) s = e->getSubExpr();
                else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) s = e->getExpr();
                else break;
            }
            return s;
        }

        static char passmode(QualType t)
        {
            t = t.getCanonicalType();
            if (t->isReferenceType())
            {
                if (t->isRValueReferenceType()) return 'm';
                return t->getPointeeType().isConstQualified() ? 'r' : 'w';
            }
            if (t->isPointerType())
                return t->getPointeeType().isConstQualified() ? 'p' : 'q';
            return 'v';
        }

        void callee(json::Object& o, const FunctionDecl* f)
        {
            if (!f) return;
            o["fn"] = usr(f);
            o["fq"] = qual(f);
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
            {
                o["cls"] = usr(m->getParent());
                o["cn"] = recname(m->getParent());
                if (m->isConst()) o["fc"] = true;
                if (m->isStatic()) o["fs"] = true;
                if (m->isVirtual()) o["fv"] = true;
            }
            if (f->isNoReturn()) o["noret"] = true;
            std::string pm;
            for (auto* p : f->parameters()) pm += passmode(p->getType());
            o["pm"] = pm;
            o["rt"] = std::string(1, passmode(f->getReturnType()));
            if (mine(f->getLocation())) o["my"] = true;
        }

        int node(const Stmt* s0)
        {
            bool rv = false;
            const Stmt* s = strip(s0, &rv);
            if (!s) return -1;
            auto it = S->ids.find(s);
            if (it != S->ids.end()) return it->second;
            int id = S->next++;
            S->ids[s] = id;
            json::Object o;
            json::Array ch;
            bool dochildren = true;
            auto kid = [&](const Stmt* c) { ch.push_back(node(c)); };
            o["i"] = id;
            o["l"] = line(s->getBeginLoc());
            if (rv) o["rv"] = true;
            if (s->getBeginLoc().isMacroID())
            {
                SourceLocation ml = s->getBeginLoc();
                std::string nm;
                while (ml.isMacroID())
                {
                    nm = Lexer::getImmediateMacroName(ml, SM, C.getLangOpts()).str();
                    if (SM.isMacroArgExpansion(ml)) ml = SM.getImmediateExpansionRange(ml).getBegin();
                    else ml = SM.getImmediateExpansionRange(ml).getBegin();
                }
                o["mac"] = nm;
            }
            if (auto* e = dyn_cast<Expr>(s)) o["t"] = type(e->getType());
            if (auto* e = dyn_cast<DeclRefExpr>(s))
            {
                auto* d = e->getDecl();
                if (auto* v = dyn_cast<VarDecl>(d))
                {
                    if (v->isLocalVarDeclOrParm() )
                    {
                        o["k"] = "Var";
                        o["v"] = varid(v);
                    }
                    else
                    {
                        o["k"] = "Global";
                        o["g"] = qual(v);
                        o["gt"] = type(v->getType());
                        if (mine(v->getLocation())) o["my"] = true;
                        if (v->isStaticDataMember()) o["sm"] = true;
                    }
                }
                else if (auto* f = dyn_cast<FunctionDecl>(d))
                {
                    o["k"] = "Func";
                    callee(o, f);
                }
                else if (auto* ec = dyn_cast<EnumConstantDecl>(d))
                {
                    o["k"] = "Lit";
                    o["name"] = ec->getNameAsString();
                    llvm::SmallString<16> b;
                    ec->getInitVal().toString(b);
                    o["val"] = b.str().str();
                }
                else { o["k"] = "Ref"; o["name"] = d->getNameAsString(); }
                dochildren = false;
            }
            else if (auto* e = dyn_cast<MemberExpr>(s))
            {
                auto* d = e->getMemberDecl();
                if (auto* f = dyn_cast<FieldDecl>(d))
                {
                    o["k"] = "Field";
                    o["f"] = f->getNameAsString();
                    o["fu"] = usr(f);
                    o["fr"] = usr(f->getParent());
                    if (f->isMutable()) o["mut"] = true;
                }
                else if (auto* v = dyn_cast<VarDecl>(d))
                {
                    o["k"] = "Global";
                    o["g"] = qual(v);
                    o["gt"] = type(v->getType());
                    o["sm"] = true;
                    if (mine(v->getLocation())) o["my"] = true;
                }
                else
                {
                    o["k"] = "Method";
                    if (auto* f = dyn_cast<FunctionDecl>(d)) callee(o, f);
                }
                if (e->isArrow()) o["arrow"] = true;
                kid(e->getBase());
                dochildren = false;
            }
            else if (isa<CXXThisExpr>(s)) { o["k"] = "This"; }
            else if (auto* e = dyn_cast<CXXMemberCallExpr>(s))
            {
                o["k"] = "Call";
                auto* m = e->getMethodDecl();
                callee(o, m);
                o["obj"] = true;
                auto* me = dyn_cast<MemberExpr>(strip(e->getCallee()));
                if (me)
                {
                    if (m && m->isVirtual() && !me->hasQualifier()) o["dyn"] = true;
                    if (me->isArrow()) o["arrow"] = true;
                    kid(me->getBase());
                }
                else
                {
                    // call through pointer to member
                    o["ptm"] = true;
                    auto* bo = dyn_cast_or_null<BinaryOperator>(strip(e->getCallee()));
                    if (bo) { kid(bo->getLHS()); o["ptmfn"] = node(bo->getRHS()); }
                    else kid(e->getCallee());
                }
                for (auto* a : e->arguments()) kid(a);
                dochildren = false;
            }
            else if (auto* e = dyn_cast<CXXOperatorCallExpr>(s))
            {
                o["k"] = "Call";
                o["op"] = getOperatorSpelling(e->getOperator());
                callee(o, e->getDirectCallee());
                if (isa_and_nonnull<CXXMethodDecl>(e->getDirectCallee()))
                {
                    o["obj"] = true;
                    if (cast<CXXMethodDecl>(e->getDirectCallee())->isVirtual()) o["dyn"] = true;
                }
                for (auto* a : e->arguments()) kid(a);
                dochildren = false;
            }
            else if (auto* e = dyn_cast<CallExpr>(s))
            {
                o["k"] = "Call";
                callee(o, e->getDirectCallee());
                if (!e->getDirectCallee()) o["indirect"] = node(e->getCallee());
                for (auto* a : e->arguments()) kid(a);
                dochildren = false;
            }
            else if (auto* e = dyn_cast<CXXConstructExpr>(s))
            {
                o["k"] = "Ctor";
                callee(o, e->getConstructor());
                if (e->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
                for (auto* a : e->arguments()) kid(a);
                dochildren = false;
            }
            else if (auto* e = dyn_cast<BinaryOperator>(s))
            {
                o["k"] = e->isAssignmentOp() ? "Assign" : "Bin";
                o["op"] = e->getOpcodeStr().str();
                kid(e->getLHS());
                kid(e->getRHS());
                dochildren = false;
            }
            else if (auto* e = dyn_cast<UnaryOperator>(s))
            {
                o["k"] = "Un";
                o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
                if (e->isPostfix()) o["post"] = true;
                kid(e->getSubExpr());
                dochildren = false;
            }
            else if (auto* e = dyn_cast<AbstractConditionalOperator>(s))
            {
                o["k"] = "Cond";
                kid(e->getCond()); kid(e->getTrueExpr()); kid(e->getFalseExpr());
                dochildren = false;
            }
            else if (isa<ArraySubscriptExpr>(s)) o["k"] = "Index";
            else if (auto* e = dyn_cast<IntegerLiteral>(s))
            {
                o["k"] = "Lit";
                llvm::SmallString<16> b;
                e->getValue().toString(b, 10, true);
                o["val"] = b.str().str();
            }
            else if (auto* e = dyn_cast<FloatingLiteral>(s))
            {
                o["k"] = "Lit";
                llvm::SmallString<32> b;
                e->getValue().toString(b, 17);
                o["val"] = b.str().str();
            }
            else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s))
            { o["k"] = "Lit"; o["val"] = e->getValue() ? "true" : "false"; }
            else if (auto* e = dyn_cast<clang::StringLiteral>(s))
            { o["k"] = "Lit"; o["str"] = e->isOrdinary() ? e->getString().str() : std::string(); }
            else if (auto* e = dyn_cast<CharacterLiteral>(s))
            { o["k"] = "Lit"; o["val"] = std::to_string(e->getValue()); }
            else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s))
            { o["k"] = "Lit"; o["val"] = "nullptr"; }
            else if (isa<UnaryExprOrTypeTraitExpr>(s))
            { o["k"] = "Lit"; o["val"] = "sizeof"; dochildren = false; }
            else if (auto* e = dyn_cast<ExplicitCastExpr>(s))
            {
                o["k"] = "Cast";
                o["ck"] = e->getCastKindName();
                o["cst"] = isa<CXXConstCastExpr>(e) ? "const" : isa<CXXDynamicCastExpr>(e) ? "dynamic" :
                    isa<CXXReinterpretCastExpr>(e) ? "reinterpret" : "static";
                kid(e->getSubExpr());
                dochildren = false;
            }
            else if (auto* e = dyn_cast<LambdaExpr>(s))
            {
                o["k"] = "Lambda";
                callee(o, e->getCallOperator());
                json::Array caps;
                auto ii = e->capture_init_begin();
                for (auto& c : e->captures())
                {
                    if (c.capturesVariable())
                        if (auto* v = dyn_cast<VarDecl>(c.getCapturedVar()))
                            caps.push_back(varid(v));
                    ++ii;
                }
                o["caps"] = std::move(caps);
                pendingLambdas.push_back(e->getCallOperator());
                dochildren = false;
            }
            else if (auto* e = dyn_cast<CXXNewExpr>(s))
            {
                o["k"] = "New";
                o["nt"] = type(e->getAllocatedType());
                if (auto* r = e->getAllocatedType()->getAsCXXRecordDecl()) o["nr"] = usr(r);
                if (e->getConstructExpr()) kid(e->getConstructExpr());
                else if (e->hasInitializer()) kid(e->getInitializer());
                if (e->isArray()) { o["array"] = true; if (e->getArraySize()) kid(*e->getArraySize()); }
                dochildren = false;
            }
            else if (isa<CXXDeleteExpr>(s)) o["k"] = "Delete";
            else if (isa<CXXThrowExpr>(s)) o["k"] = "Throw";
            else if (isa<InitListExpr>(s)) o["k"] = "InitList";
            else if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s))
            { o["k"] = "Lit"; o["val"] = "0"; o["zero"] = true; }
            else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s))
            {
                o["k"] = "DefArg";
                kid(e->getExpr());
                dochildren = false;
            }
            else if (auto* e = dyn_cast<CXXTypeidExpr>(s))
            {
                o["k"] = "Typeid";
                if (e->isTypeOperand()) { o["ty"] = type(e->getTypeOperand(C)); }
                else kid(e->getExprOperand());
                dochildren = false;
            }
            else if (auto* d = dyn_cast<DeclStmt>(s))
            {
                o["k"] = "Decl";
                json::Array vs;
                for (auto* dd : d->decls())
                    if (auto* v = dyn_cast<VarDecl>(dd))
                    {
                        json::Object vo;
                        vo["v"] = varid(v);
                        vo["init"] = v->getInit() ? node(v->getInit()) : -1;
                        if (v->getInit()) ch.push_back(node(v->getInit()));
                        vs.push_back(std::move(vo));
                    }
                o["vars"] = std::move(vs);
                dochildren = false;
            }
            else if (auto* r = dyn_cast<ReturnStmt>(s))
            {
                o["k"] = "Return";
                if (r->getRetValue()) kid(r->getRetValue());
                dochildren = false;
            }
            else if (auto* c = dyn_cast<CaseStmt>(s))
            {
                o["k"] = "Case";
                kid(c->getLHS());
                if (c->getSubStmt()) kid(c->getSubStmt());
                dochildren = false;
            }
            else o["k"] = s->getStmtClassName();
            if (dochildren)
                for (auto* c : s->children()) if (c) kid(c);
            o["c"] = std::move(ch);
            S->nodes.push_back(std::move(o));
            return id;
        }

        std::vector<const FunctionDecl*> pendingLambdas;

        void function(const FunctionDecl* fd)
        {
            if (!fd->doesThisDeclarationHaveABody() || fd->isDependentContext()) return;
            if (fd->isImplicit() && !fd->isDefaulted()) { }
            std::string u = usr(fd);
            if (u.empty()) return;
            if (!Seen.insert("F" + u).second) return;
            FnState st;
            FnState* saved = S;
            S = &st;
            st.fd = fd;
            json::Object o;
            o["usr"] = u;
            o["name"] = fd->getNameAsString();
            o["qname"] = qual(fd);
            o["sig"] = type(fd->getType());
            o["ret"] = type(fd->getReturnType());
            o["file"] = file(fd->getLocation());
            o["line"] = line(fd->getLocation());
            o["end"] = line(fd->getEndLoc());
            o["anon"] = fd->isInAnonymousNamespace();
            json::Array params;
            for (auto* p : fd->parameters())
            {
                json::Object po;
                po["v"] = varid(p);
                po["name"] = p->getNameAsString();
                po["type"] = type(p->getType());
                po["pm"] = std::string(1, passmode(p->getType()));
                params.push_back(std::move(po));
            }
            o["params"] = std::move(params);
            if (auto* ta = fd->getTemplateSpecializationArgs()) o["targs"] = templargs(*ta);
            if (auto* m = dyn_cast<CXXMethodDecl>(fd))
            {
                o["cls"] = usr(m->getParent());
                o["cn"] = recname(m->getParent());
                o["const"] = m->isConst();
                o["static"] = m->isStatic();
                o["virtual"] = m->isVirtual();
                o["access"] = int(m->getAccess());
                if (isa<CXXConstructorDecl>(m)) o["ctor"] = true;
                if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
                if (m->getParent()->isLambda()) o["lambda"] = true;
            }
            const Stmt* body = fd->getBody();
            int bodyid = node(body);
            json::Array inits;
            std::map<const CXXCtorInitializer*, int> initids;
            if (auto* k = dyn_cast<CXXConstructorDecl>(fd))
            {
                for (auto* i : k->inits())
                {
                    json::Object io;
                    int id = st.next++;
                    initids[i] = id;
                    io["i"] = id;
                    io["k"] = "Init";
                    io["l"] = line(i->getSourceLocation().isValid() ? i->getSourceLocation() : fd->getLocation());
                    if (i->isAnyMemberInitializer() && i->getAnyMember())
                    {
                        io["f"] = i->getAnyMember()->getNameAsString();
                        io["fu"] = usr(i->getAnyMember());
                    }
                    else if (i->isBaseInitializer())
                    {
                        if (auto* br = i->getBaseClass()->getAsCXXRecordDecl()) io["base"] = usr(br);
                    }
                    else if (i->isDelegatingInitializer()) io["deleg"] = true;
                    io["written"] = i->isWritten();
                    json::Array ch;
                    ch.push_back(node(i->getInit()));
                    io["c"] = std::move(ch);
                    st.nodes.push_back(std::move(io));
                    inits.push_back(id);
                }
            }
            o["inits"] = std::move(inits);
            CFG::BuildOptions bo;
            bo.AddInitializers = true;
            bo.AddImplicitDtors = false;
            bo.AddEHEdges = false;
            bo.setAllAlwaysAdd();
            auto cfg = CFG::buildCFG(fd, const_cast<Stmt*>(body), &C, bo);
            json::Array blocks;
            if (cfg)
            {
                for (auto* b : *cfg)
                {
                    json::Object jb;
                    jb["b"] = int(b->getBlockID());
                    json::Array els;
                    int last = -1;
                    for (auto& el : *b)
                    {
                        if (auto cs = el.getAs<CFGStmt>())
                        {
                            const Stmt* s = cs->getStmt();
                            if (strip(s) != s) continue;
                            int id = node(s);
                            if (id != last) els.push_back(id);
                            last = id;
                        }
                        else if (auto ci = el.getAs<CFGInitializer>())
                        {
                            auto f = initids.find(ci->getInitializer());
                            if (f != initids.end()) els.push_back(f->second);
                        }
                    }
                    jb["e"] = std::move(els);
                    if (auto* t = b->getTerminatorStmt())
                    {
                        jb["t"] = t->getStmtClassName();
                        jb["tl"] = line(t->getBeginLoc());
                        if (auto* bop = dyn_cast<BinaryOperator>(t)) jb["top"] = bop->getOpcodeStr().str();
                        jb["ti"] = node(t);
                        if (auto* tc = b->getTerminatorCondition()) jb["c"] = node(tc);
                    }
                    if (b->getLabel())
                    {
                        jb["lab"] = b->getLabel()->getStmtClassName();
                        if (auto* cs = dyn_cast<CaseStmt>(b->getLabel()))
                        {
                            Expr::EvalResult er;
                            if (cs->getLHS()->EvaluateAsInt(er, C))
                                jb["case"] = int64_t(er.Val.getInt().getExtValue());
                        }
                    }
                    json::Array su;
                    for (auto& s : b->succs())
                    {
                        const CFGBlock* sb = s.getReachableBlock();
                        if (!sb) { su.push_back(-1); continue; }
                        su.push_back(int(sb->getBlockID()));
                    }
                    jb["s"] = std::move(su);
                    if (b->hasNoReturnElement()) jb["noret"] = true;
                    blocks.push_back(std::move(jb));
                }
                o["entry"] = int(cfg->getEntry().getBlockID());
                o["exit"] = int(cfg->getExit().getBlockID());
            }
            o["blocks"] = std::move(blocks);
            o["body"] = bodyid;
            o["nodes"] = std::move(st.nodes);
            o["vars"] = std::move(st.varinfo);
            S = saved;
            emit("F", std::move(o));
            if (!S)
            {
                while (!pendingLambdas.empty())
                {
                    auto* lf = pendingLambdas.back();
                    pendingLambdas.pop_back();
                    function(lf);
                }
            }
        }
};

class Visitor : public RecursiveASTVisitor<Visitor>
{
    public:
        Visitor(ASTContext& c) : E(c) { }
        Emitter E;
        bool shouldVisitTemplateInstantiations() const { return true; }
        bool shouldVisitImplicitCode() const { return false; }
        bool shouldVisitLambdaBody() const { return true; }

        bool VisitCXXRecordDecl(CXXRecordDecl* r)
        {
            if (r->isThisDeclarationADefinition() && !r->isDependentContext() && E.mine(r->getLocation()))
                E.record(r);
            return true;
        }

        bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl* d)
        {
            std::string n = qual(d->getSpecializedTemplate());
            static const std::set<std::string> want = {
                "boost::serialization::guid_defined", "boost::serialization::version",
                "boost::archive::detail::extra_detail::init_guid",
                "boost::archive::detail::instantiate_ptr_serialization",
                "boost::serialization::is_abstract",
            };
            if (!want.count(n)) return true;
            json::Object o;
            o["tmpl"] = n;
            o["targs"] = E.templargs(d->getTemplateArgs());
            o["kind"] = int(d->getSpecializationKind());
            o["file"] = E.file(d->getLocation());
            o["line"] = E.line(d->getLocation());
            if (E.file(d->getLocation()).empty()) return true;
            for (Decl* m : d->decls())
            {
                VarDecl* vd = dyn_cast<VarDecl>(m);
                if (!vd || vd->getName() != "value" || !vd->getInit()) continue;
                Expr::EvalResult er;
                if (vd->getInit()->EvaluateAsInt(er, vd->getASTContext()))
                    o["value"] = er.Val.getInt().getExtValue();
            }
            emit("X", std::move(o));
            return true;
        }

        bool VisitFunctionDecl(FunctionDecl* f)
        {
            if (f->doesThisDeclarationHaveABody() && E.mine(f->getLocation())) E.function(f);
            return true;
        }

        bool VisitVarDecl(VarDecl* v)
        {
            if (v->isLocalVarDeclOrParm() || !v->hasGlobalStorage()) return true;
            if (!E.mine(v->getLocation()) || v->getDeclContext()->isDependentContext()) return true;
            if (v->getType()->isDependentType()) return true;
            if (!v->isThisDeclarationADefinition()) return true;
            json::Object o;
            o["name"] = qual(v);
            o["type"] = E.type(v->getType());
            o["const"] = v->getType().isConstQualified();
            o["file"] = E.file(v->getLocation());
            o["line"] = E.line(v->getLocation());
            if (v->getInit() && !v->getInit()->isValueDependent())
            {
                Expr::EvalResult er;
                if (v->getType()->isIntegralOrEnumerationType() && v->getInit()->EvaluateAsInt(er, E.C))
                    o["int"] = int64_t(er.Val.getInt().getExtValue());
                else if (v->getType()->isRealFloatingType())
                {
                    llvm::APFloat fv(0.0);
                    if (v->getInit()->EvaluateAsFloat(fv, E.C)) o["num"] = fv.convertToDouble();
                }
                // initializer call (used for registration variables)
                struct Calls : public RecursiveASTVisitor<Calls>
                {
                    json::Array a, s; Emitter* E;
                    bool VisitStringLiteral(StringLiteral* l)
                    {
                        if (l->getCharByteWidth() == 1 && json::isUTF8(l->getString()))
                            s.push_back(l->getString().str());
                        return true;
                    }
                    bool VisitCXXMemberCallExpr(CXXMemberCallExpr* c)
                    {
                        json::Object co;
                        if (auto* m = c->getMethodDecl()) { co["fn"] = qual(m); co["usr"] = usr(m); }
                        if (auto* oe = c->getImplicitObjectArgument())
                        {
                            auto* x = oe->IgnoreParenImpCasts();
                            if (auto* r = x->getType()->getAsCXXRecordDecl())
                            { co["obj"] = E->recname(r); co["objusr"] = usr(r); }
                        }
                        a.push_back(std::move(co));
                        return true;
                    }
                    bool VisitCallExpr(CallExpr* c)
                    {
                        if (isa<CXXMemberCallExpr>(c)) return true;
                        json::Object co;
                        if (auto* f = c->getDirectCallee()) { co["fn"] = qual(f); co["usr"] = usr(f); }
                        a.push_back(std::move(co));
                        return true;
                    }
                } calls;
                calls.E = &E;
                calls.TraverseStmt(v->getInit());
                o["calls"] = std::move(calls.a);
                o["strs"] = std::move(calls.s);
            }
            emit("G", std::move(o));
            return true;
        }
};

class Consumer : public ASTConsumer
{
    public:
        void HandleTranslationUnit(ASTContext& c) override
        {
            if (c.getDiagnostics().hasErrorOccurred()) return;
            Visitor v(c);
            v.TraverseDecl(c.getTranslationUnitDecl());
        }
};

class Action : public ASTFrontendAction
{
    public:
        std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
        { return std::make_unique<Consumer>(); }
};

int main(int argc, const char** argv)
{
    std::vector<std::string> sources, flags;
    std::string out = "-";
    bool inflags = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (inflags) flags.push_back(a);
        else if (a == "--") inflags = true;
        else if (a.rfind("--root=", 0) == 0) Root = a.substr(7);
        else if (a.rfind("--out=", 0) == 0) out = a.substr(6);
        else sources.push_back(a);
    }
    std::error_code ec;
    Out = std::make_unique<llvm::raw_fd_ostream>(out, ec);
    if (ec) { llvm::errs() << ec.message() << "\n"; return 2; }
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, sources);
    tool.clearArgumentsAdjusters();
    tool.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    Out->flush();
    return rc;
}
