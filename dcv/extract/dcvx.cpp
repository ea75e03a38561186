// dcvx: mechanical extraction of function bodies from a C++ translation unit (clang AST -> JSON IL).
//
//   dcvx --own=/repo/include [--own=...] tu.cpp -- <compiler args>      (JSON on stdout)
//
// Every non-dependent function (template instantiations included) whose body lies in a file below one
// of the --own prefixes is written out, statement by statement, with implicit conversions kept.
// What is dropped: attributes, comments, formatting, linkage, alignment, source-level type aliases (types
// are canonical), full-expression temporaries' destruction order.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CommonOptionsParser.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static llvm::cl::OptionCategory Cat("dcvx");
static llvm::cl::list<std::string> Own("own", llvm::cl::cat(Cat), llvm::cl::desc("path prefix whose bodies are extracted"));

namespace
{
struct Ex {
    ASTContext &C;
    std::map<std::string, int> tyIdx;
    Array types;
    std::map<const Decl *, int> varId;
    std::map<const FunctionDecl *, int> fnIdx;
    std::vector<const FunctionDecl *> fns;
    std::map<const RecordDecl *, int> recIdx;
    Array records;
    std::set<const VarDecl *> globalsSeen;
    Array globals;

    explicit Ex(ASTContext &c) : C(c) {}

    bool own(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        auto &SM = C.getSourceManager();
        auto f = SM.getFilename(SM.getExpansionLoc(L));
        for (auto &p : Own)
            if (f.starts_with(p)) return true;
        return false;
    }
    std::string file(SourceLocation L)
    {
        auto &SM = C.getSourceManager();
        return SM.getFilename(SM.getExpansionLoc(L)).str();
    }
    int line(SourceLocation L)
    {
        auto &SM = C.getSourceManager();
        return static_cast<int>(SM.getExpansionLineNumber(L));
    }
    int vid(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = varId.find(D);
        if (it != varId.end()) return it->second;
        int n = static_cast<int>(varId.size()) + 1;
        varId[D] = n;
        return n;
    }
    std::string qn(const NamedDecl *D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P(C.getLangOpts());
        D->printQualifiedName(os, P);
        return os.str();
    }
    int ty(QualType T)
    {
        T = C.getCanonicalType(T);
        std::string key = T.getAsString();
        if (const auto *RT = T->getAs<RecordType>())
            if (const auto *CR = dyn_cast<CXXRecordDecl>(RT->getDecl()))
                if (CR->isLambda()) key += "#" + std::to_string(vid(CR));
        auto it = tyIdx.find(key);
        if (it != tyIdx.end()) return it->second;
        int n = static_cast<int>(types.size());
        tyIdx[key] = n;
        types.push_back(nullptr);
        Object o;
        o["s"] = T.getAsString();
        if (T.isConstQualified()) o["const"] = true;
        const Type *t = T.getTypePtr();
        if (const auto *B = dyn_cast<BuiltinType>(t)) {
            std::string c = "other";
            if (B->getKind() == BuiltinType::Bool) c = "bool";
            else if (B->getKind() == BuiltinType::Void) c = "void";
            else if (B->isInteger()) {
                c = (B->isSignedInteger() ? "i" : "u") + std::to_string(C.getTypeSize(T));
            } else if (B->isFloatingPoint()) c = "f" + std::to_string(C.getTypeSize(T));
            else if (B->isNullPtrType()) c = "nullptr";
            o["c"] = c;
        } else if (const auto *R = dyn_cast<ReferenceType>(t)) {
            o["c"] = "ref";
            o["rv"] = isa<RValueReferenceType>(R);
            o["to"] = ty(R->getPointeeType());
        } else if (const auto *P = dyn_cast<PointerType>(t)) {
            o["c"] = "ptr";
            o["to"] = ty(P->getPointeeType());
        } else if (const auto *A = dyn_cast<ConstantArrayType>(t)) {
            o["c"] = "arr";
            o["n"] = static_cast<int64_t>(A->getSize().getZExtValue());
            o["to"] = ty(A->getElementType());
        } else if (const auto *E = dyn_cast<EnumType>(t)) {
            o["c"] = "enum";
            o["qn"] = qn(E->getDecl());
        } else if (const auto *RT = dyn_cast<RecordType>(t)) {
            const RecordDecl *RD = RT->getDecl();
            o["c"] = "rec";
            o["qn"] = qn(RD);
            o["name"] = RD->getNameAsString();
            if (const auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
                if (CR->isLambda()) o["lambda"] = vid(CR);
                if (const auto *S = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
                    Array a;
                    for (const auto &A : S->getTemplateArgs().asArray()) targ(a, A);
                    o["args"] = std::move(a);
                }
            }
            if (own(recLoc(RD))) o["own"] = true;
        } else if (const auto *F = dyn_cast<FunctionProtoType>(t)) {
            o["c"] = "fn";
            o["ret"] = ty(F->getReturnType());
            Array ps;
            for (auto p : F->param_types()) ps.push_back(ty(p));
            o["params"] = std::move(ps);
        } else {
            o["c"] = "other";
        }
        types[n] = std::move(o);
        if (const auto *RT = dyn_cast<RecordType>(t)) record(RT->getDecl(), n);
        return n;
    }
    void targ(Array &a, const TemplateArgument &A)
    {
        switch (A.getKind()) {
            case TemplateArgument::Type: a.push_back(ty(A.getAsType())); break;
            case TemplateArgument::Integral: a.push_back(Object{{"int", llvm::toString(A.getAsIntegral(), 10)}}); break;
            case TemplateArgument::Pack:
                for (const auto &B : A.pack_elements()) targ(a, B);
                break;
            default: a.push_back(nullptr);
        }
    }
    SourceLocation recLoc(const RecordDecl *RD)
    {
        if (const auto *CR = dyn_cast<CXXRecordDecl>(RD))
            if (const auto *P = CR->getTemplateInstantiationPattern()) return P->getLocation();
        return RD->getLocation();
    }
    void record(const RecordDecl *RD, int tidx)
    {
        RD = RD->getDefinition();
        if (!RD) return;
        if (recIdx.count(RD)) return;
        if (RD->isDependentType()) return;
        bool o_ = own(recLoc(RD));
        if (!o_ && qn(RD) != "std::pair") return;
        int n = static_cast<int>(records.size());
        recIdx[RD] = n;
        records.push_back(nullptr);
        Object o;
        o["qn"] = qn(RD);
        o["t"] = tidx;
        o["file"] = file(recLoc(RD));
        o["line"] = line(recLoc(RD));
        Array fs;
        for (const auto *F : RD->fields()) {
            Object f;
            f["name"] = F->getNameAsString();
            f["t"] = ty(F->getType());
            f["mutable"] = F->isMutable();
            f["line"] = line(F->getLocation());
            if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"] = expr(F->getInClassInitializer());
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        Array bs;
        if (const auto *CR = dyn_cast<CXXRecordDecl>(RD)) {
            for (const auto &B : CR->bases()) bs.push_back(ty(B.getType()));
            o["poly"] = CR->isPolymorphic();
        }
        o["bases"] = std::move(bs);
        records[n] = std::move(o);
    }
    int fn(const FunctionDecl *F)
    {
        const FunctionDecl *D = F->getCanonicalDecl();
        auto it = fnIdx.find(D);
        if (it != fnIdx.end()) return it->second;
        int n = static_cast<int>(fns.size());
        fnIdx[D] = n;
        fns.push_back(F);
        return n;
    }
    Object fnInfo(const FunctionDecl *F)
    {
        Object o;
        o["qn"] = qn(F);
        o["name"] = F->getNameAsString();
        llvm::SmallString<256> usr;
        index::generateUSRForDecl(F, usr);
        o["usr"] = usr.str().str();
        o["ret"] = ty(F->getReturnType());
        Array ps;
        for (const auto *P : F->parameters()) {
            ps.push_back(Object{{"name", P->getNameAsString()}, {"id", vid(P)}, {"t", ty(P->getType())}});
        }
        o["params"] = std::move(ps);
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = ty(C.getRecordType(M->getParent()));
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            o["virtual"] = M->isVirtual();
            o["lambda"] = M->getParent()->isLambda();
            if (const auto *K = dyn_cast<CXXConstructorDecl>(F)) {
                o["kind"] = "ctor";
                o["copy"] = K->isCopyConstructor();
                o["move"] = K->isMoveConstructor();
                o["default"] = K->isDefaultConstructor();
            } else if (isa<CXXDestructorDecl>(F)) {
                o["kind"] = "dtor";
            } else {
                o["kind"] = "method";
                o["copyassign"] = M->isCopyAssignmentOperator();
                o["moveassign"] = M->isMoveAssignmentOperator();
            }
            Array ov;
            for (const auto *P : M->overridden_methods()) ov.push_back(fn(P));
            if (!ov.empty()) o["overrides"] = std::move(ov);
        } else {
            o["kind"] = "func";
        }
        if (const auto *TA = F->getTemplateSpecializationArgs()) {
            Array a;
            for (const auto &A : TA->asArray()) targ(a, A);
            o["targs"] = std::move(a);
        }
        o["variadic"] = F->isVariadic();
        o["defaulted"] = F->isDefaulted();
        o["deleted"] = F->isDeleted();
        o["noexcept"] = false;
        return o;
    }
    void global(const VarDecl *V)
    {
        V = V->getCanonicalDecl();
        if (!globalsSeen.insert(V).second) return;
        Object g;
        g["id"] = vid(V);
        g["qn"] = qn(V);
        g["t"] = ty(V->getType());
        g["own"] = own(V->getLocation());
        g["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        g["shared"] = V->hasExternalFormalLinkage();
        g["line"] = line(V->getLocation());
        g["fn"] = V->isLocalVarDecl();
        if (own(V->getLocation())) {
            const VarDecl *Def = V->getDefinition() ? V->getDefinition() : V;
            if (Def->getInit() && !Def->getInit()->isValueDependent()) g["init"] = expr(Def->getInit());
        }
        globals.push_back(std::move(g));
    }
    // ------------------------------------------------------------------ expressions
    Value exprOpt(const Expr *E) { return E ? expr(E) : Value(nullptr); }
    Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r)
    {
        Array a;
        for (const Expr *e : r) a.push_back(expr(e));
        return a;
    }
    Value mk(const Expr *E, const char *k, Object o)
    {
        o["k"] = k;
        o["t"] = ty(E->getType());
        o["l"] = line(E->getExprLoc());
        if (E->isLValue()) o["lv"] = true;
        else if (E->isXValue()) o["xv"] = true;
        return std::move(o);
    }
    Value expr(const Expr *E)
    {
        if (const auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
        if (const auto *P = dyn_cast<FullExpr>(E)) return expr(P->getSubExpr());
        if (const auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) {
            return mk(E, "mat", Object{{"e", expr(P->getSubExpr())}});
        }
        if (const auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
        if (const auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
        if (const auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
        if (const auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
        if (const auto *P = dyn_cast<OpaqueValueExpr>(E)) return P->getSourceExpr() ? expr(P->getSourceExpr()) : mk(E, "unk", Object{{"cls", "Opaque"}});
        if (const auto *I = dyn_cast<IntegerLiteral>(E))
            return mk(E, "int", Object{{"v", llvm::toString(I->getValue(), 10, I->getType()->isSignedIntegerType())}});
        if (const auto *I = dyn_cast<CharacterLiteral>(E)) return mk(E, "int", Object{{"v", std::to_string(I->getValue())}});
        if (const auto *F = dyn_cast<FloatingLiteral>(E)) {
            char buf[64];
            snprintf(buf, sizeof buf, "%.17g", F->getValue().convertToDouble());
            return mk(E, "flt", Object{{"v", std::string(buf)}});
        }
        if (const auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) return mk(E, "bool", Object{{"v", B->getValue()}});
        if (const auto *S = dyn_cast<StringLiteral>(E)) {
            std::string v;
            for (unsigned char ch : S->getBytes()) v.push_back(ch < 128 ? static_cast<char>(ch) : '?');
            return mk(E, "str", Object{{"v", v}});
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mk(E, "null", Object{});
        if (const auto *D = dyn_cast<DeclRefExpr>(E)) {
            Object o;
            const ValueDecl *V = D->getDecl();
            o["name"] = V->getNameAsString();
            if (const auto *EC = dyn_cast<EnumConstantDecl>(V)) {
                o["dk"] = "enumc";
                o["v"] = llvm::toString(EC->getInitVal(), 10);
                o["qn"] = qn(EC);
            } else if (const auto *F = dyn_cast<FunctionDecl>(V)) {
                o["dk"] = "fn";
                o["fn"] = fn(F);
            } else if (const auto *VD = dyn_cast<VarDecl>(V)) {
                bool g = VD->hasGlobalStorage();
                o["dk"] = isa<ParmVarDecl>(V) ? "parm" : (g ? "global" : "var");
                o["id"] = vid(V);
                if (g) {
                    o["qn"] = qn(VD);
                    global(VD);
                    Expr::EvalResult R;
                    if (VD->getType().isConstQualified() && VD->getType()->isArithmeticType() && !E->isValueDependent()
                        && E->EvaluateAsRValue(R, C)) {
                        if (R.Val.isInt()) o["cv"] = llvm::toString(R.Val.getInt(), 10);
                        else if (R.Val.isFloat()) {
                            char buf[64];
                            snprintf(buf, sizeof buf, "%.17g", R.Val.getFloat().convertToDouble());
                            o["cv"] = std::string(buf);
                        }
                    }
                }
                if (D->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            } else if (const auto *BD = dyn_cast<BindingDecl>(V)) {
                o["dk"] = "binding";
                o["id"] = vid(V);
                if (BD->getBinding()) o["e"] = expr(BD->getBinding());
            } else {
                o["dk"] = "other";
            }
            return mk(E, "ref", std::move(o));
        }
        if (const auto *M = dyn_cast<MemberExpr>(E)) {
            Object o;
            const ValueDecl *V = M->getMemberDecl();
            o["name"] = V->getNameAsString();
            o["arrow"] = M->isArrow();
            o["base"] = expr(M->getBase());
            if (isa<FieldDecl>(V)) o["mk"] = "field";
            else if (const auto *F = dyn_cast<CXXMethodDecl>(V)) {
                o["mk"] = "method";
                o["fn"] = fn(F);
                o["qualified"] = M->hasQualifier();
            } else if (const auto *VD = dyn_cast<VarDecl>(V)) {
                o["mk"] = "static";
                o["id"] = vid(VD);
                o["qn"] = qn(VD);
                global(VD);
            } else o["mk"] = "other";
            return mk(E, "mem", std::move(o));
        }
        if (isa<CXXThisExpr>(E)) return mk(E, "this", Object{});
        if (const auto *U = dyn_cast<UnaryOperator>(E))
            return mk(E, "un", Object{{"op", UnaryOperator::getOpcodeStr(U->getOpcode()).str()},
                                     {"post", U->isPostfix()},
                                     {"e", expr(U->getSubExpr())}});
        if (const auto *B = dyn_cast<CompoundAssignOperator>(E))
            return mk(E, "casg", Object{{"op", BinaryOperator::getOpcodeStr(B->getOpcode()).drop_back(1).str()},
                                       {"a", expr(B->getLHS())},
                                       {"b", expr(B->getRHS())},
                                       {"ct", ty(B->getComputationResultType())}});
        if (const auto *B = dyn_cast<BinaryOperator>(E)) {
            if (B->getOpcode() == BO_Assign)
                return mk(E, "asg", Object{{"a", expr(B->getLHS())}, {"b", expr(B->getRHS())}});
            return mk(E, "bin", Object{{"op", BinaryOperator::getOpcodeStr(B->getOpcode()).str()},
                                      {"a", expr(B->getLHS())},
                                      {"b", expr(B->getRHS())}});
        }
        if (const auto *Q = dyn_cast<ConditionalOperator>(E))
            return mk(E, "cond", Object{{"c", expr(Q->getCond())}, {"a", expr(Q->getTrueExpr())}, {"b", expr(Q->getFalseExpr())}});
        if (const auto *K = dyn_cast<CastExpr>(E)) {
            // constructor / user conversions are transparent: the sub expression is the call
            return mk(E, "cast", Object{{"ck", std::string(K->getCastKindName())}, {"e", expr(K->getSubExpr())},
                                       {"implicit", isa<ImplicitCastExpr>(K)}});
        }
        if (const auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
            Object o;
            o["op"] = getOperatorSpelling(O->getOperator());
            if (const auto *F = O->getDirectCallee()) {
                o["fn"] = fn(F);
                o["method"] = isa<CXXMethodDecl>(F);
            }
            o["args"] = args(O->arguments());
            return mk(E, "opcall", std::move(o));
        }
        if (const auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
            Object o;
            if (const auto *F = M->getMethodDecl()) {
                o["fn"] = fn(F);
                o["name"] = F->getNameAsString();
            }
            const Expr *callee = M->getCallee()->IgnoreParens();
            if (const auto *ME = dyn_cast<MemberExpr>(callee)) {
                o["obj"] = expr(ME->getBase());
                o["arrow"] = ME->isArrow();
                o["qualified"] = ME->hasQualifier();
            } else {
                o["callee"] = expr(callee);
            }
            o["args"] = args(M->arguments());
            return mk(E, "mcall", std::move(o));
        }
        if (const auto *K = dyn_cast<CallExpr>(E)) {
            Object o;
            if (const auto *F = K->getDirectCallee()) o["fn"] = fn(F);
            else o["callee"] = expr(K->getCallee());
            o["args"] = args(K->arguments());
            return mk(E, "call", std::move(o));
        }
        if (const auto *K = dyn_cast<CXXConstructExpr>(E)) {
            Object o;
            o["fn"] = fn(K->getConstructor());
            o["elidable"] = K->isElidable();
            o["list"] = K->isListInitialization();
            o["stdil"] = K->isStdInitListInitialization();
            o["zi"] = K->requiresZeroInitialization();
            o["copy"] = K->getConstructor()->isCopyOrMoveConstructor();
            Array a;
            for (const Expr *e : K->arguments()) a.push_back(expr(e));
            o["args"] = std::move(a);
            return mk(E, "ctor", std::move(o));
        }
        if (const auto *K = dyn_cast<CXXInheritedCtorInitExpr>(E)) return mk(E, "unk", Object{{"cls", "InheritedCtor"}});
        if (const auto *L = dyn_cast<InitListExpr>(E)) {
            if (L->isSemanticForm() || !L->getSemanticForm()) {
                Array a;
                for (const Expr *e : L->inits()) a.push_back(expr(e));
                return mk(E, "ilist", Object{{"es", std::move(a)}});
            }
            return expr(L->getSemanticForm());
        }
        if (const auto *L = dyn_cast<CXXStdInitializerListExpr>(E)) return mk(E, "stdil", Object{{"e", expr(L->getSubExpr())}});
        if (const auto *L = dyn_cast<LambdaExpr>(E)) {
            Object o;
            Array caps;
            auto ii = L->capture_init_begin();
            for (const auto &c : L->captures()) {
                Object k;
                if (c.capturesThis()) k["this"] = true;
                else if (c.capturesVariable()) {
                    k["id"] = vid(c.getCapturedVar());
                    k["name"] = c.getCapturedVar()->getNameAsString();
                    k["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (const auto *cv = dyn_cast<VarDecl>(c.getCapturedVar()))
                        if (cv->isInitCapture() && cv->getInit()) k["init"] = expr(cv->getInit());
                }
                ++ii;
                caps.push_back(std::move(k));
            }
            o["caps"] = std::move(caps);
            o["cls"] = vid(L->getLambdaClass());
            const CXXMethodDecl *Op = L->getCallOperator();
            o["generic"] = L->isGenericLambda();
            if (L->isGenericLambda()) {
                // every instantiation of the call operator
                Array specs;
                if (auto *FT = L->getLambdaClass()->getDependentLambdaCallOperator())
                    for (const auto *S : FT->specializations()) specs.push_back(fn(S));
                o["specs"] = std::move(specs);
            } else {
                o["op"] = fn(Op);
            }
            return mk(E, "lambda", std::move(o));
        }
        if (const auto *A = dyn_cast<ArraySubscriptExpr>(E))
            return mk(E, "idx", Object{{"a", expr(A->getBase())}, {"b", expr(A->getIdx())}});
        if (const auto *T = dyn_cast<CXXThrowExpr>(E)) {
            Object o;
            if (T->getSubExpr()) {
                o["et"] = ty(T->getSubExpr()->getType());
                o["e"] = expr(T->getSubExpr());
            }
            return mk(E, "throw", std::move(o));
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk(E, "zero", Object{});
        if (const auto *N = dyn_cast<CXXNewExpr>(E)) {
            Object o;
            o["at"] = ty(N->getAllocatedType());
            if (N->hasInitializer()) o["e"] = exprOpt(N->getInitializer());
            return mk(E, "new", std::move(o));
        }
        if (const auto *N = dyn_cast<CXXDeleteExpr>(E)) return mk(E, "delete", Object{{"e", expr(N->getArgument())}});
        if (!E->isValueDependent() && !E->getType()->isDependentType() && E->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C)) return mk(E, "int", Object{{"v", llvm::toString(R.Val.getInt(), 10)}});
        }
        Array ch;
        for (const Stmt *s : E->children())
            if (s)
                if (const auto *e = dyn_cast<Expr>(s)) ch.push_back(expr(e));
        return mk(E, "unk", Object{{"cls", E->getStmtClassName()}, {"ch", std::move(ch)}});
    }
    // ------------------------------------------------------------------ statements
    Value smk(const Stmt *S, const char *k, Object o)
    {
        o["k"] = k;
        o["l"] = line(S->getBeginLoc());
        return std::move(o);
    }
    Value var(const VarDecl *V)
    {
        Object o;
        o["id"] = vid(V);
        o["name"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getInit()) o["init"] = expr(V->getInit());
        return std::move(o);
    }
    Value stmtOpt(const Stmt *S) { return S ? stmt(S) : Value(nullptr); }
    Value stmt(const Stmt *S)
    {
        if (const auto *E = dyn_cast<Expr>(S)) return smk(S, "expr", Object{{"e", expr(E)}});
        if (const auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (const auto *L = dyn_cast<LabelStmt>(S)) return smk(S, "unks", Object{{"cls", "LabelStmt"}});
        if (const auto *K = dyn_cast<CompoundStmt>(S)) {
            Array a;
            for (const Stmt *s : K->body()) a.push_back(stmt(s));
            return smk(S, "block", Object{{"ss", std::move(a)}});
        }
        if (const auto *D = dyn_cast<DeclStmt>(S)) {
            Array a;
            for (const Decl *d : D->decls()) {
                if (const auto *V = dyn_cast<VarDecl>(d)) {
                    auto v = var(V);
                    if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
                        Array b;
                        for (const auto *B : DD->bindings()) {
                            Object bo;
                            bo["id"] = vid(B);
                            bo["name"] = B->getNameAsString();
                            if (B->getBinding()) bo["e"] = expr(B->getBinding());
                            if (const auto *HV = B->getHoldingVar()) bo["hold"] = var(HV);
                            b.push_back(std::move(bo));
                        }
                        (*v.getAsObject())["bindings"] = std::move(b);
                    }
                    a.push_back(std::move(v));
                }
            }
            return smk(S, "decl", Object{{"vs", std::move(a)}});
        }
        if (const auto *I = dyn_cast<IfStmt>(S)) {
            Object o;
            if (I->isConstexpr() && I->getNondiscardedCase(C)) {
                const Stmt *B = *I->getNondiscardedCase(C);
                return B ? stmt(B) : smk(S, "block", Object{{"ss", Array()}});
            }
            o["init"] = stmtOpt(I->getInit());
            if (I->getConditionVariable()) o["cv"] = var(I->getConditionVariable());
            o["c"] = expr(I->getCond());
            o["a"] = stmtOpt(I->getThen());
            o["b"] = stmtOpt(I->getElse());
            return smk(S, "if", std::move(o));
        }
        if (const auto *F = dyn_cast<ForStmt>(S)) {
            Object o;
            o["init"] = stmtOpt(F->getInit());
            o["c"] = exprOpt(F->getCond());
            o["inc"] = exprOpt(F->getInc());
            o["body"] = stmtOpt(F->getBody());
            return smk(S, "for", std::move(o));
        }
        if (const auto *W = dyn_cast<WhileStmt>(S)) {
            Object o;
            if (W->getConditionVariable()) o["cv"] = var(W->getConditionVariable());
            o["c"] = expr(W->getCond());
            o["body"] = stmtOpt(W->getBody());
            return smk(S, "while", std::move(o));
        }
        if (const auto *W = dyn_cast<DoStmt>(S))
            return smk(S, "do", Object{{"c", expr(W->getCond())}, {"body", stmtOpt(W->getBody())}});
        if (const auto *R = dyn_cast<CXXForRangeStmt>(S)) {
            Object o;
            o["init"] = stmtOpt(R->getInit());
            o["range"] = exprOpt(R->getRangeInit());
            const VarDecl *V = R->getLoopVariable();
            o["var"] = Object{{"id", vid(V)}, {"name", V->getNameAsString()}, {"t", ty(V->getType())}};
            if (V->getInit()) (*o["var"].getAsObject())["init"] = expr(V->getInit());
            if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
                Array b;
                for (const auto *B : DD->bindings()) {
                    Object bo;
                    bo["id"] = vid(B);
                    bo["name"] = B->getNameAsString();
                    if (B->getBinding()) bo["e"] = expr(B->getBinding());
                    b.push_back(std::move(bo));
                }
                (*o["var"].getAsObject())["bindings"] = std::move(b);
            }
            o["body"] = stmtOpt(R->getBody());
            return smk(S, "range", std::move(o));
        }
        if (const auto *R = dyn_cast<ReturnStmt>(S)) return smk(S, "ret", Object{{"e", exprOpt(R->getRetValue())}});
        if (isa<BreakStmt>(S)) return smk(S, "break", Object{});
        if (isa<ContinueStmt>(S)) return smk(S, "continue", Object{});
        if (isa<NullStmt>(S)) return smk(S, "block", Object{{"ss", Array()}});
        if (const auto *W = dyn_cast<SwitchStmt>(S)) {
            Object o;
            o["init"] = stmtOpt(W->getInit());
            o["c"] = expr(W->getCond());
            o["body"] = stmtOpt(W->getBody());
            return smk(S, "switch", std::move(o));
        }
        if (const auto *K = dyn_cast<CaseStmt>(S)) {
            Object o;
            Expr::EvalResult R;
            if (K->getLHS()->EvaluateAsInt(R, C)) o["v"] = llvm::toString(R.Val.getInt(), 10);
            o["sub"] = stmtOpt(K->getSubStmt());
            return smk(S, "case", std::move(o));
        }
        if (const auto *K = dyn_cast<DefaultStmt>(S)) return smk(S, "default", Object{{"sub", stmtOpt(K->getSubStmt())}});
        if (const auto *T = dyn_cast<CXXTryStmt>(S)) {
            Array h;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
                const auto *H = T->getHandler(i);
                Object o;
                if (H->getExceptionDecl()) o["t"] = ty(H->getExceptionDecl()->getType());
                o["body"] = stmtOpt(H->getHandlerBlock());
                h.push_back(std::move(o));
            }
            return smk(S, "try", Object{{"body", stmt(T->getTryBlock())}, {"hs", std::move(h)}});
        }
        return smk(S, "unks", Object{{"cls", S->getStmtClassName()}});
    }
    Object fnFull(const FunctionDecl *F)
    {
        Object o = fnInfo(F);
        const FunctionDecl *Def = nullptr;
        if (F->hasBody(Def) && Def && !Def->isDependentContext() && own(Def->getLocation())) {
            o["file"] = file(Def->getLocation());
            o["line"] = line(Def->getLocation());
            o["endline"] = line(Def->getEndLoc());
            // parameters of the definition are the ones the body refers to
            Array ps;
            for (const auto *P : Def->parameters())
                ps.push_back(Object{{"name", P->getNameAsString()}, {"id", vid(P)}, {"t", ty(P->getType())}});
            o["params"] = std::move(ps);
            if (!Def->isDefaulted()) {
                o["body"] = stmt(Def->getBody());
                if (const auto *K = dyn_cast<CXXConstructorDecl>(Def)) {
                    Array in;
                    for (const auto *I : K->inits()) {
                        Object i;
                        if (I->isMemberInitializer()) i["field"] = I->getMember()->getNameAsString();
                        else if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
                        else if (I->isDelegatingInitializer()) i["delegate"] = true;
                        i["written"] = I->isWritten();
                        i["e"] = exprOpt(I->getInit());
                        in.push_back(std::move(i));
                    }
                    o["inits"] = std::move(in);
                }
            }
        }
        return o;
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Ex &X;
    explicit Visitor(Ex &x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->isDependentContext()) return true;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) return true;
        if (!X.own(Def->getLocation())) return true;
        X.fn(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *V)
    {
        if (V->hasGlobalStorage() && !V->isStaticLocal() && !V->getDeclContext()->isDependentContext()
            && X.own(V->getLocation()) && !V->getType()->isDependentType() && !V->getDescribedVarTemplate()
            && !(V->getInit() && V->getInit()->isInstantiationDependent()))
            X.global(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (!R->isDependentContext() && R->hasDefinition() && X.own(X.recLoc(R)) && !R->isLambda())
            X.ty(X.C.getRecordType(R));
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Ex X(C);
        Visitor V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        Array fs;
        for (std::size_t i = 0; i < X.fns.size(); ++i) fs.push_back(X.fnFull(X.fns[i]));
        Object top;
        top["functions"] = std::move(fs);
        top["records"] = std::move(X.records);
        top["globals"] = std::move(X.globals);
        top["types"] = std::move(X.types);
        llvm::outs() << Value(std::move(top)) << "\n";
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
} // namespace

int main(int argc, const char **argv)
{
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) {
        llvm::errs() << toString(P.takeError());
        return 2;
    }
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
