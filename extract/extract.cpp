// Dumps the type-checked program below a source root as JSON, one file per translation
// unit.  Usage: extract ROOT OUT.json FILE -- FLAGS
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;

struct Dumper
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const ValueDecl*, int> vars;
    std::map<std::string, int> files;
    Array fileList;

    Dumper(ASTContext& C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
    }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto* fe = SM.getFileEntryForID(SM.getFileID(L));
        if (!fe) return "";
        llvm::StringRef r = fe->tryGetRealPathName();
        return r.str();
    }
    bool inRoot(SourceLocation L)
    {
        auto f = fileOf(L);
        return f.compare(0, Root.size(), Root) == 0;
    }
    Value loc(SourceLocation L)
    {
        std::string f = fileOf(L);
        if (f.compare(0, Root.size(), Root) == 0) f = f.substr(Root.size());
        auto it = files.find(f);
        if (it == files.end())
        {
            it = files.emplace(f, (int)fileList.size()).first;
            fileList.push_back(f);
        }
        return Array{it->second, (int)SM.getExpansionLineNumber(L)};
    }
    std::string ty(QualType T)
    {
        if (T.isNull()) return "?";
        std::string s = T.getCanonicalType().getUnqualifiedType().getAsString(PP);
        if (s.size() > 400) s.resize(400);
        return s;
    }
    std::string fnId(const FunctionDecl* F)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto* P = F->getTemplateInstantiationPattern()) (void)P;
        F->getNameForDiagnostic(os, PP, true);
        os << "(";
        for (auto* p : F->parameters()) os << ty(p->getType()) << ";";
        os << ")";
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            if (M->isConst()) os << "const";
            if (M->getParent()->isLambda())
                os << "@" << (uintptr_t)M->getParent()->getCanonicalDecl();
        }
        return os.str();
    }
    std::string qn(const NamedDecl* D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p2 = PP;
        D->printQualifiedName(os, p2);
        return os.str();
    }
    int var(const ValueDecl* V)
    {
        V = cast<ValueDecl>(V->getCanonicalDecl());
        auto it = vars.find(V);
        if (it == vars.end()) it = vars.emplace(V, (int)vars.size()).first;
        return it->second;
    }

    // ---- expressions
    Value none() { return Object{{"e", "none"}}; }

    const Expr* strip(const Expr* E)
    {
        while (E)
        {
            if (auto* p = dyn_cast<ParenExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<ExprWithCleanups>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<ConstantExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(E)) E = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(E)) E = p->getExpr();
            else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<OpaqueValueExpr>(E)) { if (!p->getSourceExpr()) return E; E = p->getSourceExpr(); }
            else break;
        }
        return E;
    }

    bool arithClass(QualType T) { return T->isArithmeticType() || T->isEnumeralType(); }

    Array exprs(llvm::ArrayRef<const Expr*> A)
    {
        Array r;
        for (auto* e : A) r.push_back(expr(e));
        return r;
    }
    template <class T>
    Array args(const T* E, unsigned from = 0)
    {
        Array r;
        for (unsigned i = from; i < E->getNumArgs(); i++) r.push_back(expr(E->getArg(i)));
        return r;
    }

    Value expr(const Expr* E0)
    {
        const Expr* E = strip(E0);
        if (!E) return none();
        Value v = expr1(E);
        if (auto* o = v.getAsObject())
        {
            if (!o->get("L")) (*o)["L"] = loc(E->getBeginLoc());
            if (!o->get("t")) (*o)["t"] = ty(E->getType());
        }
        return v;
    }

    Value expr1(const Expr* E)
    {
        // compile-time integer constants
        if (!E->isValueDependent() && E->isPRValue() && E->getType()->isIntegralOrEnumerationType())
        {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
            {
                llvm::SmallString<32> s;
                R.Val.getInt().toString(s, 10);
                Object o{{"e", "int"}, {"v", s.str().str()}};
                return std::move(o);
            }
        }
        if (auto* x = dyn_cast<IntegerLiteral>(E))
        {
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, false);
            return Object{{"e", "int"}, {"v", s.str().str()}};
        }
        if (auto* x = dyn_cast<FloatingLiteral>(E))
            return Object{{"e", "float"}, {"v", x->getValueAsApproximateDouble()}};
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(E))
            return Object{{"e", "int"}, {"v", x->getValue() ? "1" : "0"}};
        if (auto* x = dyn_cast<StringLiteral>(E))
        {
            std::string s = x->isOrdinary() || x->isUTF8() ? x->getString().str() : "";
            return Object{{"e", "str"}, {"v", llvm::json::fixUTF8(s)}};
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return Object{{"e", "null"}};
        if (isa<CXXThisExpr>(E)) return Object{{"e", "this"}};
        if (auto* x = dyn_cast<DeclRefExpr>(E))
        {
            auto* D = x->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D))
                return Object{{"e", "fn"}, {"id", fnId(F)}, {"q", qn(F)}};
            if (auto* V = dyn_cast<VarDecl>(D))
            {
                Object o{{"e", "var"}, {"id", var(V)}, {"n", V->getNameAsString()}};
                if (!V->isLocalVarDeclOrParm()) o["g"] = qn(V);
                if (V->isStaticLocal()) o["st"] = true;
                if (V->getType()->isReferenceType()) o["ref"] = true;
                return std::move(o);
            }
            if (auto* M = dyn_cast<FieldDecl>(D))
                return Object{{"e", "memptr"}, {"n", M->getNameAsString()}, {"c", qn(M->getParent())}};
            if (auto* B = dyn_cast<BindingDecl>(D))
                return Object{{"e", "var"}, {"id", var(B)}, {"n", B->getNameAsString()}};
            return Object{{"e", "decl"}, {"q", qn(D)}};
        }
        if (auto* x = dyn_cast<MemberExpr>(E))
        {
            auto* D = x->getMemberDecl();
            if (auto* F = dyn_cast<FieldDecl>(D))
            {
                Object o{{"e", "field"}, {"n", F->getNameAsString()}, {"c", qn(F->getParent())},
                         {"b", expr(x->getBase())}, {"arrow", x->isArrow()}};
                if (F->getType()->isReferenceType()) o["ref"] = true;
                if (F->isAnonymousStructOrUnion()) o["anon"] = true;
                return std::move(o);
            }
            if (auto* V = dyn_cast<VarDecl>(D))
                return Object{{"e", "var"}, {"id", var(V)}, {"n", V->getNameAsString()}, {"g", qn(V)}};
            if (auto* F = dyn_cast<FunctionDecl>(D))
                return Object{{"e", "method"}, {"id", fnId(F)}, {"q", qn(F)}, {"b", expr(x->getBase())}};
            return Object{{"e", "decl"}, {"q", qn(D)}};
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(E))
            return Object{{"e", "sub"}, {"b", expr(x->getBase())}, {"i", expr(x->getIdx())}};
        if (auto* x = dyn_cast<UnaryOperator>(E))
        {
            if (x->getOpcode() == UO_AddrOf)
            {
                auto* s = strip(x->getSubExpr());
                if (auto* d = dyn_cast<DeclRefExpr>(s))
                    if (isa<FunctionDecl>(d->getDecl()) || isa<FieldDecl>(d->getDecl()))
                        return expr(s);
            }
            return Object{{"e", "un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()},
                          {"post", x->isPostfix()}, {"a", expr(x->getSubExpr())}};
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(E))
            return Object{{"e", "asg"}, {"op", BinaryOperator::getOpcodeStr(
                               BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str()},
                          {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
        if (auto* x = dyn_cast<BinaryOperator>(E))
        {
            if (x->getOpcode() == BO_Assign)
                return Object{{"e", "asg"}, {"op", ""}, {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
            return Object{{"e", "bin"}, {"op", BinaryOperator::getOpcodeStr(x->getOpcode()).str()},
                          {"a", expr(x->getLHS())}, {"b", expr(x->getRHS())}};
        }
        if (auto* x = dyn_cast<ConditionalOperator>(E))
            return Object{{"e", "cond"}, {"c", expr(x->getCond())}, {"a", expr(x->getTrueExpr())}, {"b", expr(x->getFalseExpr())}};
        if (auto* x = dyn_cast<UserDefinedLiteral>(E))
        {
            return Object{{"e", "call"}, {"id", "literal"}, {"q", x->getUDSuffix()->getName().str()}, {"args", args(x)}};
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(E))
        {
            Object o{{"e", "call"}, {"opc", getOperatorSpelling(x->getOperator())}, {"args", args(x)}};
            if (auto* F = x->getDirectCallee())
            {
                o["id"] = fnId(F);
                o["q"] = qn(F);
                o["mem"] = isa<CXXMethodDecl>(F);
                o["pt"] = paramTypes(F);
                o["const"] = isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isConst();
                lam(F, o);
            }
            return std::move(o);
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(E))
        {
            Object o{{"e", "mcall"}, {"args", args(x)}};
            if (auto* M = x->getMethodDecl())
            {
                o["id"] = fnId(M);
                o["q"] = qn(M);
                o["n"] = M->getNameAsString();
                o["pt"] = paramTypes(M);
                o["const"] = M->isConst();
                if (M->isVirtual()) o["virt"] = true;
                if (isa<CXXConversionDecl>(M)) o["conv"] = true;
            }
            if (auto* ob = x->getImplicitObjectArgument())
            {
                o["b"] = expr(ob);
                o["arrow"] = ob->getType()->isPointerType();
                o["c"] = ty(ob->getType()->isPointerType() ? ob->getType()->getPointeeType() : ob->getType());
            }
            else
                o["callee"] = expr(x->getCallee());
            return std::move(o);
        }
        if (auto* x = dyn_cast<CallExpr>(E))
        {
            Object o{{"e", "call"}, {"args", args(x)}};
            if (auto* F = x->getDirectCallee())
            {
                o["id"] = fnId(F);
                o["q"] = qn(F);
                o["pt"] = paramTypes(F);
                if (F->getTemplateSpecializationArgs()) o["targs"] = targs(F->getTemplateSpecializationArgs()->asArray());
            }
            else
                o["callee"] = expr(x->getCallee());
            return std::move(o);
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(E))
        {
            auto* K = x->getConstructor();
            Object o{{"e", "ctor"}, {"id", fnId(K)}, {"c", ty(E->getType())}, {"args", args(x)}, {"pt", paramTypes(K)}};
            if (K->isCopyConstructor()) o["k"] = "copy";
            else if (K->isMoveConstructor()) o["k"] = "move";
            else if (K->isDefaultConstructor()) o["k"] = "default";
            else o["k"] = "other";
            if (K->isDefaulted()) o["dflt"] = true;
            return std::move(o);
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(E)) return Object{{"e", "opaque"}, {"k", "inhctor"}};
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(E)) return Object{{"e", "int"}, {"v", "0"}};
        if (auto* x = dyn_cast<ImplicitValueInitExpr>(E)) return Object{{"e", "zero"}};
        if (auto* x = dyn_cast<CXXNewExpr>(E))
        {
            Object o{{"e", "new"}, {"nt", ty(x->getAllocatedType())}};
            if (x->getInitializer()) o["init"] = expr(x->getInitializer());
            return std::move(o);
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(E)) return Object{{"e", "delete"}, {"a", expr(x->getArgument())}};
        if (auto* x = dyn_cast<CXXThrowExpr>(E))
        {
            Object o{{"e", "throw"}};
            if (x->getSubExpr())
            {
                o["a"] = expr(x->getSubExpr());
                o["tt"] = ty(x->getSubExpr()->getType());
                Array bases;
                if (auto* R = x->getSubExpr()->getType()->getAsCXXRecordDecl()) collectBases(R, bases);
                o["bases"] = std::move(bases);
            }
            return std::move(o);
        }
        if (auto* x = dyn_cast<LambdaExpr>(E))
        {
            Array caps;
            for (auto& c : x->captures())
            {
                if (c.capturesThis()) caps.push_back(Object{{"this", true}});
                else if (c.capturesVariable())
                    caps.push_back(Object{{"id", var(c.getCapturedVar())}, {"n", c.getCapturedVar()->getNameAsString()},
                                          {"ref", c.getCaptureKind() == LCK_ByRef}});
            }
            auto* M = x->getCallOperator();
            Object o{{"e", "lambda"}, {"caps", std::move(caps)}, {"params", params(M)}, {"body", stmt(x->getBody())},
                     {"id", fnId(M)}, {"rt", ty(M->getReturnType())}};
            return std::move(o);
        }
        if (auto* x = dyn_cast<InitListExpr>(E))
        {
            Array a;
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            for (auto* i : x->inits()) a.push_back(expr(i));
            Object o{{"e", "ilist"}, {"args", std::move(a)}};
            if (x->getArrayFiller()) o["fill"] = expr(x->getArrayFiller());
            return std::move(o);
        }
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(E)) return Object{{"e", "opaque"}, {"k", "arrinit"}};
        if (auto* x = dyn_cast<CastExpr>(E))
        {
            QualType to = E->getType();
            const Expr* S = x->getSubExpr();
            QualType from = S->getType();
            switch (x->getCastKind())
            {
                case CK_IntegralCast:
                case CK_FloatingToIntegral:
                case CK_IntegralToFloating:
                case CK_FloatingCast:
                case CK_IntegralToBoolean:
                case CK_FloatingToBoolean:
                case CK_PointerToBoolean:
                case CK_PointerToIntegral:
                case CK_IntegralToPointer:
                case CK_BitCast:
                    return Object{{"e", "cast"}, {"k", x->getCastKindName()}, {"ft", ty(from)}, {"a", expr(S)}};
                case CK_UserDefinedConversion:
                case CK_ConstructorConversion:
                default: return expr(S);
            }
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) return Object{{"e", "opaque"}, {"k", "sizeof"}};
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(x->getSemanticForm());
        Array kids;
        for (auto* c : E->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c)) kids.push_back(expr(ce));
        return Object{{"e", "opaque"}, {"k", E->getStmtClassName()}, {"args", std::move(kids)}};
    }
    void collectBases(const CXXRecordDecl* R, Array& out)
    {
        R = R->getDefinition();
        if (!R) return;
        for (auto& b : R->bases())
        {
            out.push_back(ty(b.getType()));
            if (auto* r = b.getType()->getAsCXXRecordDecl()) collectBases(r, out);
        }
    }
    void lam(const FunctionDecl* F, Object& o)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) o["lam"] = true;
    }
    Array targs(llvm::ArrayRef<TemplateArgument> A)
    {
        Array r;
        for (auto& a : A)
        {
            if (a.getKind() == TemplateArgument::Type) r.push_back(ty(a.getAsType()));
            else if (a.getKind() == TemplateArgument::Integral)
            {
                llvm::SmallString<32> s;
                a.getAsIntegral().toString(s, 10);
                r.push_back(s.str().str());
            }
            else r.push_back("?");
        }
        return r;
    }
    Array paramTypes(const FunctionDecl* F)
    {
        Array r;
        for (auto* p : F->parameters())
        {
            QualType T = p->getType();
            std::string k = "v";
            if (T->isReferenceType())
                k = T->getPointeeType().isConstQualified() ? "cr" : T->isRValueReferenceType() ? "rr" : "r";
            else if (T->isPointerType())
                k = T->getPointeeType().isConstQualified() ? "cp" : "p";
            r.push_back(k);
        }
        return r;
    }
    Array params(const FunctionDecl* F)
    {
        Array r;
        for (auto* p : F->parameters())
        {
            Object o{{"id", var(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())},
                     {"ref", p->getType()->isReferenceType()}};
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                o["dflt"] = expr(p->getDefaultArg());
            r.push_back(std::move(o));
        }
        return r;
    }

    // ---- statements
    Value stmt(const Stmt* S)
    {
        if (!S) return nullptr;
        Value v = stmt1(S);
        if (auto* o = v.getAsObject())
        {
            if (!o->get("L")) (*o)["L"] = loc(S->getBeginLoc());
        }
        return v;
    }
    Value declOf(const VarDecl* V)
    {
        Object d{{"id", var(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())},
                 {"ref", V->getType()->isReferenceType()}};
        if (V->getInit()) d["init"] = expr(V->getInit());
        if (V->isStaticLocal()) d["st"] = true;
        return std::move(d);
    }
    Value stmt1(const Stmt* S)
    {
        if (auto* x = dyn_cast<CompoundStmt>(S))
        {
            Array a;
            for (auto* c : x->body()) a.push_back(stmt(c));
            return Object{{"s", "block"}, {"b", std::move(a)}};
        }
        if (auto* x = dyn_cast<DeclStmt>(S))
        {
            Array a;
            for (auto* d : x->decls())
                if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(declOf(V));
            return Object{{"s", "decl"}, {"d", std::move(a)}};
        }
        if (auto* x = dyn_cast<IfStmt>(S))
        {
            Object o{{"s", "if"}, {"c", expr(x->getCond())}, {"a", stmt(x->getThen())}};
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getConditionVariable()) o["cv"] = declOf(x->getConditionVariable());
            if (x->getElse()) o["b"] = stmt(x->getElse());
            return std::move(o);
        }
        if (auto* x = dyn_cast<WhileStmt>(S))
        {
            Object o{{"s", "while"}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
            if (x->getConditionVariable()) o["cv"] = declOf(x->getConditionVariable());
            return std::move(o);
        }
        if (auto* x = dyn_cast<DoStmt>(S))
            return Object{{"s", "do"}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
        if (auto* x = dyn_cast<ForStmt>(S))
        {
            Object o{{"s", "for"}, {"b", stmt(x->getBody())}};
            if (x->getInit()) o["init"] = stmt(x->getInit());
            if (x->getCond()) o["c"] = expr(x->getCond());
            if (x->getInc()) o["inc"] = expr(x->getInc());
            return std::move(o);
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(S))
            return Object{{"s", "range"}, {"v", declOf(x->getLoopVariable())}, {"r", expr(x->getRangeInit())},
                          {"b", stmt(x->getBody())}};
        if (auto* x = dyn_cast<ReturnStmt>(S))
        {
            Object o{{"s", "ret"}};
            if (x->getRetValue()) o["a"] = expr(x->getRetValue());
            return std::move(o);
        }
        if (isa<BreakStmt>(S)) return Object{{"s", "break"}};
        if (isa<ContinueStmt>(S)) return Object{{"s", "continue"}};
        if (isa<NullStmt>(S)) return Object{{"s", "null"}};
        if (auto* x = dyn_cast<SwitchStmt>(S))
            return Object{{"s", "switch"}, {"c", expr(x->getCond())}, {"b", stmt(x->getBody())}};
        if (auto* x = dyn_cast<CaseStmt>(S))
            return Object{{"s", "case"}, {"v", expr(x->getLHS())}, {"b", stmt(x->getSubStmt())}};
        if (auto* x = dyn_cast<DefaultStmt>(S)) return Object{{"s", "default"}, {"b", stmt(x->getSubStmt())}};
        if (auto* x = dyn_cast<CXXTryStmt>(S))
        {
            Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); i++)
            {
                auto* H = x->getHandler(i);
                h.push_back(Object{{"t", H->getExceptionDecl() ? ty(H->getCaughtType()) : "..."},
                                   {"b", stmt(H->getHandlerBlock())}});
            }
            return Object{{"s", "try"}, {"b", stmt(x->getTryBlock())}, {"h", std::move(h)}};
        }
        if (auto* x = dyn_cast<AttributedStmt>(S)) return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(S)) return Object{{"s", "label"}, {"b", stmt(x->getSubStmt())}};
        if (isa<GotoStmt>(S)) return Object{{"s", "goto"}};
        if (auto* x = dyn_cast<Expr>(S)) return Object{{"s", "expr"}, {"a", expr(x)}};
        return Object{{"s", "opaque"}, {"k", S->getStmtClassName()}};
    }

    Value function(const FunctionDecl* F)
    {
        vars.clear();
        Object o{{"id", fnId(F)}, {"q", qn(F)}, {"n", F->getNameAsString()}, {"L", loc(F->getLocation())},
                 {"rt", ty(F->getReturnType())}, {"rref", F->getReturnType()->isReferenceType()}};
        o["params"] = params(F);
        if (F->getTemplateSpecializationArgs()) o["targs"] = targs(F->getTemplateSpecializationArgs()->asArray());
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            o["class"] = ty(C.getRecordType(M->getParent()));
            o["static"] = M->isStatic();
            o["const"] = M->isConst();
            o["virt"] = M->isVirtual();
            Array ov;
            for (auto* b : M->overridden_methods()) ov.push_back(fnId(b));
            o["over"] = std::move(ov);
        }
        if (auto* K = dyn_cast<CXXConstructorDecl>(F))
        {
            o["ctor"] = true;
            Array in;
            for (auto* I : K->inits())
            {
                if (I->isAnyMemberInitializer())
                {
                    Object m{{"n", I->getAnyMember()->getNameAsString()}, {"x", expr(I->getInit())},
                             {"t", ty(I->getAnyMember()->getType())},
                             {"ref", I->getAnyMember()->getType()->isReferenceType()}, {"w", I->isWritten()}};
                    in.push_back(std::move(m));
                }
                else if (I->isBaseInitializer())
                    in.push_back(Object{{"base", ty(QualType(I->getBaseClass(), 0))}, {"x", expr(I->getInit())}});
                else
                    in.push_back(Object{{"deleg", true}, {"x", expr(I->getInit())}});
            }
            o["inits"] = std::move(in);
            o["ck"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        o["body"] = stmt(F->getBody());
        o["nvars"] = (int)vars.size();
        return std::move(o);
    }
    Value record(const CXXRecordDecl* R)
    {
        Array fs, bs;
        for (auto* f : R->fields())
        {
            Object o{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"const", f->getType().isConstQualified()},
                     {"ref", f->getType()->isReferenceType()}, {"acc", (int)f->getAccess()}};
            if (f->getInClassInitializer()) o["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(o));
        }
        for (auto& b : R->bases()) bs.push_back(ty(b.getType()));
        return Object{{"q", ty(C.getRecordType(R))}, {"fields", std::move(fs)}, {"bases", std::move(bs)},
                      {"L", loc(R->getLocation())}};
    }
};

struct V : RecursiveASTVisitor<V>
{
    Dumper& D;
    Array fns, recs;
    std::set<const Decl*> seen;
    V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl* d)
    {
        if (!d) return true;
        if (!isa<TranslationUnitDecl>(d) && d->getLocation().isValid() && !D.inRoot(d->getLocation()))
            return true;
        return RecursiveASTVisitor<V>::TraverseDecl(d);
    }
    bool TraverseLambdaExpr(LambdaExpr*) { return true; }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (!F->doesThisDeclarationHaveABody() || F->isDependentContext() || F->isDeleted() || F->isImplicit()) return true;
        if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate) return true;
        if (F->isDefaulted() && !F->hasBody()) return true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return true;
        if (!seen.insert(F).second) return true;
        fns.push_back(D.function(F));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
        if (!seen.insert(R).second) return true;
        D.vars.clear();
        recs.push_back(D.record(R));
        return true;
    }
};

static std::string OutFile;
struct Cons : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Dumper D(C);
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << Value(Object{{"functions", std::move(v.fns)}, {"records", std::move(v.recs)}, {"files", std::move(D.fileList)}});
    }
};
struct Act : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Cons>();
    }
};
struct Fac : tooling::FrontendActionFactory
{
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); }
};

int main(int argc, const char** argv)
{
    if (argc < 5) return 2;
    Root = argv[1];
    OutFile = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    Fac f;
    return tool.run(&f);
}
