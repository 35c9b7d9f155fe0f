// factgen: dumps a normalised, fully resolved form of every function body,
// record and enum of the analysed sources as JSON lines. It only parses and
// type-checks (libTooling); nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root;                 // prefix of analysed files
static std::set<std::string> g_done;       // functions/records already dumped
static std::set<std::string> g_fns;        // callee descriptors already dumped
static std::set<std::string> g_files;      // files with analysed functions
static bool g_error = false;

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy P;
    std::map<const Decl*, std::string> ids;
    std::map<const CXXRecordDecl*, const LambdaExpr*> lambdas;
    static inline unsigned counter = 0;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), P(c.getLangOpts()) {
        P.SuppressTagKeyword = true;
        P.Bool = true;
        P.SuppressUnwrittenScope = true;
        P.SuppressInlineNamespace = true;
        P.AnonymousTagLocations = false;
    }

    std::string fileOf(SourceLocation L) {
        auto X = SM.getExpansionLoc(L);
        auto F = SM.getFilename(X);
        auto s = F.str();
        if(auto FE = SM.getFileEntryRefForID(SM.getFileID(X))) {
            auto rp = FE->getFileEntry().tryGetRealPathName();
            if(!rp.empty()) s = rp.str();
        }
        return s;
    }
    bool inRoot(SourceLocation L) {
        if(L.isInvalid()) return false;
        return fileOf(L).rfind(g_root, 0) == 0;
    }
    int line(SourceLocation L) { return static_cast<int>(SM.getExpansionLineNumber(L)); }
    int col(SourceLocation L) { return static_cast<int>(SM.getExpansionColumnNumber(L)); }

    std::string ty(QualType T) {
        if(T.isNull()) return "";
        return T.getCanonicalType().getAsString(P);
    }

    std::string lid(const Decl* D) {
        auto it = ids.find(D);
        if(it != ids.end()) return it->second;
        auto s = "v" + std::to_string(++counter);
        ids[D] = s;
        return s;
    }

    std::string qn(const NamedDecl* D) { return D->getQualifiedNameAsString(); }

    std::string fid(const FunctionDecl* F) {
        F = F->getCanonicalDecl();
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if(M->getParent()->isLambda()) {
                auto* R = M->getParent();
                std::string enc = "?";
                auto* DC = R->getDeclContext();
                while(DC && !isa<FunctionDecl>(DC) && !isa<TranslationUnitDecl>(DC)) DC = DC->getParent();
                if(auto* FD = dyn_cast_or_null<FunctionDecl>(DC)) enc = fid(FD);
                std::string s = enc + "::lambda@" + std::to_string(line(R->getBeginLoc())) + ":"
                              + std::to_string(col(R->getBeginLoc()));
                if(M->getDeclName().getNameKind() == DeclarationName::CXXConversionFunctionName) s += "::conv";
                s += "(";
                for(auto* p : F->parameters()) s += ty(p->getType()) + ",";
                s += ")";
                return s;
            }
        }
        std::string s;
        llvm::raw_string_ostream os(s);
        F->getNameForDiagnostic(os, P, true);
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) {
            // class template arguments
            if(auto* S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) {
                os << "@" << ty(QualType(S->getTypeForDecl(), 0));
            }
        }
        os << "(";
        for(auto* p : F->parameters()) os << ty(p->getType()) << ",";
        os << ")";
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if(M->isConst()) os << "const";
            if(M->getRefQualifier() == RQ_LValue) os << "&";
            if(M->getRefQualifier() == RQ_RValue) os << "&&";
        }
        return os.str();
    }

    static const char* refKind(QualType T) {
        if(T->isRValueReferenceType()) return "r";
        if(T->isLValueReferenceType()) {
            auto p = T->getPointeeType();
            return p.isConstQualified() ? "cl" : "l";
        }
        if(T->isPointerType()) {
            auto p = T->getPointeeType();
            if(p->isFunctionType()) return "v";
            return p.isConstQualified() ? "cp" : "p";
        }
        return "v";
    }

    void fnDesc(const FunctionDecl* F, const std::string& id) {
        if(!g_fns.insert(id).second) return;
        Object o;
        o["kind"] = "fn";
        o["id"] = id;
        o["q"] = qn(F);
        Array ps;
        for(auto* p : F->parameters()) ps.push_back(refKind(p->getType()));
        o["pk"] = std::move(ps);
        o["ret"] = ty(F->getReturnType());
        o["noret"] = F->isNoReturn();
        o["var"] = F->isVariadic();
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            o["clst"] = ty(C.getTypeDeclType(M->getParent()));
            o["const"] = M->isConst();
            o["virt"] = M->isVirtual();
            o["static"] = M->isStatic();
            o["lam"] = M->getParent()->isLambda();
        }
        llvm::outs() << Value(std::move(o)) << "\n";
    }
    std::string fref(const FunctionDecl* F) {
        auto id = fid(F);
        fnDesc(F, id);
        return id;
    }

    static Object node(const char* k) {
        Object o;
        o["k"] = k;
        return o;
    }
    Object nodeL(const char* k, SourceLocation L) {
        Object o;
        o["k"] = k;
        o["l"] = line(L);
        return o;
    }

    Array exprs(llvm::ArrayRef<const Expr*> a) {
        Array r;
        for(auto* e : a) r.push_back(E(e));
        return r;
    }
    template<typename Range> Array exprsR(Range&& rg) {
        Array r;
        for(const Expr* e : rg) {
            r.push_back(E(e));
        }
        return r;
    }

    Value intVal(const llvm::APSInt& v) {
        llvm::SmallString<40> s;
        v.toString(s, 10);
        Object o = node("int");
        o["v"] = std::string(s.str());
        return o;
    }

    Value E(const Expr* e) {
        if(!e) return nullptr;
        // strip
        for(;;) {
            if(auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if(auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if(auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if(auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if(auto* x = dyn_cast<ChooseExpr>(e)) e = x->getChosenSubExpr();
            else if(auto* x = dyn_cast<GenericSelectionExpr>(e)) e = x->getResultExpr();
            else break;
        }
        if(auto* x = dyn_cast<CastExpr>(e)) {
            auto ck = x->getCastKind();
            bool expl = isa<ExplicitCastExpr>(x);
            switch(ck) {
                case CK_IntegralCast:
                case CK_FloatingToIntegral:
                case CK_IntegralToFloating:
                case CK_FloatingCast: {
                    Object o = node("cast");
                    o["t"] = ty(x->getType());
                    o["ft"] = ty(x->getSubExpr()->getType());
                    o["e"] = E(x->getSubExpr());
                    if(expl) o["x"] = true;
                    return o;
                }
                case CK_IntegralToBoolean:
                case CK_PointerToBoolean:
                case CK_FloatingToBoolean:
                case CK_MemberPointerToBoolean: {
                    Object o = node("tobool");
                    o["e"] = E(x->getSubExpr());
                    return o;
                }
                case CK_NullToPointer: return node("null");
                case CK_ToVoid: {
                    Object o = node("void");
                    o["e"] = E(x->getSubExpr());
                    return o;
                }
                default:
                    // ConstructorConversion / UserDefinedConversion carry the
                    // call in the sub expression
                    return E(x->getSubExpr());
            }
        }
        switch(e->getStmtClass()) {
            case Stmt::IntegerLiteralClass: {
                auto* x = cast<IntegerLiteral>(e);
                llvm::SmallString<40> s;
                x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
                Object o = node("int");
                o["v"] = std::string(s.str());
                return o;
            }
            case Stmt::CharacterLiteralClass: {
                Object o = node("int");
                o["v"] = std::to_string(cast<CharacterLiteral>(e)->getValue());
                return o;
            }
            case Stmt::FloatingLiteralClass: {
                Object o = node("flt");
                llvm::SmallString<40> s;
                cast<FloatingLiteral>(e)->getValue().toString(s);
                o["v"] = std::string(s.str());
                return o;
            }
            case Stmt::StringLiteralClass: {
                Object o = node("str");
                auto* sl = cast<StringLiteral>(e);
                if(sl->getCharByteWidth() == 1) {
                    auto b = sl->getBytes();
                    if(llvm::json::isUTF8(b)) o["v"] = b.str();
                    else o["v"] = llvm::json::fixUTF8(b);
                }
                return o;
            }
            case Stmt::CXXBoolLiteralExprClass: {
                Object o = node("bool");
                o["v"] = cast<CXXBoolLiteralExpr>(e)->getValue();
                return o;
            }
            case Stmt::CXXNullPtrLiteralExprClass:
            case Stmt::GNUNullExprClass: return node("null");
            case Stmt::CXXThisExprClass: return node("this");
            case Stmt::UnaryExprOrTypeTraitExprClass: {
                Expr::EvalResult R;
                if(!e->isValueDependent() && e->EvaluateAsInt(R, C)) {
                    Value v = intVal(R.Val.getInt());
                    auto* x = cast<UnaryExprOrTypeTraitExpr>(e);
                    (*v.getAsObject())["szof"] = ty(x->getTypeOfArgument());
                    return v;
                }
                return node("?");
            }
            case Stmt::SizeOfPackExprClass: {
                Expr::EvalResult R;
                if(!e->isValueDependent() && e->EvaluateAsInt(R, C)) return intVal(R.Val.getInt());
                return node("?");
            }
            case Stmt::DeclRefExprClass: return declRef(cast<DeclRefExpr>(e));
            case Stmt::MemberExprClass: {
                auto* x = cast<MemberExpr>(e);
                auto* D = x->getMemberDecl();
                if(auto* F = dyn_cast<FieldDecl>(D)) {
                    Object o = node("mem");
                    o["o"] = E(x->getBase());
                    o["m"] = qn(F);
                    o["n"] = F->getNameAsString();
                    if(x->isArrow()) o["p"] = true;
                    return o;
                }
                if(auto* V = dyn_cast<VarDecl>(D)) return gvar(V);
                if(auto* EC = dyn_cast<EnumConstantDecl>(D)) return enumc(EC);
                if(auto* M = dyn_cast<FunctionDecl>(D)) {
                    Object o = node("fref");
                    o["f"] = fref(M);
                    return o;
                }
                return node("?");
            }
            case Stmt::UnaryOperatorClass: {
                auto* x = cast<UnaryOperator>(e);
                if(x->getOpcode() == UO_Extension) return E(x->getSubExpr());
                Object o = nodeL("un", x->getOperatorLoc());
                o["op"] = x->getOpcode() == UO_PostInc   ? "post++"
                        : x->getOpcode() == UO_PostDec ? "post--"
                                                       : UnaryOperator::getOpcodeStr(x->getOpcode()).str();
                o["e"] = E(x->getSubExpr());
                return o;
            }
            case Stmt::BinaryOperatorClass:
            case Stmt::CompoundAssignOperatorClass: {
                auto* x = cast<BinaryOperator>(e);
                Object o = nodeL("bin", x->getOperatorLoc());
                o["op"] = x->getOpcodeStr().str();
                o["a"] = E(x->getLHS());
                o["b"] = E(x->getRHS());
                if(x->getType()->isIntegralOrEnumerationType()) o["t"] = ty(x->getType());
                if(x->isComparisonOp()) {
                    auto lt = x->getLHS()->IgnoreParenImpCasts()->getType();
                    if(x->getLHS()->getType()->isUnsignedIntegerType() || lt->isUnsignedIntegerType()) o["u"] = true;
                }
                return o;
            }
            case Stmt::CXXRewrittenBinaryOperatorClass: {
                auto* x = cast<CXXRewrittenBinaryOperator>(e);
                auto d = x->getDecomposedForm();
                Object o = nodeL("op", x->getOperatorLoc());
                o["op"] = BinaryOperator::getOpcodeStr(d.Opcode).str();
                Array a;
                a.push_back(E(d.LHS));
                a.push_back(E(d.RHS));
                o["a"] = std::move(a);
                if(auto* oc = dyn_cast<CXXOperatorCallExpr>(x->getSemanticForm()->IgnoreUnlessSpelledInSource())) {
                    if(auto* F = oc->getDirectCallee()) o["f"] = fref(F);
                }
                return o;
            }
            case Stmt::ConditionalOperatorClass: {
                auto* x = cast<ConditionalOperator>(e);
                // assert()
                auto* fe = x->getFalseExpr()->IgnoreParenImpCasts();
                if(auto* ce = dyn_cast<CallExpr>(fe)) {
                    if(auto* F = ce->getDirectCallee()) {
                        if(F->getName() == "__assert_fail") {
                            Object o = nodeL("assert", x->getBeginLoc());
                            o["e"] = E(x->getCond());
                            return o;
                        }
                    }
                }
                Object o = nodeL("cond", x->getQuestionLoc());
                o["c"] = E(x->getCond());
                o["a"] = E(x->getTrueExpr());
                o["b"] = E(x->getFalseExpr());
                return o;
            }
            case Stmt::ArraySubscriptExprClass: {
                auto* x = cast<ArraySubscriptExpr>(e);
                Object o = nodeL("idx", x->getRBracketLoc());
                o["o"] = E(x->getBase());
                o["i"] = E(x->getIdx());
                return o;
            }
            case Stmt::CXXOperatorCallExprClass: {
                auto* x = cast<CXXOperatorCallExpr>(e);
                auto* F = x->getDirectCallee();
                auto op = x->getOperator();
                if(op == OO_Call && F) {
                    Object o = nodeL("mcall", x->getBeginLoc());
                    o["f"] = fref(F);
                    o["o"] = E(x->getArg(0));
                    Array a;
                    for(unsigned i = 1; i < x->getNumArgs(); i++) a.push_back(E(x->getArg(i)));
                    o["a"] = std::move(a);
                    o["oc"] = true;
                    return o;
                }
                Object o = nodeL("op", x->getOperatorLoc());
                o["op"] = std::string(getOperatorSpelling(op));
                if(F) o["f"] = fref(F);
                Array a;
                bool postfix = (op == OO_PlusPlus || op == OO_MinusMinus) && x->getNumArgs() == 2;
                unsigned n = postfix ? 1 : x->getNumArgs();
                for(unsigned i = 0; i < n; i++) a.push_back(E(x->getArg(i)));
                if(postfix) o["op"] = op == OO_PlusPlus ? "post++" : "post--";
                o["a"] = std::move(a);
                return o;
            }
            case Stmt::CXXMemberCallExprClass: {
                auto* x = cast<CXXMemberCallExpr>(e);
                auto* M = x->getMethodDecl();
                if(!M) {
                    Object o = nodeL("icall", x->getBeginLoc());
                    o["c"] = E(x->getCallee());
                    o["a"] = exprsR(x->arguments());
                    return o;
                }
                auto* obj = x->getImplicitObjectArgument();
                if(isa<CXXConversionDecl>(M)) {
                    Object o = nodeL("conv", x->getExprLoc());
                    o["f"] = fref(M);
                    o["t"] = ty(cast<CXXConversionDecl>(M)->getConversionType());
                    o["o"] = E(obj);
                    return o;
                }
                Object o = nodeL("mcall", x->getExprLoc());
                o["f"] = fref(M);
                o["o"] = E(obj);
                if(auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                    if(me->isArrow()) o["p"] = true;
                    if(M->isVirtual() && !me->hasQualifier()) o["v"] = true;
                }
                o["a"] = exprsR(x->arguments());
                return o;
            }
            case Stmt::CallExprClass: {
                auto* x = cast<CallExpr>(e);
                auto* F = x->getDirectCallee();
                if(F) {
                    Object o = nodeL("call", x->getBeginLoc());
                    o["f"] = fref(F);
                    o["a"] = exprsR(x->arguments());
                    if(auto* TA = F->getTemplateSpecializationArgs()) {
                        Array ta;
                        for(auto& a : TA->asArray()) {
                            if(a.getKind() == TemplateArgument::Type) ta.push_back(ty(a.getAsType()));
                            else if(a.getKind() == TemplateArgument::Integral) ta.push_back(llvm::toString(a.getAsIntegral(), 10));
                            else break;
                        }
                        o["ta"] = std::move(ta);
                    }
                    return o;
                }
                Object o = nodeL("icall", x->getBeginLoc());
                o["c"] = E(x->getCallee());
                o["a"] = exprsR(x->arguments());
                return o;
            }
            case Stmt::UserDefinedLiteralClass: {
                auto* x = cast<UserDefinedLiteral>(e);
                Object o = nodeL("call", x->getBeginLoc());
                if(auto* F = x->getDirectCallee()) o["f"] = fref(F);
                o["a"] = exprsR(x->arguments());
                return o;
            }
            case Stmt::CXXConstructExprClass:
            case Stmt::CXXTemporaryObjectExprClass: {
                auto* x = cast<CXXConstructExpr>(e);
                auto* K = x->getConstructor();
                if(K->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) {
                    if(K->isMoveConstructor() && !x->isElidable()) {
                        Object o = node("mv");
                        o["e"] = E(x->getArg(0));
                        return o;
                    }
                    Object o = node("cp");
                    o["e"] = E(x->getArg(0));
                    return o;
                }
                Object o = nodeL("ctor", x->getBeginLoc());
                o["f"] = fref(K);
                o["t"] = ty(x->getType());
                o["a"] = exprsR(x->arguments());
                return o;
            }
            case Stmt::InitListExprClass: {
                auto* x = cast<InitListExpr>(e);
                if(auto* S = x->getSemanticForm()) x = S;
                if(x->isTransparent() && x->getNumInits() == 1) return E(x->getInit(0));
                Object o = nodeL("init", x->getBeginLoc());
                o["t"] = ty(x->getType());
                Array a;
                for(unsigned i = 0; i < x->getNumInits(); i++) a.push_back(E(x->getInit(i)));
                o["a"] = std::move(a);
                if(auto* RT = x->getType()->getAs<RecordType>()) {
                    if(auto* RD = dyn_cast<CXXRecordDecl>(RT->getDecl())) {
                        Array fs;
                        for(unsigned i = 0; i < RD->getNumBases(); i++) fs.push_back("<base>");
                        for(auto* f : RD->fields()) fs.push_back(f->getNameAsString());
                        o["fs"] = std::move(fs);
                    }
                }
                return o;
            }
            case Stmt::ImplicitValueInitExprClass:
            case Stmt::CXXScalarValueInitExprClass: {
                Object o = node("zero");
                o["t"] = ty(e->getType());
                return o;
            }
            case Stmt::LambdaExprClass: return lambda(cast<LambdaExpr>(e));
            case Stmt::CXXNewExprClass: {
                auto* x = cast<CXXNewExpr>(e);
                Object o = nodeL("new", x->getBeginLoc());
                o["t"] = ty(x->getAllocatedType());
                if(x->getInitializer()) o["e"] = E(x->getInitializer());
                return o;
            }
            case Stmt::CXXDeleteExprClass: {
                Object o = nodeL("delete", e->getBeginLoc());
                o["e"] = E(cast<CXXDeleteExpr>(e)->getArgument());
                return o;
            }
            case Stmt::StmtExprClass: {
                // assert() expands to a statement expression in some modes
                Object o = nodeL("stmtexpr", e->getBeginLoc());
                o["s"] = S(cast<StmtExpr>(e)->getSubStmt());
                return o;
            }
            case Stmt::ArrayInitLoopExprClass: return E(cast<ArrayInitLoopExpr>(e)->getCommonExpr());
            case Stmt::OpaqueValueExprClass: return E(cast<OpaqueValueExpr>(e)->getSourceExpr());
            case Stmt::CXXInheritedCtorInitExprClass: return node("?");
            case Stmt::TypeTraitExprClass: {
                Object o = node("bool");
                o["v"] = cast<TypeTraitExpr>(e)->getValue();
                return o;
            }
            default: break;
        }
        Object o = nodeL("?", e->getBeginLoc());
        o["c"] = e->getStmtClassName();
        Array a;
        for(auto* c : e->children()) {
            if(auto* ce = dyn_cast_or_null<Expr>(c)) a.push_back(E(ce));
        }
        o["a"] = std::move(a);
        return o;
    }

    Value enumc(const EnumConstantDecl* D) {
        Object o = node("enum");
        o["n"] = qn(D);
        llvm::SmallString<40> s;
        D->getInitVal().toString(s, 10);
        o["v"] = std::string(s.str());
        return o;
    }

    Value gvar(const VarDecl* V) {
        Object o = node("gvar");
        o["n"] = qn(V);
        if(V->isStaticLocal()) o["n"] = "static " + qn(V) + "@" + lid(V);
        auto T = V->getType();
        if((V->isConstexpr() || T.isConstQualified()) && T->isIntegralOrEnumerationType() && V->hasInit()
           && !V->getInit()->isValueDependent()) {
            Expr::EvalResult R;
            if(V->getInit()->EvaluateAsInt(R, C)) {
                llvm::SmallString<40> s;
                R.Val.getInt().toString(s, 10);
                o["v"] = std::string(s.str());
            }
        }
        o["const"] = T.isConstQualified() || V->isConstexpr();
        return o;
    }

    Value declRef(const DeclRefExpr* x) {
        auto* D = x->getDecl();
        if(auto* EC = dyn_cast<EnumConstantDecl>(D)) return enumc(EC);
        if(auto* B = dyn_cast<BindingDecl>(D)) {
            Object o = node("var");
            o["n"] = B->getNameAsString();
            o["id"] = lid(B);
            return o;
        }
        if(auto* V = dyn_cast<VarDecl>(D)) {
            if(V->hasGlobalStorage()) return gvar(V);
            // local constexpr integral: keep as constant
            if(V->isConstexpr() && V->getType()->isIntegralOrEnumerationType()) return gvar(V);
            Object o = node("var");
            o["n"] = V->getNameAsString();
            o["id"] = lid(V);
            return o;
        }
        if(auto* F = dyn_cast<FunctionDecl>(D)) {
            Object o = node("fref");
            o["f"] = fref(F);
            return o;
        }
        if(auto* TP = dyn_cast<TemplateParamObjectDecl>(D)) {
            (void)TP;
        }
        Object o = node("gvar");
        o["n"] = qn(D);
        return o;
    }

    Value lambda(const LambdaExpr* x) {
        Object o = nodeL("lambda", x->getBeginLoc());
        auto* M = x->getCallOperator();
        Array caps;
        auto ci = x->capture_init_begin();
        for(auto& c : x->captures()) {
            Object co;
            if(c.capturesThis()) {
                co["this"] = true;
                co["ref"] = c.getCaptureKind() == LCK_This;
            } else if(c.capturesVariable()) {
                auto* V = c.getCapturedVar();
                co["id"] = lid(V);
                co["n"] = V->getNameAsString();
                co["ref"] = c.getCaptureKind() == LCK_ByRef;
                auto* VD = dyn_cast<VarDecl>(V);
                if(VD && VD->isInitCapture()) {
                    co["ic"] = true;
                    co["init"] = E(VD->getInit());
                } else if(ci && *ci) {
                    co["init"] = E(*ci);
                }
            }
            caps.push_back(std::move(co));
            ++ci;
        }
        o["caps"] = std::move(caps);
        if(x->isGenericLambda()) {
            o["gen"] = true;
            Array sp;
            if(auto* FT = x->getLambdaClass()->getDependentLambdaCallOperator()) {
                for(auto* s : FT->specializations()) {
                    sp.push_back(fref(s));
                    function(s);
                }
            }
            o["sp"] = std::move(sp);
        } else {
            o["f"] = fref(M);
            function(M);
        }
        return o;
    }

    Value varDecl(const VarDecl* V) {
        Object o = nodeL("decl", V->getLocation());
        o["id"] = lid(V);
        o["n"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        o["rk"] = refKind(V->getType());
        if(V->isStaticLocal()) o["static"] = true;
        if(V->isConstexpr()) o["cexpr"] = true;
        if(V->getInit()) o["init"] = E(V->getInit());
        if(auto* D = dyn_cast<DecompositionDecl>(V)) {
            Array b;
            int i = 0;
            for(auto* B : D->bindings()) {
                Object bo;
                bo["id"] = lid(B);
                bo["n"] = B->getNameAsString();
                bo["i"] = i++;
                if(auto* ME = dyn_cast_or_null<MemberExpr>(B->getBinding() ? B->getBinding()->IgnoreImplicit() : nullptr)) {
                    bo["field"] = ME->getMemberDecl()->getNameAsString();
                    bo["m"] = qn(ME->getMemberDecl());
                }
                if(auto* HV = B->getHoldingVar()) {
                    // references to the binding may go through the holder
                    ids[HV] = lid(B);
                }
                b.push_back(std::move(bo));
            }
            o["b"] = std::move(b);
        }
        return o;
    }

    Value S(const Stmt* s) {
        if(!s) return nullptr;
        if(auto* e = dyn_cast<Expr>(s)) {
            Object o = nodeL("expr", e->getBeginLoc());
            o["e"] = E(e);
            return o;
        }
        switch(s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                Object o = node("block");
                Array a;
                for(auto* c : cast<CompoundStmt>(s)->body()) a.push_back(S(c));
                o["s"] = std::move(a);
                return o;
            }
            case Stmt::DeclStmtClass: {
                Array a;
                for(auto* d : cast<DeclStmt>(s)->decls()) {
                    if(auto* V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V));
                }
                Object o = node("decls");
                o["s"] = std::move(a);
                return o;
            }
            case Stmt::NullStmtClass: return node("null");
            case Stmt::IfStmtClass: {
                auto* x = cast<IfStmt>(s);
                Object o = nodeL("if", x->getIfLoc());
                if(x->getInit()) o["init"] = S(x->getInit());
                if(x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
                if(auto nd = x->getNondiscardedCase(C)) {
                    // if constexpr: only the taken branch exists
                    Object b = node("block");
                    Array a;
                    if(x->getInit()) a.push_back(S(x->getInit()));
                    if(*nd) a.push_back(S(*nd));
                    b["s"] = std::move(a);
                    return b;
                }
                o["c"] = E(x->getCond());
                o["a"] = S(x->getThen());
                if(x->getElse()) o["b"] = S(x->getElse());
                return o;
            }
            case Stmt::ForStmtClass: {
                auto* x = cast<ForStmt>(s);
                Object o = nodeL("for", x->getForLoc());
                if(x->getInit()) o["init"] = S(x->getInit());
                if(x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
                if(x->getCond()) o["c"] = E(x->getCond());
                if(x->getInc()) o["inc"] = E(x->getInc());
                o["s"] = S(x->getBody());
                return o;
            }
            case Stmt::WhileStmtClass: {
                auto* x = cast<WhileStmt>(s);
                Object o = nodeL("while", x->getWhileLoc());
                if(x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
                o["c"] = E(x->getCond());
                o["s"] = S(x->getBody());
                return o;
            }
            case Stmt::DoStmtClass: {
                auto* x = cast<DoStmt>(s);
                Object o = nodeL("do", x->getDoLoc());
                o["c"] = E(x->getCond());
                o["s"] = S(x->getBody());
                return o;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto* x = cast<CXXForRangeStmt>(s);
                Object o = nodeL("rfor", x->getForLoc());
                if(x->getInit()) o["init"] = S(x->getInit());
                o["v"] = varDecl(x->getLoopVariable());
                o["r"] = E(x->getRangeInit());
                o["s"] = S(x->getBody());
                return o;
            }
            case Stmt::SwitchStmtClass: {
                auto* x = cast<SwitchStmt>(s);
                Object o = nodeL("switch", x->getSwitchLoc());
                if(x->getInit()) o["init"] = S(x->getInit());
                if(x->getConditionVariable()) o["cv"] = varDecl(x->getConditionVariable());
                o["c"] = E(x->getCond());
                o["s"] = S(x->getBody());
                o["enum"] = ty(x->getCond()->IgnoreParenImpCasts()->getType());
                o["all"] = x->isAllEnumCasesCovered();
                return o;
            }
            case Stmt::CaseStmtClass: {
                auto* x = cast<CaseStmt>(s);
                Object o = nodeL("case", x->getCaseLoc());
                o["v"] = E(x->getLHS());
                o["s"] = S(x->getSubStmt());
                return o;
            }
            case Stmt::DefaultStmtClass: {
                Object o = nodeL("default", s->getBeginLoc());
                o["s"] = S(cast<DefaultStmt>(s)->getSubStmt());
                return o;
            }
            case Stmt::ReturnStmtClass: {
                auto* x = cast<ReturnStmt>(s);
                Object o = nodeL("return", x->getReturnLoc());
                if(x->getRetValue()) o["e"] = E(x->getRetValue());
                return o;
            }
            case Stmt::BreakStmtClass: return nodeL("break", s->getBeginLoc());
            case Stmt::ContinueStmtClass: return nodeL("continue", s->getBeginLoc());
            case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
            case Stmt::LabelStmtClass: return S(cast<LabelStmt>(s)->getSubStmt());
            default: break;
        }
        Object o = nodeL("?", s->getBeginLoc());
        o["c"] = s->getStmtClassName();
        return o;
    }

    void function(const FunctionDecl* F0) {
        const FunctionDecl* F = nullptr;
        if(!F0->hasBody(F) || !F) return;
        if(F->isDependentContext()) return;
        if(!inRoot(F->getLocation())) return;
        auto id = fid(F);
        if(!g_done.insert("F " + id).second) return;
        // make sure the body of a template instantiation is there
        if(!F->getBody()) return;
        g_files.insert(fileOf(F->getLocation()));
        Object o;
        o["kind"] = "func";
        o["id"] = id;
        o["q"] = qn(F);
        o["file"] = fileOf(F->getLocation());
        o["line"] = line(F->getLocation());
        o["end"] = line(F->getEndLoc());
        Array ps;
        for(auto* p : F->parameters()) {
            Object po;
            po["n"] = p->getNameAsString();
            po["id"] = lid(p);
            po["t"] = ty(p->getType());
            po["rk"] = refKind(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        o["ret"] = ty(F->getReturnType());
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            o["const"] = M->isConst();
            o["virt"] = M->isVirtual();
            o["static"] = M->isStatic();
            o["lam"] = M->getParent()->isLambda();
            o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
            Array ov;
            for(auto* b : M->overridden_methods()) ov.push_back(qn(b));
            o["over"] = std::move(ov);
            if(auto* K = dyn_cast<CXXConstructorDecl>(F)) {
                Array in;
                for(auto* i : K->inits()) {
                    Object io;
                    if(i->isMemberInitializer()) io["m"] = i->getMember()->getNameAsString();
                    else if(i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                    else continue;
                    io["e"] = E(i->getInit());
                    io["w"] = i->isWritten();
                    in.push_back(std::move(io));
                }
                o["inits"] = std::move(in);
                o["ctor"] = true;
            }
            if(isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        }
        o["body"] = S(F->getBody());
        fnDesc(F, id);
        llvm::outs() << Value(std::move(o)) << "\n";
    }

    void record(const CXXRecordDecl* R) {
        if(!R->isCompleteDefinition() || R->isDependentContext() || R->isLambda()) return;
        if(!inRoot(R->getLocation())) return;
        auto t = ty(C.getTypeDeclType(R));
        if(!g_done.insert("R " + t).second) return;
        Object o;
        o["kind"] = "rec";
        o["q"] = qn(R);
        o["t"] = t;
        o["file"] = fileOf(R->getLocation());
        o["line"] = line(R->getLocation());
        Array fs;
        for(auto* f : R->fields()) {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = ty(f->getType());
            if(f->isMutable()) fo["mut"] = true;
            if(f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for(auto& b : R->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        Array ms;
        for(auto* m : R->methods()) {
            if(m->isImplicit()) continue;
            Object mo;
            mo["n"] = m->getNameAsString();
            mo["id"] = fid(m);
            mo["const"] = m->isConst();
            mo["virt"] = m->isVirtual();
            mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        llvm::outs() << Value(std::move(o)) << "\n";
    }

    void enumd(const EnumDecl* D) {
        if(!D->isCompleteDefinition() || !inRoot(D->getLocation())) return;
        auto q = qn(D);
        if(!g_done.insert("E " + q).second) return;
        Object o;
        o["kind"] = "enum";
        o["q"] = q;
        o["file"] = fileOf(D->getLocation());
        o["under"] = ty(D->getIntegerType());
        Array cs;
        for(auto* c : D->enumerators()) {
            llvm::SmallString<40> s;
            c->getInitVal().toString(s, 10);
            Array p;
            p.push_back(c->getNameAsString());
            p.push_back(std::string(s.str()));
            cs.push_back(std::move(p));
        }
        o["c"] = std::move(cs);
        llvm::outs() << Value(std::move(o)) << "\n";
    }

    void typedefd(const TypedefNameDecl* D) {
        if(!inRoot(D->getLocation()) || D->getDeclContext()->isDependentContext()) return;
        if(D->getUnderlyingType()->isDependentType()) return;
        auto q = qn(D);
        if(!g_done.insert("T " + q).second) return;
        Object o;
        o["kind"] = "alias";
        o["q"] = q;
        o["t"] = ty(D->getUnderlyingType());
        llvm::outs() << Value(std::move(o)) << "\n";
    }

    void globalVar(const VarDecl* V) {
        if(!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V->getLocation())) return;
        if(V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return;
        if(V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !V->hasInit()) return;
        auto q = qn(V);
        if(!g_done.insert("G " + q).second) return;
        Object o;
        o["kind"] = "gvar";
        o["q"] = q;
        o["t"] = ty(V->getType());
        o["file"] = fileOf(V->getLocation());
        o["line"] = line(V->getLocation());
        if(V->getInit() && !V->getInit()->isValueDependent()) o["init"] = E(V->getInit());
        llvm::outs() << Value(std::move(o)) << "\n";
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& D;
    explicit Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if(M->getParent()->isLambda()) return true;  // dumped with its LambdaExpr
        }
        if(F->isThisDeclarationADefinition()) D.function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        D.record(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* R) {
        D.enumd(R);
        return true;
    }
    bool VisitTypedefNameDecl(TypedefNameDecl* R) {
        D.typedefd(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        D.globalVar(V);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if(C.getDiagnostics().hasErrorOccurred()) {
            g_error = true;
            return;
        }
        Dumper d(C);
        Visitor v(d);
        for(auto* D : C.getTranslationUnitDecl()->decls()) {
            // declarations of system headers hold no analysed function
            // (lambda bodies are dumped where the lambda expression is)
            if(!d.inRoot(D->getLocation())) continue;
            v.TraverseDecl(D);
        }
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

// usage: factgen ROOT FILE... -- FLAGS...
int main(int argc, char** argv) {
    if(argc < 3) return 2;
    g_root = argv[1];
    std::vector<std::string> files, flags;
    bool f = false;
    for(int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if(!f && a == "--") { f = true; continue; }
        (f ? flags : files).push_back(a);
    }
    int rc = 0;
    for(auto& file : files) {
        tooling::FixedCompilationDatabase db("/", flags);
        tooling::ClangTool tool(db, {file});
        tool.setPrintErrorMessage(false);
        int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
        Object o;
        o["kind"] = "tu";
        o["file"] = file;
        o["ok"] = r == 0;
        llvm::outs() << Value(std::move(o)) << "\n";
        if(r) rc = 1;
    }
    return rc;
}
