// qgen ROOT FILE -- FLAGS: lists behaviour-preserving rewritings of the
// functions of FILE (and headers under ROOT) as text edits, one JSON per line.
// Used by tools/quiet.py to find rules that depend on how code is written.
#include <clang/AST/ASTContext.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <set>
using namespace clang;
using namespace llvm::json;
static std::string g_root;
struct E { std::string file; unsigned off, len; std::string text; };

struct G : RecursiveASTVisitor<G> {
    ASTContext& C; SourceManager& SM; const LangOptions& LO;
    const FunctionDecl* cur = nullptr;
    G(ASTContext& c) : C(c), SM(c.getSourceManager()), LO(c.getLangOpts()) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool ok(SourceLocation l) { return l.isValid() && !l.isMacroID() && SM.getFilename(l).starts_with(g_root); }
    bool ok(SourceRange r) { return ok(r.getBegin()) && ok(r.getEnd()) && SM.getFileID(r.getBegin()) == SM.getFileID(r.getEnd()); }
    bool macros(const Stmt* s) {
        if(!s) return false;
        if(s->getBeginLoc().isMacroID() || s->getEndLoc().isMacroID()) return true;
        for(auto* c : s->children()) if(macros(c)) return true;
        return false;
    }
    std::string txt(SourceRange r) { return Lexer::getSourceText(CharSourceRange::getTokenRange(r), SM, LO).str(); }
    std::string txt(const Stmt* s) { return txt(s->getSourceRange()); }
    unsigned off(SourceLocation l) { return SM.getFileOffset(l); }
    unsigned endOff(SourceLocation l) { return SM.getFileOffset(Lexer::getLocForEndOfToken(l, 0, SM, LO)); }
    std::string fileOf(SourceLocation l) { return SM.getFilename(l).str(); }
    E rep(SourceRange r, std::string t) { return {fileOf(r.getBegin()), off(r.getBegin()), endOff(r.getEnd()) - off(r.getBegin()), t}; }
    E ins(SourceLocation l, std::string t) { return {fileOf(l), off(l), 0, t}; }
    std::string id(SourceLocation l) { return std::to_string(off(l)); }
    // end of a statement including a following semicolon
    SourceLocation semi(const Stmt* s) {
        auto t = Lexer::findNextToken(s->getEndLoc(), SM, LO);
        if(t && t->is(tok::semi)) return t->getLocation();
        return s->getEndLoc();
    }
    bool needSemi(const Stmt* s) { return isa<Expr>(s) || isa<ReturnStmt>(s) || isa<BreakStmt>(s) || isa<ContinueStmt>(s); }
    SourceRange full(const Stmt* s) { return needSemi(s) ? SourceRange(s->getBeginLoc(), semi(s)) : s->getSourceRange(); }
    void emit(const char* kind, SourceLocation at, std::vector<E> es) {
        for(auto& e : es) if(!StringRef(e.file).starts_with(g_root)) return;
        Array a;
        for(auto& e : es) a.push_back(Object{{"file", e.file}, {"off", (int64_t)e.off}, {"len", (int64_t)e.len}, {"text", e.text}});
        Object o{{"kind", kind}, {"line", (int64_t)SM.getSpellingLineNumber(at)}, {"file", fileOf(at)}, {"fn", cur ? cur->getQualifiedNameAsString() : ""}, {"fnoff", cur ? (int64_t)off(cur->getBeginLoc()) : 0}, {"edits", std::move(a)}};
        llvm::outs() << Value(std::move(o)) << "\n";
    }
    template<class T> bool contains(const Stmt* s, bool intoLambda = false) {
        if(!s) return false;
        if(isa<T>(s)) return true;
        if(!intoLambda && isa<LambdaExpr>(s)) return false;
        for(auto* c : s->children()) if(contains<T>(c, intoLambda)) return true;
        return false;
    }
    bool jumps(const Stmt* s) { return contains<ReturnStmt>(s) || contains<BreakStmt>(s) || contains<ContinueStmt>(s); }
    const Stmt* parent(const Stmt* s) {
        auto ps = C.getParents(*s);
        return ps.empty() ? nullptr : ps[0].get<Stmt>();
    }
    bool inCompound(const Stmt* s) { auto* p = parent(s); return p && isa<CompoundStmt>(p); }
    bool endsReturn(const Stmt* s) {
        if(auto* c = dyn_cast<CompoundStmt>(s)) return !c->body_empty() && isa<ReturnStmt>(c->body_back());
        return isa<ReturnStmt>(s);
    }
    // helper functions go after the last #include
    SourceLocation top(SourceLocation l) {
        auto fid = SM.getFileID(l);
        auto buf = SM.getBufferData(fid);
        size_t p = buf.rfind("\n#include");
        if(p == StringRef::npos) return {};
        p = buf.find('\n', p + 1);
        return SM.getLocForStartOfFile(fid).getLocWithOffset(p + 1);
    }
    std::string blk(const Stmt* s) { return isa<CompoundStmt>(s) ? txt(s) : "{ " + txt(full(s)) + " }"; }

    bool TraverseFunctionDecl(FunctionDecl* F) { auto* o = cur; cur = F; fun(F); bool r = RecursiveASTVisitor::TraverseFunctionDecl(F); cur = o; return r; }
    bool TraverseCXXMethodDecl(CXXMethodDecl* F) { auto* o = cur; if(!F->getParent()->isLambda()) { cur = F; fun(F); } bool r = RecursiveASTVisitor::TraverseCXXMethodDecl(F); cur = o; return r; }
    bool TraverseCXXConstructorDecl(CXXConstructorDecl* F) { auto* o = cur; cur = F; bool r = RecursiveASTVisitor::TraverseCXXConstructorDecl(F); cur = o; return r; }
    bool TraverseCXXDestructorDecl(CXXDestructorDecl* F) { auto* o = cur; cur = F; bool r = RecursiveASTVisitor::TraverseCXXDestructorDecl(F); cur = o; return r; }

    void fun(FunctionDecl* F) {
        if(!F->isThisDeclarationADefinition() || !F->hasBody() || !ok(F->getSourceRange()) || F->isDefaulted() || !F->getDeclName().isIdentifier() || F->isMain()) return;
        auto* B = dyn_cast<CompoundStmt>(F->getBody());
        if(!B || macros(B) || F->isConstexpr()) return;
        // the whole body in a local closure
        auto ret = std::string(F->getReturnType()->isVoidType() ? "void" : "");
        {
            auto h = txt(SourceRange(F->getBeginLoc(), B->getBeginLoc()));
            auto p = h.rfind("->");
            if(ret.empty() && p != std::string::npos) {
                ret = h.substr(p + 2, h.size() - p - 3);
                for(auto w : {"override", "noexcept", "final"}) if(auto q = ret.find(w); q != std::string::npos) ret.erase(q, strlen(w));
            }
        }
        if(!ret.empty()) emit("bodywrap", B->getBeginLoc(), {rep(B->getSourceRange(), "{ auto q_impl = [&]() -> " + ret + " " + txt(B) + "; return q_impl(); }")});
        // members through local references
        if(auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if(!M->isStatic() && !contains<LambdaExpr>(B)) {
                std::map<std::string, std::vector<SourceLocation>> uses;
                members(B, uses);
                for(auto& [n, ls] : uses) {
                    std::vector<E> es{ins(B->getLBracLoc().getLocWithOffset(1), " auto& q_" + n + " = " + n + ";")};
                    for(auto l : ls) es.push_back({fileOf(l), off(l), (unsigned)n.size(), "q_" + n});
                    emit("memalias", B->getBeginLoc(), es);
                }
            }
        }
        // an extracted function
        bool tmpl = F->getDescribedFunctionTemplate() || (isa<CXXMethodDecl>(F) && (cast<CXXMethodDecl>(F)->getParent()->getDescribedClassTemplate() || isa<ClassTemplatePartialSpecializationDecl>(cast<CXXMethodDecl>(F)->getParent())));
        for(auto* P : F->parameters()) if(P->hasDefaultArg() || !P->getDeclName()) return;
        if(F->getTemplateSpecializationKind() != TSK_Undeclared) return;
        std::string args;
        for(auto* P : F->parameters()) {
            auto n = P->getNameAsString();
            auto t = P->getType();
            bool mv = t->isRValueReferenceType() || (!t->isReferenceType() && !t->isScalarType() && !t.isConstQualified());
            args += (args.empty() ? "" : ", ") + (mv && !F->isTemplated() ? "std::move(" + n + ")" : n);
        }
        auto name = F->getNameAsString();
        auto head = txt(SourceRange(F->getBeginLoc(), F->getBodyRBrace()));
        if(tmpl) return;
        unsigned no = off(F->getLocation()) - off(F->getBeginLoc());
        unsigned bo = off(B->getBeginLoc()) - off(F->getBeginLoc());
        if(bo <= no) return;
        auto sig = head.substr(0, bo), body = head.substr(bo);
        auto isig = sig;
        isig.replace(no, name.size(), "q_" + name);
        auto* M = dyn_cast<CXXMethodDecl>(F);
        if(!M) {
            emit("helperfn", F->getBeginLoc(), {ins(F->getBeginLoc(), isig + body + "\n\n"), rep(B->getSourceRange(), "{ return q_" + name + "(" + args + "); }")});
        } else if(M->isOutOfLine() && !M->isStatic()) {
            auto* D = M->getCanonicalDecl();
            if(!ok(D->getSourceRange())) return;
            auto d = txt(D->getSourceRange());
            unsigned dn = off(D->getLocation()) - off(D->getBeginLoc());
            d.replace(dn, name.size(), "q_" + name);
            for(auto w : {"override", "virtual", "final"}) {
                size_t p;
                while((p = d.find(w)) != std::string::npos) d.erase(p, strlen(w));
            }
            for(auto* P : D->parameters()) if(P->hasDefaultArg()) return;
            emit("helpermethod", F->getBeginLoc(), {ins(D->getBeginLoc(), std::string("\n      private:\n        ") + d + ";\n\n      " + (D->getAccess() == AS_private ? "private" : D->getAccess() == AS_protected ? "protected" : "public") + ":\n        "), ins(F->getBeginLoc(), isig + body + "\n\n    "), rep(B->getSourceRange(), "{ return q_" + name + "(" + args + "); }")});
        }
    }
    void members(const Stmt* s, std::map<std::string, std::vector<SourceLocation>>& u) {
        if(!s) return;
        if(auto* m = dyn_cast<MemberExpr>(s)) {
            if(m->isImplicitAccess() && isa<FieldDecl>(m->getMemberDecl()) && ok(m->getMemberLoc())) u[m->getMemberDecl()->getNameAsString()].push_back(m->getMemberLoc());
        }
        for(auto* c : s->children()) members(c, u);
    }
    bool logs(const Stmt* s) {
        auto t = txt(s);
        return t.find("m_logger") != std::string::npos || t.find("m_log->") != std::string::npos || t.find("logger->") != std::string::npos || t.find("std::cout") != std::string::npos || t.find("std::cerr") != std::string::npos;
    }
    void mutants(const IfStmt* S) {
        auto* c = S->getCond();
        auto ct = txt(c);
        if(!logs(S->getThen()) || contains<ReturnStmt>(S->getThen()) || contains<CXXMemberCallExpr>(S->getThen())) {
            emit("m_true", S->getBeginLoc(), {rep(c->getSourceRange(), "static_cast<bool>(" + ct + ") || true")});
            emit("m_false", S->getBeginLoc(), {rep(c->getSourceRange(), "static_cast<bool>(" + ct + ") && false")});
        }
        if(auto* b = dyn_cast<BinaryOperator>(c->IgnoreImplicit()); b && b->isLogicalOp()) {
            emit("m_left", S->getBeginLoc(), {rep(c->getSourceRange(), txt(b->getLHS()))});
            emit("m_right", S->getBeginLoc(), {rep(c->getSourceRange(), txt(b->getRHS()))});
        }
    }
    bool VisitIfStmt(IfStmt* S) {
        if(!ok(S->getSourceRange()) || S->isConstexpr() || S->hasInitStorage() || S->hasVarStorage() || macros(S)) return true;
        if(getenv("QMUT")) mutants(S);
        auto* c = S->getCond();
        auto ct = txt(c);
        auto k = id(S->getBeginLoc());
        SourceRange all(S->getBeginLoc(), S->getElse() ? full(S->getElse()).getEnd() : full(S->getThen()).getEnd());
        if(S->getElse()) {
            emit("swapif", S->getBeginLoc(), {rep(all, "if(!(" + ct + ")) " + blk(S->getElse()) + " else " + blk(S->getThen()))});
            if(endsReturn(S->getThen()) && inCompound(S)) emit("elseret", S->getBeginLoc(), {rep(all, "if(" + ct + ") " + blk(S->getThen()) + " " + blk(S->getElse()))});
        }
        if(inCompound(S)) {
            emit("condvar", S->getBeginLoc(), {ins(S->getBeginLoc(), "const bool q_c" + k + " = static_cast<bool>(" + ct + "); "), rep(c->getSourceRange(), "q_c" + k)});
            emit("condfn", S->getBeginLoc(), {rep(c->getSourceRange(), "[&] { return static_cast<bool>(" + ct + "); }()")});
            emit("condflag", S->getBeginLoc(), {ins(S->getBeginLoc(), "bool q_f" + k + " = false; if(" + ct + ") { q_f" + k + " = true; } "), rep(c->getSourceRange(), "q_f" + k)});
        }
        emit("condeq", S->getBeginLoc(), {rep(c->getSourceRange(), "static_cast<bool>(" + ct + ") == true")});
        emit("condtern", S->getBeginLoc(), {rep(c->getSourceRange(), "static_cast<bool>(" + ct + ") ? true : false")});
        // the last statement of a loop's body: the rest is skipped instead
        if(!S->getElse()) {
            if(auto* P = dyn_cast_or_null<CompoundStmt>(parent(S)); P && !P->body_empty() && P->body_back() == S) {
                auto* L = parent(P);
                if(L && (isa<ForStmt>(L) || isa<CXXForRangeStmt>(L) || isa<WhileStmt>(L)))
                    emit("skiprest", S->getBeginLoc(), {rep(all, "if(!(" + ct + ")) { continue; } " + blk(S->getThen()))});
            }
        }
        if(!S->getElse()) {
            if(auto* b = dyn_cast<BinaryOperator>(c->IgnoreImplicit()); b && b->getOpcode() == BO_LAnd)
                emit("nestif", S->getBeginLoc(), {rep(all, "if(" + txt(b->getLHS()) + ") { if(" + txt(b->getRHS()) + ") " + blk(S->getThen()) + " }")});
            // the rest of the block becomes the else part
            if(auto* P = dyn_cast_or_null<CompoundStmt>(parent(S)); P && (endsReturn(S->getThen())) && P->body_back() != S && cur && P == cur->getBody()) {
                emit("elserest", S->getBeginLoc(), {ins(Lexer::getLocForEndOfToken(all.getEnd(), 0, SM, LO), " else {"), ins(P->getRBracLoc(), "} ")});
            }
        }
        if(isa<CompoundStmt>(S->getThen()) && !jumps(S->getThen()))
            emit("thenfn", S->getBeginLoc(), {rep(S->getThen()->getSourceRange(), "{ auto q_then = [&] " + txt(S->getThen()) + "; q_then(); }")});
        if(auto* b = dyn_cast<BinaryOperator>(c->IgnoreImplicit()); b && b->isLogicalOp()) {
            auto o = b->getOpcode() == BO_LAnd ? "||" : "&&";
            emit("demorgan", S->getBeginLoc(), {rep(c->getSourceRange(), "!(!(" + txt(b->getLHS()) + ") " + o + " !(" + txt(b->getRHS()) + "))")});
        }
        return true;
    }
    bool VisitReturnStmt(ReturnStmt* S) {
        if(!ok(S->getSourceRange()) || !S->getRetValue() || macros(S) || !cur) return true;
        auto* v = S->getRetValue()->IgnoreImplicit();
        // not within lambdas
        for(const Stmt* p = parent(S); p; p = parent(p)) if(isa<LambdaExpr>(p)) return true;
        auto rt = cur->getReturnType();
        if(auto* co = dyn_cast<ConditionalOperator>(v)) emit("ternary", S->getBeginLoc(), {rep(full(S), "if(" + txt(co->getCond()) + ") { return " + txt(co->getTrueExpr()) + "; } else { return " + txt(co->getFalseExpr()) + "; }")});
        if(auto* bo = dyn_cast<BinaryOperator>(v); bo && bo->isLogicalOp() && rt->isBooleanType()) {
            if(bo->getOpcode() == BO_LAnd) emit("splitret", S->getBeginLoc(), {rep(full(S), "{ if(!(" + txt(bo->getLHS()) + ")) { return false; } return " + txt(bo->getRHS()) + "; }")});
            else emit("splitret", S->getBeginLoc(), {rep(full(S), "{ if(" + txt(bo->getLHS()) + ") { return true; } return " + txt(bo->getRHS()) + "; }")});
        }
        if(rt->isReferenceType() || rt->isDependentType() || v->getType().isNull() || v->isTypeDependent()) return true;
        if(isa<InitListExpr>(v) || isa<DeclRefExpr>(v)) return true;
        if(v->getType().getCanonicalType().getUnqualifiedType() != rt.getCanonicalType().getUnqualifiedType()) return true;
        emit("retvar", S->getBeginLoc(), {rep(full(S), "{ auto q_r = " + txt(v) + "; return q_r; }")});
        return true;
    }
    bool VisitForStmt(ForStmt* S) {
        if(!ok(S->getSourceRange()) || macros(S) || !S->getCond() || !S->getInc() || !S->getInit() || contains<ContinueStmt>(S->getBody())) return true;
        auto end = full(S->getBody()).getEnd();
        auto init = txt(S->getInit());
        if(init.empty() || init.back() != ';') init += ";";
        emit("forwhile", S->getBeginLoc(), {rep(SourceRange(S->getBeginLoc(), end), "{ " + init + " while(" + txt(S->getCond()) + ") { " + blk(S->getBody()) + " " + txt(S->getInc()) + "; } }")});
        return true;
    }
    bool VisitCXXForRangeStmt(CXXForRangeStmt* S) {
        if(!ok(S->getSourceRange()) || macros(S->getBody()) || !S->getRangeInit()) return true;
        auto* r = S->getRangeInit()->IgnoreImplicit();
        if(!isa<DeclRefExpr>(r) && !isa<MemberExpr>(r)) return true;
        if(r->getType()->isArrayType()) return true;
        auto k = id(S->getBeginLoc());
        auto rt = txt(r);
        auto* v = S->getLoopVariable();
        std::string d;
        {   // declaration text up to the colon
            auto b = off(v->getBeginLoc()), e = off(S->getColonLoc());
            d = SM.getBufferData(SM.getFileID(v->getBeginLoc())).substr(b, e - b).str();
        }
        if(isa<CompoundStmt>(S->getBody()) && !jumps(S->getBody()))
            emit("bodyfn", S->getBeginLoc(), {rep(S->getBody()->getSourceRange(), "{ auto q_body = [&] " + txt(S->getBody()) + "; q_body(); }")});
        auto end = full(S->getBody()).getEnd();
        SourceRange all(S->getBeginLoc(), end);
        emit("rangeiter", S->getBeginLoc(), {rep(all, "for(auto q_it" + k + " = " + rt + ".begin(); q_it" + k + " != " + rt + ".end(); ++q_it" + k + ") { " + d + " = *q_it" + k + "; " + blk(S->getBody()) + " }")});
        auto tn = r->getType().getCanonicalType().getAsString();
        if(tn.find("std::vector<") != std::string::npos && tn.find("std::vector<") < 10)
            emit("rangeidx", S->getBeginLoc(), {rep(all, "for(size_t q_i" + k + " = 0; q_i" + k + " < " + rt + ".size(); q_i" + k + "++) { " + d + " = " + rt + "[q_i" + k + "]; " + blk(S->getBody()) + " }")});
        return true;
    }
    bool VisitBinaryOperator(BinaryOperator* B) {
        if(!ok(B->getSourceRange()) || macros(B)) return true;
        if(getenv("QMUT") && B->isRelationalOp()) {
            std::string o = B->getOpcodeStr().str(), n = o == "<" ? "<=" : o == "<=" ? "<" : o == ">" ? ">=" : ">";
            emit("m_rel", B->getOperatorLoc(), {rep(B->getSourceRange(), "(" + txt(B->getLHS()) + ") " + n + " (" + txt(B->getRHS()) + ")")});
        }
        if(B->isComparisonOp() && B->getOpcode() != BO_Cmp) {
            auto op = BinaryOperator::getOpcodeStr(BinaryOperator::reverseComparisonOp(B->getOpcode())).str();
            emit("binswap", B->getOperatorLoc(), {rep(B->getSourceRange(), "(" + txt(B->getRHS()) + ") " + op + " (" + txt(B->getLHS()) + ")")});
            auto t = top(B->getBeginLoc());
            if(t.isValid() && !B->isTypeDependent() && B->getLHS()->getType()->isArithmeticType() && B->getRHS()->getType()->isArithmeticType() && !B->getLHS()->refersToBitField()) {
                auto k = id(B->getOperatorLoc());
                emit("cmphelper", B->getOperatorLoc(), {ins(t, "template<typename Q_A, typename Q_B> static auto q_cmp" + k + "(const Q_A& a, const Q_B& b) -> bool { return a " + B->getOpcodeStr().str() + " b; }\n"), rep(B->getSourceRange(), "::q_cmp" + k + "(" + txt(B->getLHS()->IgnoreParenImpCasts()) + ", " + txt(B->getRHS()->IgnoreParenImpCasts()) + ")")});
            }
        }
        if(B->isCompoundAssignmentOp() && inCompound(B) && B->getLHS()->getType()->isIntegerType()) {
            auto op = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(B->getOpcode())).str();
            emit("compound", B->getOperatorLoc(), {rep(B->getSourceRange(), txt(B->getLHS()) + " = " + txt(B->getLHS()) + " " + op + " (" + txt(B->getRHS()) + ")")});
        }
        return true;
    }
    bool VisitUnaryOperator(UnaryOperator* U) {
        if(!ok(U->getSourceRange()) || macros(U) || !U->isIncrementDecrementOp() || !U->getSubExpr()->getType()->isIntegerType()) return true;
        auto* p = parent(U);
        bool st = p && (isa<CompoundStmt>(p) || (isa<ForStmt>(p) && cast<ForStmt>(p)->getInc() == U));
        if(st) emit("incr", U->getBeginLoc(), {rep(U->getSourceRange(), txt(U->getSubExpr()) + (U->isIncrementOp() ? " += 1" : " -= 1"))});
        return true;
    }
    void deletions(CompoundStmt* S) {
        if(!getenv("QMUT") || !ok(S->getSourceRange()) || !cur) return;
        for(auto* x : S->body()) {
            auto* e = dyn_cast<Expr>(x);
            if(!e || macros(e) || logs(e)) continue;
            emit("m_del", e->getBeginLoc(), {rep(full(e), ";")});
        }
    }
    bool VisitCompoundStmt(CompoundStmt* S) {
        deletions(S);
        // neighbouring statements that do not depend on each other
        const Stmt* prev = nullptr;
        for(auto* s : S->body()) {
            if(prev && ok(prev->getSourceRange()) && ok(s->getSourceRange()) && pureDecl(prev) && pureDecl(s) && !dep(prev, s))
                emit("reorder", prev->getBeginLoc(), {rep(prev->getSourceRange(), txt(s)), rep(s->getSourceRange(), txt(prev))});
            prev = s;
        }
        return true;
    }
    bool pureDecl(const Stmt* s) {
        auto* d = dyn_cast<DeclStmt>(s);
        if(!d || !d->isSingleDecl() || macros(s)) return false;
        auto* v = dyn_cast<VarDecl>(d->getSingleDecl());
        if(!v || v->isStaticLocal() || isa<DecompositionDecl>(v)) return false;
        auto t = v->getType().getCanonicalType().getAsString();
        if(t.find("lock") != std::string::npos) return false;
        return !v->getInit() || (!contains<CallExpr>(v->getInit(), true) && !contains<CXXNewExpr>(v->getInit(), true) && !contains<BinaryOperator>(v->getInit(), true) && !contains<UnaryOperator>(v->getInit(), true));
    }
    bool dep(const Stmt* a, const Stmt* b) {
        auto* v = cast<VarDecl>(cast<DeclStmt>(a)->getSingleDecl());
        return uses(b, v);
    }
    bool uses(const Stmt* s, const VarDecl* v) {
        if(!s) return false;
        if(auto* d = dyn_cast<DeclStmt>(s)) { for(auto* x : d->decls()) if(auto* w = dyn_cast<VarDecl>(x); w && uses(w->getInit(), v)) return true; return false; }
        if(auto* r = dyn_cast<DeclRefExpr>(s)) return r->getDecl() == v;
        for(auto* c : s->children()) if(uses(c, v)) return true;
        return false;
    }
    bool VisitCallExpr(CallExpr* K) {
        if(!ok(K->getSourceRange()) || macros(K)) return true;
        // an argument computed beforehand
        if(inCompound(K) && !isa<CXXOperatorCallExpr>(K)) {
            for(unsigned i = 0; i < K->getNumArgs(); i++) {
                auto* a = K->getArg(i)->IgnoreImplicit();
                if(isa<LambdaExpr>(a) || isa<InitListExpr>(a) || isa<DeclRefExpr>(a) || isa<CXXDefaultArgExpr>(a) || isa<IntegerLiteral>(a) || isa<StringLiteral>(a) || isa<MemberExpr>(a)) continue;
                if(auto* c = dyn_cast<CallExpr>(a); c && c->getCallReturnType(C)->isReferenceType()) continue;
                if(a->isTypeDependent() || !a->isPRValue() || !ok(a->getSourceRange())) continue;
                auto k = id(a->getBeginLoc());
                bool byref = false;
                if(auto* f = K->getDirectCallee(); f && i < f->getNumParams()) byref = f->getParamDecl(i)->getType()->isLValueReferenceType();
                bool cls = a->getType()->isRecordType();
                emit("argvar", a->getBeginLoc(), {ins(K->getBeginLoc(), "auto q_a" + k + " = " + txt(a) + "; "), rep(a->getSourceRange(), cls && !byref ? "std::move(q_a" + k + ")" : "q_a" + k)});
                break;
            }
        }
        return true;
    }
    bool VisitCXXMemberCallExpr(CXXMemberCallExpr* K) {
        if(!ok(K->getSourceRange()) || macros(K) || !K->getMethodDecl() || !isa<MemberExpr>(K->getCallee())) return true;
        auto* me = cast<MemberExpr>(K->getCallee());
        auto cls = K->getMethodDecl()->getParent()->getQualifiedNameAsString();
        auto n = K->getMethodDecl()->getNameAsString();
        if(me->isImplicitAccess()) return true;
        auto o = txt(me->getBase());
        if(me->isArrow()) o = "(*" + o + ")";
        auto r = K->getSourceRange();
        if(cls.rfind("std::", 0) != 0) return true;
        if(n == "empty") emit("emptysize", K->getExprLoc(), {rep(r, "(" + o + ".size() == 0)")});
        if(n == "has_value") emit("hasvalue", K->getExprLoc(), {rep(r, "static_cast<bool>(" + o + ")")});
        if(n == "has_value") emit("nullopt", K->getExprLoc(), {rep(r, "(" + o + " != std::nullopt)")});
        if(n == "value" && cls == "std::optional") emit("deref", K->getExprLoc(), {rep(r, "(*" + o + ")")});
        if(n == "emplace_back" && K->getNumArgs() == 1 && (cls == "std::vector" || cls == "std::deque" || cls == "std::list")) {
            auto at = K->getArg(0)->IgnoreImplicit()->getType().getCanonicalType().getUnqualifiedType();
            auto vt = cast<ClassTemplateSpecializationDecl>(K->getMethodDecl()->getParent())->getTemplateArgs()[0].getAsType().getCanonicalType();
            if(at == vt) emit("pushback", K->getExprLoc(), {rep(me->getMemberLoc(), "push_back")});
        }
        if(n == "push_back") emit("emplaceback", K->getExprLoc(), {rep(me->getMemberLoc(), "emplace_back")});
        if(n == "front" && cls == "std::vector") emit("front", K->getExprLoc(), {rep(r, o + "[0]")});
        if(n == "contains") emit("containscount", K->getExprLoc(), {rep(r, "(" + o + ".count(" + txt(K->getArg(0)) + ") != 0)")});
        return true;
    }
    bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr* K) {
        if(!ok(K->getSourceRange()) || macros(K) || K->getNumArgs() != 2) return true;
        if(K->getOperator() != OO_EqualEqual && K->getOperator() != OO_ExclaimEqual) return true;
        auto op = K->getOperator() == OO_EqualEqual ? "==" : "!=";
        emit("eqswap", K->getOperatorLoc(), {rep(K->getSourceRange(), "(" + txt(K->getArg(1)) + ") " + op + " (" + txt(K->getArg(0)) + ")")});
        // x.find(k) == x.end()
        auto call = [&](const Expr* e) -> const CXXMemberCallExpr* {
            e = e->IgnoreImplicit();
            while(auto* c = dyn_cast<CXXConstructExpr>(e)) { if(c->getNumArgs() != 1) return nullptr; e = c->getArg(0)->IgnoreImplicit(); }
            return dyn_cast<CXXMemberCallExpr>(e);
        };
        auto *a = call(K->getArg(0)), *b = call(K->getArg(1));
        if(a && b && a->getMethodDecl() && b->getMethodDecl() && a->getMethodDecl()->getNameAsString() == "find" && b->getMethodDecl()->getNameAsString() == "end" && isa<MemberExpr>(a->getCallee()) && !cast<MemberExpr>(a->getCallee())->isArrow() && a->getNumArgs() == 1) {
            auto o = txt(cast<MemberExpr>(a->getCallee())->getBase());
            emit("findcount", K->getOperatorLoc(), {rep(K->getSourceRange(), o + ".count(" + txt(a->getArg(0)) + ") " + (K->getOperator() == OO_EqualEqual ? "==" : "!=") + " 0")});
        }
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if(!V->isLocalVarDecl() || !ok(V->getSourceRange())) return true;
        auto t = V->getType().getCanonicalType().getAsString();
        // rename
        return true;
    }
};
struct Con : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        G g(C);
        for(auto* D : C.getTranslationUnitDecl()->decls())
            if(g.ok(D->getLocation()) || g.ok(D->getBeginLoc())) g.TraverseDecl(D);
    }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Con>(); } };
int main(int argc, char** argv) {
    g_root = argv[1];
    std::vector<std::string> flags;
    for(int i = 4; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db("/", flags);
    tooling::ClangTool tool(db, {std::string(argv[2])});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
