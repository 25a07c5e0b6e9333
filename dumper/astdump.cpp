// astdump: dumps the resolved, typed syntax tree of one translation unit of the
// program under analysis as JSON (functions, records, globals, enums).
// Usage: astdump OUT.json ROOT1:ROOT2... FILE -- compiler flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::vector<std::string> Roots;
static std::string OutFile;

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    Object Funcs, Recs, Globals, Enums;
    Array Types;
    std::map<const void *, int> TypeIds;
    std::map<const Decl *, int> LocalIds;
    std::vector<const FunctionDecl *> Work;
    std::set<const FunctionDecl *> Queued;
    std::set<std::string> FuncsDone, RecsDone;
    PrintingPolicy PP;
    int NextLocal = 1;

    Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.SuppressScope = false;
        PP.PrintCanonicalTypes = true;
    }

    bool inRoots(SourceLocation L) {
        if (L.isInvalid()) return false;
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return false;
        std::string f = P.getFilename();
        for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    static std::string usr(const Decl *D) {
        llvm::SmallString<256> B;
        if (auto *F = dyn_cast<FunctionDecl>(D)) D = F->getCanonicalDecl();   // __restrict on parameters of the definition only
        if (index::generateUSRForDecl(D, B)) return "";
        return std::string(B.str());
    }
    std::string qname(const NamedDecl *D) {
        std::string s; llvm::raw_string_ostream o(s);
        D->printQualifiedName(o, PP); o.flush();
        return s;
    }
    std::string recName(const RecordDecl *R) {
        std::string n = C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
        if (n.find("(anonymous") != std::string::npos || n.find("(unnamed") != std::string::npos) {
            PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(R->getLocation()));
            if (!P.isInvalid()) { std::string f = P.getFilename(); n += "@" + f.substr(f.rfind('/') + 1); }
        }
        return n;
    }
    Value loc(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid()) return nullptr;
        return Array{std::string(P.getFilename()), (int64_t)P.getLine()};
    }
    int ln(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        return SM.getPresumedLoc(L).isInvalid() ? 0 : SM.getPresumedLoc(L).getLine();
    }
    int type(QualType Q) {
        if (Q.isNull()) return -1;
        Q = Q.getCanonicalType();
        void *k = Q.getAsOpaquePtr();
        auto it = TypeIds.find(k);
        if (it != TypeIds.end()) return it->second;
        int id = Types.size();
        TypeIds[k] = id;
        Types.push_back(nullptr);
        Object o;
        o["s"] = Q.getAsString(PP);
        if (Q.isConstQualified()) o["c"] = true;
        const Type *T = Q.getTypePtr();
        if (T->isBooleanType()) { o["k"] = "int"; o["w"] = 1; o["b"] = true; }
        else if (T->isEnumeralType()) {
            o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(Q);
            o["sg"] = T->isSignedIntegerOrEnumerationType();
            o["en"] = qname(T->castAs<EnumType>()->getDecl());
        }
        else if (T->isIntegerType()) {
            o["k"] = "int"; o["w"] = (int64_t)C.getTypeSize(Q);
            o["sg"] = T->isSignedIntegerType();
            if (T->isCharType()) o["ch"] = true;
        }
        else if (T->isFloatingType()) { o["k"] = "flt"; o["w"] = (int64_t)C.getTypeSize(Q); }
        else if (T->isPointerType()) { o["k"] = "ptr"; o["e"] = type(T->getPointeeType()); }
        else if (T->isReferenceType()) {
            o["k"] = "ref"; o["e"] = type(T->getPointeeType());
            o["rv"] = T->isRValueReferenceType();
        }
        else if (auto *R = T->getAs<RecordType>()) {
            o["k"] = "rec"; o["n"] = recName(R->getDecl());
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R->getDecl())) {
                o["tn"] = S->getQualifiedNameAsString();
                Array A;
                for (auto &a : S->getTemplateArgs().asArray())
                    if (a.getKind() == TemplateArgument::Type) A.push_back(type(a.getAsType()));
                o["ta"] = std::move(A);
            } else o["tn"] = qname(R->getDecl());
            if (inRoots(R->getDecl()->getLocation())) {
                o["u"] = true;
                record(R->getDecl());
            }
            if (R->getDecl()->getDefinition()) o["sz"] = (int64_t)C.getTypeSizeInChars(Q).getQuantity();
        }
        else if (auto *A = C.getAsConstantArrayType(Q)) {
            o["k"] = "arr"; o["e"] = type(A->getElementType());
            o["cnt"] = (int64_t)A->getSize().getZExtValue();
        }
        else if (auto *A = C.getAsArrayType(Q)) {
            o["k"] = "arr"; o["e"] = type(A->getElementType());
        }
        else if (T->isVoidType()) o["k"] = "void";
        else if (T->isFunctionType()) o["k"] = "fn";
        else o["k"] = "other";
        Types[id] = std::move(o);
        return id;
    }
    std::string fieldName(const FieldDecl *F) {
        return recName(F->getParent()) + "::" + F->getNameAsString();
    }
    void record(const RecordDecl *R0) {
        const RecordDecl *R = R0->getDefinition();
        if (!R) return;
        std::string n = recName(R);
        if (!RecsDone.insert(n).second) return;
        Object o; Array F, B, M;
        o["loc"] = loc(R->getLocation());
        for (auto *f : R->fields()) {
            Object x; x["n"] = fieldName(f); x["sn"] = f->getNameAsString();
            x["t"] = type(f->getType()); x["mut"] = f->isMutable();
            if (auto *e = f->getInClassInitializer()) x["init"] = expr(e);
            F.push_back(std::move(x));
        }
        if (auto *CR = dyn_cast<CXXRecordDecl>(R)) {
            for (auto &b : CR->bases()) {
                Object x; x["t"] = type(b.getType());
                if (auto *br = b.getType()->getAsCXXRecordDecl()) x["n"] = recName(br);
                B.push_back(std::move(x));
            }
            o["poly"] = CR->isPolymorphic();
            o["lambda"] = CR->isLambda();
            for (auto *m : CR->methods()) {
                Object x; x["u"] = usr(m); x["n"] = m->getNameAsString();
                x["virt"] = m->isVirtual(); x["pure"] = m->isPureVirtual();
                x["acc"] = (int)m->getAccess();
                Array ov; for (auto *q : m->overridden_methods()) ov.push_back(usr(q));
                x["ov"] = std::move(ov);
                M.push_back(std::move(x));
                if (!m->isImplicit() && m->isVirtual()) queue(m);
            }
        }
        o["fields"] = std::move(F); o["bases"] = std::move(B); o["methods"] = std::move(M);
        Recs[n] = std::move(o);
    }
    void queue(const FunctionDecl *F) {
        if (!F) return;
        if (!inRoots(F->getLocation())) return;
        F = F->getCanonicalDecl();
        if (Queued.insert(F).second) Work.push_back(F);
    }
    int localId(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = LocalIds.find(D);
        if (it != LocalIds.end()) return it->second;
        return LocalIds[D] = NextLocal++;
    }
    bool isGlobalVar(const VarDecl *V) { return V->hasGlobalStorage(); }
    void global(const VarDecl *V) {
        std::string u = usr(V);
        const VarDecl *Def = V->getDefinition();
        if (!Def) Def = V;
        Object *old = Globals.getObject(u);
        if (old) return;
        Object o;
        Globals[u] = Object{};
        o["n"] = V->isStaticLocal() ? V->getNameAsString() : qname(V);
        o["t"] = type(V->getType()); o["loc"] = loc(Def->getLocation());
        o["user"] = inRoots(V->getLocation());
        o["slocal"] = V->isStaticLocal();
        o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
        if (o.getBoolean("user") && *o.getBoolean("user")) {
            const VarDecl *ID = nullptr;
            if (const Expr *I = Def->getAnyInitializer(ID)) o["init"] = expr(I);
        }
        Globals[u] = std::move(o);
    }
    // ------------------------------------------------------------ expressions
    Object mk(const char *k, const Stmt *S) {
        Object o; o["k"] = k; o["l"] = ln(S->getBeginLoc());
        if (auto *E = dyn_cast<Expr>(S)) { o["t"] = type(E->getType()); if (E->isGLValue()) o["lv"] = true; }
        return o;
    }
    Array exprs(llvm::ArrayRef<const Expr *> A) {
        Array r; for (auto *e : A) r.push_back(expr(e)); return r;
    }
    Value callArgs(const CallExpr *CE, unsigned from = 0) {
        Array r;
        for (unsigned i = from; i < CE->getNumArgs(); i++) r.push_back(expr(CE->getArg(i)));
        return r;
    }
    void fnInfo(Object &o, const FunctionDecl *F) {
        queue(F);
        o["fn"] = usr(F); o["n"] = F->getQualifiedNameAsString();
        if (inRoots(F->getLocation())) o["u"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            o["sn"] = M->getDeclName().getAsString();
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["cst"] = true;
        } else o["sn"] = F->getDeclName().getAsString();
        if (F->isNoReturn()) o["noret"] = true;
        Array pt;   // parameter passing: 'v' value, 'r' non-const ref/ptr, 'c' const ref/ptr
        for (auto *p : F->parameters()) {
            QualType q = p->getType().getCanonicalType();
            if (q->isReferenceType() || q->isPointerType())
                pt.push_back(q->getPointeeType().isConstQualified() ? "c" : "r");
            else pt.push_back("v");
        }
        o["pp"] = std::move(pt);
    }
    Value expr(const Expr *E) {
        if (!E) return nullptr;
        switch (E->getStmtClass()) {
        case Stmt::ParenExprClass: return expr(cast<ParenExpr>(E)->getSubExpr());
        case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(E)->getSubExpr());
        case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(E)->getSubExpr());
        case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(E)->getSubExpr());
        case Stmt::SubstNonTypeTemplateParmExprClass:
            return expr(cast<SubstNonTypeTemplateParmExpr>(E)->getReplacement());
        case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(E)->getExpr());
        case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(E)->getExpr());
        case Stmt::MaterializeTemporaryExprClass: {
            Object o = mk("mat", E);
            o["e"] = expr(cast<MaterializeTemporaryExpr>(E)->getSubExpr());
            return o;
        }
        case Stmt::CXXStdInitializerListExprClass:
            return expr(cast<CXXStdInitializerListExpr>(E)->getSubExpr());
        default: break;
        }
        if (auto *I = dyn_cast<IntegerLiteral>(E)) {
            Object o = mk("int", E);
            llvm::SmallString<32> s; I->getValue().toString(s, 10, I->getType()->isSignedIntegerType());
            o["v"] = std::string(s.str()); return o;
        }
        if (auto *I = dyn_cast<CharacterLiteral>(E)) { Object o = mk("int", E); o["v"] = std::to_string(I->getValue()); return o; }
        if (auto *I = dyn_cast<CXXBoolLiteralExpr>(E)) { Object o = mk("int", E); o["v"] = I->getValue() ? "1" : "0"; return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { Object o = mk("int", E); o["v"] = "0"; o["null"] = true; return o; }
        if (auto *F = dyn_cast<FloatingLiteral>(E)) {
            Object o = mk("flt", E); llvm::SmallString<32> s; F->getValue().toString(s, 40, 0);
            o["v"] = std::string(s.str()); return o;
        }
        if (auto *S = dyn_cast<StringLiteral>(E)) {
            Object o = mk("str", E);
            std::string raw;
            if (S->getCharByteWidth() == 1) raw = S->getString().str();
            o["v"] = llvm::json::isUTF8(raw) ? raw : llvm::json::fixUTF8(raw);
            return o;
        }
        if (auto *P = dyn_cast<PredefinedExpr>(E)) { Object o = mk("str", E); o["v"] = "__func__"; return o; }
        if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C)) {
                Object o = mk("int", E); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
                o["v"] = std::string(s.str()); o["sizeof"] = type(U->getTypeOfArgument()); return o;
            }
        }
        if (auto *D = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *V = D->getDecl();
            Object o = mk("ref", E);
            o["n"] = V->getNameAsString();
            if (auto *EC = dyn_cast<EnumConstantDecl>(V)) {
                o["k"] = "int"; llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
                o["v"] = std::string(s.str()); o["ec"] = qname(EC); return o;
            }
            if (auto *F = dyn_cast<FunctionDecl>(V)) { o["k"] = "fref"; fnInfo(o, F); return o; }
            if (auto *VD = dyn_cast<VarDecl>(V)) {
                if (isGlobalVar(VD)) { o["g"] = usr(VD); o["n"] = VD->isStaticLocal() ? VD->getNameAsString() : qname(VD); global(VD); }
                else o["d"] = localId(VD);
                o["vt"] = type(VD->getType());
            } else o["d"] = localId(V);
            return o;
        }
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
                Object o = mk("mem", E); o["f"] = fieldName(F); o["sn"] = F->getNameAsString();
                o["b"] = expr(M->getBase()); o["arrow"] = M->isArrow();
                o["ft"] = type(F->getType());
                if (inRoots(F->getLocation())) record(F->getParent());
                return o;
            }
            if (auto *VD = dyn_cast<VarDecl>(M->getMemberDecl())) {
                Object o = mk("ref", E); o["n"] = qname(VD); o["g"] = usr(VD); o["vt"] = type(VD->getType()); global(VD); return o;
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(M->getMemberDecl())) {
                Object o = mk("int", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
                o["v"] = std::string(s.str()); o["ec"] = qname(EC); return o;
            }
            Object o = mk("fref", E);
            if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) fnInfo(o, F);
            o["b"] = expr(M->getBase());
            return o;
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) {
            Object o = mk("lambda", E);
            const CXXRecordDecl *R = L->getLambdaClass();
            const CXXMethodDecl *Op = L->getCallOperator();
            o["rec"] = recName(R) + "@" + std::to_string(ln(E->getBeginLoc()));
            Array caps;
            auto ci = L->capture_init_begin();
            for (auto &c : L->captures()) {
                Object x;
                x["byref"] = c.getCaptureKind() == LCK_ByRef;
                x["this"] = c.capturesThis();
                if (c.capturesVariable()) { x["d"] = localId(c.getCapturedVar()); x["n"] = c.getCapturedVar()->getNameAsString(); }
                if (*ci) x["init"] = expr(*ci);
                ++ci;
                caps.push_back(std::move(x));
            }
            o["caps"] = std::move(caps);
            Array ps; for (auto *p : Op->parameters()) ps.push_back(parm(p));
            o["params"] = std::move(ps);
            o["ret"] = type(Op->getReturnType());
            o["body"] = stmt(L->getBody());
            return o;
        }
        if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
            Object o = mk("call", E);
            const FunctionDecl *F = OC->getDirectCallee();
            o["op"] = getOperatorSpelling(OC->getOperator());
            unsigned from = 0;
            if (F) {
                fnInfo(o, F);
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = expr(OC->getArg(0)); from = 1; }
            } else o["ptr"] = expr(OC->getCallee());
            o["args"] = callArgs(OC, from);
            return o;
        }
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
            Object o = mk("call", E);
            const CXXMethodDecl *F = MC->getMethodDecl();
            if (F) {
                fnInfo(o, F);
                const MemberExpr *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens());
                o["obj"] = expr(MC->getImplicitObjectArgument());
                if (ME) { o["arrow"] = ME->isArrow(); if (F->isVirtual() && !ME->hasQualifier()) o["virt"] = true; }
            } else o["ptr"] = expr(MC->getCallee());
            o["args"] = callArgs(MC);
            return o;
        }
        if (auto *CE = dyn_cast<CallExpr>(E)) {
            Object o = mk("call", E);
            const FunctionDecl *F = CE->getDirectCallee();
            if (F) fnInfo(o, F); else o["ptr"] = expr(CE->getCallee());
            o["args"] = callArgs(CE);
            return o;
        }
        if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
            Object o = mk("ctor", E);
            fnInfo(o, K->getConstructor());
            o["copy"] = K->getConstructor()->isCopyOrMoveConstructor();
            o["move"] = K->getConstructor()->isMoveConstructor();
            o["dflt"] = K->getConstructor()->isDefaultConstructor();
            o["impl"] = !K->getConstructor()->isUserProvided();
            Array a; for (unsigned i = 0; i < K->getNumArgs(); i++) a.push_back(expr(K->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto *I = dyn_cast<CXXInheritedCtorInitExpr>(E)) { Object o = mk("unk", E); o["cls"] = E->getStmtClassName(); return o; }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            Object o = mk("new", E); o["at"] = type(N->getAllocatedType());
            if (N->isArray() && N->getArraySize()) o["size"] = expr(*N->getArraySize());
            if (N->getInitializer()) o["init"] = expr(N->getInitializer());
            return o;
        }
        if (auto *D = dyn_cast<CXXDeleteExpr>(E)) { Object o = mk("delete", E); o["e"] = expr(D->getArgument()); return o; }
        if (isa<CXXThisExpr>(E)) return mk("this", E);
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            Object o = mk("un", E); o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isIncrementDecrementOp()) o["post"] = U->isPostfix();
            o["e"] = expr(U->getSubExpr()); return o;
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            Object o = mk(B->isAssignmentOp() ? "asg" : "bin", E);
            o["op"] = B->getOpcodeStr().str();
            o["a"] = expr(B->getLHS()); o["b"] = expr(B->getRHS());
            if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["ct"] = type(CA->getComputationResultType());
            return o;
        }
        if (auto *T = dyn_cast<ConditionalOperator>(E)) {
            Object o = mk("cond", E); o["c"] = expr(T->getCond()); o["a"] = expr(T->getTrueExpr()); o["b"] = expr(T->getFalseExpr()); return o;
        }
        if (auto *K = dyn_cast<CastExpr>(E)) {
            CastKind ck = K->getCastKind();
            if (ck == CK_NoOp || ck == CK_FunctionToPointerDecay || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_BuiltinFnToFnPtr)
                return expr(K->getSubExpr());
            if (isa<CXXFunctionalCastExpr>(E) && ck == CK_ConstructorConversion) return expr(K->getSubExpr());
            Object o = mk("cast", E); o["ck"] = K->getCastKindName(); o["e"] = expr(K->getSubExpr());
            if (!isa<ImplicitCastExpr>(K)) o["x"] = true;
            return o;
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            Object o = mk("idx", E); o["a"] = expr(A->getBase()); o["b"] = expr(A->getIdx()); return o;
        }
        if (auto *I = dyn_cast<InitListExpr>(E)) {
            if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
            Object o = mk("init", E); Array a;
            for (auto *e : I->inits()) a.push_back(expr(e));
            o["e"] = std::move(a);
            if (I->hasArrayFiller()) o["fill"] = expr(I->getArrayFiller());
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return mk("zero", E);
        if (auto *O = dyn_cast<OpaqueValueExpr>(E)) return expr(O->getSourceExpr());
        if (auto *A = dyn_cast<ArrayInitLoopExpr>(E)) { Object o = mk("arrcopy", E); o["e"] = expr(A->getCommonExpr()); return o; }
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) { Object o = mk("throw", E); if (T->getSubExpr()) o["e"] = expr(T->getSubExpr()); return o; }
        if (isa<SourceLocExpr>(E)) { Object o = mk("int", E); o["v"] = "0"; o["srcloc"] = true; return o; }
        Object o = mk("unk", E); o["cls"] = E->getStmtClassName();
        Array ch; for (auto *c : E->children()) if (c) if (auto *ce = dyn_cast<Expr>(c)) ch.push_back(expr(ce));
        o["ch"] = std::move(ch);
        return o;
    }
    Value parm(const ParmVarDecl *p) {
        Object o; o["d"] = localId(p); o["n"] = p->getNameAsString(); o["t"] = type(p->getType());
        return o;
    }
    // ------------------------------------------------------------- statements
    Value decl(const Decl *D) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
            Object o; o["k"] = "var"; o["l"] = ln(V->getLocation()); o["n"] = V->getNameAsString(); o["t"] = type(V->getType());
            if (isGlobalVar(V)) { global(V); o["g"] = usr(V); }
            else o["d"] = localId(V);
            if (V->hasInit()) o["init"] = expr(V->getInit());
            if (auto *A = C.getAsVariableArrayType(V->getType())) o["vla"] = expr(A->getSizeExpr());
            return o;
        }
        return nullptr;
    }
    Value clauseVars(llvm::ArrayRef<const Expr *> A) { Array r; for (auto *e : A) r.push_back(expr(e)); return r; }
    Value stmt(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) {
            Object o; o["k"] = "expr"; o["l"] = ln(S->getBeginLoc()); o["e"] = expr(E); return o;
        }
        Object o; o["l"] = ln(S->getBeginLoc());
        if (auto *B = dyn_cast<CompoundStmt>(S)) {
            o["k"] = "block"; Array a; for (auto *s : B->body()) a.push_back(stmt(s)); o["s"] = std::move(a);
            o["end"] = ln(B->getRBracLoc()); return o;
        }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            o["k"] = "decl"; Array a;
            for (auto *d : D->decls()) { Value v = decl(d); if (v.kind() != Value::Null) a.push_back(std::move(v)); }
            o["d"] = std::move(a); return o;
        }
        if (auto *I = dyn_cast<IfStmt>(S)) {
            o["k"] = "if";
            if (I->getInit()) o["init"] = stmt(I->getInit());
            if (I->getConditionVariableDeclStmt()) o["cv"] = stmt(I->getConditionVariableDeclStmt());
            o["c"] = expr(I->getCond()); o["a"] = stmt(I->getThen()); if (I->getElse()) o["b"] = stmt(I->getElse());
            if (I->getIfLoc().isMacroID()) {
                StringRef m = Lexer::getImmediateMacroName(I->getIfLoc(), SM, C.getLangOpts());
                o["mac"] = m.str();
            }
            return o;
        }
        if (auto *W = dyn_cast<WhileStmt>(S)) {
            o["k"] = "while"; if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
            o["c"] = expr(W->getCond()); o["s"] = stmt(W->getBody()); return o;
        }
        if (auto *W = dyn_cast<DoStmt>(S)) { o["k"] = "do"; o["c"] = expr(W->getCond()); o["s"] = stmt(W->getBody()); return o; }
        if (auto *F = dyn_cast<ForStmt>(S)) {
            o["k"] = "for"; o["i"] = stmt(F->getInit()); o["c"] = F->getCond() ? expr(F->getCond()) : Value(nullptr);
            o["n"] = F->getInc() ? expr(F->getInc()) : Value(nullptr); o["s"] = stmt(F->getBody()); return o;
        }
        if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
            o["k"] = "rfor"; o["v"] = decl(F->getLoopVariable()); o["r"] = expr(F->getRangeInit()); o["s"] = stmt(F->getBody()); return o;
        }
        if (auto *R = dyn_cast<ReturnStmt>(S)) { o["k"] = "return"; if (R->getRetValue()) o["e"] = expr(R->getRetValue()); return o; }
        if (isa<BreakStmt>(S)) { o["k"] = "break"; return o; }
        if (isa<ContinueStmt>(S)) { o["k"] = "continue"; return o; }
        if (isa<NullStmt>(S)) { o["k"] = "null"; return o; }
        if (auto *W = dyn_cast<SwitchStmt>(S)) {
            o["k"] = "switch"; o["c"] = expr(W->getCond()); o["s"] = stmt(W->getBody());
            if (W->getConditionVariableDeclStmt()) o["cv"] = stmt(W->getConditionVariableDeclStmt());
            return o;
        }
        if (auto *K = dyn_cast<CaseStmt>(S)) {
            o["k"] = "case"; o["v"] = expr(K->getLHS()); o["s"] = stmt(K->getSubStmt());
            Expr::EvalResult R; if (K->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = std::string(s.str()); }
            return o;
        }
        if (auto *K = dyn_cast<DefaultStmt>(S)) { o["k"] = "default"; o["s"] = stmt(K->getSubStmt()); return o; }
        if (auto *L = dyn_cast<LabelStmt>(S)) { o["k"] = "label"; o["s"] = stmt(L->getSubStmt()); return o; }
        if (isa<GotoStmt>(S)) { o["k"] = "goto"; return o; }
        if (auto *A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
            o["k"] = "try"; o["s"] = stmt(T->getTryBlock()); Array h;
            for (unsigned i = 0; i < T->getNumHandlers(); i++) h.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
            o["h"] = std::move(h); return o;
        }
        if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
            o["k"] = "omp"; o["dk"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
            Array cl;
            for (auto *c : D->clauses()) {
                Object x; x["ck"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                if (c->isImplicit()) x["implicit"] = true;
                Array vs;
                auto add = [&](auto *cc) { for (auto *e : cc->varlists()) vs.push_back(expr(e)); };
                if (auto *p = dyn_cast<OMPPrivateClause>(c)) add(p);
                else if (auto *p = dyn_cast<OMPFirstprivateClause>(c)) add(p);
                else if (auto *p = dyn_cast<OMPLastprivateClause>(c)) add(p);
                else if (auto *p = dyn_cast<OMPSharedClause>(c)) add(p);
                else if (auto *p = dyn_cast<OMPReductionClause>(c)) { add(p); x["rop"] = p->getNameInfo().getAsString(); }
                else if (auto *p = dyn_cast<OMPNumThreadsClause>(c)) vs.push_back(expr(p->getNumThreads()));
                else if (auto *p = dyn_cast<OMPIfClause>(c)) vs.push_back(expr(p->getCondition()));
                else if (auto *p = dyn_cast<OMPScheduleClause>(c)) { x["sk"] = (int)p->getScheduleKind(); if (p->getChunkSize()) vs.push_back(expr(p->getChunkSize())); }
                else if (auto *p = dyn_cast<OMPCollapseClause>(c)) { if (p->getNumForLoops()) vs.push_back(expr(p->getNumForLoops())); }
                x["v"] = std::move(vs);
                cl.push_back(std::move(x));
            }
            o["cl"] = std::move(cl);
            if (auto *CD = dyn_cast<OMPCriticalDirective>(S)) o["name"] = CD->getDirectiveName().getAsString();
            if (D->hasAssociatedStmt() && D->getAssociatedStmt()) {
                const Stmt *B = D->getRawStmt();
                while (auto *CS = dyn_cast<CapturedStmt>(B)) B = CS->getCapturedStmt();
                o["s"] = stmt(B);
            }
            return o;
        }
        if (auto *CS = dyn_cast<CapturedStmt>(S)) return stmt(CS->getCapturedStmt());
        o["k"] = "unks"; o["cls"] = S->getStmtClassName();
        return o;
    }
    void function(const FunctionDecl *F0) {
        const FunctionDecl *F = F0;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) {
            // pure virtual / declared only: note the signature
            std::string u = usr(F);
            if (Funcs.get(u)) return;
            Object o; sig(o, F); Funcs[u] = std::move(o); return;
        }
        F = Def;
        std::string u = usr(F);
        if (!FuncsDone.insert(u).second) return;
        Object o; sig(o, F);
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            Array I;
            for (auto *i : K->inits()) {
                Object x; x["l"] = ln(i->getSourceLocation());
                if (i->isMemberInitializer()) x["f"] = fieldName(i->getMember());
                else if (i->isBaseInitializer()) x["base"] = i->getBaseClass() && i->getBaseClass()->getAsCXXRecordDecl() ? recName(i->getBaseClass()->getAsCXXRecordDecl()) : "";
                else if (i->isDelegatingInitializer()) x["deleg"] = true;
                x["w"] = i->isWritten();
                x["e"] = expr(i->getInit());
                I.push_back(std::move(x));
            }
            o["inits"] = std::move(I);
        }
        o["body"] = stmt(F->getBody());
        Funcs[u] = std::move(o);
    }
    void sig(Object &o, const FunctionDecl *F) {
        o["n"] = F->getQualifiedNameAsString(); o["loc"] = loc(F->getLocation());
        o["ret"] = type(F->getReturnType());
        Array ps; for (auto *p : F->parameters()) ps.push_back(parm(p));
        o["params"] = std::move(ps);
        if (F->isNoReturn()) o["noret"] = true;
        if (F->isImplicit()) o["implicit"] = true;
        if (F->isDefaulted()) o["defaulted"] = true;
        o["extern"] = F->isExternallyVisible();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent()); record(M->getParent());
            o["virt"] = M->isVirtual(); o["pure"] = M->isPureVirtual(); o["static"] = M->isStatic();
            o["cst"] = M->isConst();
            Array ov; for (auto *q : M->overridden_methods()) ov.push_back(usr(q));
            o["ov"] = std::move(ov);
            o["noex"] = false; o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "method";
        }
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper &D;
    Visitor(Dumper &d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition()) return true;
        if (F->isDependentContext() || F->isTemplated()) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        D.queue(F);
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->hasGlobalStorage() && D.inRoots(V->getLocation()) && !V->getDeclContext()->isDependentContext()) D.global(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isThisDeclarationADefinition() && D.inRoots(R->getLocation()) && !R->isDependentContext() && !R->isLambda()) D.record(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!D.inRoots(E->getLocation())) return true;
        Object o; Array a; o["loc"] = D.loc(E->getLocation());
        for (auto *c : E->enumerators()) {
            llvm::SmallString<32> s; c->getInitVal().toString(s, 10);
            a.push_back(Array{D.qname(c), std::string(s.str())});
        }
        o["e"] = std::move(a);
        D.Enums[D.qname(E) + (E->getIdentifier() ? "" : "@" + std::to_string(D.ln(E->getLocation())))] = std::move(o);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        Dumper D(C);
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        for (size_t i = 0; i < D.Work.size(); i++) D.function(D.Work[i]);
        Object o;
        o["funcs"] = std::move(D.Funcs); o["recs"] = std::move(D.Recs); o["globals"] = std::move(D.Globals);
        o["enums"] = std::move(D.Enums); o["types"] = std::move(D.Types);
        o["errors"] = (int64_t)C.getDiagnostics().getClient()->getNumErrors();
        std::error_code EC;
        llvm::raw_fd_ostream f(OutFile, EC);
        f << Value(std::move(o));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
struct Factory : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, const char **argv) {
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    OutFile = argv[1];
    std::string r = argv[2]; size_t p = 0;
    while (p <= r.size()) { size_t q = r.find(':', p); if (q == std::string::npos) q = r.size(); if (q > p) Roots.push_back(r.substr(p, q - p)); p = q + 1; }
    std::string file = argv[3];
    std::vector<std::string> flags(argv + 5, argv + argc);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {file});
    Factory F;
    return T.run(&F);
}
