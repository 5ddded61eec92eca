// Exports the type-checked program of one translation unit as line records
//   <kind>\t<key>\t<json>
// kind: D function header, F function definition, R record, E enum, G variable, P dependency
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/SHA1.h"
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

using namespace clang;
namespace json = llvm::json;

static std::string Root;     // repository root with trailing slash
static std::string OutPath;
static std::string Extra;    // directory of witness units
static bool AllInst = false;

static std::string shortHash(StringRef s) {
    auto h = llvm::SHA1::hash(llvm::ArrayRef<uint8_t>((const uint8_t *) s.data(), s.size()));
    static const char *d = "0123456789abcdef";
    std::string r;
    for (int i = 0; i < 8; ++i) { r += d[h[i] >> 4]; r += d[h[i] & 15]; }
    return r;
}

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    llvm::raw_ostream &Out;
    std::unordered_set<std::string> doneD, doneR, doneE, doneG, doneF;
    std::unordered_map<const Decl *, std::string> idCache;
    std::map<std::string, int> instCount;

    // function context
    struct Ctx {
        std::unordered_map<const Decl *, int> idx;
        json::Array locals;
    };
    Ctx *cur = nullptr;

    Exporter(ASTContext &C, llvm::raw_ostream &Out) : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), Out(Out) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!FE) return "";
        StringRef p = FE->getFileEntry().tryGetRealPathName();
        if (p.starts_with(Root)) return p.substr(Root.size()).str();
        if (!Extra.empty() && p.starts_with(Extra)) return "@" + p.substr(Extra.size()).str();
        return "";
    }
    int lineOf(SourceLocation L) { return (int) SM.getExpansionLineNumber(L); }
    bool inRepo(const Decl *D) { return !fileOf(D->getLocation()).empty(); }

    std::string typeStr(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string recName(const CXXRecordDecl *R) {
        if (!R) return "";
        if (R->getDescribedClassTemplate()) return qname(R) + "<>";
        if (R->isDependentContext()) return qname(R) + "<>";
        return typeStr(C.getRecordType(R));
    }
    std::string fid(const FunctionDecl *F) {
        F = F->getCanonicalDecl();
        auto it = idCache.find(F);
        if (it != idCache.end()) return it->second;
        llvm::SmallString<256> buf;
        std::string r;
        if (index::generateUSRForDecl(F, buf)) r = shortHash("nousr:" + qname(F) + ":" + typeStr(F->getType()));
        else {
            std::string u = buf.str().str();
            // internal linkage: make the file part of the identity
            if (!F->isExternallyVisible()) u += "@" + fileOf(F->getLocation());
            r = shortHash(u);
        }
        idCache[F] = r;
        header(F, r);
        return r;
    }
    void emit(char k, const std::string &key, json::Value v) {
        Out << k << '\t' << key << '\t';
        Out << v;
        Out << '\n';
    }
    static json::Value str(StringRef s) {
        if (llvm::json::isUTF8(s)) return json::Value(s.str());
        return json::Value(llvm::json::fixUTF8(s));
    }
    json::Array targs(const TemplateArgumentList *L) {
        json::Array a;
        if (L) for (auto &x : L->asArray()) {
            std::string s; llvm::raw_string_ostream os(s);
            x.print(PP, os, true);
            a.push_back(os.str());
        }
        return a;
    }
    const FunctionDecl *patternOf(const FunctionDecl *F) {
        // an explicit specialisation has a body of its own
        if (F->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) return nullptr;
        const FunctionDecl *P = F->getTemplateInstantiationPattern(false);
        return P;
    }
    bool isNoexcept(const FunctionDecl *F) {
        auto *FPT = F->getType()->getAs<FunctionProtoType>();
        if (!FPT) return false;
        switch (FPT->getExceptionSpecType()) {
            case EST_BasicNoexcept: case EST_NoexceptTrue: case EST_DynamicNone: case EST_NoThrow: return true;
            case EST_Unevaluated: case EST_Uninstantiated:
                return isa<CXXDestructorDecl>(F);
            default: return false;
        }
    }
    void header(const FunctionDecl *F, const std::string &id) {
        if (!doneD.insert(id).second) return;
        json::Object o;
        o["qn"] = str(qname(F));
        o["n"] = str(F->getNameAsString());
        o["ret"] = typeStr(F->getReturnType());
        {
            std::string rs = F->getReturnType().getAsString(C.getPrintingPolicy());
            if (rs != typeStr(F->getReturnType())) o["rets"] = rs;
        }
        json::Array ps;
        for (auto *p : F->parameters()) {
            json::Object po{{"n", p->getNameAsString()}, {"t", typeStr(p->getType())}};
            if (p->hasDefaultArg()) po["def"] = 1;
            ps.push_back(std::move(po));
        }
        o["ps"] = std::move(ps);
        std::string f = fileOf(F->getLocation());
        if (!f.empty()) { o["file"] = f; o["line"] = lineOf(F->getLocation()); }
        if (F->isExternC()) o["externC"] = 1;
        if (F->isVariadic()) o["variadic"] = 1;
        if (isNoexcept(F)) o["noexcept"] = 1;
        if (F->isNoReturn()) o["noreturn"] = 1;
        if (F->isDeleted()) o["deleted"] = 1;
        if (F->isDefaulted()) o["defaulted"] = 1;
        if (F->isImplicit()) o["implicit"] = 1;
        if (!F->isExternallyVisible()) o["internal"] = 1;
        if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
        if (auto *VA = F->getAttr<VisibilityAttr>()) { if (VA->getVisibility() == VisibilityAttr::Default) o["exported"] = 1; }
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            if (M->isStatic()) o["static"] = 1;
            if (M->isConst()) o["const"] = 1;
            if (M->isVirtual()) o["virt"] = 1;
            if (M->isPureVirtual()) o["pure"] = 1;
            o["acc"] = (int) M->getAccess();
            json::Array ov;
            for (auto *b : M->overridden_methods()) ov.push_back(fid(b));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
                o["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
                if (K->isExplicit()) o["explicit"] = 1;
            }
            if (isa<CXXDestructorDecl>(M)) o["dtor"] = 1;
            if (isa<CXXConversionDecl>(M)) o["conv"] = 1;
            if (M->isCopyAssignmentOperator()) o["asgn"] = "copy";
            if (M->isMoveAssignmentOperator()) o["asgn"] = "move";
        }
        if (auto *P = patternOf(F)) {
            if (P->getCanonicalDecl() != F->getCanonicalDecl()) o["pat"] = fid(P);
        }
        if (auto *TA = F->getTemplateSpecializationArgs()) o["targs"] = targs(TA);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(M->getParent())) o["ctargs"] = targs(&S->getTemplateArgs());
        }
        if (F->isDependentContext()) o["dep"] = 1;
        emit('D', id, std::move(o));
    }

    // ---------------------------------------------------------------- locals
    int localIdx(const VarDecl *V) {
        auto it = cur->idx.find(V);
        if (it != cur->idx.end()) return it->second;
        int n = (int) cur->locals.size();
        cur->idx[V] = n;
        json::Object o{{"n", V->getNameAsString()}, {"t", typeStr(V->getType())}};
        if (isa<ParmVarDecl>(V)) o["p"] = 1;
        if (V->isStaticLocal()) o["st"] = 1;
        o["l"] = lineOf(V->getLocation());
        cur->locals.push_back(std::move(o));
        return n;
    }

    static int64_t toI64(const llvm::APSInt &v) {
        if (v.getBitWidth() <= 64) return v.isUnsigned() ? (int64_t) v.getZExtValue() : v.getSExtValue();
        return (int64_t) v.trunc(64).getZExtValue();
    }
    // ---------------------------------------------------------------- expressions
    json::Object node(const char *k, const Stmt *S) {
        json::Object o;
        o["k"] = k;
        if (S) o["l"] = lineOf(S->getBeginLoc());
        return o;
    }
    json::Array kids(std::initializer_list<const Stmt *> l) {
        json::Array a;
        for (auto *s : l) a.push_back(ex(s));
        return a;
    }
    void constVal(json::Object &o, const Expr *E) {
        if (E->isValueDependent() || E->isTypeDependent()) return;
        if (!E->getType()->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C)) {
            auto &v = R.Val.getInt();
            o["cv"] = toI64(v);
        }
    }
    json::Value ex(const Stmt *S) {
        if (!S) return nullptr;
        if (auto *E = dyn_cast<Expr>(S)) return exprNode(E);
        return stmtNode(S);
    }
    void addArgs(json::Array &a, CallExpr::const_arg_range R) { for (auto *x : R) a.push_back(ex(x)); }

    json::Value exprNode(const Expr *E) {
        // strip sugar
        while (true) {
            if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
            if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
            if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (P->getSourceExpr()) { E = P->getSourceExpr(); continue; } }
            break;
        }
        if (auto *I = dyn_cast<ImplicitCastExpr>(E)) {
            switch (I->getCastKind()) {
                case CK_UserDefinedConversion: case CK_ConstructorConversion:
                    return ex(I->getSubExpr());
                case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating: case CK_FloatingCast: {
                    auto o = node("icast", E);
                    o["t"] = typeStr(E->getType());
                    o["c"] = kids({I->getSubExpr()});
                    if (I->getCastKind() == CK_IntegralCast && isa<IntegerLiteral>(I->getSubExpr()->IgnoreParenImpCasts())) return ex(I->getSubExpr());
                    return std::move(o);
                }
                case CK_UncheckedDerivedToBase: case CK_DerivedToBase: {
                    auto o = node("upcast", E);
                    o["t"] = typeStr(E->getType());
                    o["c"] = kids({I->getSubExpr()});
                    return std::move(o);
                }
                default: return ex(I->getSubExpr());
            }
        }
        if (auto *L = dyn_cast<IntegerLiteral>(E)) {
            auto o = node("lit", E);
            if (L->getValue().getActiveBits() <= 63) o["v"] = (int64_t) L->getValue().getZExtValue();
            else o["v"] = (double) L->getValue().roundToDouble();
            o["t"] = typeStr(E->getType());
            return std::move(o);
        }
        if (auto *L = dyn_cast<FloatingLiteral>(E)) {
            auto o = node("lit", E);
            double d = L->getValueAsApproximateDouble();
            if (d == d && d - d == 0) o["v"] = d; else o["v"] = "inf";
            o["t"] = typeStr(E->getType());
            return std::move(o);
        }
        if (auto *L = dyn_cast<CharacterLiteral>(E)) { auto o = node("lit", E); o["v"] = (int64_t) L->getValue(); o["t"] = "char"; return std::move(o); }
        if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = node("lit", E); o["v"] = L->getValue(); o["t"] = "bool"; return std::move(o); }
        if (auto *L = dyn_cast<clang::StringLiteral>(E)) {
            auto o = node("lit", E); o["v"] = L->getCharByteWidth() == 1 ? str(L->getString()) : json::Value("L"); o["t"] = "str"; return std::move(o); }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { auto o = node("lit", E); o["v"] = nullptr; o["t"] = "nullptr"; return std::move(o); }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
            auto o = node("zero", E); o["t"] = typeStr(E->getType()); return std::move(o); }
        if (isa<CXXThisExpr>(E)) { auto o = node("this", E); o["t"] = typeStr(E->getType()); return std::move(o); }
        if (auto *D = dyn_cast<DeclRefExpr>(E)) return declRef(E, D->getDecl());
        if (auto *M = dyn_cast<MemberExpr>(E)) {
            auto *VD = M->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(VD)) {
                auto o = node("mem", E);
                o["q"] = fieldName(F);
                o["n"] = F->getNameAsString();
                o["t"] = typeStr(E->getType());
                if (M->isArrow()) o["arrow"] = 1;
                o["c"] = kids({M->getBase()});
                return std::move(o);
            }
            if (auto *F = dyn_cast<FunctionDecl>(VD)) {
                auto o = node("fn", E);
                o["f"] = fid(F);
                o["c"] = kids({M->getBase()});
                return std::move(o);
            }
            return declRef(E, VD);
        }
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto o = node("ocall", E);
            o["op"] = getOperatorSpelling(O->getOperator());
            if (auto *F = O->getDirectCallee()) {
                o["f"] = fid(F);
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) o["m"] = 1;
            }
            o["t"] = typeStr(E->getType());
            json::Array a; addArgs(a, O->arguments());
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
            auto o = node("mcall", E);
            if (auto *MD = M->getMethodDecl()) {
                o["f"] = fid(MD);
                if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens()))
                    if (MD->isVirtual() && !ME->hasQualifier()) o["virt"] = 1;
            }
            o["t"] = typeStr(E->getType());
            json::Array a;
            if (M->getMethodDecl()) a.push_back(ex(M->getImplicitObjectArgument()));
            else { o["fp"] = ex(M->getCallee()); a.push_back(nullptr); }
            addArgs(a, M->arguments());
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *K = dyn_cast<CallExpr>(E)) {
            auto o = node("call", E);
            if (auto *F = K->getDirectCallee()) { o["f"] = fid(F); }
            else o["fp"] = ex(K->getCallee());
            o["t"] = typeStr(E->getType());
            json::Array a; addArgs(a, K->arguments());
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
            auto *D = K->getConstructor();
            auto o = node("ctor", E);
            o["f"] = fid(D);
            o["t"] = typeStr(E->getType());
            if (K->isElidable()) o["elide"] = 1;
            if (isa<CXXTemporaryObjectExpr>(E)) o["temp"] = 1;
            if (K->requiresZeroInitialization()) o["zi"] = 1;
            json::Array a;
            for (auto *x : K->arguments()) a.push_back(ex(x));
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *N = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            auto o = node("ctor", E);
            o["f"] = fid(N->getConstructor()); o["t"] = typeStr(E->getType()); o["inh"] = 1; o["c"] = json::Array();
            return std::move(o);
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            auto o = node("new", E);
            o["t"] = typeStr(N->getAllocatedType());
            if (N->isArray()) o["size"] = N->getArraySize() ? ex(*N->getArraySize()) : json::Value(nullptr);
            json::Array pl;
            for (unsigned i = 0; i < N->getNumPlacementArgs(); ++i) pl.push_back(ex(N->getPlacementArg(i)));
            if (!pl.empty()) o["place"] = std::move(pl);
            json::Array a;
            if (N->hasInitializer()) a.push_back(ex(N->getInitializer()));
            else if (N->getConstructExpr()) a.push_back(ex(N->getConstructExpr()));
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *N = dyn_cast<CXXDeleteExpr>(E)) {
            auto o = node("del", E);
            if (N->isArrayForm()) o["arr"] = 1;
            o["c"] = kids({N->getArgument()});
            o["t"] = typeStr(N->getDestroyedType());
            return std::move(o);
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            auto o = node(B->isAssignmentOp() ? "asg" : "bin", E);
            o["op"] = B->getOpcodeStr().str();
            if (!B->isAssignmentOp()) { if (!B->isLogicalOp() || true) o["t"] = typeStr(E->getType()); }
            o["c"] = kids({B->getLHS(), B->getRHS()});
            if (!B->isAssignmentOp() && B->getOpcode() != BO_Comma) constVal(o, E);
            return std::move(o);
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            auto o = node("un", E);
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = 1;
            o["t"] = typeStr(E->getType());
            o["c"] = kids({U->getSubExpr()});
            if (U->getOpcode() == UO_Minus || U->getOpcode() == UO_Not) constVal(o, E);
            return std::move(o);
        }
        if (auto *T = dyn_cast<AbstractConditionalOperator>(E)) {
            auto o = node("cond", E);
            o["t"] = typeStr(E->getType());
            o["c"] = kids({T->getCond(), T->getTrueExpr(), T->getFalseExpr()});
            return std::move(o);
        }
        if (auto *K = dyn_cast<ExplicitCastExpr>(E)) {
            // functional cast that is a constructor call
            auto o = node("cast", E);
            o["t"] = typeStr(E->getType());
            o["ck"] = K->getCastKindName();
            o["c"] = kids({K->getSubExpr()});
            constVal(o, E);
            return std::move(o);
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            auto o = node("sub", E);
            o["t"] = typeStr(E->getType());
            o["c"] = kids({A->getBase(), A->getIdx()});
            return std::move(o);
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) return lambda(L);
        if (auto *I = dyn_cast<InitListExpr>(E)) {
            auto *SF = I->isSemanticForm() ? I : (I->getSemanticForm() ? I->getSemanticForm() : I);
            auto o = node("init", E);
            o["t"] = typeStr(SF->getType());
            json::Array a;
            for (auto *x : SF->inits()) a.push_back(ex(x));
            if (auto *fl = SF->getArrayFiller()) { o["filler"] = ex(fl); }
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
            auto o = node("throw", E);
            json::Array a;
            if (T->getSubExpr()) { a.push_back(ex(T->getSubExpr())); o["t"] = typeStr(T->getSubExpr()->getType()); }
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            auto o = node("sizeof", E);
            constVal(o, E);
            if (U->isArgumentType()) o["of"] = typeStr(U->getArgumentType());
            else o["of"] = typeStr(U->getArgumentExpr()->getType());
            return std::move(o);
        }
        if (auto *D = dyn_cast<CXXDefaultArgExpr>(E)) {
            auto o = node("defarg", E); o["c"] = kids({D->getExpr()}); return std::move(o);
        }
        if (auto *D = dyn_cast<CXXDefaultInitExpr>(E)) {
            auto o = node("definit", E); o["c"] = kids({D->getExpr()}); return std::move(o);
        }
        if (auto *T = dyn_cast<CXXTypeidExpr>(E)) {
            auto o = node("typeid", E);
            if (T->isTypeOperand()) o["of"] = typeStr(T->getTypeOperand(C));
            return std::move(o);
        }
        // dependent forms
        if (auto *D = dyn_cast<CXXDependentScopeMemberExpr>(E)) {
            auto o = node("dmem", E); o["n"] = D->getMember().getAsString();
            json::Array a; if (!D->isImplicitAccess()) a.push_back(ex(D->getBase())); 
            o["c"] = std::move(a); return std::move(o);
        }
        if (auto *D = dyn_cast<OverloadExpr>(E)) {
            auto o = node("dref", E); o["n"] = D->getName().getAsString();
            if (auto *UM = dyn_cast<UnresolvedMemberExpr>(E)) { if (!UM->isImplicitAccess()) o["c"] = kids({UM->getBase()}); }
            json::Array q;
            for (auto *d : D->decls()) {
                const NamedDecl *nd = d->getUnderlyingDecl();
                if (auto *FT = dyn_cast<FunctionTemplateDecl>(nd)) nd = FT->getTemplatedDecl();
                if (auto *F = dyn_cast<FunctionDecl>(nd)) q.push_back(fid(F));
            }
            o["fs"] = std::move(q);
            return std::move(o);
        }
        if (auto *D = dyn_cast<DependentScopeDeclRefExpr>(E)) { auto o = node("dref", E); o["n"] = D->getDeclName().getAsString(); return std::move(o); }
        if (auto *D = dyn_cast<CXXUnresolvedConstructExpr>(E)) {
            auto o = node("dctor", E); o["t"] = typeStr(D->getTypeAsWritten());
            json::Array a; for (auto *x : D->arguments()) a.push_back(ex(x)); o["c"] = std::move(a); return std::move(o);
        }
        auto o = node("x", E);
        o["x"] = E->getStmtClassName();
        o["t"] = typeStr(E->getType());
        json::Array a;
        for (auto *ch : E->children()) if (ch) a.push_back(ex(ch));
        o["c"] = std::move(a);
        return std::move(o);
    }
    std::string fieldName(const FieldDecl *F) {
        auto *R = dyn_cast<CXXRecordDecl>(F->getParent());
        return (R ? recName(R) : qname(F->getParent())) + "::" + F->getNameAsString();
    }
    json::Value declRef(const Expr *E, const ValueDecl *D) {
        if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
            auto o = node("en", E);
            o["q"] = qname(EC);
            o["v"] = toI64(EC->getInitVal());
            o["t"] = typeStr(E->getType());
            return std::move(o);
        }
        if (auto *V = dyn_cast<VarDecl>(D)) {
            if (cur && V->isLocalVarDeclOrParm()) {
                auto o = node("var", E); o["v"] = localIdx(V);
                if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()) constVal(o, E);
                return std::move(o);
            }
            auto o = node("gv", E);
            o["q"] = qname(V);
            o["t"] = typeStr(E->getType());
            if (!inRepo(V)) o["ext"] = 1;
            constVal(o, E);
            return std::move(o);
        }
        if (auto *F = dyn_cast<FunctionDecl>(D)) { auto o = node("fn", E); o["f"] = fid(F); return std::move(o); }
        if (auto *F = dyn_cast<FieldDecl>(D)) { auto o = node("fld", E); o["q"] = fieldName(F); return std::move(o); }
        auto o = node("x", E);
        o["x"] = "DeclRef"; o["n"] = D->getNameAsString();
        return std::move(o);
    }
    json::Value lambda(const LambdaExpr *L) {
        auto o = node("lambda", L);
        auto *Op = L->getCallOperator();
        json::Array ps, caps;
        for (auto *p : Op->parameters()) ps.push_back(localIdx(p));
        unsigned i = 0;
        auto initIt = L->capture_init_begin();
        for (auto &c : L->captures()) {
            json::Object co;
            if (c.capturesThis()) co["this"] = 1;
            else if (c.capturesVariable()) {
                if (auto *V = dyn_cast<VarDecl>(c.getCapturedVar())) co["v"] = localIdx(V);
                if (c.getCaptureKind() == LCK_ByRef) co["ref"] = 1;
            }
            ++i; ++initIt;
            caps.push_back(std::move(co));
        }
        o["ps"] = std::move(ps);
        o["caps"] = std::move(caps);
        o["ret"] = typeStr(Op->getReturnType());
        o["body"] = ex(L->getBody());
        o["f"] = shortHash("lambda:" + fileOf(L->getBeginLoc()) + ":" + std::to_string(SM.getExpansionColumnNumber(L->getBeginLoc())) + ":" + std::to_string(lineOf(L->getBeginLoc())));
        o["t"] = typeStr(L->getType());
        return std::move(o);
    }

    // ---------------------------------------------------------------- statements
    json::Value varNode(const VarDecl *V) {
        json::Object o;
        o["k"] = "vdecl";
        o["l"] = lineOf(V->getLocation());
        o["v"] = localIdx(V);
        if (V->hasInit()) o["init"] = ex(V->getInit());
        if (V->getInitStyle() == VarDecl::CInit) o["ci"] = 1;
        return std::move(o);
    }
    json::Value stmtNode(const Stmt *S) {
        if (auto *B = dyn_cast<CompoundStmt>(S)) {
            auto o = node("block", S);
            json::Array a; for (auto *x : B->body()) a.push_back(ex(x));
            o["c"] = std::move(a);
            o["le"] = lineOf(B->getRBracLoc());
            return std::move(o);
        }
        if (auto *I = dyn_cast<IfStmt>(S)) {
            auto o = node("if", S);
            if (I->getInit()) o["init"] = ex(I->getInit());
            if (I->getConditionVariable()) o["var"] = varNode(I->getConditionVariable());
            o["cond"] = ex(I->getCond());
            o["then"] = ex(I->getThen());
            if (I->getElse()) o["else"] = ex(I->getElse());
            return std::move(o);
        }
        if (auto *F = dyn_cast<ForStmt>(S)) {
            auto o = node("for", S);
            o["init"] = ex(F->getInit());
            o["cond"] = ex(F->getCond());
            o["inc"] = ex(F->getInc());
            o["body"] = ex(F->getBody());
            return std::move(o);
        }
        if (auto *W = dyn_cast<WhileStmt>(S)) {
            auto o = node("while", S);
            if (W->getConditionVariable()) o["var"] = varNode(W->getConditionVariable());
            o["cond"] = ex(W->getCond());
            o["body"] = ex(W->getBody());
            return std::move(o);
        }
        if (auto *W = dyn_cast<DoStmt>(S)) {
            auto o = node("do", S);
            o["cond"] = ex(W->getCond());
            o["body"] = ex(W->getBody());
            return std::move(o);
        }
        if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
            auto o = node("rfor", S);
            if (R->getLoopVariable()) {
                o["v"] = localIdx(R->getLoopVariable());
                if (R->getLoopVariable()->hasInit()) o["vinit"] = ex(R->getLoopVariable()->getInit());
            }
            o["range"] = ex(R->getRangeInit());
            o["body"] = ex(R->getBody());
            return std::move(o);
        }
        if (auto *W = dyn_cast<SwitchStmt>(S)) {
            auto o = node("switch", S);
            o["cond"] = ex(W->getCond());
            o["body"] = ex(W->getBody());
            if (W->isAllEnumCasesCovered()) o["allenum"] = 1;
            return std::move(o);
        }
        if (auto *K = dyn_cast<CaseStmt>(S)) {
            auto o = node("case", S);
            o["val"] = ex(K->getLHS());
            json::Object t; constVal(t, K->getLHS());
            if (auto *v = t.get("cv")) o["v"] = *v;
            if (K->getRHS()) { json::Object t2; constVal(t2, K->getRHS()); if (auto *v = t2.get("cv")) o["hi"] = *v; }
            o["c"] = kids({K->getSubStmt()});
            return std::move(o);
        }
        if (auto *K = dyn_cast<DefaultStmt>(S)) { auto o = node("default", S); o["c"] = kids({K->getSubStmt()}); return std::move(o); }
        if (isa<BreakStmt>(S)) return node("break", S);
        if (isa<ContinueStmt>(S)) return node("continue", S);
        if (auto *R = dyn_cast<ReturnStmt>(S)) {
            auto o = node("ret", S);
            json::Array a; if (R->getRetValue()) a.push_back(ex(R->getRetValue()));
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *D = dyn_cast<DeclStmt>(S)) {
            auto o = node("decl", S);
            json::Array a;
            for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varNode(V));
            o["c"] = std::move(a);
            return std::move(o);
        }
        if (auto *T = dyn_cast<CXXTryStmt>(S)) {
            auto o = node("try", S);
            o["body"] = ex(T->getTryBlock());
            json::Array a;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
                auto *H = T->getHandler(i);
                auto h = node("catch", H);
                if (H->getExceptionDecl()) { h["t"] = typeStr(H->getCaughtType()); h["v"] = localIdx(H->getExceptionDecl()); }
                else h["t"] = "...";
                h["body"] = ex(H->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return std::move(o);
        }
        if (isa<NullStmt>(S)) return node("null", S);
        if (auto *A = dyn_cast<AttributedStmt>(S)) return ex(A->getSubStmt());
        if (auto *L = dyn_cast<LabelStmt>(S)) { auto o = node("label", S); o["c"] = kids({L->getSubStmt()}); return std::move(o); }
        if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
            auto o = node("omp", S);
            o["dir"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
            json::Array cl;
            for (auto *c : D->clauses()) {
                if (!c) continue;
                json::Object co;
                co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                json::Array vs;
                if (auto *r = dyn_cast<OMPReductionClause>(c)) { co["op"] = r->getNameInfo().getAsString(); for (auto *v : r->varlists()) vs.push_back(ex(v)); }
                else if (auto *r = dyn_cast<OMPPrivateClause>(c)) for (auto *v : r->varlists()) vs.push_back(ex(v));
                else if (auto *r = dyn_cast<OMPFirstprivateClause>(c)) for (auto *v : r->varlists()) vs.push_back(ex(v));
                else if (auto *r = dyn_cast<OMPLastprivateClause>(c)) for (auto *v : r->varlists()) vs.push_back(ex(v));
                else if (auto *r = dyn_cast<OMPSharedClause>(c)) for (auto *v : r->varlists()) vs.push_back(ex(v));
                else if (auto *r = dyn_cast<OMPCollapseClause>(c)) vs.push_back(ex(r->getNumForLoops()));
                co["vs"] = std::move(vs);
                cl.push_back(std::move(co));
            }
            o["cl"] = std::move(cl);
            if (D->hasAssociatedStmt()) o["body"] = ex(D->getRawStmt());
            return std::move(o);
        }
        if (auto *K = dyn_cast<CapturedStmt>(S)) return ex(K->getCapturedStmt());
        if (auto *K = dyn_cast<OMPCanonicalLoop>(S)) return ex(K->getLoopStmt());
        auto o = node("x", S);
        o["x"] = S->getStmtClassName();
        json::Array a;
        for (auto *ch : S->children()) if (ch) a.push_back(ex(ch));
        o["c"] = std::move(a);
        return std::move(o);
    }

    // ---------------------------------------------------------------- visitors
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!inRepo(F)) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        std::string id = fid(F);
        if (!F->isThisDeclarationADefinition() || F->isDeleted()) return true;
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def) || Def != F) return true;
        if (!doneF.insert(id).second) return true;
        if (auto *P = patternOf(F)) {
            if (P->getCanonicalDecl() != F->getCanonicalDecl() && !F->isDependentContext()) {
                int &n = instCount[fid(P)];
                if (n++ >= 1 && !AllInst) return true;
            }
        }
        Ctx ctx; Ctx *save = cur; cur = &ctx;
        json::Object o;
        json::Array ps;
        for (auto *p : F->parameters()) ps.push_back(localIdx(p));
        o["ps"] = std::move(ps);
        if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array inits;
            for (auto *i : K->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) { io["fld"] = i->getAnyMember()->getNameAsString(); if (auto *m = i->getMember()) io["q"] = fieldName(m); }
                else if (i->isBaseInitializer()) io["base"] = typeStr(QualType(i->getBaseClass(), 0));
                else if (i->isDelegatingInitializer()) io["deleg"] = 1;
                if (i->isWritten()) io["w"] = 1;
                io["init"] = ex(i->getInit());
                io["l"] = lineOf(i->getSourceLocation());
                inits.push_back(std::move(io));
            }
            o["inits"] = std::move(inits);
        }
        o["body"] = ex(F->getBody());
        o["le"] = lineOf(F->getEndLoc());
        o["locals"] = std::move(ctx.locals);
        cur = save;
        o["file"] = fileOf(F->getLocation());
        o["line"] = lineOf(F->getLocation());
        emit('F', id, std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition() || R->isLambda() || !inRepo(R)) return true;
        std::string name = recName(R);
        if (!doneR.insert(name).second) return true;
        json::Object o;
        o["n"] = name;
        o["file"] = fileOf(R->getLocation());
        o["line"] = lineOf(R->getLocation());
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            o["targs"] = targs(&S->getTemplateArgs());
            o["tmpl"] = qname(S->getSpecializedTemplate());
            o["spec"] = (int) S->getSpecializationKind();
        }
        if (R->isDependentContext()) o["dep"] = 1;
        json::Array bases;
        for (auto &b : R->bases()) {
            json::Object bo{{"t", typeStr(b.getType())}};
            if (b.isVirtual()) bo["virt"] = 1;
            bases.push_back(std::move(bo));
        }
        o["bases"] = std::move(bases);
        json::Array fields;
        Ctx ctx; Ctx *save = cur; cur = &ctx;
        for (auto *f : R->fields()) {
            json::Object fo{{"n", f->getNameAsString()}, {"t", typeStr(f->getType())}, {"l", lineOf(f->getLocation())}};
            fo["ts"] = f->getType().getAsString(C.getPrintingPolicy());
            if (f->isMutable()) fo["mut"] = 1;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer());
            if (f->getType().isPODType(C)) fo["pod"] = 1;
            fields.push_back(std::move(fo));
        }
        cur = save;
        o["fields"] = std::move(fields);
        if (!R->isDependentContext()) {
            json::Array ms;
            for (auto *m : R->methods()) ms.push_back(fid(m));
            o["methods"] = std::move(ms);
        } else {
            json::Array ms;
            for (auto *m : R->methods()) ms.push_back(fid(m));
            o["methods"] = std::move(ms);
        }
        o["poly"] = R->isPolymorphic();
        if (R->isUnion()) o["union"] = 1;
        if (R->isAbstract()) o["abstract"] = 1;
        if (R->hasUserDeclaredCopyConstructor()) o["ucc"] = 1;
        if (R->hasUserDeclaredMoveConstructor()) o["umc"] = 1;
        if (R->hasUserDeclaredCopyAssignment()) o["uca"] = 1;
        if (R->hasUserDeclaredMoveAssignment()) o["uma"] = 1;
        if (R->hasUserDeclaredDestructor()) o["ud"] = 1;
        if (R->isPOD()) o["pod"] = 1;
        emit('R', name, std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) {
        if (!E->isThisDeclarationADefinition() || !inRepo(E)) return true;
        std::string name = qname(E);
        std::string key = name + "@" + fileOf(E->getLocation()) + ":" + std::to_string(lineOf(E->getLocation()));
        if (E->getNameAsString().size()) key = name;
        if (!doneE.insert(key).second) return true;
        json::Object o{{"n", name}, {"file", fileOf(E->getLocation())}, {"line", lineOf(E->getLocation())}};
        o["u"] = typeStr(E->getIntegerType());
        if (E->isScoped()) o["scoped"] = 1;
        json::Array a;
        for (auto *c : E->enumerators()) a.push_back(json::Array{qname(c), toI64(c->getInitVal()), lineOf(c->getLocation())});
        o["c"] = std::move(a);
        emit('E', key, std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl *V) {
        if (V->isLocalVarDeclOrParm() || isa<ParmVarDecl>(V) || !inRepo(V)) return true;
        std::string name = qname(V);
        std::string key = name + (V->isExternallyVisible() ? "" : "@" + fileOf(V->getLocation())) + (V->isThisDeclarationADefinition() ? "" : "#decl");
        if (isa<VarTemplateSpecializationDecl>(V)) return true;
        if (!doneG.insert(key).second) return true;
        json::Object o{{"n", name}, {"t", typeStr(V->getType())}, {"file", fileOf(V->getLocation())}, {"line", lineOf(V->getLocation())}};
        o["def"] = (int) V->isThisDeclarationADefinition();
        if (!V->isExternallyVisible()) o["internal"] = 1;
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
        if (V->getType().isConstQualified()) o["const"] = 1;
        if (V->isStaticDataMember()) o["smem"] = 1;
        if (V->getType()->isDependentType() || V->getDeclContext()->isDependentContext()) o["dep"] = 1;
        Ctx ctx; Ctx *save = cur; cur = &ctx;
        if (V->hasInit()) {
            o["init"] = ex(V->getInit());
            if (!o.get("dep") && !V->getInit()->isValueDependent() && V->isThisDeclarationADefinition())
                o["cinit"] = V->hasConstantInitialization();
        }
        o["locals"] = std::move(ctx.locals);
        cur = save;
        emit('G', key, std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer {
public:
    llvm::raw_ostream &Out;
    explicit Consumer(llvm::raw_ostream &Out) : Out(Out) {}
    void HandleTranslationUnit(ASTContext &C) override {
        Exporter X(C, Out);
        X.TraverseDecl(C.getTranslationUnitDecl());
        auto &SM = C.getSourceManager();
        std::set<std::string> deps;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            StringRef p = it->first.getFileEntry().tryGetRealPathName();
            if (p.starts_with(Root)) deps.insert(p.substr(Root.size()).str());
        }
        for (auto &d : deps) Out << "P\t" << d << "\t0\n";
    }
};
class Action : public ASTFrontendAction {
public:
    llvm::raw_ostream &Out;
    explicit Action(llvm::raw_ostream &Out) : Out(Out) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(Out); }
};

// exporter ROOT OUT FILE -- flags...
int main(int argc, const char **argv) {
    if (argc < 4) { llvm::errs() << "usage: exporter ROOT OUT FILE [--all-inst] -- flags\n"; return 2; }
    Root = argv[1];
    if (Root.back() != '/') Root += '/';
    OutPath = argv[2];
    if (const char *e = getenv("SA_EXTRA_ROOT")) { Extra = e; if (!Extra.empty() && Extra.back() != '/') Extra += '/'; }
    std::string file = argv[3];
    std::vector<std::string> flags;
    bool dd = false;
    for (int i = 4; i < argc; ++i) {
        std::string a = argv[i];
        if (!dd) { if (a == "--") dd = true; else if (a == "--all-inst") AllInst = true; continue; }
        flags.push_back(a);
    }
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, {file});
    std::error_code EC;
    llvm::raw_fd_ostream Out(OutPath, EC);
    if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; return 2; }
    class F : public tooling::FrontendActionFactory {
    public:
        llvm::raw_ostream &Out;
        explicit F(llvm::raw_ostream &Out) : Out(Out) {}
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(Out); }
    } factory(Out);
    int rc = Tool.run(&factory);
    Out.flush();
    return rc;
}
