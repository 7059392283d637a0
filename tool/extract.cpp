// Fact extractor: parses one or more translation units of the repository with clang and writes, as JSON
// lines, the resolved program: functions (typed syntax trees with resolved callees), classes, globals.
// It never runs repository code.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/StmtCXX.h>
#include <clang/AST/StmtObjC.h>
#include <clang/AST/Attr.h>
#include <clang/Basic/Diagnostic.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Frontend/MultiplexConsumer.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Sema/Sema.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>
#include <set>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;      // only code below these is dumped
static std::vector<std::string> Excludes;   // path substrings that are not dumped
static std::set<std::string> Seen;          // dedupe across TUs of this process

static bool startsWith(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }

struct Dumper {
    ASTContext &Ctx;
    SourceManager &SM;
    PrintingPolicy PP;
    json::OStream &J;
    std::vector<const FunctionDecl *> PendingFns;
    std::vector<const CXXRecordDecl *> PendingRecs;
    llvm::raw_ostream &OS;

    Dumper(ASTContext &C, json::OStream &J, llvm::raw_ostream &OS)
        : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()), J(J), OS(OS)
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = true;
        PP.Bool = true;
    }

    std::string fileOf(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!FE) return "";
        llvm::SmallString<256> P(FE->getFileEntry().tryGetRealPathName());
        if (P.empty()) P = FE->getName();
        return P.str().str();
    }
    unsigned lineOf(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
    unsigned colOf(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionColumnNumber(L); }

    bool inRepo(const Decl *D) {
        std::string F = fileOf(D->getLocation());
        for (auto &E : Excludes) if (F.find(E) != std::string::npos) return false;
        for (auto &R : Roots) if (startsWith(F, R)) return true;
        return false;
    }

    std::string ty(QualType T) {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }

    std::string key(const Decl *D) {
        if (!D) return "";
        if (auto *P = dyn_cast<ParmVarDecl>(D))
            return "p:" + P->getNameAsString() + "@" + std::to_string(lineOf(P->getLocation())) + ":" +
                std::to_string(colOf(P->getLocation())) + "#" + std::to_string(P->getFunctionScopeIndex());
        if (auto *V = dyn_cast<VarDecl>(D))
            if (V->isLocalVarDecl())
                return (V->isStaticLocal() ? "sl:" : "v:") + V->getNameAsString() + "@" + std::to_string(lineOf(V->getLocation())) + ":" +
                    std::to_string(colOf(V->getLocation()));
        if (isa<BindingDecl>(D))
            return "v:" + cast<NamedDecl>(D)->getNameAsString() + "@" + std::to_string(lineOf(D->getLocation())) + ":" +
                std::to_string(colOf(D->getLocation()));
        llvm::SmallString<256> Buf;
        if (index::generateUSRForDecl(D, Buf)) {
            return "?:" + std::to_string(lineOf(D->getLocation())) + ":" + std::to_string(colOf(D->getLocation()));
        }
        std::string K = Buf.str().str();
        if (auto *FD = dyn_cast<FunctionDecl>(D)) {
            if (FD->isTemplateInstantiation() || FD->getTemplateSpecializationArgs()) {
                K += targStr(FD);
            }
            // internal linkage: qualify with the file, so equal names in two files stay apart
            if (!FD->isExternallyVisible() && !isa<CXXMethodDecl>(FD)) K += "@" + fileOf(FD->getCanonicalDecl()->getLocation());
            else if (!FD->isExternallyVisible()) K += "@" + fileOf(FD->getCanonicalDecl()->getLocation());
        } else if (auto *VD = dyn_cast<VarDecl>(D)) {
            if (!VD->isExternallyVisible()) K += "@" + fileOf(VD->getCanonicalDecl()->getLocation());
        } else if (auto *TD = dyn_cast<TagDecl>(D)) {
            if (!TD->isExternallyVisible()) K += "@" + fileOf(TD->getLocation());
        }
        return K;
    }
    std::string targStr(const FunctionDecl *FD) {
        std::string R;
        if (auto *A = FD->getTemplateSpecializationArgs()) {
            llvm::raw_string_ostream S(R);
            S << "<";
            bool first = true;
            for (auto &TA : A->asArray()) { if (!first) S << ","; first = false; TA.print(PP, S, true); }
            S << ">";
            S.flush();
        }
        return R;
    }
    std::string qname(const NamedDecl *D) {
        std::string S;
        llvm::raw_string_ostream O(S);
        D->printQualifiedName(O, PP);
        O.flush();
        return S;
    }

    void targs(llvm::ArrayRef<TemplateArgument> Args) {
        J.attributeArray("targs", [&] {
            for (auto &TA : Args) {
                if (TA.getKind() == TemplateArgument::Pack) {
                    for (auto &P : TA.pack_elements()) { std::string R; llvm::raw_string_ostream S(R); P.print(PP, S, true); J.value(S.str()); }
                } else if (TA.getKind() == TemplateArgument::Type) {
                    J.value(ty(TA.getAsType()));
                } else { std::string R; llvm::raw_string_ostream S(R); TA.print(PP, S, true); J.value(S.str()); }
            }
        });
    }

    void fnRef(const FunctionDecl *FD, const char *attr = "fn") {
        J.attributeObject(attr, [&] {
            J.attribute("n", qname(FD));
            J.attribute("key", key(FD));
            if (auto *A = FD->getTemplateSpecializationArgs()) targs(A->asArray());
            if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
                J.attribute("cls", qname(M->getParent()));
                if (M->isVirtual()) J.attribute("virt", true);
                if (M->isStatic()) J.attribute("static", true);
                if (M->isConst()) J.attribute("const", true);
            }
            if (FD->isNoReturn()) J.attribute("noret", true);
            if (isa<CXXConstructorDecl>(FD)) J.attribute("ctor", true);
            if (isa<CXXConversionDecl>(FD)) J.attribute("conv", true);
            J.attribute("rt", ty(FD->getReturnType()));
            J.attributeArray("pt", [&] { for (auto *P : FD->parameters()) J.value(ty(P->getType())); });
        });
    }

    void varDecl(const VarDecl *V) {
        J.object([&] {
            J.attribute("k", "VarDecl");
            J.attribute("n", V->getNameAsString());
            J.attribute("id", key(V));
            J.attribute("t", ty(V->getType()));
            J.attribute("l", (int64_t)lineOf(V->getLocation()));
            if (V->isStaticLocal()) J.attribute("static", true);
            if (V->getType().isConstQualified()) J.attribute("const", true);
            if (V->isConstexpr()) J.attribute("constexpr", true);
            if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
                J.attributeArray("bindings", [&] {
                    for (auto *B : DD->bindings())
                        J.object([&] { J.attribute("n", B->getNameAsString()); J.attribute("id", key(B)); });
                });
            }
            if (V->getInit()) { J.attributeBegin("init"); stmt(V->getInit()); J.attributeEnd(); }
        });
    }

    void role(const char *n, const Stmt *S) {
        if (!S) return;
        J.attributeBegin(n);
        stmt(S);
        J.attributeEnd();
    }

    void kids(llvm::iterator_range<ConstStmtIterator> R) {
        J.attributeArray("c", [&] { for (auto *C : R) stmt(C); });
    }

    void stmt(const Stmt *S) {
        if (!S) { J.value(nullptr); return; }
        // transparent wrappers
        if (auto *E = dyn_cast<ExprWithCleanups>(S)) return stmt(E->getSubExpr());
        if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) return stmt(E->getSubExpr());
        if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) return stmt(E->getSubExpr());
        if (auto *E = dyn_cast<ConstantExpr>(S)) return stmt(E->getSubExpr());
        if (auto *E = dyn_cast<ParenExpr>(S)) return stmt(E->getSubExpr());
        if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return stmt(E->getReplacement());
        if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(E->getExpr());
        if (auto *E = dyn_cast<AttributedStmt>(S)) return stmt(E->getSubStmt());
        J.object([&] {
            J.attribute("k", S->getStmtClassName());
            J.attribute("l", (int64_t)lineOf(S->getBeginLoc()));
            if (auto *E = dyn_cast<Expr>(S)) {
                J.attribute("t", ty(E->getType()));
                if (E->isGLValue()) J.attribute("lv", true);
                if (!E->isValueDependent() && !E->isTypeDependent() && !isa<IntegerLiteral>(E) && E->getType()->isIntegralOrEnumerationType() && E->isPRValue()) {
                    Expr::EvalResult R;
                    if (!isa<InitListExpr>(E) && E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects) && R.Val.isInt()) {
                        llvm::SmallString<32> Str; R.Val.getInt().toString(Str, 10);
                        J.attribute("cv", Str.str());
                    }
                }
            }
            body(S);
        });
    }

    void body(const Stmt *S) {
        if (auto *X = dyn_cast<IfStmt>(S)) {
            role("init", X->getInit());
            if (X->getConditionVariable()) { J.attributeBegin("var"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
            if (X->isConstexpr()) J.attribute("constexpr", true);
            role("cond", X->getCond()); role("then", X->getThen()); role("else", X->getElse());
            return;
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            if (X->getConditionVariable()) { J.attributeBegin("var"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
            role("cond", X->getCond()); role("body", X->getBody()); return;
        }
        if (auto *X = dyn_cast<DoStmt>(S)) { role("body", X->getBody()); role("cond", X->getCond()); return; }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            role("init", X->getInit());
            if (X->getConditionVariable()) { J.attributeBegin("var"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
            role("cond", X->getCond()); role("inc", X->getInc()); role("body", X->getBody()); return;
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            role("init", X->getInit());
            role("range", X->getRangeInit());
            J.attributeBegin("loopvar"); varDecl(X->getLoopVariable()); J.attributeEnd();
            role("body", X->getBody()); return;
        }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            role("init", X->getInit());
            if (X->getConditionVariable()) { J.attributeBegin("var"); varDecl(X->getConditionVariable()); J.attributeEnd(); }
            role("cond", X->getCond()); role("body", X->getBody()); return;
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) { role("lhs", X->getLHS()); role("rhs", X->getRHS()); role("sub", X->getSubStmt()); return; }
        if (auto *X = dyn_cast<DefaultStmt>(S)) { role("sub", X->getSubStmt()); return; }
        if (auto *X = dyn_cast<LabelStmt>(S)) { J.attribute("n", X->getName()); role("sub", X->getSubStmt()); return; }
        if (auto *X = dyn_cast<GotoStmt>(S)) { J.attribute("n", X->getLabel()->getNameAsString()); return; }
        if (auto *X = dyn_cast<ReturnStmt>(S)) { role("v", X->getRetValue()); return; }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            role("body", X->getTryBlock());
            J.attributeArray("handlers", [&] {
                for (unsigned i = 0; i < X->getNumHandlers(); i++) {
                    auto *H = X->getHandler(i);
                    J.object([&] {
                        J.attribute("l", (int64_t)lineOf(H->getBeginLoc()));
                        if (auto *V = H->getExceptionDecl()) { J.attribute("t", ty(V->getType())); J.attribute("id", key(V)); J.attribute("n", V->getNameAsString()); }
                        else J.attribute("t", "...");
                        role("body", H->getHandlerBlock());
                    });
                }
            });
            return;
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            J.attributeArray("decls", [&] {
                for (auto *D : X->decls()) {
                    if (auto *V = dyn_cast<VarDecl>(D)) varDecl(V);
                    else if (auto *R = dyn_cast<CXXRecordDecl>(D)) { if (R->isThisDeclarationADefinition()) PendingRecs.push_back(R); }
                }
            });
            return;
        }
        // expressions
        if (auto *X = dyn_cast<DeclRefExpr>(S)) {
            auto *D = X->getDecl();
            J.attribute("n", D->getNameAsString());
            J.attribute("id", key(D));
            J.attribute("dk", D->getDeclKindName());
            if (auto *FD = dyn_cast<FunctionDecl>(D)) fnRef(FD);
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                J.attribute("qn", qname(EC));
                llvm::SmallString<32> Str; EC->getInitVal().toString(Str, 10); J.attribute("v", Str.str());
                if (auto *ED = dyn_cast<EnumDecl>(EC->getDeclContext())) {
                    std::string All; int N = 0;
                    for (auto *X : ED->enumerators()) { llvm::SmallString<32> V; X->getInitVal().toString(V, 10); All += (N++ ? "," : "") + X->getNameAsString() + "=" + std::string(V.str()); }
                    if (N <= 16) J.attribute("ens", All);
                }
            }
            if (auto *VD = dyn_cast<VarDecl>(D)) {
                if (VD->hasGlobalStorage()) { J.attribute("glob", true); J.attribute("qn", qname(VD)); }
            }
            return;
        }
        if (auto *X = dyn_cast<MemberExpr>(S)) {
            auto *D = X->getMemberDecl();
            J.attribute("n", D->getNameAsString());
            J.attribute("qn", qname(D));
            J.attribute("id", key(D));
            if (X->isArrow()) J.attribute("arrow", true);
            if (isa<FieldDecl>(D)) J.attribute("field", true);
            if (auto *FD = dyn_cast<FunctionDecl>(D)) fnRef(FD);
            kids(X->children());
            return;
        }
        if (auto *X = dyn_cast<LambdaExpr>(S)) {
            J.attribute("key", key(X->getCallOperator()));
            PendingFns.push_back(X->getCallOperator());
            J.attributeArray("caps", [&] {
                for (auto &C : X->captures()) {
                    J.object([&] {
                        if (C.capturesThis()) J.attribute("this", true);
                        else if (C.capturesVariable()) {
                            J.attribute("id", key(C.getCapturedVar()));
                            J.attribute("n", C.getCapturedVar()->getNameAsString());
                            J.attribute("ref", C.getCaptureKind() == LCK_ByRef);
                            if (auto *V = dyn_cast<VarDecl>(C.getCapturedVar()))
                                if (V->isInitCapture() && V->getInit()) { J.attributeBegin("init"); stmt(V->getInit()); J.attributeEnd(); }
                        }
                    });
                }
            });
            // the body inline as well, so analyses can see it in place
            J.attributeArray("params", [&] { for (auto *P : X->getCallOperator()->parameters()) varDecl(P); });
            role("body", X->getBody());
            return;
        }
        if (auto *X = dyn_cast<CallExpr>(S)) {
            if (auto *FD = X->getDirectCallee()) {
                fnRef(FD);
                if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
                    bool qual = false;
                    if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) qual = ME->hasQualifier();
                    if (auto *M = dyn_cast<CXXMethodDecl>(FD)) if (M->isVirtual() && !qual) J.attribute("vcall", true);
                }
            }
            if (auto *O = dyn_cast<CXXOperatorCallExpr>(X)) J.attribute("op", getOperatorSpelling(O->getOperator()));
            if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) {
                if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) {
                    J.attributeBegin("obj"); stmt(ME->getBase()); J.attributeEnd();
                    if (ME->isArrow()) J.attribute("arrow", true);
                } else { role("calleeExpr", X->getCallee()); }
            } else if (!X->getDirectCallee()) {
                role("calleeExpr", X->getCallee());
            }
            J.attributeArray("args", [&] { for (auto *A : X->arguments()) stmt(A); });
            return;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
            fnRef(X->getConstructor());
            if (X->isElidable()) J.attribute("elidable", true);
            if (X->isListInitialization()) J.attribute("list", true);
            auto *C = X->getConstructor();
            if (C->isCopyConstructor()) J.attribute("copy", true);
            if (C->isMoveConstructor()) J.attribute("move", true);
            J.attributeArray("args", [&] { for (auto *A : X->arguments()) stmt(A); });
            return;
        }
        if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(S)) { fnRef(X->getConstructor()); return; }
        if (auto *X = dyn_cast<CXXDefaultArgExpr>(S)) { role("e", X->getExpr()); return; }
        if (auto *X = dyn_cast<CXXNewExpr>(S)) {
            J.attribute("alloc", ty(X->getAllocatedType()));
            role("init", X->getInitializer());
            if (X->isArray() && X->getArraySize()) role("size", *X->getArraySize());
            return;
        }
        if (auto *X = dyn_cast<BinaryOperator>(S)) { J.attribute("op", X->getOpcodeStr()); kids(X->children()); return; }
        if (auto *X = dyn_cast<UnaryOperator>(S)) {
            J.attribute("op", UnaryOperator::getOpcodeStr(X->getOpcode()));
            if (X->isPostfix()) J.attribute("post", true);
            kids(X->children()); return;
        }
        if (auto *X = dyn_cast<CastExpr>(S)) {
            J.attribute("ck", X->getCastKindName());
            if (auto *XE = dyn_cast<ExplicitCastExpr>(X)) J.attribute("to", ty(XE->getTypeAsWritten()));
            kids(X->children()); return;
        }
        if (auto *X = dyn_cast<IntegerLiteral>(S)) { llvm::SmallString<32> Str; X->getValue().toString(Str, 10, X->getType()->isSignedIntegerType()); J.attribute("v", Str.str()); return; }
        if (auto *X = dyn_cast<FloatingLiteral>(S)) { J.attribute("v", std::to_string(X->getValueAsApproximateDouble())); return; }
        if (auto *X = dyn_cast<CharacterLiteral>(S)) { J.attribute("v", std::to_string(X->getValue())); return; }
        if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) { J.attribute("v", X->getValue() ? "1" : "0"); return; }
        if (auto *X = dyn_cast<StringLiteral>(S)) { J.attribute("s", json::fixUTF8(X->getCharByteWidth() == 1 ? X->getString() : llvm::StringRef("<wide>"))); return; }
        if (auto *X = dyn_cast<CXXThrowExpr>(S)) { kids(X->children()); return; }
        if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { J.attribute("trait", (int64_t)X->getKind()); return; }
        if (auto *X = dyn_cast<UnresolvedLookupExpr>(S)) { J.attribute("n", X->getName().getAsString()); return; }
        if (auto *X = dyn_cast<UnresolvedMemberExpr>(S)) { J.attribute("n", X->getMemberName().getAsString()); kids(X->children()); return; }
        if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(S)) {
            J.attribute("n", X->getMember().getAsString());
            if (!X->isImplicitAccess()) kids(X->children());
            return;
        }
        if (auto *X = dyn_cast<InitListExpr>(S)) {
            const InitListExpr *I = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
            J.attributeArray("c", [&] { for (auto *C : I->inits()) stmt(C); });
            return;
        }
        if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(S)) { J.attributeArray("c", [&] { stmt(X->getSemanticForm()); }); return; }
        if (auto *X = dyn_cast<PredefinedExpr>(S)) { J.attribute("s", X->getFunctionName() ? X->getFunctionName()->getString() : ""); return; }
        kids(S->children());
    }

    void function(const FunctionDecl *FD) {
        std::string K = key(FD);
        if (!Seen.insert("F" + K).second) return;
        bool pattern = FD->isDependentContext() || FD->getDescribedFunctionTemplate();
        J.object([&] {
            J.attribute("rec", "fn");
            J.attribute("key", K);
            J.attribute("n", qname(FD));
            J.attribute("sn", FD->getNameAsString());
            J.attribute("file", fileOf(FD->getLocation()));
            J.attribute("l", (int64_t)lineOf(FD->getLocation()));
            J.attribute("rt", ty(FD->getReturnType()));
            if (pattern) J.attribute("pattern", true);
            if (FD->isTemplateInstantiation()) J.attribute("inst", true);
            if (FD->isExternC()) J.attribute("externc", true);
            if (auto *A = FD->getTemplateSpecializationArgs()) targs(A->asArray());
            if (!FD->isExternallyVisible()) J.attribute("internal", true);
            for (auto *R : FD->redecls())
                if (llvm::StringRef(fileOf(R->getLocation())).ends_with(".h")) { J.attribute("hdr", true); break; }
            if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
                J.attribute("cls", qname(M->getParent()));
                J.attribute("clskey", key(M->getParent()));
                if (M->isVirtual()) J.attribute("virt", true);
                if (M->isStatic()) J.attribute("static", true);
                if (M->isConst()) J.attribute("const", true);
                J.attribute("access", (int64_t)M->getAccess());
                J.attributeArray("overrides", [&] { for (auto *O : M->overridden_methods()) J.value(key(O)); });
                if (M->getParent()->isLambda()) J.attribute("lambda", true);
            }
            if (isa<CXXConstructorDecl>(FD)) J.attribute("ctor", true);
            if (isa<CXXDestructorDecl>(FD)) J.attribute("dtor", true);
            J.attributeArray("params", [&] { for (auto *P : FD->parameters()) varDecl(P); });
            if (auto *C = dyn_cast<CXXConstructorDecl>(FD)) {
                J.attributeArray("inits", [&] {
                    for (auto *I : C->inits()) J.object([&] {
                        if (I->isAnyMemberInitializer()) { J.attribute("field", I->getAnyMember()->getNameAsString()); J.attribute("id", key(I->getAnyMember())); }
                        else if (I->isBaseInitializer()) J.attribute("base", ty(QualType(I->getBaseClass(), 0)));
                        J.attribute("written", I->isWritten());
                        role("e", I->getInit());
                    });
                });
            }
            role("body", FD->getBody());
        });
        OS << "\n";
    }

    void record(const CXXRecordDecl *R) {
        R = R->getDefinition();
        if (!R || R->isLambda()) return;
        std::string K = key(R);
        if (Seen.insert("C" + K).second) {
            bool pattern = R->isDependentContext();
            J.object([&] {
                J.attribute("rec", "class");
                J.attribute("key", K);
                J.attribute("n", qname(R));
                J.attribute("t", ty(Ctx.getRecordType(R)));
                J.attribute("file", fileOf(R->getLocation()));
                J.attribute("l", (int64_t)lineOf(R->getLocation()));
                if (pattern) J.attribute("pattern", true);
                if (auto *SP = dyn_cast<ClassTemplateSpecializationDecl>(R)) { J.attribute("inst", true); targs(SP->getTemplateArgs().asArray()); }
                if (!pattern && R->isAbstract()) J.attribute("abstract", true);
                if (!R->isExternallyVisible()) J.attribute("internal", true);
                J.attributeArray("bases", [&] {
                    for (auto &B : R->bases()) J.object([&] {
                        J.attribute("t", ty(B.getType()));
                        J.attribute("access", (int64_t)B.getAccessSpecifier());
                        if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
                            J.attribute("n", qname(BR)); J.attribute("key", key(BR));
                            if (auto *SP = dyn_cast<ClassTemplateSpecializationDecl>(BR)) targs(SP->getTemplateArgs().asArray());
                        }
                    });
                });
                J.attributeArray("fields", [&] {
                    for (auto *F : R->fields()) J.object([&] {
                        J.attribute("n", F->getNameAsString()); J.attribute("id", key(F)); J.attribute("t", ty(F->getType()));
                        J.attribute("l", (int64_t)lineOf(F->getLocation()));
                        J.attribute("access", (int64_t)F->getAccess());
                        if (F->isMutable()) J.attribute("mutable", true);
                        if (F->hasInClassInitializer() && F->getInClassInitializer()) role("init", F->getInClassInitializer());
                    });
                });
                J.attributeArray("methods", [&] {
                    for (auto *M : R->methods()) {
                        if (M->isImplicit()) continue;
                        J.object([&] {
                            J.attribute("n", M->getNameAsString()); J.attribute("key", key(M));
                            J.attribute("l", (int64_t)lineOf(M->getLocation()));
                            J.attribute("rt", ty(M->getReturnType()));
                            J.attributeArray("pt", [&] { for (auto *P : M->parameters()) J.value(ty(P->getType())); });
                            if (M->isVirtual()) J.attribute("virt", true);
                            if (M->isPureVirtual()) J.attribute("pure", true);
                            if (M->isStatic()) J.attribute("static", true);
                            if (M->isConst()) J.attribute("const", true);
                            if (M->isDefaulted()) J.attribute("defaulted", true);
                            J.attribute("access", (int64_t)M->getAccess());
                            J.attributeArray("overrides", [&] { for (auto *O : M->overridden_methods()) J.value(key(O)); });
                        });
                    }
                    for (auto *D : R->decls())
                        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D))
                            J.object([&] {
                                J.attribute("n", FT->getNameAsString()); J.attribute("key", key(FT->getTemplatedDecl())); J.attribute("template", true);
                                J.attribute("l", (int64_t)lineOf(FT->getLocation()));
                                J.attribute("access", (int64_t)FT->getAccess());
                            });
                });
            });
            OS << "\n";
        }
        context(R);
        // special members and inherited constructors are found through decls()
    }

    void global(const VarDecl *V) {
        if (!V->isThisDeclarationADefinition() && !V->isStaticDataMember()) return;
        std::string K = key(V);
        if (!Seen.insert("G" + K).second) return;
        J.object([&] {
            J.attribute("rec", "var");
            J.attribute("key", K);
            J.attribute("n", qname(V));
            J.attribute("file", fileOf(V->getLocation()));
            J.attribute("l", (int64_t)lineOf(V->getLocation()));
            J.attribute("t", ty(V->getType()));
            if (V->getType().isConstQualified() || V->isConstexpr()) J.attribute("const", true);
            if (V->isStaticDataMember()) J.attribute("member", true);
            if (V->getInit()) role("init", V->getInit());
        });
        OS << "\n";
    }

    void enumDecl(const EnumDecl *E) {
        if (!E->isThisDeclarationADefinition()) return;
        std::string K = key(E);
        if (!Seen.insert("E" + K).second) return;
        J.object([&] {
            J.attribute("rec", "enum"); J.attribute("key", K); J.attribute("n", qname(E)); J.attribute("file", fileOf(E->getLocation()));
            J.attributeArray("consts", [&] {
                for (auto *C : E->enumerators()) J.object([&] {
                    llvm::SmallString<32> Str; C->getInitVal().toString(Str, 10);
                    J.attribute("n", C->getNameAsString()); J.attribute("v", Str.str());
                });
            });
        });
        OS << "\n";
    }

    void decl(const Decl *D) {
        if (auto *NS = dyn_cast<NamespaceDecl>(D)) return context(NS);
        if (auto *LS = dyn_cast<LinkageSpecDecl>(D)) return context(LS);
        if (auto *CT = dyn_cast<ClassTemplateDecl>(D)) {
            // repository templates: pattern and every implicit instantiation
            if (inRepo(CT)) {
                if (CT->isThisDeclarationADefinition() || CT->getTemplatedDecl()->isThisDeclarationADefinition()) record(CT->getTemplatedDecl());
                for (auto *S : CT->specializations()) if (S->getDefinition()) record(S);
            }
            return;
        }
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
            if (inRepo(FT)) {
                if (FT->getTemplatedDecl()->doesThisDeclarationHaveABody()) function(FT->getTemplatedDecl());
                for (auto *S : FT->specializations()) if (S->doesThisDeclarationHaveABody()) function(S); else if (S->hasBody()) { const FunctionDecl *Def; S->hasBody(Def); if (inRepo(Def)) function(Def); }
            }
            return;
        }
        if (auto *CTS = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
            if (inRepo(D) && CTS->isThisDeclarationADefinition()) record(CTS);
            return;
        }
        if (!inRepo(D)) return;
        if (auto *R = dyn_cast<CXXRecordDecl>(D)) { if (R->isThisDeclarationADefinition()) record(R); return; }
        if (auto *F = dyn_cast<FunctionDecl>(D)) { if (F->doesThisDeclarationHaveABody() && !F->isImplicit()) function(F); return; }
        if (auto *V = dyn_cast<VarDecl>(D)) { global(V); return; }
        if (auto *E = dyn_cast<EnumDecl>(D)) { enumDecl(E); return; }
    }
    void context(const DeclContext *DC) { for (auto *D : DC->decls()) decl(D); }

    void run() {
        context(Ctx.getTranslationUnitDecl());
        while (!PendingFns.empty() || !PendingRecs.empty()) {
            auto F = PendingFns; PendingFns.clear();
            for (auto *X : F) if (X->doesThisDeclarationHaveABody()) function(X);
            auto R = PendingRecs; PendingRecs.clear();
            for (auto *X : R) record(X);
        }
    }
};

struct Consumer : ASTConsumer {
    std::string File;
    json::OStream &J; llvm::raw_ostream &OS;
    CompilerInstance &CI;
    Consumer(CompilerInstance &CI, std::string F, json::OStream &J, llvm::raw_ostream &OS) : File(F), J(J), OS(OS), CI(CI) {}
    bool shouldSkipFunctionBody(Decl *D) override {
        auto &SM = CI.getSourceManager();
        auto L = SM.getExpansionLoc(D->getLocation());
        if (L.isInvalid()) return false;
        auto N = SM.getFilename(L).str();
        for (auto &R : Roots) if (startsWith(N, R)) return false;
        return true;
    }
    void HandleTranslationUnit(ASTContext &Ctx) override {
        Dumper D(Ctx, J, OS);
        if (CI.hasSema()) instantiate(D, Ctx.getTranslationUnitDecl());
        D.run();
    }
    // the bodies of system templates are not parsed, so nothing asks for the callbacks of a visitor that is itself an
    // instantiated template: ask for them here
    void callbacks(const CXXRecordDecl *R) {
        if (!R || R->isDependentContext()) return;
        for (auto *X : R->decls()) {
            if (auto *N = dyn_cast<CXXRecordDecl>(X)) { if (!N->isInjectedClassName() && N->getDefinition()) callbacks(N->getDefinition()); continue; }
            auto *M = dyn_cast<CXXMethodDecl>(X);
            if (!M || M->isDefined() || !M->getDeclName().isIdentifier()) continue;
            llvm::StringRef N = M->getName();
            if (!N.starts_with("Visit") && !N.starts_with("Traverse") && !N.starts_with("WalkUp") && !N.starts_with("should") && !N.starts_with("dataTraverse")) continue;
            auto *P = M->getTemplateInstantiationPattern();
            if (!P || !P->hasBody()) continue;
            auto *W = const_cast<CXXMethodDecl *>(M);
            CI.getSema().InstantiateFunctionDefinition(W->getLocation(), W, true, true, true);
        }
    }
    void instantiate(Dumper &D, const DeclContext *DC) {
        for (auto *X : DC->decls()) {
            if (isa<NamespaceDecl>(X) || isa<LinkageSpecDecl>(X)) instantiate(D, cast<DeclContext>(X));
            else if (auto *CT = dyn_cast<ClassTemplateDecl>(X); CT && D.inRepo(CT))
                for (auto *S : CT->specializations()) if (S->getDefinition()) callbacks(S->getDefinition());
        }
    }
};

struct DiagCollect : DiagnosticConsumer {
    std::vector<std::string> Errs;
    void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &I) override {
        DiagnosticConsumer::HandleDiagnostic(L, I);
        if (L < DiagnosticsEngine::Error) return;
        llvm::SmallString<128> M; I.FormatDiagnostic(M);
        std::string W;
        if (I.hasSourceManager() && I.getLocation().isValid()) {
            auto &SM = I.getSourceManager(); auto PL = SM.getPresumedLoc(SM.getExpansionLoc(I.getLocation()));
            if (PL.isValid()) W = std::string(PL.getFilename()) + ":" + std::to_string(PL.getLine()) + ": ";
        }
        Errs.push_back(W + M.str().str());
    }
};

struct Action : ASTFrontendAction {
    json::OStream &J; llvm::raw_ostream &OS;
    Action(json::OStream &J, llvm::raw_ostream &OS) : J(J), OS(OS) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef F) override {
        CI.getFrontendOpts().SkipFunctionBodies = true;
        return std::make_unique<Consumer>(CI, F.str(), J, OS);
    }
};

struct PchAction : GeneratePCHAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef F) override {
        CI.getFrontendOpts().SkipFunctionBodies = true;
        auto Inner = GeneratePCHAction::CreateASTConsumer(CI, F);
        if (!Inner) return nullptr;
        struct SkipAll : ASTConsumer { bool shouldSkipFunctionBody(Decl *) override { return true; } };
        std::vector<std::unique_ptr<ASTConsumer>> V; V.push_back(std::move(Inner));
        return std::make_unique<MultiplexConsumer>(std::move(V));
    }
};

static void nodeClasses(json::OStream &J, llvm::raw_ostream &OS) {
    auto one = [&](const char *kind, const char *n, const char *base, bool abs) {
        J.object([&] { J.attribute("rec", "node"); J.attribute("kind", kind); J.attribute("n", n); J.attribute("base", base); J.attribute("abstract", abs); });
        OS << "\n";
    };
#define STMT(C, B) one("Stmt", #C, #B, false);
#define ABSTRACT_STMT(T)
#include <clang/AST/StmtNodes.inc>
#define EXPRABS 1
#define DECL(D, B) one("Decl", #D "Decl", #B, false);
#define ABSTRACT_DECL(T)
#include <clang/AST/DeclNodes.inc>
#define TYPE(T, B) one("Type", #T "Type", #B, false);
#define ABSTRACT_TYPE(T, B) one("Type", #T "Type", #B, true);
#include <clang/AST/TypeNodes.inc>
}

int main(int argc, char **argv) {
    // extract OUT root[,root] exclude[,exclude] FILELIST -- compiler args
    if (argc >= 3 && std::string(argv[1]) == "--nodes") {
        std::error_code EC; llvm::raw_fd_ostream OS(argv[2], EC); if (EC) return 3; json::OStream J(OS); nodeClasses(J, OS); return 0;
    }
    if (argc < 6) { llvm::errs() << "usage\n"; return 3; }
    auto split = [](std::string s, std::vector<std::string> &out) { size_t p; while ((p = s.find(',')) != std::string::npos) { out.push_back(s.substr(0, p)); s = s.substr(p + 1); } if (!s.empty()) out.push_back(s); };
    std::string Out = argv[1];
    split(argv[2], Roots); split(argv[3], Excludes);
    std::vector<std::string> Files; { std::ifstream in(argv[4]); std::string l; while (std::getline(in, l)) if (!l.empty()) Files.push_back(l); }
    std::vector<std::string> Args; for (int i = 6; i < argc; i++) Args.push_back(argv[i]);
    if (std::string(argv[2]) == "--pch") {
        std::vector<std::string> A = {"clang++"};
        A.insert(A.end(), Args.begin(), Args.end());
        A.push_back("-x"); A.push_back("c++-header"); A.push_back(Files[0]); A.push_back("-o"); A.push_back(Out);
        IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
        DiagCollect DC;
        tooling::ToolInvocation Inv(A, std::make_unique<PchAction>(), FM.get());
        Inv.setDiagnosticConsumer(&DC);
        bool ok = Inv.run();
        for (auto &E : DC.Errs) llvm::errs() << E << "\n";
        return ok ? 0 : 3;
    }
    std::error_code EC; llvm::raw_fd_ostream OS(Out, EC); if (EC) return 3;
    json::OStream J(OS);
    for (auto &F : Files) {
        std::vector<std::string> A = {"clang++"};
        A.insert(A.end(), Args.begin(), Args.end());
        A.push_back("-fsyntax-only"); A.push_back(F);
        IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
        DiagCollect DC;
        tooling::ToolInvocation Inv(A, std::make_unique<Action>(J, OS), FM.get());
        Inv.setDiagnosticConsumer(&DC);
        bool ok = Inv.run();
        J.object([&] { J.attribute("rec", "tu"); J.attribute("file", F); J.attribute("ok", ok); J.attributeArray("errors", [&] { for (auto &E : DC.Errs) J.value(json::fixUTF8(E)); }); });
        OS << "\n";
    }
    return 0;
}
