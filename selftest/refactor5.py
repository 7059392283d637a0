"""More behaviour-preserving edits (rules), in the style of an unrelated author."""
from refactor2 import F, S
B = 'oclint-rules/rules/'
CO, IF_, EL = [B + 'redundant/%sRule.cpp' % x for x in ('RedundantConditionalOperator', 'RedundantIfStatement', 'UnnecessaryElseStatement')]
LV, NC, UP = [B + 'redundant/%sRule.cpp' % x for x in ('RedundantLocalVariable', 'RedundantNilCheck', 'UselessParentheses')]
TF, TM, LC = [B + 'size/%sRule.cpp' % x for x in ('TooManyFields', 'TooManyMethods', 'LongClass')]
AN = B + 'abstract/AbstractNullCheckRule.h'
UL, UM = [B + 'unused/%sRule.cpp' % x for x in ('UnusedLocalVariable', 'UnusedMethodParameter')]
PM, CS = [B + 'cocoa/%sRule.cpp' % x for x in ('ObjCVerifyProtectedMethod', 'ObjCVerifyMustCallSuper')]
NN, OS = [B + 'migration/%sRule.cpp' % x for x in ('ObjCNSNumberLiterals', 'ObjCObjectSubscripting')]
SV = B + 'naming/ShortVariableNameRule.cpp'
JI = B + 'basic/JumbledIncrementerRule.cpp'

M = 'oclint-metrics/lib/'
CASES = [
 ('co-lambda', [F(CO, 'bool isObjCBOOLNotEquals(', '''bool isObjCBOOLNotEquals(Expr *trueExpr, Expr *falseExpr)
    {
        auto literalOf = [this](Expr *expr) { return extractFromImplicitCastExpr<ObjCBoolLiteralExpr>(expr); };
        const auto *lhs = literalOf(trueExpr);
        const auto *rhs = literalOf(falseExpr);
        if (lhs == nullptr || rhs == nullptr)
        {
            return false;
        }
        return lhs->getValue() != rhs->getValue();
    }''')]),
 ('co-shared', [F(CO, 'bool isCXXBoolNotEquals(', '''bool bothCXXBool(Expr *trueExpr, Expr *falseExpr, bool equal)
    {
        CXXBoolLiteralExpr *trueCXXBool = dyn_cast_or_null<CXXBoolLiteralExpr>(trueExpr);
        CXXBoolLiteralExpr *falseCXXBool = dyn_cast_or_null<CXXBoolLiteralExpr>(falseExpr);
        return trueCXXBool && falseCXXBool && (trueCXXBool->getValue() == falseCXXBool->getValue()) == equal;
    }

    bool isCXXBoolNotEquals(Expr *trueExpr, Expr *falseExpr)
    {
        return bothCXXBool(trueExpr, falseExpr, false);
    }'''), F(CO, 'bool isCXXBoolEquals(', '''bool isCXXBoolEquals(Expr *trueExpr, Expr *falseExpr)
    {
        return bothCXXBool(trueExpr, falseExpr, true);
    }''')]),
 ('co-extract', [F(CO, 'nodeType* extractFromImplicitCastExpr(', '''nodeType* extractFromImplicitCastExpr(Expr *fromExpr)
    {
        if (auto *cast = dyn_cast_or_null<ImplicitCastExpr>(fromExpr))
        {
            return dyn_cast_or_null<nodeType>(cast->getSubExpr());
        }
        return nullptr;
    }''')]),
 ('co-visit-early', [F(CO, 'bool VisitConditionalOperator(', '''bool VisitConditionalOperator(ConditionalOperator *conditionalOperator)
    {
        Expr *onTrue = conditionalOperator->getTrueExpr();
        Expr *onFalse = conditionalOperator->getFalseExpr();
        const bool redundant = isNotEquals(onTrue, onFalse) || isSameConstant(onTrue, onFalse) || isSameVariable(onTrue, onFalse);
        if (!redundant)
        {
            return true;
        }
        addViolation(conditionalOperator, this);
        return true;
    }''')]),
 ('if-extract-loop', [F(IF_, 'nodeType* extractStmt(', '''nodeType* extractStmt(Stmt *fromStmt)
    {
        if (fromStmt == nullptr)
        {
            return nullptr;
        }
        if (auto *node = dyn_cast<nodeType>(fromStmt))
        {
            return node;
        }
        auto *compound = dyn_cast<CompoundStmt>(fromStmt);
        if (compound == nullptr || compound->size() != 1)
        {
            return nullptr;
        }
        return extractStmt<nodeType>(compound->body_front());
    }''')]),
 ('if-helper-tmpl', [F(IF_, 'bool isCXXBoolViolated(', '''template <typename LiteralType>
    static bool valuesDiffer(const LiteralType *first, const LiteralType *second)
    {
        return first && second && first->getValue() != second->getValue();
    }

    bool isCXXBoolViolated(Expr *thenExpr, Expr *elseExpr)
    {
        return valuesDiffer(dyn_cast_or_null<CXXBoolLiteralExpr>(thenExpr), dyn_cast_or_null<CXXBoolLiteralExpr>(elseExpr));
    }'''), F(IF_, 'bool isObjCBOOLViolated(', '''bool isObjCBOOLViolated(Expr *thenExpr, Expr *elseExpr)
    {
        return valuesDiffer(dyn_cast_or_null<ObjCBoolLiteralExpr>(thenExpr), dyn_cast_or_null<ObjCBoolLiteralExpr>(elseExpr));
    }''')]),
 ('if-visit-split', [F(IF_, 'bool VisitIfStmt(', '''bool VisitIfStmt(IfStmt *ifStmt)
    {
        Stmt *thenStmt = ifStmt->getThen();
        Stmt *elseStmt = ifStmt->getElse();
        if (doesReturnStatementsViolateRule(extractStmt<ReturnStmt>(thenStmt), extractStmt<ReturnStmt>(elseStmt)))
        {
            addViolation(ifStmt, this);
        }
        else if (doesBinaryOperatorsViolateRule(extractStmt<BinaryOperator>(thenStmt), extractStmt<BinaryOperator>(elseStmt)))
        {
            addViolation(ifStmt, this);
        }

        return true;
    }''')]),
 ('el-any-of', [F(EL, 'bool areAllBranchesReturn(CompoundStmt', '''bool areAllBranchesReturn(CompoundStmt *compoundStmt)
    {
        return std::any_of(compoundStmt->body_begin(), compoundStmt->body_end(),
            [this](Stmt *child) { return areAllBranchesReturn(child); });
    }''')]),
 ('el-range', [F(EL, 'bool areAllBranchesReturn(CompoundStmt', '''bool areAllBranchesReturn(CompoundStmt *compoundStmt)
    {
        for (Stmt *child : compoundStmt->body())
        {
            if (areAllBranchesReturn(child))
            {
                return true;
            }
        }
        return false;
    }'''), F(EL, 'bool isIfStmtVisited(', '''bool isIfStmtVisited(IfStmt *ifStmt)
    {
        return std::find(_visitedIfStmt->begin(), _visitedIfStmt->end(), ifStmt) != _visitedIfStmt->end();
    }''')]),
 ('el-all-of', [F(EL, 'bool areAllBranchesReturn(vector', '''bool areAllBranchesReturn(vector<IfStmt *> &ifStmts)
    {
        return std::all_of(ifStmts.begin(), ifStmts.end(), [this](IfStmt *each) {
            return areAllBranchesReturn(each->getThen());
        });
    }''')]),
 ('el-while-true', [S(EL, '''        while (!stopSign)
        {
            ifStmts.push_back(currentIfStmt);
            Stmt *elseStmt = currentIfStmt->getElse();
            if (elseStmt && isa<IfStmt>(elseStmt))
            {
                currentIfStmt = dyn_cast<IfStmt>(elseStmt);
                _visitedIfStmt->push_back(currentIfStmt);
            }
            else
            {
                lastElseStmt = elseStmt;
                stopSign = true;
            }
        }''', '''        while (true)
        {
            ifStmts.push_back(currentIfStmt);
            lastElseStmt = currentIfStmt->getElse();
            IfStmt *nestedIf = dyn_cast_or_null<IfStmt>(lastElseStmt);
            if (nestedIf == nullptr)
            {
                break;
            }
            currentIfStmt = nestedIf;
            _visitedIfStmt->push_back(currentIfStmt);
        }'''), S(EL, '''        bool stopSign = false;
''', '')]),
 ('el-is-contained', [F(EL, 'bool isIfStmtVisited(', '''bool isIfStmtVisited(IfStmt *ifStmt)
    {
        return llvm::is_contained(*_visitedIfStmt, ifStmt);
    }''')]),
 ('lv-flat', [F(LV, 'NamedDecl *extractReturnDeclRef(', '''NamedDecl *extractReturnDeclRef(CompoundStmt *compoundStmt)
    {
        auto *returnStmt = dyn_cast<ReturnStmt>(compoundStmt->body_back());
        if (!returnStmt)
        {
            return nullptr;
        }
        auto *cast = dyn_cast_or_null<ImplicitCastExpr>(returnStmt->getRetValue());
        if (!cast)
        {
            return nullptr;
        }
        auto *ref = dyn_cast_or_null<DeclRefExpr>(cast->getSubExpr());
        return ref ? ref->getFoundDecl() : nullptr;
    }''')]),
 ('lv-cond', [F(LV, 'NamedDecl *extractNamedDecl(', '''NamedDecl *extractNamedDecl(CompoundStmt *compoundStmt)
    {
        Stmt *beforeLast = *(compoundStmt->body_end() - 2);
        auto *declStmt = dyn_cast<DeclStmt>(beforeLast);
        return declStmt && declStmt->isSingleDecl() ? dyn_cast<NamedDecl>(declStmt->getSingleDecl()) : nullptr;
    }''')]),
 ('nc-flat', [F(NC, 'bool isRedundantNilCheck(', '''bool isRedundantNilCheck(BinaryOperator *binaryOperator)
    {
        if (binaryOperator->getOpcode() != BO_LAnd)
        {
            return false;
        }
        if (!isNeNullCheck(binaryOperator->getLHS()))
        {
            return false;
        }
        auto *unary = dyn_cast_or_null<UnaryOperator>(binaryOperator->getRHS());
        return !unary || unary->getOpcode() != UO_LNot;
    }''')]),
 ('nc-empty', [F(NC, 'bool isSameVariableBroken(', '''bool isSameVariableBroken(BinaryOperator *binaryOperator)
    {
        const string name = extractIdentifierFromExpr(binaryOperator->getLHS());
        return !name.empty() && hasVariableInExpr(name, binaryOperator->getRHS());
    }''')]),
 ('up-isa-null', [F(UP, 'void addParenExprToViolation(', '''void addParenExprToViolation(Expr *expr)
    {
        auto *paren = dyn_cast_or_null<ParenExpr>(expr);
        if (paren == nullptr)
        {
            return;
        }
        addViolation(paren, this);
    }''')]),
 ('tf-helper', [F(TF, 'bool VisitObjCInterfaceDecl(', '''void report(Decl *decl, const string &kind, int count)
    {
        if (count <= _threshold)
        {
            return;
        }
        addViolation(decl, this, kind + " with " + toString<int>(count) + " fields exceeds limit of " + toString<int>(_threshold));
    }

    bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
    {
        report(decl, "Objective-C interface", decl->ivar_size());
        return true;
    }''')]),
 ('tm-stream', [F(TM, 'bool VisitCXXRecordDecl(', '''bool VisitCXXRecordDecl(CXXRecordDecl *decl)
    {
        const int methodCount = std::distance(decl->method_begin(), decl->method_end());
        if (methodCount > _threshold)
        {
            ostringstream text;
            text << "C++ class with " << methodCount << " methods exceeds limit of " << _threshold;
            addViolation(decl, this, text.str());
        }
        return true;
    }''')]),
 ('tm-count-loop', [F(TM, 'bool VisitObjCImplDecl(', '''bool VisitObjCImplDecl(ObjCImplDecl *decl)
    {
        int methodCount = 0;
        for (auto it = decl->meth_begin(), end = decl->meth_end(); it != end; ++it)
        {
            ++methodCount;
        }
        if (methodCount > _threshold)
        {
            string description = "Objective-C implementation with " + toString<int>(methodCount) +
                " methods exceeds limit of " + toString<int>(_threshold);
            addViolation(decl, this, description);
        }
        return true;
    }''')]),
 ('an-switch', [F(AN, 'bool isImplicitDeclRef(', '''bool isImplicitDeclRef(clang::Expr *expr)
    {
        auto *implicitCastExpr = clang::dyn_cast_or_null<clang::ImplicitCastExpr>(expr);
        if (!implicitCastExpr)
        {
            return false;
        }
        switch (implicitCastExpr->getCastKind())
        {
        case clang::CK_PointerToBoolean:
            return true;
        case clang::CK_LValueToRValue:
            return clang::isa_and_nonnull<clang::DeclRefExpr>(implicitCastExpr->getSubExpr());
        default:
            return false;
        }
    }''')]),
 ('an-paren-loop', [S(AN, '''                while (subExpr && clang::isa<clang::ParenExpr>(subExpr))
                {
                    clang::ParenExpr *parenExpr = clang::dyn_cast<clang::ParenExpr>(subExpr);
                    subExpr = parenExpr->getSubExpr();
                }''', '''                while (auto *parenExpr = clang::dyn_cast_or_null<clang::ParenExpr>(subExpr))
                {
                    subExpr = parenExpr->getSubExpr();
                }''')]),
 ('an-extract', [F(AN, 'std::string extractIdentifierFromBinaryOperator(', '''std::string extractIdentifierFromBinaryOperator(clang::BinaryOperator *binaryOperator)
    {
        clang::Expr *lhs = binaryOperator->getLHS();
        clang::Expr *refExpr = isNullToPointer(lhs) ? binaryOperator->getRHS() : lhs;
        return extractIdentifierFromImplicitCastExpr(clang::dyn_cast_or_null<clang::ImplicitCastExpr>(refExpr));
    }''')]),
 ('an-xor', [F(AN, 'bool isEqNullCheck(', '''bool isEqNullCheck(clang::Expr *expr)
    {
        if (auto *binaryOperator = clang::dyn_cast_or_null<clang::BinaryOperator>(expr))
        {
            if (binaryOperator->getOpcode() != clang::BO_EQ)
            {
                return false;
            }
            const bool lhsIsNull = isNullToPointer(binaryOperator->getLHS());
            const bool rhsIsNull = isNullToPointer(binaryOperator->getRHS());
            return (lhsIsNull && !rhsIsNull) || (!lhsIsNull && rhsIsNull);
        }

        auto *unaryOperator = clang::dyn_cast_or_null<clang::UnaryOperator>(expr);
        return unaryOperator != nullptr && unaryOperator->getOpcode() == clang::UO_LNot &&
            isImplicitDeclRef(unaryOperator->getSubExpr());
    }''')]),
 ('ul-split-helper', [S(UL, '''                    if (startPos != i)
                    {
                        const auto curClassName = input.substr(startPos, i-startPos);
                        skippedTypes.insert(curClassName);
                    }
                    startPos = i + 1;''', '''                    addSkippedType(input, startPos, i);
                    startPos = i + 1;'''), S(UL, '''    void splitClasses(''', '''    void addSkippedType(const string &input, int from, int to)
    {
        if (from == to)
        {
            return;
        }
        skippedTypes.insert(input.substr(from, to - from));
    }

    void splitClasses(''')]),
 ('ul-desc', [F(UL, 'string description(const string& unused', '''string description(const string& unusedVariableName)
    {
        return "The local variable '" + unusedVariableName + "' is unused.";
    }''')]),
 ('ul-unused', [F(UL, 'bool isUnused(VarDecl', '''bool isUnused(VarDecl *varDecl)
    {
        return !(varDecl->isUsed() || varDecl->isReferenced());
    }'''), F(UL, 'bool hasName(VarDecl', '''bool hasName(VarDecl *varDecl)
    {
        return !varDecl->getNameAsString().empty();
    }'''), F(UL, 'bool isInNonTemplateFunction(', '''bool isInNonTemplateFunction(Decl *varDecl)
    {
        auto *decl = dyn_cast_or_null<FunctionDecl>(varDecl->getLexicalDeclContext());
        return decl == nullptr || decl->getTemplatedKind() == FunctionDecl::TK_NonTemplate;
    }''')]),
 ('ul-count', [S(UL, 'return skippedTypes.find(varTypeName) != skippedTypes.end();', 'return skippedTypes.count(varTypeName) > 0;')]),
 ('ul-raii-helper', [S(UL, '''        // Remove of the qualifiers, to get ride of class/struct/... definition parts
        auto const lastSpacePos = varTypeName.rfind(' ');
        if (lastSpacePos != string::npos)
        {
            varTypeName = varTypeName.substr(lastSpacePos + 1);
        }

        return skippedTypes''', '''        varTypeName = withoutQualifiers(varTypeName);

        return skippedTypes'''), S(UL, '''    bool isRAIIClass(''', '''    static string withoutQualifiers(const string &typeName)
    {
        const auto lastSpacePos = typeName.rfind(' ');
        if (lastSpacePos == string::npos)
        {
            return typeName;
        }
        return typeName.substr(lastSpacePos + 1);
    }

    bool isRAIIClass(''')]),
 ('um-contract', [F(UM, 'bool isExistingByContract(DeclContext', '''bool isExistingByContract(DeclContext *context)
    {
        if (isFunctionDeclaration(context) || isBlockDeclaration(context))
        {
            return true;
        }
        if (isObjCMethodDeclaration(context) || isObjCOverrideMethod(context))
        {
            return true;
        }
        return isCppFunctionDeclaration(context) || isCppOverrideFunction(context);
    }''')]),
 ('um-reorder', [F(UM, 'bool isExistingByContract(DeclContext', '''bool isExistingByContract(DeclContext *context)
    {
        return isCppOverrideFunction(context) ||
            isCppFunctionDeclaration(context) ||
            isObjCOverrideMethod(context) ||
            isObjCMethodDeclaration(context) ||
            isBlockDeclaration(context) ||
            isFunctionDeclaration(context);
    }''')]),
 ('pm-combined', [F(PM, 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr* expr) {
            const auto method = expr->getMethodDecl();
            if (declHasEnforceAttribute(method, _rule)) {
                const auto interface = expr->getReceiverInterface();
                if (interface && !isObjCInterfaceClassOrSubclass(&_container, interface->getNameAsString())) {
                    _violations.push_back(expr);
                }
            }
            return true;
        }''')]),
 ('pm-guard', [F(PM, 'bool VisitObjCImplementationDecl(', '''bool VisitObjCImplementationDecl(ObjCImplementationDecl* decl) {
        auto *interface = decl->getClassInterface();
        if (interface == nullptr) {
            return true;
        }

        CheckMethodsInsideClass checker(*interface, *this);
        checker.TraverseDecl(decl);
        for (ObjCMessageExpr *expr : checker.getViolations()) {
            addViolation(expr, this, describe(expr));
        }
        return true;
    }

    static string describe(ObjCMessageExpr *expr) {
        const ObjCInterfaceDecl *owner = expr->getMethodDecl()->getClassInterface();
        if (!owner) {
            owner = expr->getReceiverInterface();
        }
        return "calling protected method " + expr->getSelector().getAsString() +
            " from outside " + owner->getNameAsString() + " and its subclasses";
    }''')]),
 ('cs-any', [F(CS, 'bool declRequiresSuperCall(', '''bool declRequiresSuperCall(ObjCMethodDecl* decl) {
        if (!decl->isOverriding()) {
            return false;
        }
        SmallVector<const ObjCMethodDecl*, 4> overridden;
        decl->getOverriddenMethods(overridden);
        return llvm::any_of(overridden, [this](const ObjCMethodDecl *method) {
            return declHasEnforceAttribute(method, *this);
        });
    }''')]),
 ('cs-init', [S(CS, '''        : _selector(std::move(selectorString))
    {
        _foundSuperCall = false;
    }''', '''        : _selector(std::move(selectorString)), _foundSuperCall(false)
    {
    }'''), F(CS, 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
    {
        const auto kind = expr->getReceiverKind();
        const bool toSuper = kind == ObjCMessageExpr::SuperInstance || kind == ObjCMessageExpr::SuperClass;
        if (toSuper && expr->getSelector().getAsString() == _selector) {
            _foundSuperCall = true;
        }
        return true;
    }''')]),
 ('cs-default-member', [S(CS, '''    bool _foundSuperCall;
public:''', '''    bool _foundSuperCall = false;
public:'''), S(CS, '''    {
        _foundSuperCall = false;
    }
''', '''    {
    }
'''), F(CS, 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
    {
        _foundSuperCall = _foundSuperCall ||
            (expr->getSelector().getAsString() == _selector &&
             (expr->getReceiverKind() == ObjCMessageExpr::SuperClass || expr->getReceiverKind() == ObjCMessageExpr::SuperInstance));
        return true;
    }''')]),
 ('cs-guards', [F(CS, 'bool VisitObjCMethodDecl(', '''bool VisitObjCMethodDecl(ObjCMethodDecl* decl) {
        if (!decl->hasBody() || !declRequiresSuperCall(decl)) {
            return true;
        }
        const string selectorName = decl->getSelector().getAsString();
        ContainsCallToSuperMethod checker(selectorName);
        checker.TraverseDecl(decl);
        if (checker.foundSuperCall()) {
            return true;
        }
        addViolation(decl, this, "overridden method " + selectorName + " must call super");
        return true;
    }''')]),
 ('np-min', [S(M + 'NPathComplexityMetric.cpp', 'return npath < INT_MAX ? static_cast<int>(npath) : INT_MAX;', 'return static_cast<int>(std::min(npath, static_cast<long long>(INT_MAX)));'), S(M + 'NPathComplexityMetric.cpp', '#include <climits>', '#include <algorithm>\n#include <climits>')]),
 ('np-if', [F(M + 'NPathComplexityMetric.cpp', 'int NPathComplexityMetric::nPath(clang::IfStmt *stmt)', """int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
{
    clang::Stmt *elseStmt = stmt->getElse();
    const long long total = 0LL + nPath(stmt->getCond()) + nPath(stmt->getThen()) + (elseStmt ? nPath(elseStmt) : 1);
    return limit(total);
}""")]),
 ('np-loops', [S(M + 'NPathComplexityMetric.cpp', """int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
{
    return limit(0LL + nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
}

int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
{
    return limit(0LL + nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
}""", """template <typename LoopStmt>
static int loopPaths(NPathComplexityMetric &metric, LoopStmt *loop)
{
    long long paths = metric.nPath(loop->getCond());
    paths += metric.nPath(loop->getBody());
    return limit(paths + 1);
}

int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
{
    return loopPaths(*this, stmt);
}

int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
{
    return loopPaths(*this, stmt);
}""")]),
 ('np-compound', [F(M + 'NPathComplexityMetric.cpp', 'int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)', """int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
{
    int product = 1;
    for (clang::Stmt *child : stmt->body())
    {
        const long long paths = nPath(child);
        product = limit(paths * product);
    }
    return product;
}""")]),
 ('np-switch', [S(M + 'NPathComplexityMetric.cpp', """        if (clang::isa<clang::SwitchCase>(*bodyStmt))
        {
            nPathSwitchStmt = limit(0LL + nPathSwitchStmt + internalNPath);
            internalNPath = nPath(*bodyStmt);
        }
        else
        {
            internalNPath = limit(1LL * internalNPath * nPath(*bodyStmt));
        }""", """        clang::Stmt *child = *bodyStmt;
        if (!clang::isa<clang::SwitchCase>(child))
        {
            internalNPath = limit(1LL * internalNPath * nPath(child));
            continue;
        }
        nPathSwitchStmt = limit(0LL + nPathSwitchStmt + internalNPath);
        internalNPath = nPath(child);""")]),
 ('nn-init-list', [S(NN, '''        map<string, string> intSelArgTypeMap;
        intSelArgTypeMap["numberWithInt:"] = "int";
        intSelArgTypeMap["numberWithUnsignedInt:"] = "unsigned int";
        intSelArgTypeMap["numberWithLong:"] = "long";
        intSelArgTypeMap["numberWithUnsignedLong:"] = "unsigned long";
        intSelArgTypeMap["numberWithLongLong:"] = "long long";
        intSelArgTypeMap["numberWithUnsignedLongLong:"] = "unsigned long long";
''', '''        map<string, string> intSelArgTypeMap = {
            {"numberWithInt:", "int"},
            {"numberWithUnsignedInt:", "unsigned int"},
            {"numberWithLong:", "long"},
            {"numberWithUnsignedLong:", "unsigned long"},
            {"numberWithLongLong:", "long long"},
            {"numberWithUnsignedLongLong:", "unsigned long long"},
        };
''')]),
 ('nn-bool', [F(NN, 'bool isObjCBoolLiteral(', '''bool isObjCBoolLiteral(Expr *expr, string &selectorString)
    {
        if (!expr || selectorString != "numberWithBool:")
        {
            return false;
        }
        if (isa<ObjCBoolLiteralExpr>(expr))
        {
            return true;
        }
        if (auto *parenExpr = dyn_cast<ParenExpr>(expr))
        {
            auto *castExpr = dyn_cast<CStyleCastExpr>(parenExpr->getSubExpr());
            return castExpr && isa<IntegerLiteral>(castExpr->getSubExpr()) &&
                castExpr->getType().getAsString() == "BOOL";
        }
        return false;
    }''')]),
 ('os-init', [F(OS, 'bool isArrayGetSelector(', '''bool isArrayGetSelector(Expr *expr, string &selectorString)
    {
        vector<string> arrayGetSelectors = { "objectAtIndex:", "objectAtIndexedSubscript:" };

        return expr->getType().getAsString() == "NSArray *" &&
            vectorContains<string>(selectorString, arrayGetSelectors);
    }''')]),
 ('os-direct', [F(OS, 'bool isDictionarySetSelector(', '''bool isDictionarySetSelector(Expr *expr, string &selectorString)
    {
        if (expr->getType().getAsString() != "NSMutableDictionary *")
        {
            return false;
        }
        return selectorString == "setObject:forKey:" || selectorString == "setObject:forKeyedSubscript:";
    }''')]),
 ('os-table', [F(OS, 'bool isArrayGetSelector(', '''bool matches(Expr *expr, const string &typeName, const string &selectorString, const vector<string> &selectors)
    {
        return expr->getType().getAsString() == typeName &&
            std::find(selectors.begin(), selectors.end(), selectorString) != selectors.end();
    }

    bool isArrayGetSelector(Expr *expr, string &selectorString)
    {
        return matches(expr, "NSArray *", selectorString, {"objectAtIndex:", "objectAtIndexedSubscript:"});
    }'''), F(OS, 'bool isArraySetSelector(', '''bool isArraySetSelector(Expr *expr, string &selectorString)
    {
        return matches(expr, "NSMutableArray *", selectorString,
            {"replaceObjectAtIndex:withObject:", "setObject:atIndexedSubscript:"});
    }''')]),
 ('sv-clear', [F(SV, 'void clearVarDeclsStack(', '''void clearVarDeclsStack()
    {
        for (; !_suppressVarDecls.empty(); _suppressVarDecls.pop())
        {
        }
    }''')]),
 ('sv-clear-assign', [F(SV, 'void clearVarDeclsStack(', '''void clearVarDeclsStack()
    {
        _suppressVarDecls = std::stack<VarDecl *>();
    }''')]),
 ('sv-decl', [F(SV, 'void handleDeclStmt(', '''void handleDeclStmt(Stmt *initStmt)
    {
        if (DeclStmt *declStmt = dyn_cast_or_null<DeclStmt>(initStmt))
        {
            if (declStmt->isSingleDecl())
            {
                handleVarDecl(dyn_cast_or_null<VarDecl>(declStmt->getSingleDecl()));
                return;
            }
            for (auto it = declStmt->decl_rbegin(); it != declStmt->decl_rend(); ++it)
            {
                handleVarDecl(dyn_cast_or_null<VarDecl>(*it));
            }
        }
    }''')]),
 ('sv-visit', [S(SV, '''        if (!_suppressVarDecls.empty())
        {
            VarDecl *topVarDecl = _suppressVarDecls.top();
            _suppressVarDecls.pop();
            if (varDecl == topVarDecl)
            {
                return true;
            }
        }
''', '''        if (isSuppressed(varDecl))
        {
            return true;
        }
'''), S(SV, '''    void handleVarDecl(VarDecl *varDecl)''', '''    bool isSuppressed(VarDecl *varDecl)
    {
        if (_suppressVarDecls.empty())
        {
            return false;
        }
        VarDecl *expected = _suppressVarDecls.top();
        _suppressVarDecls.pop();
        return expected == varDecl;
    }

    void handleVarDecl(VarDecl *varDecl)''')]),
 ('ji-helper', [F(JI, 'bool VisitForStmt(', '''ForStmt *nestedForStmt(ForStmt *parentStmt)
    {
        Stmt *bodyStmt = parentStmt->getBody();
        if (auto *forStmt = dyn_cast_or_null<ForStmt>(bodyStmt))
        {
            return forStmt;
        }
        auto *compoundStmt = dyn_cast_or_null<CompoundStmt>(bodyStmt);
        if (compoundStmt && compoundStmt->size() == 1)
        {
            return dyn_cast_or_null<ForStmt>(compoundStmt->body_back());
        }
        return nullptr;
    }

    bool VisitForStmt(ForStmt *parentStmt)
    {
        ForStmt *nested = nestedForStmt(parentStmt);
        if (!nested)
        {
            return true;
        }
        if (isInnerIncMatchingOuterInit(nested->getInc(), parentStmt->getInit()))
        {
            addViolation(nested->getInc(), this);
        }
        return true;
    }''')]),
 ('ji-match', [F(JI, 'ValueDecl *valueDeclFromIncExpr(', '''ValueDecl *valueDeclFromIncExpr(Expr *incExpr)
    {
        auto *unaryOperator = dyn_cast_or_null<UnaryOperator>(incExpr);
        if (!unaryOperator)
        {
            return nullptr;
        }
        auto *declRefExpr = dyn_cast_or_null<DeclRefExpr>(unaryOperator->getSubExpr());
        return declRefExpr ? declRefExpr->getDecl() : nullptr;
    }'''), F(JI, 'bool isInnerIncMatchingOuterInit(', '''bool isInnerIncMatchingOuterInit(Expr *incExpr, Stmt *initStmt)
    {
        const VarDecl *declared = varDeclFromInitStmt(initStmt);
        return declared != nullptr && declared == valueDeclFromIncExpr(incExpr);
    }''')]),
]
