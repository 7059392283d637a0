"""Behaviour-preserving edits: the larger rules written another way."""
import os
from refactor2 import F, S
D = 'oclint-rules/rules/'
UN = D + 'redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp'
SM = D + 'cocoa/ObjCVerifySubclassMustImplementRule.cpp'
FE = D + 'design/FeatureEnvyRule.cpp'
PC = D + 'cocoa/ObjCVerifyProhibitedCallRule.cpp'
UM = D + 'unused/UnusedMethodParameterRule.cpp'
BN = D + 'basic/BrokenNullCheckRule.cpp'
PE = D + 'convention/PreferEarlyExitRule.cpp'
IV = D + 'convention/ObjCAssignIvarOutsideAccessorsRule.cpp'
DC = D + 'basic/DeadCodeRule.cpp'
MB = D + 'convention/MissingBreakInSwitchStatementRule.cpp'

CASES = [
 ('dealloc-return-expr', [F(UN, 'static bool IsCondNoNullPointerForBinOp(', '''static const Expr* comparedWithNull(const BinaryOperator& binOp)
{
    if (binOp.getOpcode() == BO_NE)
    {
        const Expr* const lhs = binOp.getLHS();
        const Expr* const rhs = binOp.getRHS();
        if (isANullPointerExpr(*lhs))
        {
            return ignoreCastExpr(*rhs);
        }
        if (isANullPointerExpr(*rhs))
        {
            return ignoreCastExpr(*lhs);
        }
    }
    return nullptr;
}'''), F(UN, 'static bool IsCondNoNullPointer(', '''static const Expr* testedPointer(const Expr& expr)
{
    if (const auto* binOp = dyn_cast<BinaryOperator>(&expr))
    {
        return comparedWithNull(*binOp);
    }
    return ignoreCastExpr(expr);
}'''), S(UN, '''        const Expr* pointer = nullptr;
        if (!IsCondNoNullPointer(*ifStmt->getCond(), &pointer))
        {
            return true;
        }
''', '''        const Expr* pointer = testedPointer(*ifStmt->getCond());
        if (pointer == nullptr)
        {
            return true;
        }
''')]),
 ('dealloc-switch-size', [F(UN, 'static bool IsADeleteBlockForCompoundStmt(', '''static bool IsADeleteBlockForCompoundStmt(ASTContext& context,
    const CompoundStmt& compoundStmt, const Expr& expr)
{
    switch (compoundStmt.size())
    {
    case 1:
        return IsADeleteStmt(context, *compoundStmt.body_begin()[0], expr);
    case 2:
        return IsADeleteStmt(context, *compoundStmt.body_begin()[0], expr)
            && IsAnAssignToNullptr(context, *compoundStmt.body_begin()[1], expr);
    default:
        return false;
    }
}''')]),
 ('dealloc-block-ternary', [F(UN, 'static bool IsADeleteBlock(', '''static bool IsADeleteBlock(ASTContext& context, const Stmt& stmt, const Expr* expr)
{
    const auto* block = dyn_cast<CompoundStmt>(&stmt);
    return expr && (block ? IsADeleteBlockForCompoundStmt(context, *block, *expr) : IsADeleteStmt(context, stmt, *expr));
}''')]),
 ('dealloc-assign-and', [F(UN, 'static bool IsAnAssignToNullptr(', '''static bool IsAnAssignToNullptr(ASTContext& context, const Stmt& stmt, const Expr& expr)
{
    const auto* assignment = dyn_cast<BinaryOperator>(&stmt);
    return assignment && assignment->getOpcode() == BO_Assign
        && isANullPointerExpr(*assignment->getRHS())
        && areSameExpr(context, *ignoreCastExpr(*assignment->getLHS()), expr);
}''')]),
 ('must-implement-range', [F(SM, '    bool VisitObjCImplementationDecl(', '''    bool VisitObjCImplementationDecl(ObjCImplementationDecl* implementation) {
        ObjCInterfaceDecl* const superClass = implementation->getClassInterface()->getSuperClass();
        if(superClass == nullptr) {
            return true;
        }
        for(ObjCMethodDecl* method : superClass->methods()) {
            if(isMissing(implementation, method)) {
                addViolation(implementation, this, "subclasses of " + superClass->getNameAsString()
                    + " must implement " + method->getSelector().getAsString());
            }
        }
        return true;
    }

private:
    bool isMissing(ObjCImplementationDecl* implementation, ObjCMethodDecl* method) {
        return declHasEnforceAttribute(method, *this)
            && !implementation->getMethod(method->getSelector(), method->isInstanceMethod());
    }
''')]),
 ('envy-operator-index', [S(FE, '''            const auto& found = _receiversCount.find(selfname);
            if (found == _receiversCount.end()) {
                return 0;
            }
            return found->second;
''', '''            return _receiversCount.count(selfname) ? _receiversCount.at(selfname) : 0;
''')]),
 ('envy-getter-merge', [F(FE, '        bool VisitObjCPropertyRefExpr(', '''        bool VisitObjCPropertyRefExpr(ObjCPropertyRefExpr *node)
        {
            countInterface(node->isMessagingSetter() ? getSetterInterface(node) : getGetterInterface(node));
            return true;
        }'''), F(FE, '        ObjCInterfaceDecl *getSetterInterface(', '''        ObjCInterfaceDecl *getSetterInterface(ObjCPropertyRefExpr *node)
        {
            return getClassInterface(node->isExplicitProperty()
                ? node->getExplicitProperty()->getSetterMethodDecl()
                : node->getImplicitPropertySetter());
        }''')]),
 ('envy-copy-if', [F(FE, '        vector<string> enviedClasses(long', '''        vector<string> enviedClasses(long selfMessages)
        {
            vector<string> names;
            for (auto it = _receiversCount.begin(); it != _receiversCount.end(); ++it)
            {
                const long messages = it->second;
                if (messages <= selfMessages)
                {
                    continue;
                }
                names.emplace_back(it->first);
            }
            return names;
        }''')]),
 ('envy-structured', [S(FE, '''            for (const auto& pair : _receiversCount)
            {
                if (pair.second > selfMessages)
                    enviedClasses.push_back(pair.first);
            }
''', '''            for (const auto& [className, messages] : _receiversCount)
            {
                if (selfMessages < messages)
                    enviedClasses.push_back(className);
            }
''')]),
 ('envy-switch', [F(FE, '        bool VisitObjCMessageExpr(', '''        bool VisitObjCMessageExpr(ObjCMessageExpr *node)
        {
            if (node->isImplicit())
            {
                return true;
            }
            switch (node->getReceiverKind())
            {
            case ObjCMessageExpr::Instance:
                countInterface(node->getReceiverInterface());
                break;
            case ObjCMessageExpr::Class:
                countClassName(node->getClassReceiver().getAsString());
                break;
            default:
                break;
            }
            return true;
        }''')]),
 ('envy-concat', [F(FE, '    string description(string methodName', '''    string description(const string& methodName, const string& enviedClass)
    {
        return "Method " + methodName + " messages " + enviedClass + " more than self.";
    }'''), F(FE, '    void addViolationsForEnviedClasses(', '''    void addViolationsForEnviedClasses(NamedDecl *node, const vector<string>& enviedClasses)
    {
        const string methodName = node->getNameAsString();
        for (size_t i = 0; i < enviedClasses.size(); ++i)
        {
            addViolation(node, this, description(methodName, enviedClasses[i]));
        }
    }''')]),
 ('prohibited-merge', [F(PC, '    bool VisitCallExpr(', '''    bool VisitCallExpr(const CallExpr* call) {
        const auto function = call->getDirectCallee();
        string comment;
        if(declHasEnforceAttribute(function, *this, &comment)) {
            addViolation(call, this, describe("function", function->getNameAsString(), comment));
        }
        return true;
    }'''), F(PC, '    bool VisitObjCMessageExpr(', '''    bool VisitObjCMessageExpr(const ObjCMessageExpr* expr) {
        string comment;
        if(declHasEnforceAttribute(expr->getMethodDecl(), *this, &comment)) {
            addViolation(expr, this, describe("method", expr->getSelector().getAsString(), comment));
        }
        return true;
    }

    static string describe(const string& kind, const string& what, const string& comment) {
        string text = "calling prohibited " + kind + " " + what;
        return comment.empty() ? text : text + " instead use " + comment;
    }''')]),
 ('unused-param-walk', [F(UM, '    bool isExistingByContract(ParmVarDecl *decl)', '''    bool isExistingByContract(ParmVarDecl *decl)
    {
        for (DeclContext *context = decl->getLexicalDeclContext(); context; context = context->getLexicalParent())
        {
            if (isExistingByContract(context))
            {
                return true;
            }
        }
        return false;
    }''')]),
 ('unused-param-lambda', [F(UM, '    bool isExistingByContract(ParmVarDecl *decl)', '''    template <typename Predicate>
    bool anyContext(ParmVarDecl *decl, Predicate predicate)
    {
        DeclContext *context = decl->getLexicalDeclContext();
        while (context && !predicate(context))
        {
            context = context->getLexicalParent();
        }
        return context != nullptr;
    }

    bool isExistingByContract(ParmVarDecl *decl)
    {
        return anyContext(decl, [this](DeclContext *context) { return isExistingByContract(context); });
    }'''), F(UM, '    bool isObjCMethodWithIBActionAttribute(ParmVarDecl *decl)', '''    bool isObjCMethodWithIBActionAttribute(ParmVarDecl *decl)
    {
        return decl && anyContext(decl, [this](DeclContext *context) { return isObjCMethodWithIBActionAttribute(context); });
    }''')]),
 ('unused-param-guards', [F(UM, '    bool VisitParmVarDecl(', '''    bool VisitParmVarDecl(ParmVarDecl *varDecl)
    {
        if (varDecl->isUsed() || varDecl->hasAttr<clang::UnusedAttr>())
        {
            return true;
        }
        const string parameter = varDecl->getNameAsString();
        if (parameter.empty() || !isInNonTemplateFunction(varDecl))
        {
            return true;
        }
        if (isExistingByContract(varDecl) || isObjCMethodWithIBActionAttribute(varDecl))
        {
            return true;
        }
        addViolation(varDecl, this, description(parameter));
        return true;
    }''')]),
 ('broken-null-switch', [F(BN, '    bool isNullCheckBroken(', '''    bool isNullCheckBroken(BinaryOperator *binaryOperator)
    {
        switch (binaryOperator->getOpcode())
        {
        case BO_LOr:
            return isNeNullCheck(binaryOperator->getLHS());
        case BO_LAnd:
            return isEqNullCheck(binaryOperator->getLHS());
        default:
            return false;
        }
    }'''), F(BN, '    bool isSameVariableBroken(', '''    bool isSameVariableBroken(BinaryOperator *binaryOperator)
    {
        const string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getLHS());
        return !variableOfInterest.empty() && hasVariableInExpr(variableOfInterest, binaryOperator->getRHS());
    }''')]),
 ('early-exit-flat', [F(PE, '    bool isLongIfWithoutElse(', '''    bool isLongIfWithoutElse(const Stmt* statement) const
    {
        const auto* ifStmt = dyn_cast_or_null<IfStmt>(statement);
        return ifStmt && !ifStmt->getElse()
            && getLineCount(ifStmt->getSourceRange(), _carrier->getSourceManager()) > _threshold;
    }'''), F(PE, '    bool VisitCompoundStmt(', '''    bool VisitCompoundStmt(CompoundStmt* compoundStmt)
    {
        const auto count = compoundStmt->size();
        if (count > 1 && isFlowOfControlInterrupt(compoundStmt->body_back()))
        {
            addViolationIfStmtIsLongIf(compoundStmt->body_begin()[count - 2]);
        }
        return true;
    }''')]),
 ('early-exit-isa', [F(PE, '    bool isFlowOfControlInterrupt(', '''    bool isFlowOfControlInterrupt(const Stmt* stmt) const
    {
        return stmt && isa<BreakStmt, ContinueStmt, GotoStmt, IndirectGotoStmt, ReturnStmt>(stmt);
    }'''), F(PE, '    bool VisitDoStmt(', '''    bool VisitDoStmt(DoStmt* doStmt)
    {
        Stmt* body = doStmt->getBody();
        addViolationIfStmtIsLongIf(getLastStatement(body));
        return true;
    }''')]),
 ('ivar-for-each', [S(IV, '''            _instances.insert(
                _instances.end(),
                checker.getInstances().begin(),
                checker.getInstances().end()
            );
''', '''            for (ObjCIvarRefExpr* instance : checker.getInstances())
            {
                _instances.push_back(instance);
            }
''')]),
 ('ivar-accessor-helper', [S(IV, '''            if((selectorName != getterName
              && selectorName != setterName)
              && selectorName.substr(0, 4) != "init") {
                addViolation(access, this);
            }
''', '''            const bool accessor = selectorName == getterName || selectorName == setterName;
            const bool initializer = selectorName.substr(0, 4) == "init";
            if(accessor || initializer) {
                continue;
            }
            addViolation(access, this);
''')]),
 ('ivar-compare', [S(IV, '''              && selectorName.substr(0, 4) != "init") {''', '''              && selectorName.compare(0, 4, "init") != 0) {''')]),
 ('dead-if-order', [F(DC, '    EExitType VisitIfStmt(', '''    EExitType VisitIfStmt(const IfStmt* ifStmt)
    {
        if (!ifStmt->getElse())
        {
            return NoExit;
        }
        const EExitType thenExit = Visit(ifStmt->getThen());
        const EExitType elseExit = Visit(ifStmt->getElse());
        if (thenExit == NoExit || elseExit == NoExit)
        {
            return NoExit;
        }
        if (thenExit == elseExit)
        {
            return thenExit;
        }
        return thenExit == ExitScope || elseExit == ExitScope ? ExitScope : FullExit;
    }''')]),
 ('dead-body-range', [F(DC, '    EExitType VisitCompoundStmt(', '''    EExitType VisitCompoundStmt(const CompoundStmt* compoundStmt)
    {
        EExitType exitType = NoExit;
        for (const Stmt* child : compoundStmt->body())
        {
            exitType = Visit(child);
            if (exitType != NoExit)
            {
                break;
            }
        }
        return exitType;
    }'''), F(DC, '    bool VisitCompoundStmt(', '''    bool VisitCompoundStmt(const CompoundStmt *compoundStmt)
    {
        const Stmt *previous = nullptr;
        for (const Stmt *current : compoundStmt->body())
        {
            if (previous && isAnyReturnStmt(*previous) && current && !isAnyLabelStmt(*current))
            {
                addViolation(current, this);
                return true;
            }
            previous = current;
        }
        return true;
    }''')]),
 ('dead-body-nested', [F(DC, '    bool VisitCompoundStmt(', '''    bool VisitCompoundStmt(const CompoundStmt *compoundStmt)
    {
        bool afterExit = false;
        for (const Stmt *statement : compoundStmt->body())
        {
            const bool unreachable = afterExit && statement != nullptr && !isAnyLabelStmt(*statement);
            if (unreachable)
            {
                addViolation(statement, this);
                return true;
            }
            afterExit = isAnyReturnStmt(*statement);
        }
        return true;
    }''')]),
 ('missing-break-point', [F(MB, '    bool isBreakingPoint(', '''    bool isBreakingPoint(Stmt *stmt)
    {
        if (isa<ExprWithCleanups>(stmt) || isa<CompoundStmt>(stmt))
        {
            return FindingBreak().findSubBreak(stmt);
        }
        return isa<BreakStmt, ReturnStmt, CXXThrowExpr, ContinueStmt, ObjCAtThrowStmt>(stmt);
    }''')]),
 ('missing-break-loop', [F(MB, '    bool VisitSwitchStmt(', '''    bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        auto *compoundStmt = dyn_cast_or_null<CompoundStmt>(switchStmt->getBody());
        if (compoundStmt == nullptr)
        {
            return true;
        }
        bool breakFound = true;
        for (Stmt *bodyStmt : compoundStmt->body())
        {
            if (isBreakingPoint(bodyStmt))
            {
                breakFound = true;
            }
            else if (isSwitchCase(bodyStmt))
            {
                if (!breakFound)
                {
                    addViolation(switchStmt, this);
                    break;
                }
                breakFound = FindingBreak().findBreak(cast<SwitchCase>(bodyStmt));
            }
        }
        if (!breakFound)
        {
            addViolation(switchStmt, this);
        }
        return true;
    }''')]),
]
