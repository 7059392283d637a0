"""More behaviour-preserving edits, written function by function (rules)."""
from refactor2 import F, S
RU = 'oclint-rules/rules/%s.cpp'
B, C, D, N, U = [(lambda x, k=k: RU % (k + '/' + x + 'Rule')) for k in ('basic', 'convention', 'design', 'naming', 'unused')]
RD, SZ, EM, CO = [(lambda x, k=k: RU % (k + '/' + x + 'Rule')) for k in ('redundant', 'size', 'empty', 'cocoa')]

CASES = [
 ('bitw-template', [F(B('BitwiseOperatorInConditional'), 'virtual void callback(', '''template <typename T>
    void reportCondition(const MatchFinder::MatchResult& result, const char *boundName)
    {
        if (const T *node = result.Nodes.getNodeAs<T>(boundName))
        {
            addViolation(node->getCond(), this);
        }
    }

    virtual void callback(const MatchFinder::MatchResult& result) override
    {
        reportCondition<IfStmt>(result, "ifStmt");
        reportCondition<WhileStmt>(result, "whileStmt");
        reportCondition<DoStmt>(result, "doStmt");
        reportCondition<ConditionalOperator>(result, "conditionalOperator");
    }''')]),
 ('bitw-matcher-local', [F(B('BitwiseOperatorInConditional'), 'virtual void setUpMatcher()', '''virtual void setUpMatcher() override
    {
        const StatementMatcher bitwiseOperator = binaryOperator(
            anyOf(hasOperatorName("&"), hasOperatorName("|"), hasOperatorName("^")));
        const auto bitwiseCondition = anyOf(
            hasCondition(bitwiseOperator),
            hasCondition(expr(hasDescendant(bitwiseOperator))));

        addMatcher(ifStmt(bitwiseCondition).bind("ifStmt"));
        addMatcher(whileStmt(bitwiseCondition).bind("whileStmt"));
        addMatcher(doStmt(bitwiseCondition).bind("doStmt"));
        addMatcher(conditionalOperator(bitwiseCondition).bind("conditionalOperator"));
    }''')]),
 ('bnc-switch', [F(B('BrokenNullCheck'), 'bool isNullCheckBroken(', '''bool isNullCheckBroken(BinaryOperator *binaryOperator)
    {
        switch (binaryOperator->getOpcode())
        {
        case BO_LOr:
            return isNeNullCheck(binaryOperator->getLHS());
        case BO_LAnd:
            return isEqNullCheck(binaryOperator->getLHS());
        default:
            return false;
        }
    }'''), F(B('BrokenNullCheck'), 'bool isEqNullCheckBroken(', ''), F(B('BrokenNullCheck'), 'bool isNeNullCheckBroken(', '')]),
 ('bnc-same-early', [F(B('BrokenNullCheck'), 'bool isSameVariableBroken(', '''bool isSameVariableBroken(BinaryOperator *binaryOperator)
    {
        const string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getLHS());
        if (variableOfInterest.empty())
        {
            return false;
        }
        return hasVariableInExpr(variableOfInterest, binaryOperator->getRHS());
    }''')]),
 ('coll-inner', [F(B('CollapsibleIfStatements'), 'IfStmt *getInnerIfStmt(', '''IfStmt *getInnerIfStmt(IfStmt *ifStmt)
    {
        Stmt *candidate = ifStmt->getThen();
        if (auto *compoundStmt = dyn_cast_or_null<CompoundStmt>(candidate))
        {
            if (compoundStmt->size() != 1)
            {
                return nullptr;
            }
            candidate = *compoundStmt->body_begin();
        }
        return dyn_cast_or_null<IfStmt>(candidate);
    }'''), F(B('CollapsibleIfStatements'), 'bool compoundStmtContainsOnlyOneIfStmt(', '')]),
 ('coll-visit', [F(B('CollapsibleIfStatements'), 'bool VisitIfStmt(', '''bool VisitIfStmt(IfStmt *outerIf)
    {
        IfStmt *nested = getInnerIfStmt(outerIf);
        if (nested == nullptr)
        {
            return true;
        }
        const bool hasElse = outerIf->getElse() != nullptr || nested->getElse() != nullptr;
        if (!hasElse)
        {
            addViolation(outerIf, this);
        }
        return true;
    }'''), F(B('CollapsibleIfStatements'), 'bool checkElseBranch(', '')]),
 ('dead-range', [F(B('DeadCode'), 'bool VisitCompoundStmt(const CompoundStmt *', '''bool VisitCompoundStmt(const CompoundStmt *compoundStmt)
    {
        bool previousExits = false;
        for (const Stmt *child : compoundStmt->body())
        {
            if (previousExits && child && !isAnyLabelStmt(*child))
            {
                addViolation(child, this);
                return true;
            }
            previousExits = isAnyReturnStmt(*child);
        }
        return true;
    }''')]),
 ('dead-if-switch', [F(B('DeadCode'), 'EExitType VisitIfStmt(', '''EExitType VisitIfStmt(const IfStmt* ifStmt)
    {
        const Stmt* elseStmt = ifStmt->getElse();
        if (!elseStmt)
        {
            return NoExit;
        }
        const EExitType thenType = Visit(ifStmt->getThen());
        const EExitType elseType = Visit(elseStmt);
        if (thenType == NoExit || elseType == NoExit)
        {
            return NoExit;
        }
        if (thenType == elseType)
        {
            return thenType;
        }
        return thenType == ExitScope || elseType == ExitScope ? ExitScope : FullExit;
    }''')]),
 ('jumb-init', [F(B('JumbledIncrementer'), 'VarDecl *varDeclFromInitStmt(', '''VarDecl *varDeclFromInitStmt(Stmt *initStmt)
    {
        auto *declStmt = dyn_cast_or_null<DeclStmt>(initStmt);
        if (!declStmt || !declStmt->isSingleDecl())
        {
            return nullptr;
        }
        return dyn_cast_or_null<VarDecl>(declStmt->getSingleDecl());
    }'''), F(B('JumbledIncrementer'), 'ValueDecl *valueDeclFromIncExpr(', '''ValueDecl *valueDeclFromIncExpr(Expr *incExpr)
    {
        auto *unaryOperator = dyn_cast_or_null<UnaryOperator>(incExpr);
        if (!unaryOperator)
        {
            return nullptr;
        }
        auto *declRefExpr = dyn_cast_or_null<DeclRefExpr>(unaryOperator->getSubExpr());
        return declRefExpr ? declRefExpr->getDecl() : nullptr;
    }''')]),
 ('jumb-nested-helper', [F(B('JumbledIncrementer'), 'bool VisitForStmt(', '''ForStmt *nestedForStmt(Stmt *bodyStmt)
    {
        if (auto *forStmt = dyn_cast_or_null<ForStmt>(bodyStmt))
        {
            return forStmt;
        }
        auto *compoundStmt = dyn_cast_or_null<CompoundStmt>(bodyStmt);
        if (compoundStmt && compoundStmt->size() == 1)
        {
            return dyn_cast_or_null<ForStmt>(compoundStmt->body_back());
        }
        return nullptr;
    }

    bool VisitForStmt(ForStmt *parentStmt)
    {
        ForStmt *innerStmt = nestedForStmt(parentStmt->getBody());
        if (innerStmt && isInnerIncMatchingOuterInit(innerStmt->getInc(), parentStmt->getInit()))
        {
            addViolation(innerStmt->getInc(), this);
        }
        return true;
    }''')]),
 ('throw-names', [F(B('ThrowExceptionFromFinallyBlock'), 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr *objCMsgExpr)
        {
            const string selectorString = objCMsgExpr->getSelector().getAsString();
            const bool isRaiseMethod = selectorString == "raise" ||
                selectorString == "raise:format:" ||
                selectorString == "raise:format:arguments:";
            if (!isRaiseMethod)
            {
                return true;
            }
            ObjCInterfaceDecl *receiver = objCMsgExpr->getReceiverInterface();
            if (receiver && receiver->getNameAsString() == "NSException")
            {
                _raisers->push_back(objCMsgExpr);
            }
            return true;
        }''')]),
 ('throw-blocks', [F(B('ThrowExceptionFromFinallyBlock'), 'bool VisitObjCAtFinallyStmt(', '''bool VisitObjCAtFinallyStmt(ObjCAtFinallyStmt *finallyStmt)
    {
        reportThrows(finallyStmt);
        reportRaises(finallyStmt);
        return true;
    }

    void reportThrows(ObjCAtFinallyStmt *finallyStmt)
    {
        vector<ObjCAtThrowStmt*> found;
        ExtractObjCAtThrowStmts extractor;
        extractor.extract(finallyStmt, &found);
        for (size_t i = 0; i < found.size(); ++i)
        {
            addViolation(found[i], this);
        }
    }

    void reportRaises(ObjCAtFinallyStmt *finallyStmt)
    {
        vector<ObjCMessageExpr*> found;
        ExtractNSExceptionRaiser extractor;
        extractor.extract(finallyStmt, &found);
        for (auto *raiser : found)
        {
            addViolation(raiser, this);
        }
    }''')]),
 ('avoidb-merge', [F(C('AvoidBranchingStatementAsLastInLoop'), 'void applyLoopCompoundStmt(', ''), F(C('AvoidBranchingStatementAsLastInLoop'), 'void applyStmt(', '''void applyStmt(T *stmt)
    {
        auto *body = dyn_cast_or_null<CompoundStmt>(stmt->getBody());
        if (!body)
        {
            return;
        }
        Stmt *last = body->body_back();
        if (isBranchingStatement(last))
        {
            addViolation(last, this);
        }
    }'''), F(C('AvoidBranchingStatementAsLastInLoop'), 'bool isBranchingStatement(', '''bool isBranchingStatement(Stmt *stmt)
    {
        if (stmt == nullptr)
        {
            return false;
        }
        return isa<BreakStmt, ContinueStmt, ReturnStmt>(stmt);
    }''')]),
 ('avoidb-nontemplate', [F(C('AvoidBranchingStatementAsLastInLoop'), 'void applyStmt(', '''void applyStmt(T *stmt)
    {
        checkBody(stmt->getBody());
    }

    void checkBody(Stmt *body)
    {
        if (CompoundStmt *compoundStmt = dyn_cast_or_null<CompoundStmt>(body))
        {
            applyLoopCompoundStmt(compoundStmt);
        }
    }''')]),
 ('misb-loop', [F(C('MissingBreakInSwitchStatement'), 'bool isBreakingPoint(', '''bool isBreakingPoint(Stmt *stmt)
    {
        if (isa<ExprWithCleanups>(stmt) || isa<CompoundStmt>(stmt))
        {
            FindingBreak findingBreak;
            return findingBreak.findSubBreak(stmt);
        }
        return isa<BreakStmt>(stmt) ||
            isa<ReturnStmt>(stmt) ||
            isa<CXXThrowExpr>(stmt) ||
            isa<ContinueStmt>(stmt) ||
            isa<ObjCAtThrowStmt>(stmt);
    }''')]),
 ('misb-range', [S(C('MissingBreakInSwitchStatement'), '''        for (CompoundStmt::body_iterator body = compoundStmt->body_begin(),
            bodyEnd = compoundStmt->body_end(); body != bodyEnd; body++)
        {
            Stmt *bodyStmt = dyn_cast<Stmt>(*body);
''', '''        for (Stmt *bodyStmt : compoundStmt->body())
        {
''')]),
 ('reas-helper', [F(C('ParameterReassignment'), 'bool VisitBinaryOperator(', '''bool VisitBinaryOperator(BinaryOperator *binaryOperator)
        {
            if (binaryOperator->getOpcode() != BO_Assign)
            {
                return true;
            }
            auto *declRefExpr = dyn_cast_or_null<DeclRefExpr>(binaryOperator->getLHS());
            if (declRefExpr && isParameterName(declRefExpr->getFoundDecl()->getNameAsString()))
            {
                _binaryOperators.push_back(binaryOperator);
            }
            return true;
        }

        bool isParameterName(const string &candidate) const
        {
            for (const auto& name : _names)
            {
                if (candidate == name)
                {
                    return true;
                }
            }
            return false;
        }''')]),
 ('reas-find', [S(C('ParameterReassignment'), '''                for (const auto& name : _names)
                {
                    if (declRefExpr->getFoundDecl()->getNameAsString() == name)
                    {
                        _binaryOperators.push_back(binaryOperator);
                        break;
                    }
                }
''', '''                const string assigned = declRefExpr->getFoundDecl()->getNameAsString();
                if (std::find(_names.begin(), _names.end(), assigned) != _names.end())
                {
                    _binaryOperators.push_back(binaryOperator);
                }
'''), S(C('ParameterReassignment'), '#include "oclint/AbstractASTVisitorRule.h"', '#include <algorithm>\n#include "oclint/AbstractASTVisitorRule.h"')]),
 ('reas-params', [F(C('ParameterReassignment'), 'bool VisitFunctionDecl(', '''static void collectName(const ParmVarDecl *parmVarDecl, vector<string> &names)
    {
        const string name = parmVarDecl->getNameAsString();
        if (!name.empty())
        {
            names.push_back(name);
        }
    }

    bool VisitFunctionDecl(FunctionDecl *decl)
    {
        vector<string> names;
        for (const ParmVarDecl *parmVarDecl : decl->parameters())
        {
            collectName(parmVarDecl, names);
        }
        locateParamNames(decl, names);
        return true;
    }'''), F(C('ParameterReassignment'), 'bool VisitObjCMethodDecl(', '''bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
    {
        vector<string> names;
        for (const ParmVarDecl *parmVarDecl : decl->parameters())
        {
            collectName(parmVarDecl, names);
        }
        locateParamNames(decl, names);
        return true;
    }''')]),
 ('early-long', [F(C('PreferEarlyExit'), 'bool isLongIfWithoutElse(', '''bool isLongIfWithoutElse(const Stmt* statement) const
    {
        const auto *ifStmt = dyn_cast_or_null<IfStmt>(statement);
        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
        {
            return false;
        }
        return getLineCount(ifStmt->getSourceRange(), _carrier->getSourceManager()) > _threshold;
    }''')]),
 ('early-compound', [F(C('PreferEarlyExit'), 'bool VisitCompoundStmt(', '''bool VisitCompoundStmt(CompoundStmt* compoundStmt)
    {
        if (compoundStmt->size() >= 2)
        {
            auto it = compoundStmt->body_rbegin();
            const Stmt* last = *it;
            if (isFlowOfControlInterrupt(last))
            {
                ++it;
                addViolationIfStmtIsLongIf(*it);
            }
        }
        return true;
    }''')]),
 ('inv-split', [F(C('InvertedLogic'), 'bool isInvertedLogic(', '''bool isInvertedLogic(Expr *condExpr)
    {
        if (auto *binaryOperator = dyn_cast_or_null<BinaryOperator>(condExpr))
        {
            return binaryOperator->getOpcode() == BO_NE;
        }
        if (auto *unaryOperator = dyn_cast_or_null<UnaryOperator>(condExpr))
        {
            return unaryOperator->getOpcode() == UO_LNot;
        }
        return false;
    }''')]),
 ('inv-report', [F(C('InvertedLogic'), 'bool VisitIfStmt(', '''void reportIfInverted(Expr *condExpr)
    {
        if (!isInvertedLogic(condExpr))
        {
            return;
        }
        addViolation(condExpr, this);
    }

    bool VisitIfStmt(IfStmt *ifStmt)
    {
        if (ifStmt->getElse())
        {
            reportIfInverted(ifStmt->getCond());
        }
        return true;
    }'''), F(C('InvertedLogic'), 'bool VisitConditionalOperator(', '''bool VisitConditionalOperator(ConditionalOperator *conditionalOperator)
    {
        reportIfInverted(conditionalOperator->getCond());
        return true;
    }''')]),
 ('ivar-allowed', [S(C('ObjCAssignIvarOutsideAccessors'), '''            if((selectorName != getterName
              && selectorName != setterName)
              && selectorName.substr(0, 4) != "init") {
                addViolation(access, this);
            }
''', '''            const bool isAccessor = selectorName == getterName || selectorName == setterName;
            const bool isInitializer = selectorName.substr(0, 4) == "init";
            if (isAccessor || isInitializer)
            {
                continue;
            }
            addViolation(access, this);
''')]),
 ('ivar-pushloop', [S(C('ObjCAssignIvarOutsideAccessors'), '''            _instances.insert(
                _instances.end(),
                checker.getInstances().begin(),
                checker.getInstances().end()
            );
''', '''            for (auto *instance : checker.getInstances())
            {
                _instances.push_back(instance);
            }
''')]),
 ('envy-early', [F(D('FeatureEnvy'), 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr *node)
        {
            if (node->isImplicit())
            {
                return true;
            }
            switch (node->getReceiverKind())
            {
            case ObjCMessageExpr::Instance:
                countInterface(node->getReceiverInterface());
                break;
            case ObjCMessageExpr::Class:
                countClassName(node->getClassReceiver().getAsString());
                break;
            default:
                break;
            }
            return true;
        }''')]),
 ('envy-self', [F(D('FeatureEnvy'), 'long selfMessages(', '''long selfMessages(const string& selfname) const
        {
            const auto found = _receiversCount.find(selfname);
            return found != _receiversCount.end() ? found->second : 0;
        }'''), F(D('FeatureEnvy'), 'ObjCInterfaceDecl *getSetterInterface(', '''ObjCInterfaceDecl *getSetterInterface(ObjCPropertyRefExpr *node)
        {
            ObjCMethodDecl *setter = node->isExplicitProperty()
                ? node->getExplicitProperty()->getSetterMethodDecl()
                : node->getImplicitPropertySetter();
            return getClassInterface(setter);
        }''')]),
 ('unl-desc', [F(U('UnusedLocalVariable'), 'string description(const string& unused', '''string description(const string& unusedVariableName)
    {
        return "The local variable '" + unusedVariableName + "' is unused.";
    }'''), F(U('UnusedLocalVariable'), 'bool isUnused(', '''bool isUnused(VarDecl *varDecl)
    {
        return !(varDecl->isUsed() || varDecl->isReferenced());
    }''')]),
 ('unl-raii', [F(U('UnusedLocalVariable'), 'bool isRAIIClass(', '''static string unqualifiedTypeName(const VarDecl *varDecl)
    {
        string typeName = varDecl->getType().getCanonicalType().getAsString();
        const auto templateStart = typeName.find('<');
        if (templateStart != string::npos)
        {
            typeName = typeName.substr(0, templateStart);
        }
        const auto lastSpace = typeName.rfind(' ');
        return lastSpace == string::npos ? typeName : typeName.substr(lastSpace + 1);
    }

    bool isRAIIClass(VarDecl *varDecl)
    {
        return skippedTypes.count(unqualifiedTypeName(varDecl)) > 0;
    }''')]),
 ('unl-split', [F(U('UnusedLocalVariable'), 'void splitClasses(', '''static bool isSeparator(char character)
    {
        return character == ',' || character == ';' || character == ' ' ||
            character == '\\t' || character == '\\0';
    }

    void splitClasses(const string & input) {
        size_t startPos = 0;
        // Take the string end into account, to avoid special string end handling
        for (size_t i = 0; i <= input.length(); ++i)
        {
            if (!isSeparator(input[i]))
            {
                continue;
            }
            if (startPos != i)
            {
                skippedTypes.insert(input.substr(startPos, i - startPos));
            }
            startPos = i + 1;
        }
    }''')]),
 ('unl-visit', [F(U('UnusedLocalVariable'), 'bool VisitVarDecl(', '''bool VisitVarDecl(VarDecl *varDecl)
    {
        if (!isUnusedLocalVariable(varDecl))
        {
            return true;
        }
        if (!isRAIIClass(varDecl))
        {
            addViolation(varDecl, this, description(varDecl->getNameAsString()));
        }
        return true;
    }'''), F(U('UnusedLocalVariable'), 'bool isInNonTemplateFunction(', '''bool isInNonTemplateFunction(Decl *varDecl)
    {
        const auto *function = dyn_cast_or_null<FunctionDecl>(varDecl->getLexicalDeclContext());
        return !function || function->getTemplatedKind() == FunctionDecl::TK_NonTemplate;
    }''')]),
]
