"""Behaviour-preserving edits: more of the larger rules written another way, and scaffolding moved about."""
import os
from refactor2 import F, S
D = 'oclint-rules/rules/'
MN = D + 'basic/MisplacedNullCheckRule.cpp'
SD = D + 'convention/SwitchStatementsShouldHaveDefaultRule.cpp'
DV = D + 'convention/DestructorOfVirtualClassRule.cpp'
NL = D + 'migration/ObjCNSNumberLiteralsRule.cpp'
PM = D + 'cocoa/ObjCVerifyProtectedMethodRule.cpp'
TF = D + 'basic/ThrowExceptionFromFinallyBlockRule.cpp'
IH = D + 'cocoa/ObjCVerifyIsEqualHashRule.cpp'
BW = D + 'basic/BitwiseOperatorInConditionalRule.cpp'
AB = D + 'convention/AvoidBranchingStatementAsLastInLoopRule.cpp'
TM = D + 'size/TooManyMethodsRule.cpp'
NM = D + 'size/NcssMethodCountRule.cpp'
RL = D + 'redundant/RedundantLocalVariableRule.cpp'
CS = D + 'convention/CoveredSwitchStatementsDontNeedDefaultRule.cpp'
CI = D + 'basic/CollapsibleIfStatementsRule.cpp'
IL = D + 'convention/InvertedLogicRule.cpp'
BO = D + 'basic/BrokenOddnessCheckRule.cpp'
PS = D + 'design/AvoidPrivateStaticMembersRule.cpp'
LV = D + 'naming/LongVariableNameRule.cpp'

CASES = [
 ('misplaced-decide', [F(MN, '    bool VisitBinaryOperator(', '''    bool VisitBinaryOperator(BinaryOperator *binaryOperator)
    {
        const auto opcode = binaryOperator->getOpcode();
        Expr *check = binaryOperator->getRHS();
        const bool misplaced = (opcode == BO_LAnd && isNeNullCheck(check)) || (opcode == BO_LOr && isEqNullCheck(check));
        if (!misplaced)
        {
            return true;
        }
        const string variable = extractIdentifierFromExpr(check);
        if (!variable.empty() && hasVariableInExpr(variable, binaryOperator->getLHS()))
        {
            addViolation(binaryOperator, this);
        }
        return true;
    }''')]),
 ('default-for', [F(SD, '    bool VisitSwitchStmt(', '''    bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        if (!switchStmt->isAllEnumCasesCovered() && !hasDefault(switchStmt))
        {
            addViolation(switchStmt, this);
        }
        return true;
    }

private:
    static bool hasDefault(const SwitchStmt *switchStmt)
    {
        for (const SwitchCase *label = switchStmt->getSwitchCaseList(); label; label = label->getNextSwitchCase())
        {
            if (isa<DefaultStmt>(label))
            {
                return true;
            }
        }
        return false;
    }
''')]),
 ('covered-early', [F(CS, '    bool VisitSwitchStmt(', '''    bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        if (!switchStmt->isAllEnumCasesCovered())
        {
            return true;
        }
        const SwitchCase *label = switchStmt->getSwitchCaseList();
        while (label && !isa<DefaultStmt>(label))
        {
            label = label->getNextSwitchCase();
        }
        if (label)
        {
            addViolation(switchStmt, this);
        }
        return true;
    }''')]),
 ('destructor-guards', [F(DV, '    bool VisitCXXRecordDecl(', '''    bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
    {
        if (!cxxRecordDecl || !cxxRecordDecl->hasDefinition())
        {
            return true;
        }
        if (!cxxRecordDecl->isPolymorphic())
        {
            return true;
        }
        const CXXDestructorDecl* destructor = cxxRecordDecl->getDestructor();
        if (destructor && destructor->isVirtual())
        {
            return true;
        }
        addViolation(cxxRecordDecl, this, getMessageViolation(*cxxRecordDecl));
        return true;
    }'''), F(DV, 'static bool hasVirtualDestructor(', '')]),
 ('number-init-lists', [S(NL, '''        map<string, string> intSelArgTypeMap;
        intSelArgTypeMap["numberWithInt:"] = "int";
        intSelArgTypeMap["numberWithUnsignedInt:"] = "unsigned int";
        intSelArgTypeMap["numberWithLong:"] = "long";
        intSelArgTypeMap["numberWithUnsignedLong:"] = "unsigned long";
        intSelArgTypeMap["numberWithLongLong:"] = "long long";
        intSelArgTypeMap["numberWithUnsignedLongLong:"] = "unsigned long long";
''', '''        map<string, string> intSelArgTypeMap = {
            {"numberWithInt:", "int"},
            {"numberWithUnsignedInt:", "unsigned int"},
            {"numberWithLong:", "long"},
            {"numberWithUnsignedLong:", "unsigned long"},
            {"numberWithLongLong:", "long long"},
            {"numberWithUnsignedLongLong:", "unsigned long long"}
        };
'''), S(NL, '''        map<string, string> floatSelArgTypeMap;
        floatSelArgTypeMap["numberWithFloat:"] = "float";
        floatSelArgTypeMap["numberWithDouble:"] = "double";
''', '''        map<string, string> floatSelArgTypeMap{{"numberWithFloat:", "float"}, {"numberWithDouble:", "double"}};
''')]),
 ('number-char-dyn', [F(NL, '    bool isCharLiteral(', '''    bool isCharLiteral(Expr *expr, const string &selectorString)
    {
        if (selectorString != "numberWithChar:")
        {
            return false;
        }
        auto *implicitCastExpr = dyn_cast_or_null<ImplicitCastExpr>(expr);
        return implicitCastExpr && isa_and_nonnull<CharacterLiteral>(implicitCastExpr->getSubExpr());
    }'''), F(NL, '    bool isObjCBoolLiteral(', '''    bool isObjCBoolLiteral(Expr *expr, const string &selectorString)
    {
        if (!expr || selectorString != "numberWithBool:")
        {
            return false;
        }
        if (isa<ObjCBoolLiteralExpr>(expr))
        {
            return true;
        }
        auto *parenExpr = dyn_cast<ParenExpr>(expr);
        if (!parenExpr)
        {
            return false;
        }
        auto *castExpr = dyn_cast<CStyleCastExpr>(parenExpr->getSubExpr());
        return castExpr && isa<IntegerLiteral>(castExpr->getSubExpr()) && castExpr->getType().getAsString() == "BOOL";
    }''')]),
 ('number-literal-of', [S(NL, '''        auto selectedSelector = methodArgTypeMap.find(selectorString);
        return expr && isa<T>(expr) &&
            selectedSelector != methodArgTypeMap.end() &&
            selectedSelector->second == expr->getType().getAsString();
''', '''        if (!expr || !isa<T>(expr))
        {
            return false;
        }
        return methodArgTypeMap.count(selectorString) > 0 &&
            methodArgTypeMap[selectorString] == expr->getType().getAsString();
''')]),
 ('protected-inline-check', [S(PM, '''            if(!declHasEnforceAttribute(method, _rule)) {
                return true;
            }

            const auto interface = expr->getReceiverInterface();
            if(!interface) {
                return true;
            }

            if(!isObjCInterfaceClassOrSubclass(&_container, interface->getNameAsString())) {
                _violations.push_back(expr);
            }

            return true;
''', '''            const auto receiver = expr->getReceiverInterface();
            if(declHasEnforceAttribute(method, _rule) && receiver
                && !isObjCInterfaceClassOrSubclass(&_container, receiver->getNameAsString())) {
                _violations.push_back(expr);
            }
            return true;
'''), S(PM, '''                const auto sourceClass = expr->getMethodDecl()->getClassInterface();

                string description = "calling protected method " +
                    expr->getSelector().getAsString() +
                    " from outside " + (sourceClass ? sourceClass : expr->getReceiverInterface())
                    ->getNameAsString() + " and its subclasses";
                addViolation(expr, this, description);
''', '''                const ObjCInterfaceDecl* owner = expr->getMethodDecl()->getClassInterface();
                if(!owner) {
                    owner = expr->getReceiverInterface();
                }
                ostringstream description;
                description << "calling protected method " << expr->getSelector().getAsString()
                    << " from outside " << owner->getNameAsString() << " and its subclasses";
                addViolation(expr, this, description.str());
'''), S(PM, 'using namespace std;', '#include <sstream>\nusing namespace std;')]),
 ('protected-early', [F(PM, '    bool VisitObjCImplementationDecl(', '''    bool VisitObjCImplementationDecl(ObjCImplementationDecl* decl) {
        auto* const interface = decl->getClassInterface();
        if(!interface) {
            return true;
        }
        CheckMethodsInsideClass checker(*interface, *this);
        checker.TraverseDecl(decl);
        for(ObjCMessageExpr* expr : checker.getViolations()) {
            report(expr);
        }
        return true;
    }

    void report(ObjCMessageExpr* expr) {
        const auto sourceClass = expr->getMethodDecl()->getClassInterface();
        const auto owner = sourceClass ? sourceClass : expr->getReceiverInterface();
        addViolation(expr, this, "calling protected method " + expr->getSelector().getAsString() +
            " from outside " + owner->getNameAsString() + " and its subclasses");
    }
''')]),
 ('throw-own-vector', [S(TF, '''        vector<ObjCAtThrowStmt*> *_throws;

    public:
        void extract(ObjCAtFinallyStmt *finallyStmt, vector<ObjCAtThrowStmt*> *throws)
        {
            _throws = throws;
            (void) /* explicitly ignore the return of this function */ TraverseStmt(finallyStmt);
        }

        bool VisitObjCAtThrowStmt(ObjCAtThrowStmt *throwStmt)
        {
            _throws->push_back(throwStmt);
            return true;
        }
''', '''        vector<ObjCAtThrowStmt*> _throws;

    public:
        vector<ObjCAtThrowStmt*> extract(ObjCAtFinallyStmt *finallyStmt)
        {
            _throws.clear();
            (void) /* explicitly ignore the return of this function */ TraverseStmt(finallyStmt);
            return _throws;
        }

        bool VisitObjCAtThrowStmt(ObjCAtThrowStmt *throwStmt)
        {
            _throws.push_back(throwStmt);
            return true;
        }
'''), S(TF, '''        vector<ObjCAtThrowStmt*> throws;
        ExtractObjCAtThrowStmts extractThrowStmts;
        extractThrowStmts.extract(finallyStmt, &throws);
        for (const auto& throwStmt : throws)
''', '''        for (const auto& throwStmt : ExtractObjCAtThrowStmts().extract(finallyStmt))
''')]),
 ('throw-selectors', [S(TF, '''            vector<string> selectorStrings;
            selectorStrings.push_back("raise");
            selectorStrings.push_back("raise:format:");
            selectorStrings.push_back("raise:format:arguments:");
            bool isRaiseMethod = vectorContains<string>(selectorString, selectorStrings);
''', '''            bool isRaiseMethod = selectorString == "raise" || selectorString == "raise:format:"
                || selectorString == "raise:format:arguments:";
''')]),
 ('throw-set', [S(TF, '''            vector<string> selectorStrings;
            selectorStrings.push_back("raise");
            selectorStrings.push_back("raise:format:");
            selectorStrings.push_back("raise:format:arguments:");
            bool isRaiseMethod = vectorContains<string>(selectorString, selectorStrings);
''', '''            static const std::set<string> raisers = {"raise", "raise:format:", "raise:format:arguments:"};
            bool isRaiseMethod = raisers.count(selectorString) != 0;
'''), S(TF, 'using namespace std;', '#include <set>\nusing namespace std;')]),
 ('hash-any-of', [F(IH, '    bool VisitObjCImplementationDecl(', '''    bool VisitObjCImplementationDecl(ObjCImplementationDecl *implementation) {
        const auto defines = [implementation](const string& wanted) {
            for (ObjCMethodDecl *method : implementation->instance_methods())
            {
                if (method->getNameAsString() == wanted)
                {
                    return true;
                }
            }
            return false;
        };
        if (defines("isEqual:") && !defines("hash"))
        {
            addViolation(implementation, this, "If you override isEqual you must override hash too.");
        }
        return true;
    }''')]),
 ('hash-range', [S(IH, '''        for (auto it = implementation->instmeth_begin(), ite = implementation->instmeth_end();
            it != ite;
            ++it)
        {
            string name = (*it)->getNameAsString();
            if (name == "hash")
            {
                foundHash = true;
            }

            if (name == "isEqual:")
            {
                foundIsEqual = true;
            }
        }
''', '''        for (const ObjCMethodDecl *method : implementation->instance_methods())
        {
            const string name = method->getNameAsString();
            foundHash |= name == "hash";
            foundIsEqual |= name == "isEqual:";
        }
''')]),
 ('bitwise-template', [F(BW, '    virtual void callback(', '''    template <typename T>
    void check(const MatchFinder::MatchResult& result, const char *name)
    {
        if (const T *node = result.Nodes.getNodeAs<T>(name))
        {
            addViolation(node->getCond(), this);
        }
    }

    virtual void callback(const MatchFinder::MatchResult& result) override
    {
        check<IfStmt>(result, "ifStmt");
        check<WhileStmt>(result, "whileStmt");
        check<DoStmt>(result, "doStmt");
        check<ConditionalOperator>(result, "conditionalOperator");
    }''')]),
 ('branching-loop-inline', [S(AB, '''        Stmt *lastStmt = compoundStmt->body_back();
        if (isBranchingStatement(lastStmt))
        {
            addViolation(lastStmt, this);
        }
''', '''        if (compoundStmt->body_empty())
        {
            return;
        }
        Stmt *lastStmt = *compoundStmt->body_rbegin();
        if (isBranchingStatement(lastStmt))
        {
            addViolation(lastStmt, this);
        }
''')]),
 ('methods-common', [F(TM, '    bool VisitObjCImplDecl(', '''    bool VisitObjCImplDecl(ObjCImplDecl *decl)
    {
        check(decl, distance(decl->meth_begin(), decl->meth_end()), "Objective-C implementation");
        return true;
    }

    void check(Decl *decl, int methodCount, const string& kind)
    {
        if (methodCount <= _threshold)
        {
            return;
        }
        addViolation(decl, this, kind + " with " + std::to_string(methodCount) +
            " methods exceeds limit of " + std::to_string(_threshold));
    }'''), F(TM, '    bool VisitCXXRecordDecl(', '''    bool VisitCXXRecordDecl(CXXRecordDecl *decl)
    {
        check(decl, distance(decl->method_begin(), decl->method_end()), "C++ class");
        return true;
    }''')]),
 ('ncss-setup', [F(NM, '    void applyDecl(', '''    void applyDecl(Decl *decl)
    {
        const int limit = RuleConfiguration::intForKey("NCSS_METHOD", 30);
        const int ncss = getNcssCount(decl);
        if (ncss <= limit)
        {
            return;
        }
        std::ostringstream text;
        text << "Method of " << ncss << " non-commenting source statements exceeds limit of " << limit;
        addViolation(decl, this, text.str());
    }'''), S(NM, 'using namespace std;', '#include <sstream>\nusing namespace std;')]),
 ('redundant-local-guards', [F(RL, '    NamedDecl *extractReturnDeclRef(', '''    NamedDecl *extractReturnDeclRef(CompoundStmt *compoundStmt)
    {
        auto *returnStmt = dyn_cast<ReturnStmt>(compoundStmt->body_back());
        if (!returnStmt)
        {
            return nullptr;
        }
        auto *castExpr = dyn_cast_or_null<ImplicitCastExpr>(returnStmt->getRetValue());
        auto *returnExpr = castExpr ? dyn_cast_or_null<DeclRefExpr>(castExpr->getSubExpr()) : nullptr;
        return returnExpr ? returnExpr->getFoundDecl() : nullptr;
    }'''), F(RL, '    NamedDecl *extractNamedDecl(', '''    NamedDecl *extractNamedDecl(CompoundStmt *compoundStmt)
    {
        auto *declStmt = dyn_cast<DeclStmt>(compoundStmt->body_begin()[compoundStmt->size() - 2]);
        return declStmt && declStmt->isSingleDecl() ? dyn_cast<NamedDecl>(declStmt->getSingleDecl()) : nullptr;
    }''')]),
 ('collapsible-unwrap', [F(CI, '    IfStmt *getInnerIfStmt(', '''    IfStmt *getInnerIfStmt(IfStmt *ifStmt)
    {
        Stmt *thenStmt = ifStmt->getThen();
        if (auto *compoundStmt = dyn_cast_or_null<CompoundStmt>(thenStmt))
        {
            if (compoundStmt->size() != 1)
            {
                return nullptr;
            }
            thenStmt = compoundStmt->body_front();
            return dyn_cast<IfStmt>(thenStmt);
        }
        return dyn_cast_or_null<IfStmt>(thenStmt);
    }'''), F(CI, '    bool compoundStmtContainsOnlyOneIfStmt(', '')]),
 ('collapsible-visit', [F(CI, '    bool VisitIfStmt(', '''    bool VisitIfStmt(IfStmt *ifStmt)
    {
        if (ifStmt->getElse())
        {
            return true;
        }
        IfStmt *inner = getInnerIfStmt(ifStmt);
        if (inner == nullptr || inner->getElse())
        {
            return true;
        }
        addViolation(ifStmt, this);
        return true;
    }''')]),
 ('inverted-split', [F(IL, '    bool isInvertedLogic(', '''    bool isInvertedLogic(Expr *condExpr)
    {
        if (auto *binaryOperator = dyn_cast_or_null<BinaryOperator>(condExpr))
        {
            return binaryOperator->getOpcode() == BO_NE;
        }
        if (auto *unaryOperator = dyn_cast_or_null<UnaryOperator>(condExpr))
        {
            return unaryOperator->getOpcode() == UO_LNot;
        }
        return false;
    }''')]),
 ('oddness-swap', [F(BO, '    bool isRemainderEqualsOne(', '''    bool isRemainderEqualsOne(Expr *leftExpr, Expr *rightExpr)
    {
        const auto oneSided = [this](Expr *one, Expr *remainder)
        {
            return isIntegerLiteral(one, 1) && isRemainderWhenDevidingByTwo(remainder);
        };
        return oneSided(rightExpr, leftExpr) || oneSided(leftExpr, rightExpr);
    }'''), F(BO, '    bool isRemainderWhenDevidingByTwo(', '''    bool isRemainderWhenDevidingByTwo(Expr *expr)
    {
        if (BinaryOperator *operation = dyn_cast_or_null<BinaryOperator>(expr))
        {
            return operation->getOpcode() == BO_Rem && isIntegerLiteral(operation->getRHS(), 2);
        }
        return false;
    }''')]),
 ('static-members-callback', [F(PS, '    virtual void callback(', '''    virtual void callback(const MatchFinder::MatchResult &result) override
    {
        const auto *field = result.Nodes.getNodeAs<VarDecl>("field");
        const auto *method = result.Nodes.getNodeAs<CXXMethodDecl>("cxxMethod");
        if (field != nullptr)
        {
            addViolation(field, this);
        }
        if (method != nullptr)
        {
            addViolation(method, this);
        }
    }''')]),
 ('long-name-helper', [F(LV, '    bool VisitVarDecl(', '''    bool VisitVarDecl(VarDecl *varDecl)
    {
        const std::string fullName = varDecl->getNameAsString();
        const int nameLength = fullName.length();
        const int threshold = RuleConfiguration::intForKey("LONG_VARIABLE_NAME", 20);
        if (nameLength <= threshold)
        {
            return true;
        }
        const string description = "Length of variable name `" + shorten(fullName, nameLength, threshold) +
            "` is " + toString<int>(nameLength) +
            ", which is longer than the threshold of " + toString<int>(threshold);
        addViolation(varDecl, this, description);
        return true;
    }

    static std::string shorten(const std::string &fullName, int nameLength, int threshold)
    {
        if (nameLength <= threshold + 10)
        {
            return fullName;
        }
        return fullName.substr(0, threshold + 3) + "..." + fullName.substr(fullName.length() - 3);
    }
''')]),
 ('matcher-names', [S(D + 'basic/BitwiseOperatorInConditionalRule.cpp', """        StatementMatcher biOpMatcher = binaryOperator(
            anyOf(hasOperatorName("&"), hasOperatorName("|"), hasOperatorName("^")));
""", """        const auto bitwise = binaryOperator(hasAnyOperatorName("&", "|", "^"));
        const StatementMatcher biOpMatcher(bitwise);
"""), S(D + 'basic/BitwiseOperatorInConditionalRule.cpp', """ifStmt(anyOf(
                hasCondition(biOpMatcher),
                hasCondition(expr(hasDescendant(biOpMatcher)))))""", """ifStmt(hasCondition(anyOf(hasDescendant(biOpMatcher), biOpMatcher)))""")]),
 ('matcher-order', [S(D + 'design/AvoidPrivateStaticMembersRule.cpp', """        addMatcher(varDecl(isPrivate(), isStaticDataMember()).bind("field"));
        addMatcher(cxxMethodDecl(isPrivate(), isStatic()).bind("cxxMethod"));
""", """        const auto method = cxxMethodDecl(isStatic(), isPrivate());
        addMatcher(method.bind("cxxMethod"));
        addMatcher(varDecl(allOf(isStaticDataMember(), isPrivate())).bind("field"));
""")]),
 ('matcher-callback', [S(D + 'design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp', """        const CXXMethodDecl *method = result.Nodes.getNodeAs<CXXMethodDecl>("cxxMethod");
        addViolation(method, this);
""", """        addViolation(result.Nodes.getNodeAs<CXXMethodDecl>("cxxMethod"), this);
"""), S(D + 'design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp', """        addMatcher(
            cxxMethodDecl(isVirtual(), hasAnyParameter(hasDefaultArg()))
            .bind("cxxMethod"));
""", """        const auto defaulted = hasAnyParameter(hasDefaultArg());
        const auto candidate = cxxMethodDecl(defaulted, isVirtual()).bind("cxxMethod");
        addMatcher(candidate);
""")]),
]
