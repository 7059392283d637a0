"""Behaviour-preserving edits of files no other corpus touches: the compiler instance, matcher base, the empty rules,
class layouts, and heavier restructurings (classes split, base classes extracted, templates made plain)."""
from refactor2 import F, S
D = 'oclint-driver/'
C = 'oclint-core/'
R = 'oclint-rules/'
M = 'oclint-metrics/'
B = R + 'rules/'
CI = D + 'lib/CompilerInstance.cpp'
MR = R + 'lib/AbstractASTMatcherRule.cpp'
MH = R + 'include/oclint/AbstractASTMatcherRule.h'
EH = R + 'lib/helper/EnforceHelper.cpp'
BD = B + 'convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp'
NL = B + 'convention/NonCaseLabelInSwitchStatementRule.cpp'
DA, PS = [B + 'design/Avoid%sRule.cpp' % x for x in ('DefaultArgumentsOnVirtualMethods', 'PrivateStaticMembers')]
CU = B + 'cuda/CudaBranchDivergenceRule.cpp'
EC, EE, EF, EFO, EW = [B + 'empty/Empty%sRule.cpp' % x for x in ('CatchStatement', 'ElseBlock', 'FinallyStatement', 'ForStatement', 'WhileStatement')]
EB = B + 'abstract/AbstractEmptyBlockStmtRule.h'
CM, CMH = M + 'lib/CyclomaticComplexityMetric.cpp', M + 'include/oclint/metric/CyclomaticComplexityMetric.h'
RD = D + 'rules_dlfcn_port.cpp'
CY, NP, LM, TP, TF, LC, NB = [B + 'size/%sRule.cpp' % x for x in (
    'CyclomaticComplexity', 'NPathComplexity', 'LongMethod', 'TooManyParameters', 'TooManyFields', 'LongClass', 'NestedBlockDepth')]
LV = B + 'naming/LongVariableNameRule.cpp'
UP = B + 'redundant/UselessParenthesesRule.cpp'
TB = B + 'convention/TooFewBranchesInSwitchStatementRule.cpp'
CL = B + 'migration/ObjCContainerLiteralsRule.cpp'

CASES = [
 ('ci-action-ternary', [F(CI, 'static clang::FrontendAction *getFrontendAction() {', '''static clang::FrontendAction *getFrontendAction() {
    clang::FrontendAction *action = nullptr;
    if (!option::enableClangChecker()) {
        action = new clang::SyntaxOnlyAction();
    } else {
        action = new clang::ento::AnalysisAction();
    }
    return action;
}''')]),
 ('ci-end-index', [F(CI, 'void CompilerInstance::end() {', '''void CompilerInstance::end() {
    for (auto actionIt = _actions.begin(); actionIt != _actions.end(); ++actionIt) {
        (*actionIt)->EndSourceFile();
    }
    auto *client = getDiagnostics().getClient();
    client->finish();
}''')]),
 ('ci-continue', [S(CI, '''        if(frontendAction->BeginSourceFile(*this, input)) {
            static_cast<void>(frontendAction->Execute());
            _actions.emplace_back(frontendAction);
        }
''', '''        if (!frontendAction->BeginSourceFile(*this, input)) {
            continue;
        }
        static_cast<void>(frontendAction->Execute());
        _actions.emplace_back(frontendAction);
''')]),
 ('matcher-helper', [F(MR, 'bool AbstractASTMatcherRule::VisitDecl(', '''bool AbstractASTMatcherRule::VisitDecl(clang::Decl *decl)
{
    clang::ASTContext &context = *_carrier->getASTContext();
    _finder->match(*decl, context);
    return true;
}''')]),
 ('matcher-template', [S(MH, '''    clang::ast_matchers::MatchFinder *_finder;

protected:''', '''    clang::ast_matchers::MatchFinder *_finder;

    template<typename N>
    bool matchNode(const N &node)
    {
        _finder->match(node, *_carrier->getASTContext());
        return true;
    }

protected:'''), F(MR, 'bool AbstractASTMatcherRule::VisitDecl(', '''bool AbstractASTMatcherRule::VisitDecl(clang::Decl *decl)
{
    return matchNode(*decl);
}'''), F(MR, 'bool AbstractASTMatcherRule::VisitStmt(', '''bool AbstractASTMatcherRule::VisitStmt(clang::Stmt *stmt)
{
    return matchNode(*stmt);
}''')]),
 ('matcher-unique', [S(MH, 'clang::ast_matchers::MatchFinder *_finder;', 'std::unique_ptr<clang::ast_matchers::MatchFinder> _finder;'),
    S(MH, '#include <clang/ASTMatchers', '#include <memory>\n\n#include <clang/ASTMatchers'),
    S(MR, '_finder = new clang::ast_matchers::MatchFinder();', '_finder.reset(new clang::ast_matchers::MatchFinder());'),
    S(MR, '    delete _finder;\n    _finder = nullptr;', '    _finder.reset();')]),
 ('enforce-name', [F(EH, 'bool declHasEnforceAttribute(', '''bool declHasEnforceAttribute(
    const clang::Decl *decl,
    const oclint::RuleBase& rule,
    std::string* comment) {
    static const char action[] = "enforce";
    const bool enforced = declHasActionAttribute(decl, action, rule, comment);
    return enforced;
}''')]),
 ('base-range', [S(BD, 'check(*cxxRecordDecl, cxxRecordDecl->bases_begin(), cxxRecordDecl->bases_end());', 'check(*cxxRecordDecl, *cxxRecordDecl);'),
    S(BD, '''               base_class_const_iterator begin,
               base_class_const_iterator end)''', '               const CXXRecordDecl& derivedClass)'),
    S(BD, 'for (auto it = begin; it != end; ++it)', 'for (const CXXBaseSpecifier& specifier : derivedClass.bases())'),
    S(BD, 'if (it->getAccessSpecifier()', 'if (specifier.getAccessSpecifier()'),
    S(BD, 'it->getType()->getAsCXXRecordDecl()', 'specifier.getType()->getAsCXXRecordDecl()'),
    S(BD, 'check(childClass, baseClass->bases_begin(), baseClass->bases_end());', 'check(childClass, *baseClass);'),
    S(BD, '    typedef CXXRecordDecl::base_class_const_iterator base_class_const_iterator;\n', '')]),
 ('base-nested', [S(BD, '''            if (it->getAccessSpecifier() != AS_public)
            {
                continue;
            }
''', '''            const bool isPublicBase = it->getAccessSpecifier() == AS_public;
            if (!isPublicBase) continue;
'''), S(BD, 'if (baseClass == nullptr || !baseClass->hasDefinition())', 'if (!(baseClass && baseClass->hasDefinition()))')]),
 ('label-member', [S(NL, '        vector<LabelStmt*> *_labels;', '        vector<LabelStmt*> _labels;'),
    S(NL, 'void extract(SwitchStmt *switchStmt, vector<LabelStmt*> *labels)', 'const vector<LabelStmt*> &extract(SwitchStmt *switchStmt)'),
    S(NL, '            _labels = labels;\n', ''), S(NL, 'TraverseStmt(switchStmt);', 'TraverseStmt(switchStmt);\n            return _labels;'),
    S(NL, '_labels->push_back', '_labels.push_back'),
    S(NL, '        vector<LabelStmt*> labels;\n', ''), S(NL, '        extractLabelStmts.extract(switchStmt, &labels);\n', ''),
    S(NL, 'labelStmt : labels)', 'labelStmt : extractLabelStmts.extract(switchStmt))')]),
 ('label-direct', [S(NL, '    class ExtractLabelStmts : public RecursiveASTVisitor<ExtractLabelStmts>', '    class LabelCollector : public RecursiveASTVisitor<LabelCollector>'),
    S(NL, '        ExtractLabelStmts extractLabelStmts;\n        extractLabelStmts.extract', '        LabelCollector collector;\n        collector.extract')]),
 ('default-args-auto', [F(DA, 'virtual void callback(', '''virtual void callback(const MatchFinder::MatchResult &result) override
    {
        addViolation(result.Nodes.getNodeAs<CXXMethodDecl>("cxxMethod"), this);
    }'''), F(DA, 'virtual void setUpMatcher()', '''virtual void setUpMatcher() override
    {
        auto virtualMethod =
            cxxMethodDecl(isVirtual(), hasAnyParameter(hasDefaultArg())).bind("cxxMethod");
        addMatcher(virtualMethod);
    }''')]),
 ('static-members-helper', [F(PS, 'virtual void callback(', '''virtual void callback(const MatchFinder::MatchResult &result) override
    {
        report(result.Nodes.getNodeAs<VarDecl>("field"));
        report(result.Nodes.getNodeAs<CXXMethodDecl>("cxxMethod"));
    }

    void report(const Decl *decl)
    {
        if (decl != nullptr)
        {
            addViolation(decl, this);
        }
    }'''), F(PS, 'virtual void setUpMatcher()', '''virtual void setUpMatcher() override
    {
        addMatcher(cxxMethodDecl(isPrivate(), isStatic()).bind("cxxMethod"));
        addMatcher(varDecl(isPrivate(), isStaticDataMember()).bind("field"));
    }''')]),
 ('cuda-early', [F(CU, 'bool VisitIfStmt(', '''bool VisitIfStmt(IfStmt *ifStmt)
    {
        const bool hasNoElse = !ifStmt->getElse();
        if (hasNoElse)
        {
            return true;
        }
        addViolation(ifStmt, this);
        return true;
    }''')]),
 ('empty-inlined', [F(EB, 'bool checkLexicalEmptyStmt(', '''bool checkLexicalEmptyStmt(clang::Stmt *stmt, oclint::RuleBase *rule)
    {
        if (stmt == nullptr)
        {
            return true;
        }
        auto *block = clang::dyn_cast<clang::CompoundStmt>(stmt);
        const bool isEmpty = block ? block->body_empty() : clang::isa<clang::NullStmt>(stmt);
        if (isEmpty)
        {
            this->addViolation(stmt, rule);
        }
        return true;
    }'''), F(EB, 'bool isLexicalEmpty(', '')]),
 ('empty-static', [F(EB, 'bool isLexicalEmpty(', '''static bool isLexicalEmpty(const clang::Stmt *stmt)
    {
        if (clang::isa<clang::NullStmt>(stmt))
        {
            return true;
        }
        const auto *compoundStmt = clang::dyn_cast<clang::CompoundStmt>(stmt);
        return compoundStmt != nullptr && compoundStmt->size() == 0;
    }''')]),
 ('empty-catch-split', [F(EC, 'bool VisitCXXCatchStmt(', '''bool VisitCXXCatchStmt(CXXCatchStmt *catchStmt)
    {
        Stmt *handler = catchStmt->getHandlerBlock();
        (void) checkLexicalEmptyStmt(handler, this);
        return true;
    }''')]),
 ('empty-for-template', [S(EFO, '    bool VisitForStmt(', '''    template <typename Loop>
    bool checkLoop(Loop *loop)
    {
        return checkLexicalEmptyStmt(loop->getBody(), this);
    }

    bool VisitForStmt('''), F(EFO, 'bool VisitForStmt(', '''bool VisitForStmt(ForStmt *forStmt)
    {
        return checkLoop(forStmt);
    }'''), F(EFO, 'bool VisitObjCForCollectionStmt(', '''bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
    {
        return checkLoop(forStmt);
    }''')]),
 ('empty-else-var', [F(EE, 'bool VisitIfStmt(', '''bool VisitIfStmt(IfStmt *ifStmt)
    {
        if (Stmt *elseStmt = ifStmt->getElse())
        {
            checkLexicalEmptyStmt(elseStmt, this);
        }
        return true;
    }''')]),
 ('ccn-count-fn', [S(CMH, '    int _count;\n', '    int _count;\n\n    bool countBranch()\n    {\n        ++_count;\n        return true;\n    }\n')] +
    [F(CM, 'bool CyclomaticComplexityMetric::Visit%s(' % k, 'bool CyclomaticComplexityMetric::Visit%s(clang::%s *)\n{\n    return countBranch();\n}' % (k, k))
     for k in ('IfStmt', 'ForStmt', 'CXXForRangeStmt', 'ObjCForCollectionStmt', 'WhileStmt', 'DoStmt', 'CaseStmt', 'ObjCAtCatchStmt', 'CXXCatchStmt', 'ConditionalOperator')]),
 ('ccn-logical', [F(CM, 'bool CyclomaticComplexityMetric::VisitBinaryOperator(', '''bool CyclomaticComplexityMetric::VisitBinaryOperator(clang::BinaryOperator *binaryOperator)
{
    switch (binaryOperator->getOpcode())
    {
    case clang::BO_LAnd:
    case clang::BO_LOr:
        _count += 1;
        break;
    default:
        break;
    }
    return true;
}''')]),
 ('ccn-islogical', [F(CM, 'bool CyclomaticComplexityMetric::VisitBinaryOperator(', '''bool CyclomaticComplexityMetric::VisitBinaryOperator(clang::BinaryOperator *binaryOperator)
{
    if (!binaryOperator->isLogicalOp())
    {
        return true;
    }
    _count++;
    return true;
}''')]),
 ('ccn-init', [S(CMH, '    int _count;\n', '    int _count = 0;\n')]),
 ('ccn-nested-class', [F(CM, 'extern "C" int getCyclomaticComplexity(', '''extern "C" int getCyclomaticComplexity(clang::Decl *decl)
{
    return CyclomaticComplexityMetric().calculate(decl);
}''')]),
 ('dl-guard', [F(RD, 'void dynamicLoadRules(', '''void dynamicLoadRules(std::string ruleDirPath)
{
    DIR *pDir = opendir(ruleDirPath.c_str());
    if (!pDir)
    {
        return;
    }
    for (struct dirent *dirp = readdir(pDir); dirp != nullptr; dirp = readdir(pDir))
    {
        const std::string fileName(dirp->d_name);
        if (fileName[0] != '.')
        {
            const std::string rulePath = ruleDirPath + "/" + fileName;
            void *handle = dlopen(rulePath.c_str(), RTLD_LAZY);
            if (!handle)
            {
                std::cerr << dlerror() << std::endl;
                closedir(pDir);
                throw oclint::GenericException("cannot open dynamic library: " + rulePath);
            }
        }
    }
    closedir(pDir);
}''')]),
 ('dl-helper', [S(RD, 'void dynamicLoadRules(', '''static bool isHidden(const struct dirent &entry)
{
    return entry.d_name[0] == '.';
}

static bool loadRule(const std::string &rulePath)
{
    return dlopen(rulePath.c_str(), RTLD_LAZY) != nullptr;
}

void dynamicLoadRules('''), S(RD, "if (dirp->d_name[0] == '.')", 'if (isHidden(*dirp))'), S(RD, 'if (dlopen(rulePath.c_str(), RTLD_LAZY) == nullptr)', 'if (!loadRule(rulePath))')]),
 ('ccn-rule-early', [F(CY, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        const int threshold = RuleConfiguration::intForKey("CYCLOMATIC_COMPLEXITY", 10);
        const int ccn = getCyclomaticComplexity(decl);
        if (ccn <= threshold)
        {
            return;
        }
        string description("Cyclomatic Complexity Number ");
        description += toString<int>(ccn);
        description += " exceeds limit of ";
        description += toString<int>(threshold);
        addViolation(decl, this, description);
    }''')]),
 ('ccn-rule-std', [S(CY, '''"Cyclomatic Complexity Number " +
                toString<int>(ccn) + " exceeds limit of " + toString<int>(threshold);''', '''"Cyclomatic Complexity Number " +
                std::to_string(ccn) + " exceeds limit of " + std::to_string(threshold);''')]),
 ('npath-flat', [F(NP, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        CompoundStmt *bodyStmt = decl->hasBody() ? dyn_cast_or_null<CompoundStmt>(decl->getBody()) : nullptr;
        if (!bodyStmt)
        {
            return;
        }
        checkBody(decl, *bodyStmt);
    }

    void checkBody(Decl *decl, CompoundStmt &bodyStmt)
    {
        const int npath = getNPathComplexity(&bodyStmt);
        const int limit = RuleConfiguration::intForKey("NPATH_COMPLEXITY", 200);
        if (npath > limit)
        {
            addViolation(decl, this, "NPath Complexity Number " + toString<int>(npath) +
                " exceeds limit of " + toString<int>(limit));
        }
    }''')]),
 ('long-method-body', [F(LM, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        if (!decl->hasBody())
        {
            return;
        }
        if (isCppMethodDeclLocatedInCppRecordDecl(dyn_cast<CXXMethodDecl>(decl)))
        {
            return;
        }
        if (Stmt *body = decl->getBody())
        {
            const int threshold = RuleConfiguration::intForKey("LONG_METHOD", 50);
            const int length = getLineCount(body->getSourceRange(), _carrier->getSourceManager());
            if (length > threshold)
            {
                addViolation(decl, this, "Method with " + toString<int>(length) +
                    " lines exceeds limit of " + toString<int>(threshold));
            }
        }
    }''')]),
 ('params-overload', [F(TP, 'template <typename T>\n    void applyDecl(', '''void applyDecl(FunctionDecl *decl)
    {
        report(decl, decl->param_size(), decl->hasBody());
    }

    void applyDecl(ObjCMethodDecl *decl)
    {
        report(decl, decl->param_size(), decl->hasBody());
    }

    void report(Decl *decl, unsigned numOfParams, bool isDefined)
    {
        if (isDefined && numOfParams > _threshold)
        {
            string description = "Method with " + toString<int>(numOfParams) +
                " parameters exceeds limit of " + toString<int>(_threshold);
            addViolation(decl, this, description);
        }
    }''')]),
 ('fields-helper', [S(TF, '    int _threshold;\n', '''    int _threshold;

    void checkFields(Decl *decl, const string &kind, int fieldCount)
    {
        if (fieldCount > _threshold)
        {
            addViolation(decl, this, kind + " with " + toString<int>(fieldCount) +
                " fields exceeds limit of " + toString<int>(_threshold));
        }
    }
'''), F(TF, 'bool VisitObjCInterfaceDecl(', '''bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
    {
        checkFields(decl, "Objective-C interface", decl->ivar_size());
        return true;
    }'''), F(TF, 'bool VisitCXXRecordDecl(', '''bool VisitCXXRecordDecl(CXXRecordDecl *decl)
    {
        int fieldCount = 0;
        for (auto field = decl->field_begin(); field != decl->field_end(); ++field)
        {
            fieldCount++;
        }
        checkFields(decl, "C++ class", fieldCount);
        return true;
    }''')]),
 ('long-class-ref', [S(LC, 'void applyDecl(Decl *decl, string descriptionPrefix)', 'void applyDecl(const Decl *decl, const char *descriptionPrefix)'),
    S(LC, 'string description = descriptionPrefix + " with " +', 'string description = string(descriptionPrefix) + " with " +')]),
 ('long-class-order', [S(LC, '        if (length > _threshold)\n', '        if (_threshold < length)\n')]),
 ('nested-depth-ret', [F(NB, 'bool VisitCompoundStmt(', '''bool VisitCompoundStmt(CompoundStmt *compoundStmt)
    {
        check(compoundStmt, RuleConfiguration::intForKey("NESTED_BLOCK_DEPTH", 5));
        return true;
    }

    void check(CompoundStmt *block, int limit)
    {
        int depth = getStmtDepth(block);
        if (!(depth > limit))
        {
            return;
        }
        string description = "Block depth of " + toString<int>(depth) +
            " exceeds limit of " + toString<int>(limit);
        addViolation(block, this, description);
    }''')]),
 ('long-name-helper', [F(LV, 'bool VisitVarDecl(', '''bool VisitVarDecl(VarDecl *varDecl)
    {
        const std::string varName = varDecl->getNameAsString();
        const int nameLength = varName.size();
        const int threshold = RuleConfiguration::intForKey("LONG_VARIABLE_NAME", 20);
        if (nameLength <= threshold)
        {
            return true;
        }
        std::string shownName = nameLength > threshold + 10 ? shorten(varName, threshold) : varName;
        string description = "Length of variable name `" + shownName +
            "` is " + toString<int>(nameLength) +
            ", which is longer than the threshold of " + toString<int>(threshold);
        addViolation(varDecl, this, description);
        return true;
    }

    static std::string shorten(const std::string &name, int threshold)
    {
        return name.substr(0, threshold + 3) + "..." + name.substr(name.length() - 3);
    }''')]),
 ('parens-static', [F(UP, 'void addParenExprToViolation(', '''static bool isParenthesized(const Expr *expr)
    {
        return expr != nullptr && isa<ParenExpr>(expr);
    }

    void addParenExprToViolation(Expr *expr)
    {
        if (!isParenthesized(expr))
        {
            return;
        }
        addViolation(expr, this);
    }''')]),
 ('parens-dyn', [F(UP, 'void addParenExprToViolation(', '''void addParenExprToViolation(Expr *expr)
    {
        if (auto *parenExpr = dyn_cast_or_null<ParenExpr>(expr))
        {
            addViolation(parenExpr, this);
        }
    }''')]),
 ('literals-static-tables', [F(CL, 'bool VisitObjCMessageExpr(', '''bool isOneOf(string selector, vector<string> &selectors)
    {
        return vectorContains<string>(selector, selectors);
    }

    bool VisitObjCMessageExpr(ObjCMessageExpr *objCMsgExpr)
    {
        static vector<string> arraySelectors = {
            "array", "arrayWithObject:", "arrayWithObjects:count:", "arrayWithObjects:" };
        static vector<string> dictionarySelectors = {
            "dictionary", "dictionaryWithObject:forKey:", "dictionaryWithObjects:forKeys:count:",
            "dictionaryWithObjectsAndKeys:", "dictionaryWithObjects:forKeys:" };

        ObjCInterfaceDecl *receiver = objCMsgExpr->getReceiverInterface();
        if (receiver == nullptr)
        {
            return true;
        }
        const string className = receiver->getNameAsString();
        const string selector = objCMsgExpr->getSelector().getAsString();
        if ((className == "NSArray" && isOneOf(selector, arraySelectors)) ||
            (className == "NSDictionary" && isOneOf(selector, dictionarySelectors)))
        {
            addViolation(objCMsgExpr, this);
        }
        return true;
    }''')]),
 ('literals-map', [F(CL, 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr *objCMsgExpr)
    {
        ObjCInterfaceDecl *receiver = objCMsgExpr->getReceiverInterface();
        if (receiver && isCreation(receiver->getNameAsString(), objCMsgExpr->getSelector().getAsString()))
        {
            addViolation(objCMsgExpr, this);
        }
        return true;
    }

    static bool isCreation(const string &className, const string &selector)
    {
        if (className == "NSArray")
        {
            return selector == "array" || selector == "arrayWithObject:" ||
                selector == "arrayWithObjects:count:" || selector == "arrayWithObjects:";
        }
        if (className == "NSDictionary")
        {
            return selector == "dictionary" || selector == "dictionaryWithObject:forKey:" ||
                selector == "dictionaryWithObjects:forKeys:count:" ||
                selector == "dictionaryWithObjectsAndKeys:" ||
                selector == "dictionaryWithObjects:forKeys:";
        }
        return false;
    }''')]),
 ('walk-forward', [S(NL, '        bool VisitLabelStmt(', """        bool TraverseSwitchStmt(SwitchStmt *switchStmt)
        {
            return RecursiveASTVisitor<ExtractLabelStmts>::TraverseSwitchStmt(switchStmt);
        }

        bool shouldVisitImplicitCode() const
        {
            return false;
        }

        bool VisitLabelStmt(""")]),
 ('few-algorithm', [F(TB, 'int numberOfCases(', '''int numberOfCases(SwitchStmt *switchStmt)
    {
        int number = 0;
        SwitchCase *label = switchStmt->getSwitchCaseList();
        while (label != nullptr)
        {
            number += isa<CaseStmt>(label) ? 1 : 0;
            label = label->getNextSwitchCase();
        }
        return number;
    }''')]),
]
