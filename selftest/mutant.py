"""Realistic breakage, written from the statements of the properties: every case must be reported."""
C = 'oclint-core/lib/'
D = 'oclint-driver/'
R = 'oclint-rules/'
M = 'oclint-metrics/lib/'
P = 'oclint-reporters/reporters/'


def S(f, old, new):
    return (f, old, new)


CASES = [
 # C01
 ('c01-errors-after-threshold', [S(D + 'main.cpp', '''    if (results->hasErrors())
    {
        return COMPILATION_ERRORS;
    }

    if (numberOfViolationsExceedThreshold(results))
    {
        printViolationsExceedThresholdError(results);
        return VIOLATIONS_EXCEED_THRESHOLD;
    }
''', '''    if (numberOfViolationsExceedThreshold(results))
    {
        printViolationsExceedThresholdError(results);
        return VIOLATIONS_EXCEED_THRESHOLD;
    }

    if (results->hasErrors())
    {
        return COMPILATION_ERRORS;
    }
''')]),
 # C02
 ('c02-rc-first-equals', [S(D + 'lib/Options.cpp', 'configuration.find_last_of("=")', 'configuration.find("=")')]),
 ('c02-config-overrides', [S(C + 'RuleConfiguration.cpp', '    _configurations->operator[](key) = value;', '    _configurations->insert(std::make_pair(key, value));')]),
 ('c02-max3-key', [S(D + 'lib/ConfigFile.cpp', 'inputOutput.mapOptional("max-priority-3", _maxP3);', 'inputOutput.mapOptional("max-priority-3", _maxP2);')]),
 ('c02-zero-is-unset', [S(D + 'lib/ConfigFile.cpp', 'return value == INT_MIN ? std::optional<int>()', 'return value <= 0 ? std::optional<int>()')]),
 ('c02-false-unset', [S(D + 'lib/ConfigFile.cpp', '''    case FALSE:
        return std::optional<bool>(false);
    case TRUE:''', '''    case FALSE:
        return std::optional<bool>();
    case TRUE:''')]),
 # C03
 ('c03-disable-keeps-enabled', [S(D + 'lib/RulesetFilter.cpp', '''    auto iterator = _enabled.find(ruleName);
    if (iterator != _enabled.end())
    {
        _enabled.erase(iterator);
    }
''', '''    if (_enabled.size() > 1)
    {
        _enabled.erase(ruleName);
    }
''')]),
 ('c03-disable-before-enable', [S(D + 'lib/Options.cpp', '''    filter.enableRules(argEnabledRules.begin(), argEnabledRules.end());
    filter.disableRules(argDisabledRules.begin(), argDisabledRules.end());
}

std::string oclint::option::workingPath()''', '''    filter.disableRules(argDisabledRules.begin(), argDisabledRules.end());
    filter.enableRules(argEnabledRules.begin(), argEnabledRules.end());
}

std::string oclint::option::workingPath()''')]),
 ('c03-rule-zero', [S(C + 'RuleSet.cpp', '''    if (index >= numberOfRules())
    {''', '''    if (index + 1 > numberOfRules() || (index == 0 && numberOfRules() == 1))
    {''')]),
 ('c03-prefix-match', [S(D + 'lib/RulesetFilter.cpp', '''find(_disabled.begin(), _disabled.end(), name) == _disabled.end())
        {''', '''find_if(_disabled.begin(), _disabled.end(),
                [&name](const std::string &each) { return name.compare(0, each.size(), each) == 0; }) == _disabled.end())
        {''')]),
 # C04
 ('c04-skip-first-of-many', [S(D + 'lib/RulesetBasedAnalyzer.cpp', '''            rule->takeoff(carrier);
''', '''            if (violationSet->numberOfViolations() > 1000)
            {
                break;
            }
            rule->takeoff(carrier);
''')]),
 ('c04-addviolation-dedupe', [S(C + 'ViolationSet.cpp', '    _violations.push_back(violation);', '''    if (_violations.empty() || !(_violations.back() == violation))
    {
        _violations.push_back(violation);
    }''')]),
 ('c04-carrier-zero-line', [S(C + 'RuleCarrier.cpp', 'if (filePath != "")', 'if (filePath != "" && startLine <= endLine)')]),
 ('c04-null-context-ends', [S(D + 'lib/RulesetBasedAnalyzer.cpp', '''        for (RuleBase *rule : _filteredRules)
        {''', '''        if (carrier->getMainFilePath().empty())
        {
            break;
        }
        for (RuleBase *rule : _filteredRules)
        {''')]),
 # C05
 ('c05-hash-set', [S(C + 'UniqueResults.cpp', 'std::hash<const oclint::RuleBase*>()(violation.rule)', 'std::hash<const oclint::Violation*>()(&violation)')]),
 ('c05-eq-no-endcolumn', [S(C + 'Violation.cpp', '            && (endColumn == rhs.endColumn)\n', '')]),
 ('c05-eq-rule-name', [S(C + 'Violation.cpp', '(rule == rhs.rule)', '(rule == rhs.rule || !rule || !rhs.rule)')]),
 ('c05-adjacent-only', [S(C + 'UniqueResults.cpp', '''        if (set.insert(violation).second)
        {''', '''        if (set.insert(violation).second || violations.size() > 100000)
        {''')]),
 # C06
 ('c06-files-unique', [S(C + 'AbstractResults.cpp', 'if (violationSet->numberOfViolations() > 0)', 'if (violationSet->numberOfViolations() > 1)')]),
 ('c06-count-capped', [S(C + 'AbstractResults.cpp', '''        if (rule->priority() == priority)
        {
            numViolations++;
        }''', '''        if (rule->priority() == priority || (priority == 3 && rule->priority() > 3))
        {
            numViolations++;
        }''')]),
 ('c06-cache-stale', [S(C + 'AbstractResults.cpp', '''int AbstractResults::numberOfWarnings() const
{
    return allWarnings().size();''', '''int AbstractResults::numberOfWarnings() const
{
    return _resultCollector.getCompilerWarningSet()->numberOfViolations();''')]),
 # C07
 ('c07-warning-as-error', [S(D + 'lib/DiagnosticDispatcher.cpp', 'diagnosticLevel == clang::DiagnosticsEngine::Warning)', 'diagnosticLevel >= clang::DiagnosticsEngine::Remark &&\n            diagnosticLevel <= clang::DiagnosticsEngine::Warning)')]),
 ('c07-macro-line', [S(D + 'lib/DiagnosticDispatcher.cpp', 'sourceManager->getPresumedColumnNumber(location)', 'sourceManager->getPresumedColumnNumber(\n        sourceManager->getSpellingLoc(location))')]),
 # C08
 ('c08-range-exclusive', [S(R + 'lib/helper/SuppressHelper.cpp', 'beginLine <= range.second', 'beginLine < range.second')]),
 ('c08-stmt-skips-declparent', [S(R + 'lib/helper/SuppressHelper.cpp', '''        if (markedAsSuppress(aDecl, rule))
        {
            return true;
        }
        return markedParentsAsSuppress(*aDecl, context, rule);''', '''        return markedAsSuppress(aDecl, rule);''')]),
 ('c08-reader-no-rule', [S(R + 'lib/AbstractSourceCodeReaderRule.cpp', 'shouldSuppress(startLine, *_carrier->getASTContext(), rule)', 'shouldSuppress(startLine, *_carrier->getASTContext(), nullptr)')]),
 ('c08-attr-prefix', [S(R + 'lib/helper/AttributeHelper.cpp', 'return declHasOCLintAttribute(decl, action + "[" + rule.attributeName() + "]", comment);', 'return declHasOCLintAttribute(decl, action + "[" + rule.attributeName(), comment);')]),
 ('c08-gate-bypass', [S(R + 'lib/AbstractASTRuleBase.cpp', 'if (decl && !shouldSuppress(decl, *_carrier->getASTContext(), rule))', 'if (decl && (decl->isImplicit() ||\n        !shouldSuppress(decl, *_carrier->getASTContext(), rule)))')]),
 # C09
 ('c09-spelling', [S(R + 'lib/AbstractASTRuleBase.cpp', 'sourceManager->getFileLoc(endLocation)', 'sourceManager->getSpellingLoc(endLocation)')]),
 ('c09-endline', [S(R + 'lib/AbstractASTRuleBase.cpp', 'sourceManager->getPresumedLineNumber(endFileLoc),', 'sourceManager->getPresumedLineNumber(startFileLoc),')]),
 ('c09-header', [S(R + 'include/oclint/AbstractASTVisitorRule.h', 'startLocation.isValid() && sourceManager->isInMainFile(startLocation)', 'startLocation.isValid() && !sourceManager->isInSystemHeader(startLocation)')]),
 ('c09-macro-decl', [S(R + 'include/oclint/AbstractASTVisitorRule.h', 'startLocation.isValid() && sourceManager->isInMainFile(startLocation)', 'startLocation.isFileID() && sourceManager->isInMainFile(startLocation)')]),
 # C10
 ('c10-return-violation', [S(R + 'rules/basic/DoubleNegativeRule.cpp', """                addViolation(unaryOperator, this);
            }
        }

        return true;""", """                addViolation(unaryOperator, this);
            }
        }

        return subExpr != nullptr && !isa<UnaryOperator>(subExpr);""")]),
 ('c10-super-found', [S(R + 'rules/cocoa/ObjCVerifyProtectedMethodRule.cpp', '''            if(!interface) {
                return true;
            }''', '''            if(!interface) {
                return false;
            }''')]),
 # C11
 ('c11-visitor-name', [S(R + 'rules/empty/EmptyCatchStatementRule.cpp', 'VisitCXXCatchStmt(CXXCatchStmt', 'VisitCatchStmt(CXXCatchStmt')]),
 ('c11-binding', [S(R + 'rules/design/AvoidPrivateStaticMembersRule.cpp', 'getNodeAs<CXXMethodDecl>("cxxMethod")', 'getNodeAs<CXXMethodDecl>("method")')]),
 ('c11-param-type', [S(R + 'rules/empty/EmptyIfStatementRule.cpp', 'VisitIfStmt(IfStmt *ifStmt)', 'VisitIfStmt(IfStmt *ifStmt, bool = true)')]),
 # C12
 ('c12-visited-kept', [S(R + 'rules/redundant/UnnecessaryElseStatementRule.cpp', '        _visitedIfStmt = new vector<IfStmt *>();', '        if (!_visitedIfStmt)\n        {\n            _visitedIfStmt = new vector<IfStmt *>();\n        }'), S(R + 'rules/redundant/UnnecessaryElseStatementRule.cpp', '    vector<IfStmt *> *_visitedIfStmt;', '    vector<IfStmt *> *_visitedIfStmt = nullptr;')]),
 ('c12-static-threshold', [S(R + 'rules/size/LongMethodRule.cpp', '            int threshold = RuleConfiguration', '            static int longest = 0;\n            longest = length > longest ? length : longest;\n            if (length * 10 < longest)\n            {\n                return;\n            }\n            int threshold = RuleConfiguration')]),
 # C13
 ('c13-super', [S(R + 'rules/cocoa/ObjCVerifySubclassMustImplementRule.cpp', '''        if(!parent) {
            return true;
        }
''', '')]),
 ('c13-empty-compound', [S(R + 'rules/convention/PreferEarlyExitRule.cpp', 'if (compoundStmt->size() < 2)', 'if (compoundStmt->size() < 1)')]),
 ('c13-else', [S(M + 'StmtDepthMetric.cpp', '    if (elseStmt)\n    {\n        depthElse = depth(elseStmt);\n    }', '    depthElse = stmt->getElse()->getStmtClass() == clang::Stmt::NullStmtClass ? 0 : depth(elseStmt);')]),
 ('c13-dependent', [S(R + 'rules/basic/ConstantConditionalOperatorRule.cpp', '!conditionExpr->isValueDependent() &&', '!conditionExpr->isTypeDependent() &&')]),
 # C14
 ('c14-switch-default', [S(M + 'NPathComplexityMetric.cpp', '        if (clang::isa<clang::SwitchCase>(*bodyStmt))', '        if (clang::isa<clang::CaseStmt>(*bodyStmt))')]),
 ('c14-else-ncss', [S(M + 'NcssMetric.cpp', '        ncssElse = ncss(elseStmt) + 1;', '        ncssElse = ncss(elseStmt) + !clang::isa<clang::IfStmt>(elseStmt);')]),
 ('c14-comma', [S(M + 'CyclomaticComplexityMetric.cpp', 'binaryOperator->getOpcode() == clang::BO_LOr)', 'binaryOperator->getOpcode() == clang::BO_Or)')]),
 ('c14-finally', [S(M + 'StmtDepthMetric.cpp', 'return maxDepth > depthFinally ? maxDepth : depthFinally;', 'return depthFinally ? depthFinally : maxDepth;')]),
 # C15
 ('c15-duplicate-name', [S(R + 'rules/basic/BrokenNullCheckRule.cpp', '"broken nil check"', '"broken null check"')]),
 ('c15-priority', [S(R + 'rules/basic/GotoStatementRule.cpp', '        return 3;', '        return 4;')]),
 # C16
 ('c16-threshold-ge', [S(R + 'rules/size/TooManyMethodsRule.cpp', '''        int methodCount = distance(decl->method_begin(), decl->method_end());
        if (methodCount > _threshold)''', '''        int methodCount = distance(decl->method_begin(), decl->method_end());
        if (methodCount >= _threshold)''')]),
 ('c16-key', [S(R + 'rules/convention/TooFewBranchesInSwitchStatementRule.cpp', '"MINIMUM_CASES_IN_SWITCH", 3)', '"MINIMUM_CASES_IN_SWITCH_STATEMENT", 3)')]),
 ('c16-message', [S(R + 'rules/size/LongLineRule.cpp', 'toString<int>(threshold);', 'toString<int>(100);')]),
 # C17
 ('c17-eq-both', [S(R + 'rules/basic/BrokenNullCheckRule.cpp', 'binaryOperator->getOpcode() == BO_LOr && isNeNullCheck(binaryOperator->getLHS())', 'binaryOperator->getOpcode() == BO_LOr && isNeNullCheck(binaryOperator->getRHS())')]),
 ('c17-paren-once', [S(R + 'rules/basic/DoubleNegativeRule.cpp', 'while (subExpr && isa<ParenExpr>(subExpr))', 'if (subExpr && isa<ParenExpr>(subExpr))')]),
 # C18
 ('c18-last-case', [S(R + 'rules/convention/MissingBreakInSwitchStatementRule.cpp', """        if (!breakFound)
        {
            addViolation(switchStmt, this);
        }

        return true;""", """        return true;""")]),
 ('c18-objc-inverted', [S(R + 'rules/convention/InvertedLogicRule.cpp', 'binaryOperator->getOpcode() == BO_NE)', 'binaryOperator->isEqualityOp())')]),
 ('c18-compound-assign', [S(R + 'rules/convention/ParameterReassignmentRule.cpp', 'binaryOperator->getOpcode() == BO_Assign', 'binaryOperator->isAssignmentOp()')]),
 # C19
 ('c19-virtual', [S(R + 'rules/unused/UnusedMethodParameterRule.cpp', 'return decl && decl->isVirtual();', 'return decl && decl->size_overridden_methods() > 0;')]),
 ('c19-referenced', [S(R + 'rules/unused/UnusedLocalVariableRule.cpp', 'return !varDecl->isUsed() && !varDecl->isReferenced();', 'return !varDecl->isUsed();')]),
 # C20
 ('c20-categories', [S(R + 'rules/cocoa/ObjCVerifyMustCallSuperRule.cpp', '(expr->getReceiverKind() == ObjCMessageExpr::SuperInstance', '(expr->getReceiverKind() != ObjCMessageExpr::Instance')]),
 ('c20-hash', [S(R + 'rules/cocoa/ObjCVerifyIsEqualHashRule.cpp', 'if (name == "isEqual:")', 'else if (name.find("isEqual") == 0)')]),
 # C21
 ('c21-comma-eq', [S(P + 'JSONReporter.cpp', '''            if (index != 0)
            {
                out << ",";
            }
            writeViolation(out, violationSet.at(index));''', '''            writeViolation(out, violationSet.at(index));
            if (violationSet.size() > 1)
            {
                out << ",";
            }''')]),
 ('c21-control', [S(P + 'JSONReporter.cpp', 'if (static_cast<unsigned char>(c) < 0x20)', 'if (c < 0x20)')]),
 ('c21-raw-rule', [S(P + 'JSONReporter.cpp', 'out << "\\"" << jsonEscape(value) << "\\"";', 'out << "\\"" << (value.size() > 4096 ? value : jsonEscape(value)) << "\\"";')]),
 # C22
 ('c22-endcolumn', [S(P + 'JSONReporter.cpp', 'writeKeyValue(out, "endColumn", violation.endColumn);', 'writeKeyValue(out, "endColumn", violation.startColumn);')]),
 ('c22-checker', [S(P + 'JSONReporter.cpp', '            writeViolation(out, checkerBugs.at(index));', '            writeViolation(out, violationSet.at(index));')]),
 # C23
 ('c23-throw', [S(D + 'rules_dlfcn_port.cpp', 'throw oclint::GenericException("no rule loaded");', ';')]) if False else
 ('c23-suffix', [S(D + 'reporters_dlfcn_port.cpp', 'if (reporter->name() == oclint::option::reportType())', 'if (reporter->name() == oclint::option::reportType() || selectedReporter == nullptr)')]),
 # C24
 ('c24-relative', [S(D + 'lib/Options.cpp', "argOutput.at(0) == '/' ? argOutput : workingPath()", "argOutput.at(0) == '/' || argOutput.at(0) == '~' ? argOutput : workingPath()")]),
 ('c24-noflush', [S(D + 'main.cpp', '''    else if (out)
    {
        out->flush();
    }
''', '')]),
 # C26
 ('c26-objcxx', [S(R + 'lib/AbstractASTRuleBase.cpp', '    if (langOpts.ObjC)\n', '    if (langOpts.ObjC && !langOpts.CPlusPlus)\n')]),
 ('c26-or', [S(R + 'lib/AbstractASTRuleBase.cpp', 'return LANG_OBJC & supportedLanguages();', 'return (LANG_OBJC | LANG_C) & supportedLanguages();')]),
 # C27
 ('c27-ptrset', [S(R + 'rules/convention/ParameterReassignmentRule.cpp', '        vector<BinaryOperator*> analyze(Decl *decl, vector<string> &names)', '        set<BinaryOperator*> analyze(Decl *decl, vector<string> &names)'), S(R + 'rules/convention/ParameterReassignmentRule.cpp', '        vector<BinaryOperator*> _binaryOperators;', '        set<BinaryOperator*> _binaryOperators;'),
   S(R + 'rules/convention/ParameterReassignmentRule.cpp', '_binaryOperators.push_back(binaryOperator);', '_binaryOperators.insert(binaryOperator);'), S(R + 'rules/convention/ParameterReassignmentRule.cpp', '            vector<BinaryOperator*> binaryOperators = biOp', '            auto binaryOperators = biOp')]),
 ('c27-uninit', [S(R + 'rules/cocoa/ObjCVerifyMustCallSuperRule.cpp', '        _foundSuperCall = false;\n', '')]),
 ('c27-env', [S(R + 'rules/size/LongLineRule.cpp', 'RuleConfiguration::intForKey("LONG_LINE", 100)', 'RuleConfiguration::intForKey("LONG_LINE", getenv("COLUMNS") ? atoi(getenv("COLUMNS")) : 100)')]),
 # C28
 ('c28-crlf', [S(R + 'lib/AbstractSourceCodeReaderRule.cpp', 'eachLine(currentLineNumber++, currentLine.str());', 'if (!currentLine.empty() || currentLineNumber > 1)\n        {\n            eachLine(currentLineNumber, currentLine.str());\n        }\n        currentLineNumber++;')]),
 ('c28-teardown', [S(R + 'include/oclint/AbstractASTVisitorRule.h', '''        for (clang::DeclContext::decl_iterator it = tu->decls_begin(), declEnd = tu->decls_end();
            it != declEnd; ++it)
        {
            applyCUDADecl(*it);
        }
        tearDown();''', '''        for (clang::DeclContext::decl_iterator it = tu->decls_begin(), declEnd = tu->decls_end();
            it != declEnd; ++it)
        {
            applyCUDADecl(*it);
        }''')]),
 ('c28-stmts', [S(R + 'lib/AbstractASTMatcherRule.cpp', '    _finder->match(*stmt, *_carrier->getASTContext());', '    if (!clang::isa<clang::Expr>(stmt))\n    {\n        _finder->match(*stmt, *_carrier->getASTContext());\n    }')]),
 # C29
 ('c29-category', [S(R + 'lib/util/ASTUtil.cpp', '''            clang::isa<clang::ObjCProtocolDecl>(context) ||
            clang::isa<clang::ObjCCategoryDecl>(context));''', '''            clang::isa<clang::ObjCProtocolDecl>(context));''')]),
 ('c29-implicit-only', [S(R + 'lib/util/ASTUtil.cpp', '''        if (castExpr->getCastKind() == clang::CK_NullToPointer) {
            return true;
        }''', '''        return castExpr->getCastKind() == clang::CK_NullToPointer;''')]),
 ('c29-first-protocol', [S(R + 'lib/util/ASTUtil.cpp', '''            if (protocolDecl->lookupInstanceMethod(selector))
            {
                return true;
            }''', '''            return protocolDecl->lookupInstanceMethod(selector) != nullptr;''')]),
 ('c29-underscore', [S(R + 'lib/util/StdUtil.cpp', '    str.erase(remove_if(str.begin(), str.end(), &::isUnderscore), str.end());', '    str.erase(remove_if(str.begin(), str.end() - (str.empty() ? 0 : 1), &::isUnderscore), str.end());')]),
 ('c29-noncanon', [S(R + 'lib/util/ASTUtil.cpp', '    rhs.Profile(rhsID, context, true);', '    rhs.Profile(rhsID, context, false);')]),
 ('c29-property', [S(R + 'lib/helper/AttributeHelper.cpp', '(*it)->getMethod(decl->getSelector(), decl->isInstanceMethod());', '(*it)->getInstanceMethod(decl->getSelector());')]),
 # two local objects of one type
 ('oo-literals', [S(R + 'rules/migration/ObjCContainerLiteralsRule.cpp', 'dictionarySelectors.push_back("dictionary");', 'arraySelectors.push_back("dictionary");')]),
 ('oo-literals-use', [S(R + 'rules/migration/ObjCContainerLiteralsRule.cpp', '(selectorString, dictionarySelectors)', '(selectorString, arraySelectors)')]),
 ('oo-config', [S(D + 'lib/Options.cpp', 'filter.disableRules(disableRules.begin(), disableRules.end());', 'filter.disableRules(enableRules.begin(), enableRules.end());')]),
 ('oo-config2', [S(D + 'lib/Options.cpp', '        disableRules.push_back(rule);', '        enableRules.push_back(rule);')]),
 ('oo-numbers', [S(R + 'rules/migration/ObjCNSNumberLiteralsRule.cpp', 'floatSelArgTypeMap["numberWithFloat:"]', 'intSelArgTypeMap["numberWithFloat:"]')]),
 ('oo-numbers2', [S(R + 'rules/migration/ObjCNSNumberLiteralsRule.cpp', 'isLiteralOf<FloatingLiteral>(expr, selectorString, floatSelArgTypeMap)', 'isLiteralOf<FloatingLiteral>(expr, selectorString, intSelArgTypeMap)')]),
 ('oo-subscript', [S(R + 'rules/migration/ObjCObjectSubscriptingRule.cpp', 'dictGetSelectors.push_back("objectForKey:");', 'dictSetSelectors.push_back("objectForKey:");')]) if False else
 ('oo-names', [S(D + 'lib/RulesetFilter.cpp', 'transform(rules.begin(), rules.end(), names.begin(), getName);', 'transform(rules.begin(), rules.end() - (rules.size() > 1), names.begin(), getName);')]),
 # hooks of the walk
 ('walk-no-lambdas', [S('oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h', '    int calculate(', '    bool TraverseLambdaExpr(clang::LambdaExpr *)\n    {\n        return true;\n    }\n\n    int calculate(')]),
 ('walk-implicit', [S(R + 'rules/convention/NonCaseLabelInSwitchStatementRule.cpp', '        bool VisitLabelStmt(', '        bool shouldVisitTemplateInstantiations() const { return true; }\n\n        bool VisitLabelStmt(')]),
 ('walk-no-lambda-body', [S(R + 'lib/helper/SuppressHelper.cpp', '    bool VisitDecl(', '    bool shouldVisitLambdaBody() const { return false; }\n\n    bool VisitDecl(')]),
 ('walk-own', [S(R + 'rules/convention/ParameterReassignmentRule.cpp', 'VisitBinaryOperator(BinaryOperator', 'TraverseForStmt(ForStmt *loop)\n        {\n            return TraverseStmt(loop->getBody());\n        }\n\n        bool VisitBinaryOperator(BinaryOperator')]),
 ('throw-twice', [S(R + 'rules/basic/ThrowExceptionFromFinallyBlockRule.cpp', 'for (const auto& raiseExpr : exceptionRaisers)', 'for (const auto& raiseExpr : throws)')]),
 ('matcher-virtual', [S(R + 'rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp', 'cxxMethodDecl(isVirtual(),', 'cxxMethodDecl(isVirtualAsWritten(),')]),
 ('matcher-every-param', [S(R + 'rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp', 'hasAnyParameter(hasDefaultArg())', 'hasParameter(0, hasDefaultArg())')]),
 ('matcher-operators', [S(R + 'rules/basic/BitwiseOperatorInConditionalRule.cpp', 'anyOf(hasOperatorName("&"), hasOperatorName("|"), hasOperatorName("^"))', 'anyOf(hasOperatorName("&"), hasOperatorName("|"))')]),
 ('matcher-has', [S(R + 'rules/basic/BitwiseOperatorInConditionalRule.cpp', """whileStmt(anyOf(
                hasCondition(biOpMatcher),
                hasCondition(expr(hasDescendant(biOpMatcher)))))""", """whileStmt(anyOf(
                hasCondition(biOpMatcher),
                hasCondition(expr(has(biOpMatcher)))))""")]),
 ('matcher-definition', [S(R + 'rules/design/AvoidPrivateStaticMembersRule.cpp', 'cxxMethodDecl(isPrivate(), isStatic())', 'cxxMethodDecl(isPrivate(), isStatic(), isDefinition())')]),
]
