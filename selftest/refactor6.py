"""Behaviour-preserving edits of the smaller files: core value classes, the rule bases, the short
rules, the headers of the metrics."""
from refactor2 import F, S
C = 'oclint-core/'
R = 'oclint-rules/'
B = R + 'rules/'
BO, CC, CI, DN, FW, GO, MN, MU, RF = [B + 'basic/%sRule.cpp' % x for x in (
    'BrokenOddnessCheck', 'ConstantConditionalOperator', 'ConstantIfExpression', 'DoubleNegative',
    'ForLoopShouldBeWhileLoop', 'GotoStatement', 'MisplacedNullCheck', 'MultipleUnaryOperator', 'ReturnFromFinallyBlock')]
IH, PC, SM = [B + 'cocoa/ObjCVerify%sRule.cpp' % x for x in ('IsEqualHash', 'ProhibitedCall', 'SubclassMustImplement')]
BD, CS, DL, DV, NL, SD, TB = [B + 'convention/%sRule.cpp' % x for x in (
    'BaseClassDestructorShouldBeVirtualOrProtected', 'CoveredSwitchStatementsDontNeedDefault',
    'DefaultLabelNotLastInSwitchStatement', 'DestructorOfVirtualClass', 'NonCaseLabelInSwitchStatement',
    'SwitchStatementsShouldHaveDefault', 'TooFewBranchesInSwitchStatement')]
UC = B + 'redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp'
BX, CL = [B + 'migration/ObjC%sRule.cpp' % x for x in ('BoxedExpressions', 'ContainerLiterals')]
LV = B + 'naming/LongVariableNameRule.cpp'
NP, LM, CY, NC, LC, NB, TP, LL = [B + 'size/%sRule.cpp' % x for x in (
    'NPathComplexity', 'LongMethod', 'CyclomaticComplexity', 'NcssMethodCount', 'LongClass', 'NestedBlockDepth',
    'TooManyParameters', 'LongLine')]

CASES = [
 # --- core
 ('violation-init', [F(C + 'lib/Violation.cpp', 'Violation::Violation(', '''Violation::Violation(RuleBase* violatedRule, std::string violationFilePath,
                     int violationStartLine, int violationStartColumn,
                     int violationEndLine, int violationEndColumn,
                     std::string violationMessage)
    : rule(violatedRule)
    , path(std::move(violationFilePath))
    , startLine(violationStartLine)
    , startColumn(violationStartColumn)
    , endLine(violationEndLine)
    , endColumn(violationEndColumn)
    , message(std::move(violationMessage))
{
}''')]),
 ('violation-eq-tuple', [F(C + 'lib/Violation.cpp', 'bool Violation::operator==(', '''bool Violation::operator==(const oclint::Violation &rhs) const
{
    return std::tie(rule, path, startLine, startColumn, endLine, endColumn, message) ==
        std::tie(rhs.rule, rhs.path, rhs.startLine, rhs.startColumn, rhs.endLine, rhs.endColumn, rhs.message);
}'''), S(C + 'lib/Violation.cpp', '#include "oclint/Violation.h"', '#include <tuple>\n\n#include "oclint/Violation.h"')]),
 ('violation-eq-early', [F(C + 'lib/Violation.cpp', 'bool Violation::operator==(', '''bool Violation::operator==(const oclint::Violation &rhs) const
{
    if (startLine != rhs.startLine || startColumn != rhs.startColumn)
    {
        return false;
    }
    if (endLine != rhs.endLine || endColumn != rhs.endColumn)
    {
        return false;
    }
    return rule == rhs.rule && message == rhs.message && path == rhs.path;
}''')]),
 ('carrier-init', [F(C + 'lib/RuleCarrier.cpp', 'RuleCarrier::RuleCarrier(', '''RuleCarrier::RuleCarrier(clang::ASTContext *astContext, ViolationSet *violationSet)
    : _violationSet(violationSet), _astContext(astContext)
{
}''')]),
 ('carrier-early', [F(C + 'lib/RuleCarrier.cpp', 'void RuleCarrier::addViolation(', '''void RuleCarrier::addViolation(std::string filePath, int startLine, int startColumn,
    int endLine, int endColumn, RuleBase *rule, const std::string& message)
{
    if (filePath.empty())
    {
        return;
    }
    _violationSet->addViolation(
        Violation(rule, std::move(filePath), startLine, startColumn, endLine, endColumn, message));
}''')]),
 ('carrier-main-sm', [F(C + 'lib/RuleCarrier.cpp', 'std::string RuleCarrier::getMainFilePath()', '''std::string RuleCarrier::getMainFilePath()
{
    const clang::SourceManager& sourceManager = getSourceManager();
    const auto startOfMain = sourceManager.getLocForStartOfFile(sourceManager.getMainFileID());
    return sourceManager.getFilename(startOfMain).str();
}''')]),
 ('ruleset-local-static', [F(C + 'lib/RuleSet.cpp', 'RuleSet::RuleSet(', '''RuleSet::RuleSet(RuleBase* rule)
{
    if (!_rules)
    {
        _rules = new std::vector<RuleBase*>();
    }
    _rules->emplace_back(rule);
}''')]),
 ('ruleset-index', [F(C + 'lib/RuleSet.cpp', 'RuleBase* RuleSet::getRuleAtIndex(', '''RuleBase* RuleSet::getRuleAtIndex(int index)
{
    return index < numberOfRules() ? _rules->at(index) : nullptr;
}''')]),
 ('ruleset-count', [F(C + 'lib/RuleSet.cpp', 'int RuleSet::numberOfRules()', '''int RuleSet::numberOfRules()
{
    if (_rules)
    {
        return static_cast<int>(_rules->size());
    }
    return 0;
}''')]),
 ('rulebase-ident', [F(C + 'lib/RuleBase.cpp', 'const std::string RuleBase::identifier() const', '''const std::string RuleBase::identifier() const
{
    std::string copy = name();
    if (copy.empty())
    {
        return copy;
    }
    copy[0] = toupper(copy[0]);
    for (std::size_t i = 1; i < copy.size(); ++i)
    {
        const bool startsWord = !isalpha(copy[i - 1]);
        if (startsWord && islower(copy[i]))
        {
            copy[i] = toupper(copy[i]);
        }
    }
    auto notLetter = [](char c) { return !isalpha(c); };
    copy.erase(std::remove_if(copy.begin(), copy.end(), notLetter), copy.end());
    return copy;
}''')]),
 ('raw-insert', [F(C + 'lib/RawResults.cpp', 'std::vector<Violation> RawResults::allViolations() const', '''std::vector<Violation> RawResults::allViolations() const
{
    std::vector<Violation> all;
    for (const ViolationSet *set : _resultCollector.getCollection())
    {
        const auto &violations = set->getViolations();
        all.insert(all.end(), violations.begin(), violations.end());
    }
    return all;
}''')]),
 ('abstract-count-if', [F(C + 'lib/AbstractResults.cpp', 'int AbstractResults::numberOfViolationsWithPriority(', '''int AbstractResults::numberOfViolationsWithPriority(int priority) const
{
    const auto violations = allViolations();
    return std::count_if(violations.begin(), violations.end(),
        [priority](const Violation& violation) { return violation.rule->priority() == priority; });
}'''), S(C + 'lib/AbstractResults.cpp', '#include "oclint/AbstractResults.h"', '#include "oclint/AbstractResults.h"\n\n#include <algorithm>')]),
 ('abstract-files-set', [F(C + 'lib/AbstractResults.cpp', 'int AbstractResults::numberOfFilesWithViolations() const', '''int AbstractResults::numberOfFilesWithViolations() const
{
    std::set<std::string> paths;
    for (const auto& violationSet : _resultCollector.getCollection())
    {
        const auto& violations = violationSet->getViolations();
        if (!violations.empty())
        {
            paths.insert(violations.front().path);
        }
    }
    return paths.size();
}'''), S(C + 'lib/AbstractResults.cpp', '#include "oclint/AbstractResults.h"', '#include "oclint/AbstractResults.h"\n\n#include <set>')]),
 ('abstract-has-empty', [F(C + 'lib/AbstractResults.cpp', 'bool AbstractResults::hasErrors() const', '''bool AbstractResults::hasErrors() const
{
    return !allErrors().empty();
}'''), F(C + 'lib/AbstractResults.cpp', 'bool AbstractResults::hasWarnings() const', '''bool AbstractResults::hasWarnings() const
{
    return numberOfWarnings() != 0;
}''')]),
 ('unique-no-cache-var', [F(C + 'lib/UniqueResults.cpp', 'const std::vector<Violation>& UniqueResults::allErrors() const', '''const std::vector<Violation>& UniqueResults::allErrors() const
{
    if (_errors.empty())
    {
        const auto& errors = _resultCollector.getCompilerErrorSet()->getViolations();
        _errors = removeViolationDuplications(errors);
    }
    return _errors;
}''')]),
 ('collector-default', [F(C + 'lib/ResultCollector.cpp', 'ResultCollector::~ResultCollector()', '''ResultCollector::~ResultCollector() = default;''')]),
 # --- bases of the rules
 ('std-contains', [S(R + 'include/oclint/util/StdUtil.h', '    return std::find(collection.begin(), collection.end(), item) != collection.end();', '''    for (const T &each : collection)
    {
        if (each == item)
        {
            return true;
        }
    }
    return false;''')]),
 ('std-capital', [F(R + 'lib/util/StdUtil.cpp', 'std::string capitalizeFirstLetter(', '''std::string capitalizeFirstLetter(std::string str) {
    if (!str.empty()) {
        str[0] = ::toupper(str[0]);
    }
    return str;
}''')]),
 ('std-under', [F(R + 'lib/util/StdUtil.cpp', 'std::string removeUnderscores(', '''std::string removeUnderscores(std::string str) {
    std::string kept;
    for (char c : str) {
        if (!isUnderscore(c)) {
            kept.push_back(c);
        }
    }
    return kept;
}''')]),
 ('std-tostring', [S(R + 'include/oclint/util/StdUtil.h', '''    std::stringstream buffer;
    buffer << item;
    return buffer.str();''', '''    std::ostringstream out;
    out << item;
    return out.str();''')]),
 ('empty-compound', [F(B + 'abstract/AbstractEmptyBlockStmtRule.h', 'bool isLexicalEmpty(', '''bool isLexicalEmpty(clang::Stmt *stmt)
    {
        if (clang::isa<clang::NullStmt>(stmt))
        {
            return true;
        }
        auto *block = clang::dyn_cast<clang::CompoundStmt>(stmt);
        return block != nullptr && block->body_empty();
    }''')]),
 ('empty-size', [F(B + 'abstract/AbstractEmptyBlockStmtRule.h', 'bool isLexicalEmpty(', '''bool isLexicalEmpty(clang::Stmt *stmt)
    {
        if (auto *block = clang::dyn_cast_or_null<clang::CompoundStmt>(stmt))
        {
            return block->size() == 0;
        }
        return clang::isa<clang::NullStmt>(stmt);
    }''')]),
 ('reader-loop', [F(R + 'lib/AbstractSourceCodeReaderRule.cpp', 'void AbstractSourceCodeReaderRule::apply()', '''void AbstractSourceCodeReaderRule::apply()
{
    const clang::SourceManager &sourceManager = _carrier->getSourceManager();
    llvm::StringRef rest = sourceManager.getBufferData(sourceManager.getMainFileID());
    for (int lineNumber = 1; !rest.empty(); ++lineNumber)
    {
        llvm::StringRef line;
        std::tie(line, rest) = rest.split('\\n');
        eachLine(lineNumber, line.str());
    }
}'''), S(R + 'lib/AbstractSourceCodeReaderRule.cpp', '#include "oclint/AbstractSourceCodeReaderRule.h"', '#include "oclint/AbstractSourceCodeReaderRule.h"\n\n#include <tuple>')]),
 ('reader-main-path', [F(R + 'lib/AbstractSourceCodeReaderRule.cpp', 'void AbstractSourceCodeReaderRule::addViolation(', '''void AbstractSourceCodeReaderRule::addViolation(int startLine, int startColumn,
    int endLine, int endColumn, RuleBase *rule, const std::string& message)
{
    if (shouldSuppress(startLine, *_carrier->getASTContext(), rule))
    {
        return;
    }
    _carrier->addViolation(_carrier->getMainFilePath(),
        startLine, startColumn, endLine, endColumn, rule, message);
}''')]),
 ('base-add-early', [F(R + 'lib/AbstractASTRuleBase.cpp', 'void AbstractASTRuleBase::addViolation(const clang::Stmt *stmt,', '''void AbstractASTRuleBase::addViolation(const clang::Stmt *stmt,
    RuleBase *rule, const std::string& message)
{
    if (stmt == nullptr)
    {
        return;
    }
    if (shouldSuppress(stmt, *_carrier->getASTContext(), rule))
    {
        return;
    }
    addViolation(stmt->getBeginLoc(), stmt->getEndLoc(), rule, message);
}''')]),
 ('base-lang', [F(R + 'lib/AbstractASTRuleBase.cpp', 'bool AbstractASTRuleBase::isLanguageSupported() const', '''bool AbstractASTRuleBase::isLanguageSupported() const
{
    const auto &langOpts = _carrier->getASTContext()->getLangOpts();
    return langOpts.ObjC ? supportsObjC()
        : langOpts.CPlusPlus ? supportsCXX()
        : supportsC();
}''')]),
 ('base-lang-mask', [F(R + 'lib/AbstractASTRuleBase.cpp', 'bool AbstractASTRuleBase::isLanguageSupported() const', '''bool AbstractASTRuleBase::isLanguageSupported() const
{
    const auto &langOpts = _carrier->getASTContext()->getLangOpts();
    unsigned int language = LANG_C;
    if (langOpts.ObjC)
    {
        language = LANG_OBJC;
    }
    else if (langOpts.CPlusPlus)
    {
        language = LANG_CXX;
    }
    return (supportedLanguages() & language) != 0;
}''')]),
 ('visitor-range-for', [F(R + 'include/oclint/AbstractASTVisitorRule.h', 'void applyCUDA()', '''void applyCUDA() {
        setUp();
        for (clang::Decl *decl : getTranslationUnit()->decls())
        {
            applyCUDADecl(decl);
        }
        tearDown();
    }''')]),
 ('visitor-cuda', [F(R + 'include/oclint/AbstractASTVisitorRule.h', 'void applyCUDADecl(', '''void applyCUDADecl(clang::Decl *decl) {
        if (!isValidDecl(decl)) { return; }
        auto *function = clang::dyn_cast<clang::FunctionDecl>(decl);
        if (function == nullptr) {
            traverse(decl);
            return;
        }
        const unsigned int needed =
            function->hasAttr<clang::CUDAGlobalAttr>() ? CUDA_GLOBAL : CUDA_HOST;
        if (supportedCUDAFunctionAttrs() & needed) {
            traverse(decl);
        }
    }''')]),
 ('visitor-guard', [F(R + 'include/oclint/AbstractASTVisitorRule.h', 'void applyC()', '''void applyC() {
        if (!isLanguageSupported()) { return; }
        if ((supportedCUDAFunctionAttrs() & CUDA_HOST) == 0) { return; }
        setUp();
        for (auto *decl : getTranslationUnit()->decls()) {
            if (!isValidDecl(decl)) {
                continue;
            }
            traverse(decl);
        }
        tearDown();
    }''')]),
 # --- rules
 ('odd-lambda', [F(BO, 'bool isRemainderEqualsOne(', '''bool isRemainderEqualsOne(Expr *leftExpr, Expr *rightExpr)
    {
        auto matches = [this](Expr *one, Expr *remainder)
        {
            return isIntegerLiteral(one, 1) && isRemainderWhenDevidingByTwo(remainder);
        };
        return matches(rightExpr, leftExpr) || matches(leftExpr, rightExpr);
    }''')]),
 ('odd-early', [F(BO, 'bool VisitBinaryOperator(', '''bool VisitBinaryOperator(BinaryOperator *binaryOperator)
    {
        if (binaryOperator->getOpcode() != BO_EQ)
        {
            return true;
        }
        if (isRemainderEqualsOne(binaryOperator->getLHS(), binaryOperator->getRHS()))
        {
            addViolation(binaryOperator, this);
        }
        return true;
    }''')]),
 ('const-cond-early', [F(CC, 'bool VisitConditionalOperator(', '''bool VisitConditionalOperator(ConditionalOperator *conditionalOperator)
    {
        const Expr *condition = conditionalOperator->getCond();
        if (condition->isValueDependent())
        {
            return true;
        }
        bool ignored;
        if (condition->EvaluateAsBooleanCondition(ignored, *_carrier->getASTContext()))
        {
            addViolation(condition, this);
        }
        return true;
    }''')]),
 ('double-strip', [F(DN, 'bool VisitUnaryOperator(', '''bool VisitUnaryOperator(UnaryOperator *unaryOperator)
    {
        Expr *operand = unaryOperator->getSubExpr();
        while (ParenExpr *parenExpr = dyn_cast_or_null<ParenExpr>(operand))
        {
            operand = parenExpr->getSubExpr();
        }
        UnaryOperator *inner = dyn_cast_or_null<UnaryOperator>(operand);
        if (inner == nullptr)
        {
            return true;
        }
        if (bothUOLNot(unaryOperator, inner) || bothUONot(unaryOperator, inner))
        {
            addViolation(unaryOperator, this);
        }
        return true;
    }''')]),
 ('double-same-op', [S(DN, '''            if (bothUOLNot(unaryOperator, subUnaryOperator) ||
                bothUONot(unaryOperator, subUnaryOperator))''', '''            const auto opcode = unaryOperator->getOpcode();
            if (opcode == subUnaryOperator->getOpcode() && (opcode == UO_LNot || opcode == UO_Not))''')]),
 ('for-while-early', [F(FW, 'bool VisitForStmt(', '''bool VisitForStmt(ForStmt *forStmt)
    {
        if (forStmt->getInit() || forStmt->getInc())
        {
            return true;
        }
        Expr *condition = forStmt->getCond();
        if (condition && !isa<NullStmt>(condition))
        {
            addViolation(forStmt, this);
        }
        return true;
    }''')]),
 ('goto-local', [F(GO, 'virtual void callback(', '''virtual void callback(const MatchFinder::MatchResult& result) override
    {
        const auto *statement = result.Nodes.getNodeAs<GotoStmt>("gotoStmt");
        addViolation(statement, this);
    }''')]),
 ('misplaced-inline', [F(MN, 'bool isNullCheckMisplaced(', '''bool isNullCheckMisplaced(BinaryOperator *binaryOperator)
    {
        switch (binaryOperator->getOpcode())
        {
            case BO_LAnd:
                return isNeNullCheck(binaryOperator->getRHS());
            case BO_LOr:
                return isEqNullCheck(binaryOperator->getRHS());
            default:
                return false;
        }
    }''')]),
 ('misplaced-name', [F(MN, 'bool isSameVariableMisplaced(', '''bool isSameVariableMisplaced(BinaryOperator *binaryOperator)
    {
        const string variableOfInterest = extractIdentifierFromExpr(binaryOperator->getRHS());
        if (variableOfInterest.empty())
        {
            return false;
        }
        return hasVariableInExpr(variableOfInterest, binaryOperator->getLHS());
    }''')]),
 ('multi-switch', [F(MU, 'bool isTargetUnaryOperator(', '''bool isTargetUnaryOperator(UnaryOperator *unaryOperator)
    {
        switch (unaryOperator->getOpcode())
        {
        case UO_LNot:
        case UO_Not:
        case UO_Plus:
        case UO_Minus:
            return true;
        default:
            return false;
        }
    }''')]),
 ('finally-direct', [F(RF, 'bool VisitObjCAtFinallyStmt(', '''bool VisitObjCAtFinallyStmt(ObjCAtFinallyStmt *finallyStmt)
    {
        vector<ReturnStmt*> returns;
        ExtractReturnStmts().extract(finallyStmt, &returns);
        for (size_t index = 0; index < returns.size(); index++)
        {
            addViolation(returns[index], this);
        }
        return true;
    }''')]),
 ('hash-else-if', [F(IH, 'bool VisitObjCImplementationDecl(', '''bool VisitObjCImplementationDecl(ObjCImplementationDecl *implementation) {
        bool foundHash = false;
        bool foundIsEqual = false;
        for (const auto *method : implementation->instance_methods())
        {
            const string name = method->getNameAsString();
            if (name == "hash")
            {
                foundHash = true;
            }
            else if (name == "isEqual:")
            {
                foundIsEqual = true;
            }
        }
        if (!foundIsEqual || foundHash)
        {
            return true;
        }
        addViolation(implementation, this, "If you override isEqual you must override hash too.");
        return true;
    }''')]),
 ('hash-or', [F(IH, 'bool VisitObjCImplementationDecl(', '''bool VisitObjCImplementationDecl(ObjCImplementationDecl *implementation) {
        bool foundHash = false;
        bool foundIsEqual = false;
        for (auto method : implementation->instance_methods())
        {
            const string name = method->getNameAsString();
            foundHash = foundHash || name == "hash";
            foundIsEqual = foundIsEqual || name == "isEqual:";
        }
        if (foundIsEqual && !foundHash)
        {
            addViolation(implementation,
                this,
                "If you override isEqual you must override hash too.");
        }
        return true;
    }''')]),
 ('prohibited-shared', [F(PC, 'bool VisitCallExpr(', '''template <typename Node, typename Target>
    void checkCall(const Node *node, const Target *target, const string &kind)
    {
        string comment;
        if (!declHasEnforceAttribute(target, *this, &comment)) {
            return;
        }
        string description = "calling prohibited " + kind + " " + target->getNameAsString();
        if (!comment.empty()) {
            description += " instead use " + comment;
        }
        addViolation(node, this, description);
    }

    bool VisitCallExpr(const CallExpr* call) {
        checkCall(call, call->getDirectCallee(), "function");
        return true;
    }''')]),
 ('submust-range', [F(SM, 'bool VisitObjCImplementationDecl(', '''bool VisitObjCImplementationDecl(ObjCImplementationDecl* implementation) {
        const auto parent = implementation->getClassInterface()->getSuperClass();
        if(parent == nullptr) {
            return true;
        }
        for (const auto *method : parent->methods()) {
            if (!declHasEnforceAttribute(method, *this)) {
                continue;
            }
            const auto selector = method->getSelector();
            if (implementation->getMethod(selector, method->isInstanceMethod())) {
                continue;
            }
            addViolation(implementation, this,
                "subclasses of " + parent->getNameAsString() + " must implement " + selector.getAsString());
        }
        return true;
    }''')]),
 ('covered-for', [F(CS, 'bool VisitSwitchStmt(', '''bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        if (!switchStmt->isAllEnumCasesCovered())
        {
            return true;
        }
        for (SwitchCase *each = switchStmt->getSwitchCaseList(); each; each = each->getNextSwitchCase())
        {
            if (isa<DefaultStmt>(each))
            {
                addViolation(switchStmt, this);
                return true;
            }
        }
        return true;
    }''')]),
 ('covered-helper', [F(CS, 'bool VisitSwitchStmt(', '''static bool hasDefaultLabel(const SwitchStmt *switchStmt)
    {
        const SwitchCase *each = switchStmt->getSwitchCaseList();
        while (each && !isa<DefaultStmt>(each))
        {
            each = each->getNextSwitchCase();
        }
        return each != nullptr;
    }

    bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        if (hasDefaultLabel(switchStmt) && switchStmt->isAllEnumCasesCovered())
        {
            addViolation(switchStmt, this);
        }
        return true;
    }''')]),
 ('notlast-for', [F(DL, 'bool VisitSwitchStmt(', '''bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        // the list is linked in reverse order
        for (SwitchCase *current = switchStmt->getSwitchCaseList();
            current && isa<CaseStmt>(current);
            current = current->getNextSwitchCase())
        {
            SwitchCase *previousInSource = current->getNextSwitchCase();
            if (isa_and_nonnull<DefaultStmt>(previousInSource))
            {
                addViolation(previousInSource, this);
            }
        }
        return true;
    }''')]),
 ('virt-early', [F(DV, 'bool VisitCXXRecordDecl(', '''bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
    {
        if (!cxxRecordDecl || !cxxRecordDecl->hasDefinition())
        {
            return true;
        }
        if (!cxxRecordDecl->isPolymorphic() || hasVirtualDestructor(*cxxRecordDecl))
        {
            return true;
        }
        addViolation(cxxRecordDecl, this, getMessageViolation(*cxxRecordDecl));
        return true;
    }''')]),
 ('default-early', [F(SD, 'bool VisitSwitchStmt(', '''bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        if (switchStmt->isAllEnumCasesCovered())
        {
            return true;
        }
        for (auto *label = switchStmt->getSwitchCaseList(); label != nullptr; label = label->getNextSwitchCase())
        {
            if (isa<DefaultStmt>(label))
            {
                return true;
            }
        }
        addViolation(switchStmt, this);
        return true;
    }''')]),
 ('few-inline', [F(TB, 'bool VisitSwitchStmt(', '''bool VisitSwitchStmt(SwitchStmt *switchStmt)
    {
        const int minimum = RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3);
        if (numberOfCases(switchStmt) >= minimum)
        {
            return true;
        }
        addViolation(switchStmt, this);
        return true;
    }''')]),
 ('dealloc-and', [F(UC, 'bool VisitIfStmt(', '''bool VisitIfStmt(IfStmt* ifStmt)
    {
        if (!ifStmt || ifStmt->getElse() || !ifStmt->getCond())
        {
            return true;
        }
        const Expr* pointer = nullptr;
        if (IsCondNoNullPointer(*ifStmt->getCond(), &pointer)
            && IsADeleteBlock(*_carrier->getASTContext(), *ifStmt->getThen(), pointer))
        {
            addViolation(ifStmt, this);
        }
        return true;
    }''')]),
 ('boxed-dyncast', [F(BX, 'bool isParenExprBox(', '''bool isParenExprBox(Expr *expr,
        string &selectorString, map<string, string> &methodArgTypeMap)
    {
        ParenExpr *parenExpr = dyn_cast_or_null<ParenExpr>(expr);
        if (parenExpr == nullptr)
        {
            return false;
        }
        auto found = methodArgTypeMap.find(selectorString);
        if (found == methodArgTypeMap.end())
        {
            return false;
        }
        return found->second == parenExpr->getType().getAsString();
    }''')]),
 ('boxed-initlist', [F(BX, 'bool isNSNumberBox(', '''bool isNSNumberBox(ObjCMessageExpr *objCMsgExpr)
    {
        Expr *expr = objCMsgExpr->getArg(0);
        string selectorString = objCMsgExpr->getSelector().getAsString();

        map<string, string> methodArgTypeMap = {
            {"numberWithChar:", "char"},
            {"numberWithInt:", "int"},
            {"numberWithUnsignedInt:", "unsigned int"},
            {"numberWithLong:", "long"},
            {"numberWithUnsignedLong:", "unsigned long"},
            {"numberWithLongLong:", "long long"},
            {"numberWithUnsignedLongLong:", "unsigned long long"},
            {"numberWithFloat:", "float"},
            {"numberWithDouble:", "double"}};

        return isParenExprBox(expr, selectorString, methodArgTypeMap) ||
            isObjCBoolBox(expr, selectorString) ||
            isEnumConstantBox(expr, selectorString);
    }''')]),
 ('boxed-visit', [F(BX, 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr *objCMsgExpr)
    {
        ObjCInterfaceDecl *receiver = objCMsgExpr->getReceiverInterface();
        if (!receiver || objCMsgExpr->getNumArgs() != 1)
        {
            return true;
        }
        const string className = receiver->getNameAsString();
        if ((className == "NSNumber" && isNSNumberBox(objCMsgExpr)) ||
            (className == "NSString" && isNSStringBox(objCMsgExpr)))
        {
            addViolation(objCMsgExpr, this);
        }
        return true;
    }''')]),
 ('container-init', [F(CL, 'bool VisitObjCMessageExpr(', '''bool VisitObjCMessageExpr(ObjCMessageExpr *objCMsgExpr)
    {
        ObjCInterfaceDecl *objCInterfaceDecl = objCMsgExpr->getReceiverInterface();
        if (objCInterfaceDecl == nullptr)
        {
            return true;
        }
        string selectorString = objCMsgExpr->getSelector().getAsString();
        vector<string> arraySelectors = {
            "array", "arrayWithObject:", "arrayWithObjects:count:", "arrayWithObjects:"};
        vector<string> dictionarySelectors = {
            "dictionary", "dictionaryWithObject:forKey:", "dictionaryWithObjects:forKeys:count:",
            "dictionaryWithObjectsAndKeys:", "dictionaryWithObjects:forKeys:"};

        const string className = objCInterfaceDecl->getNameAsString();
        const bool isArrayLiteral = className == "NSArray" &&
            vectorContains<string>(selectorString, arraySelectors);
        const bool isDictionaryLiteral = className == "NSDictionary" &&
            vectorContains<string>(selectorString, dictionarySelectors);
        if (isArrayLiteral || isDictionaryLiteral)
        {
            addViolation(objCMsgExpr, this);
        }
        return true;
    }''')]),
 ('longname-helper', [F(LV, 'bool VisitVarDecl(', '''static string shortened(const string &name, int threshold)
    {
        const int nameLength = name.size();
        if (nameLength <= threshold + 10)
        {
            return name;
        }
        return name.substr(0, threshold + 3) + "..." + name.substr(name.length() - 3);
    }

    bool VisitVarDecl(VarDecl *varDecl)
    {
        const std::string varName = varDecl->getNameAsString();
        const int nameLength = varName.size();
        const int threshold = RuleConfiguration::intForKey("LONG_VARIABLE_NAME", 20);
        if (nameLength > threshold)
        {
            addViolation(varDecl, this, "Length of variable name `" + shortened(varName, threshold) +
                "` is " + toString<int>(nameLength) +
                ", which is longer than the threshold of " + toString<int>(threshold));
        }
        return true;
    }''')]),
 ('npath-early', [F(NP, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        if (!decl->hasBody())
        {
            return;
        }
        auto *body = dyn_cast_or_null<CompoundStmt>(decl->getBody());
        if (body == nullptr)
        {
            return;
        }
        const int npath = getNPathComplexity(body);
        const int threshold = RuleConfiguration::intForKey("NPATH_COMPLEXITY", 200);
        if (npath <= threshold)
        {
            return;
        }
        addViolation(decl, this, "NPath Complexity Number " +
            toString<int>(npath) + " exceeds limit of " + toString<int>(threshold));
    }''')]),
 ('longmethod-early', [F(LM, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        if (!decl->hasBody() ||
            isCppMethodDeclLocatedInCppRecordDecl(dyn_cast<CXXMethodDecl>(decl)))
        {
            return;
        }
        if (Stmt *body = decl->getBody())
        {
            const int length = getLineCount(body->getSourceRange(), _carrier->getSourceManager());
            reportIfLong(decl, length, RuleConfiguration::intForKey("LONG_METHOD", 50));
        }
    }

    void reportIfLong(Decl *decl, int length, int threshold)
    {
        if (length > threshold)
        {
            addViolation(decl, this, "Method with " +
                toString<int>(length) + " lines exceeds limit of " + toString<int>(threshold));
        }
    }''')]),
 ('cyclo-thr-first', [F(CY, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        const int threshold = RuleConfiguration::intForKey("CYCLOMATIC_COMPLEXITY", 10);
        const int complexity = getCyclomaticComplexity(decl);
        if (complexity <= threshold)
        {
            return;
        }
        string description("Cyclomatic Complexity Number ");
        description += toString<int>(complexity);
        description += " exceeds limit of ";
        description += toString<int>(threshold);
        addViolation(decl, this, description);
    }''')]),
 ('ncss-tostring', [F(NC, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        const int ncss = getNcssCount(decl);
        const int threshold = RuleConfiguration::intForKey("NCSS_METHOD", 30);
        if (ncss > threshold)
        {
            std::ostringstream description;
            description << "Method of " << ncss
                << " non-commenting source statements exceeds limit of " << threshold;
            addViolation(decl, this, description.str());
        }
    }''')]),
 ('ncss-std-to-string', [F(NC, 'void applyDecl(', '''void applyDecl(Decl *decl)
    {
        const int ncss = getNcssCount(decl);
        const int threshold = RuleConfiguration::intForKey("NCSS_METHOD", 30);
        if (ncss > threshold)
        {
            addViolation(decl, this, "Method of " + std::to_string(ncss) +
                " non-commenting source statements exceeds limit of " + std::to_string(threshold));
        }
    }''')]),
 ('longclass-overload', [F(LC, 'void applyDecl(', '''void applyDecl(Decl *decl, const string &descriptionPrefix)
    {
        const int length = getLineCount(decl->getSourceRange(), _carrier->getSourceManager());
        if (length <= _threshold)
        {
            return;
        }
        addViolation(decl, this, descriptionPrefix + " with " +
            toString<int>(length) + " lines exceeds limit of " + toString<int>(_threshold));
    }''')]),
 ('nested-auto', [F(NB, 'bool VisitCompoundStmt(', '''bool VisitCompoundStmt(CompoundStmt *compoundStmt)
    {
        const auto threshold = RuleConfiguration::intForKey("NESTED_BLOCK_DEPTH", 5);
        const auto depth = getStmtDepth(compoundStmt);
        if (threshold < depth)
        {
            addViolation(compoundStmt, this, "Block depth of " + toString<int>(depth) +
                " exceeds limit of " + toString<int>(threshold));
        }
        return true;
    }''')]),
 ('params-early', [S(TP, '''        unsigned numOfParams = decl->param_size();
        if (decl->hasBody() && numOfParams > _threshold)
        {''', '''        if (!decl->hasBody())
        {
            return;
        }
        const unsigned numOfParams = decl->param_size();
        if (numOfParams > _threshold)
        {''')]),
 ('longline-early', [S(LL, '''        int currentLineSize = line.size();
        if (currentLineSize > threshold)
        {
            string description = "Line with " + toString<int>(currentLineSize) +
                " characters exceeds limit of " + toString<int>(threshold);
            addViolation(lineNumber, 1, lineNumber, currentLineSize, this, description);
        }''', '''        const int length = line.length();
        if (length <= threshold)
        {
            return;
        }
        addViolation(lineNumber, 1, lineNumber, length, this, "Line with " + toString<int>(length) +
            " characters exceeds limit of " + toString<int>(threshold));''')]),
 ('xcode-chain', [F('oclint-reporters/reporters/XcodeReporter.cpp', 'void writeViolation(', '''void writeViolation(std::ostream &out, const Violation &violation)
    {
        const RuleBase *rule = violation.rule;
        out << violation.path << ':' << violation.startLine << ':' << violation.startColumn
            << ": warning: " << rule->name()
            << " [" << rule->category() << "|P" << rule->priority() << "] "
            << violation.message;
    }''')]),
 ('xcode-newline', [S('oclint-reporters/reporters/XcodeReporter.cpp', '''            writeViolation(out, violation);
            out << std::endl;''', '''            writeViolation(out, violation);
            out << '\\n' << std::flush;''')]),
 ('logger-local', [F('oclint-driver/lib/Logger.cpp', 'llvm::raw_ostream &oclint::logger::verboseStream()', '''llvm::raw_ostream &oclint::logger::verboseStream()
{
    bool verbose = oclint::option::enableVerbose();
#ifndef NDEBUG
    verbose = verbose || llvm::DebugFlag;
#endif
    return verbose ? static_cast<llvm::raw_ostream&>(llvm::outs()) : llvm::nulls();
}''')]),
 ('npath-dyncast', [S('oclint-metrics/include/oclint/metric/NPathComplexityMetric.h', '''#define DISPATH(STMT_TYPE) if (clang::isa<STMT_TYPE>(node)) \\
return nPath(clang::dyn_cast<STMT_TYPE>(node))''', '''#define DISPATH(STMT_TYPE) if (STMT_TYPE *typedNode = clang::dyn_cast<STMT_TYPE>(node)) \\
return nPath(typedNode)''')]),
 ('npath-order', [S('oclint-metrics/include/oclint/metric/NPathComplexityMetric.h', '''            DISPATH(clang::CompoundStmt);
            DISPATH(clang::IfStmt);
            DISPATH(clang::WhileStmt);
            DISPATH(clang::DoStmt);''', '''            DISPATH(clang::DoStmt);
            DISPATH(clang::WhileStmt);
            DISPATH(clang::IfStmt);
            DISPATH(clang::CompoundStmt);''')]),
 ('npath-null', [S('oclint-metrics/include/oclint/metric/NPathComplexityMetric.h', '''        if (node)
        {
            DISPATH(clang::ConditionalOperator);
            DISPATH(clang::BinaryOperator);
            DISPATH(clang::ParenExpr);
            DISPATH(clang::CastExpr);
        }
        return 0;''', '''        if (!node)
        {
            return 0;
        }
        DISPATH(clang::ConditionalOperator);
        DISPATH(clang::BinaryOperator);
        DISPATH(clang::ParenExpr);
        DISPATH(clang::CastExpr);
        return 0;''')]),
]
