"""Edits that keep the behaviour."""
M = 'oclint-driver/main.cpp'
UR = 'oclint-core/lib/UniqueResults.cpp'
AR = 'oclint-core/lib/AbstractResults.cpp'
RC = 'oclint-core/lib/RuleConfiguration.cpp'
RF = 'oclint-driver/lib/RulesetFilter.cpp'
RFH = 'oclint-driver/include/oclint/RulesetFilter.h'
RA = 'oclint-driver/lib/RulesetBasedAnalyzer.cpp'
DD = 'oclint-driver/lib/DiagnosticDispatcher.cpp'
SH = 'oclint-rules/lib/helper/SuppressHelper.cpp'
AB = 'oclint-rules/lib/AbstractASTRuleBase.cpp'
AU = 'oclint-rules/lib/util/ASTUtil.cpp'
JS = 'oclint-reporters/reporters/JSONReporter.cpp'
PM = 'oclint-reporters/reporters/PMDReporter.cpp'
CASES = [
('main-consume-iter', [(M, '''    for (const auto& rulePath : oclint::option::rulesPath())
    {
        dynamicLoadRules(rulePath);
    }''', '''    const auto paths = oclint::option::rulesPath();
    for (size_t i = 0; i < paths.size(); ++i)
    {
        dynamicLoadRules(paths[i]);
    }''')]),
('main-consume-foreach', [(M, '''    for (const auto& rulePath : oclint::option::rulesPath())
    {
        dynamicLoadRules(rulePath);
    }''', '''    auto paths = oclint::option::rulesPath();
    std::for_each(paths.begin(), paths.end(), [](const std::string &p) { dynamicLoadRules(p); });''')]),
('main-exceed-ifs', [(M, '''    return results->numberOfViolationsWithPriority(1) > oclint::option::maxP1() ||
        results->numberOfViolationsWithPriority(2) > oclint::option::maxP2() ||
        results->numberOfViolationsWithPriority(3) > oclint::option::maxP3();''', '''    if (results->numberOfViolationsWithPriority(1) > oclint::option::maxP1())
    {
        return true;
    }
    if (oclint::option::maxP2() < results->numberOfViolationsWithPriority(2))
    {
        return true;
    }
    return !(results->numberOfViolationsWithPriority(3) <= oclint::option::maxP3());''')]),
('main-exceed-helper', [(M, '''bool numberOfViolationsExceedThreshold(oclint::Results *results)
{
    return results->numberOfViolationsWithPriority(1) > oclint::option::maxP1() ||
        results->numberOfViolationsWithPriority(2) > oclint::option::maxP2() ||
        results->numberOfViolationsWithPriority(3) > oclint::option::maxP3();''', '''static bool exceeds(oclint::Results *results, int priority, int limit)
{
    return results->numberOfViolationsWithPriority(priority) > limit;
}

bool numberOfViolationsExceedThreshold(oclint::Results *results)
{
    return exceeds(results, 1, oclint::option::maxP1()) ||
        exceeds(results, 2, oclint::option::maxP2()) ||
        exceeds(results, 3, oclint::option::maxP3());''')]),
('main-exceed-table', [(M, '''    return results->numberOfViolationsWithPriority(1) > oclint::option::maxP1() ||
        results->numberOfViolationsWithPriority(2) > oclint::option::maxP2() ||
        results->numberOfViolationsWithPriority(3) > oclint::option::maxP3();''', '''    const int limits[] = {oclint::option::maxP1(), oclint::option::maxP2(), oclint::option::maxP3()};
    for (int p = 1; p <= 3; ++p)
    {
        if (results->numberOfViolationsWithPriority(p) > limits[p - 1])
        {
            return true;
        }
    }
    return false;''')]),
('main-outstream-invert', [(M, '''    if (!oclint::option::hasOutputPath())
    {
        return &cout;
    }
    string output = oclint::option::outputPath();
    auto out = new ofstream(output.c_str());
    if (!out->is_open())
    {
        throw oclint::GenericException("cannot open report output file " + output);
    }
    return out;''', '''    if (oclint::option::hasOutputPath())
    {
        const string output = oclint::option::outputPath();
        ofstream *out = new ofstream(output.c_str());
        if (out->is_open())
        {
            return out;
        }
        throw oclint::GenericException("cannot open report output file " + output);
    }
    return &cout;''')]),
('main-handleexit-else', [(M, '''    if (results->hasErrors())
    {
        return COMPILATION_ERRORS;
    }

    if (numberOfViolationsExceedThreshold(results))
    {
        printViolationsExceedThresholdError(results);
        return VIOLATIONS_EXCEED_THRESHOLD;
    }

  return SUCCESS;''', '''    int status = SUCCESS;
    if (results->hasErrors())
    {
        status = COMPILATION_ERRORS;
    }
    else if (numberOfViolationsExceedThreshold(results))
    {
        printViolationsExceedThresholdError(results);
        status = VIOLATIONS_EXCEED_THRESHOLD;
    }
    return status;''')]),
('main-report-helper', [(M, '''int main(int argc, const char **argv)
{''', '''static int writeReport(oclint::Results *results)
{
    try
    {
        ostream *out = outStream();
        reporter()->report(results, *out);
        disposeOutStream(out);
    }
    catch (const exception& e)
    {
        printErrorLine(e.what());
        return ERROR_WHILE_REPORTING;
    }
    return SUCCESS;
}

int main(int argc, const char **argv)
{'''), (M, '''    try
    {
        ostream *out = outStream();
        reporter()->report(results.get(), *out);
        disposeOutStream(out);
    }
    catch (const exception& e)
    {
        printErrorLine(e.what());
        return ERROR_WHILE_REPORTING;
    }

    return handleExit(results.get());''', '''    int reportStatus = writeReport(results.get());
    if (reportStatus != SUCCESS)
    {
        return reportStatus;
    }

    return handleExit(results.get());''')]),
('main-getresults-ternary', [(M, '''    std::unique_ptr<oclint::Results> results;
    if (oclint::option::allowDuplicatedViolations())
    {
        results.reset(new oclint::RawResults(*oclint::ResultCollector::getInstance()));
    }
    else
    {
        results.reset(new oclint::UniqueResults(*oclint::ResultCollector::getInstance()));
    }
    return results;''', '''    auto &collector = *oclint::ResultCollector::getInstance();
    if (!oclint::option::allowDuplicatedViolations())
    {
        return std::unique_ptr<oclint::Results>(new oclint::UniqueResults(collector));
    }
    return std::unique_ptr<oclint::Results>(new oclint::RawResults(collector));''')]),
('main-prepare-split', [(M, '''int prepare()
{
    try
    {
        consumeArgRulesPath();
    }
    catch (const exception& e)
    {
        printErrorLine(e.what());
        return RULE_NOT_FOUND;
    }
    if (oclint::RuleSet::numberOfRules() <= 0)
    {
        printErrorLine("no rule loaded");
        return RULE_NOT_FOUND;
    }
    try''', '''static int prepareRules()
{
    try
    {
        consumeArgRulesPath();
    }
    catch (const exception& e)
    {
        printErrorLine(e.what());
        return RULE_NOT_FOUND;
    }
    if (oclint::RuleSet::numberOfRules() < 1)
    {
        printErrorLine("no rule loaded");
        return RULE_NOT_FOUND;
    }
    return SUCCESS;
}

int prepare()
{
    int rulesStatus = prepareRules();
    if (rulesStatus)
    {
        return rulesStatus;
    }
    try''')]),
('main-noop', [(M, '''    int prepareStatus = prepare();
''', '''    (void)argc;
    int prepareStatus = prepare();
''')]),
('main-printthreshold', [(M, '''    cerr << "P1=" << results->numberOfViolationsWithPriority(1)
        << "[" << oclint::option::maxP1() << "] ";
    cerr << "P2=" << results->numberOfViolationsWithPriority(2)
        << "[" << oclint::option::maxP2() << "] ";
''', '''    auto show = [results](const char *label, int priority, int limit)
    {
        cerr << label << results->numberOfViolationsWithPriority(priority) << "[" << limit << "] ";
    };
    show("P1=", 1, oclint::option::maxP1());
    show("P2=", 2, oclint::option::maxP2());
''')]),
('ur-dedup-iter', [(UR, '''    for (const auto& violation : originalViolations)
    {
        if (set.insert(violation).second)
        {
            violations.push_back(violation);
        }
    }
''', '''    for (auto it = originalViolations.begin(); it != originalViolations.end(); ++it)
    {
        bool inserted = set.insert(*it).second;
        if (!inserted)
        {
            continue;
        }
        violations.push_back(*it);
    }
''')]),
('ur-dedup-find', [(UR, '''        if (set.insert(violation).second)
        {
            violations.push_back(violation);
        }
''', '''        if (set.find(violation) == set.end())
        {
            set.insert(violation);
            violations.push_back(violation);
        }
''')]),
('ur-lazy-invert', [(UR, '''    if (!_errors.empty())
    {
        return _errors;
    }

    _errors = removeViolationDuplications(
        _resultCollector.getCompilerErrorSet()->getViolations());
    return _errors;''', '''    if (_errors.empty())
    {
        _errors = removeViolationDuplications(
            _resultCollector.getCompilerErrorSet()->getViolations());
    }
    return _errors;''')]),
('ur-lazy-helper', [(UR, '''} // end namespace


namespace oclint''', '''const std::vector<oclint::Violation>& lazily(std::vector<oclint::Violation> &cache,
    const oclint::ViolationSet *source)
{
    if (cache.empty())
    {
        cache = removeViolationDuplications(source->getViolations());
    }
    return cache;
}

} // end namespace


namespace oclint'''), (UR, '''    if (!_errors.empty())
    {
        return _errors;
    }

    _errors = removeViolationDuplications(
        _resultCollector.getCompilerErrorSet()->getViolations());
    return _errors;''', '''    return lazily(_errors, _resultCollector.getCompilerErrorSet());'''), (UR, '''    if (!_warnings.empty())
    {
        return _warnings;
    }

    _warnings = removeViolationDuplications(
        _resultCollector.getCompilerWarningSet()->getViolations());
    return _warnings;''', '''    return lazily(_warnings, _resultCollector.getCompilerWarningSet());''')]),
('ur-collect-insert', [(UR, '''        for (const auto& violation : violationSet->getViolations())
        {
            violations.push_back(violation);
        }
''', '''        const auto &found = violationSet->getViolations();
        violations.insert(violations.end(), found.begin(), found.end());
''')]),
('ur-hash-combine', [(UR, '''        return hash1 ^ (hash2 << 1) ^ (hash2 << 2) ^ (hash3 << 3) ^ (hash4 << 4);''', '''        return hash1 ^ (hash2 << 1) ^ (hash3 << 3) ^ (hash4 << 4);''')]),
('ar-countif', [(AR, '''    int numViolations = 0;
    for (const auto& violation : allViolations())
    {
        const RuleBase *rule = violation.rule;
        if (rule->priority() == priority)
        {
            numViolations++;
        }
    }
    return numViolations;''', '''    const auto violations = allViolations();
    return std::count_if(violations.begin(), violations.end(),
        [priority](const Violation &violation) { return violation.rule->priority() == priority; });''')]),
('ar-count-index', [(AR, '''    int numViolations = 0;
    for (const auto& violation : allViolations())
    {
        const RuleBase *rule = violation.rule;
        if (rule->priority() == priority)
        {
            numViolations++;
        }
    }
    return numViolations;''', '''    int total = 0;
    std::vector<Violation> violations = allViolations();
    for (size_t index = 0; index != violations.size(); index++)
    {
        if (priority != violations[index].rule->priority())
        {
            continue;
        }
        total += 1;
    }
    return total;''')]),
('ar-haserrors', [(AR, '''    return numberOfErrors() > 0;''', '''    return numberOfErrors() != 0;''')]),
('ar-haserrors-empty', [(AR, '''    return numberOfErrors() > 0;''', '''    return !allErrors().empty();''')]),
('ar-files-set', [(AR, '''    std::map<std::string, int> violationsMapping;
    for (const auto& violationSet : _resultCollector.getCollection())
    {
        if (violationSet->numberOfViolations() > 0)
        {
            std::string filePath = violationSet->getViolations()[0].path;
            violationsMapping[filePath] += violationSet->numberOfViolations();
        }
    }
    return violationsMapping.size();''', '''    std::set<std::string> paths;
    for (const auto& violationSet : _resultCollector.getCollection())
    {
        if (violationSet->numberOfViolations() > 0)
        {
            paths.insert(violationSet->getViolations()[0].path);
        }
    }
    return paths.size();'''), (AR, '''#include <map>''', '''#include <map>
#include <set>''')]),
('rc-local', [(RC, '''    return hasKey(key) ? atoi(valueForKey(key).c_str()) : defaultValue;''', '''    if (!hasKey(key))
    {
        return defaultValue;
    }
    const std::string value = valueForKey(key);
    return atoi(value.c_str());''')]),
('rc-find', [(RC, '''    return _configurations != nullptr &&
           _configurations->find(key) != _configurations->end();''', '''    if (_configurations)
    {
        return _configurations->count(key) > 0;
    }
    return false;''')]),
('rc-index', [(RC, '''    _configurations->operator[](key) = value;''', '''    (*_configurations)[key] = value;''')]),
('rc-rename-global', [(RC, '''static std::map<std::string, std::string>* _configurations = nullptr;

void RuleConfiguration::addConfiguration(std::string key, std::string value)
{
    if (_configurations == nullptr)
    {
        _configurations = new std::map<std::string, std::string>();
    }

    _configurations->operator[](key) = value;
}

bool RuleConfiguration::hasKey(std::string key)
{
    return _configurations != nullptr &&
           _configurations->find(key) != _configurations->end();
}

std::string RuleConfiguration::valueForKey(std::string key)
{
    return _configurations->operator[](key);
}

void RuleConfiguration::removeAll()
{
    if (_configurations != nullptr)
    {
        _configurations = nullptr;
    }
}''', '''static std::map<std::string, std::string>* s_config = nullptr;

void RuleConfiguration::addConfiguration(std::string key, std::string value)
{
    if (s_config == nullptr)
    {
        s_config = new std::map<std::string, std::string>();
    }

    s_config->operator[](key) = value;
}

bool RuleConfiguration::hasKey(std::string key)
{
    return s_config != nullptr &&
           s_config->find(key) != s_config->end();
}

std::string RuleConfiguration::valueForKey(std::string key)
{
    return s_config->operator[](key);
}

void RuleConfiguration::removeAll()
{
    s_config = nullptr;
}''')]),
('rf-filter-helper', [(RF, '''std::vector<RuleBase *> RulesetFilter::filteredRules() const
{''', '''static bool has(const std::set<std::string> &names, const std::string &name)
{
    return names.find(name) != names.end();
}

std::vector<RuleBase *> RulesetFilter::filteredRules() const
{'''), (RF, '''        if ((_enabled.empty() || find(_enabled.begin(), _enabled.end(), name) != _enabled.end()) &&
            find(_disabled.begin(), _disabled.end(), name) == _disabled.end())
        {
            filteredRules.push_back(rule);
        }''', '''        bool picked = _enabled.empty() || has(_enabled, name);
        if (picked && !has(_disabled, name))
        {
            filteredRules.push_back(rule);
        }''')]),
('rf-filter-continue', [(RF, '''        if ((_enabled.empty() || find(_enabled.begin(), _enabled.end(), name) != _enabled.end()) &&
            find(_disabled.begin(), _disabled.end(), name) == _disabled.end())
        {
            filteredRules.push_back(rule);
        }''', '''        if (_disabled.count(name))
        {
            continue;
        }
        if (!_enabled.empty() && !_enabled.count(name))
        {
            continue;
        }
        filteredRules.push_back(rule);''')]),
('rf-filter-while', [(RF, '''    for (int ruleIdx = 0, numRules = oclint::RuleSet::numberOfRules();
        ruleIdx < numRules; ruleIdx++)
    {
        RuleBase *rule = oclint::RuleSet::getRuleAtIndex(ruleIdx);''', '''    const int numRules = oclint::RuleSet::numberOfRules();
    int ruleIdx = 0;
    while (ruleIdx < numRules)
    {
        RuleBase *rule = oclint::RuleSet::getRuleAtIndex(ruleIdx++);''')]),
('rf-enable-erase', [(RF, '''    _enabled.insert(ruleName);
    auto iterator = _disabled.find(ruleName);
    if (iterator != _disabled.end())
    {
        _disabled.erase(iterator);
    }''', '''    _disabled.erase(ruleName);
    _enabled.insert(ruleName);''')]),
('rf-names-loop', [(RF, '''    std::vector<std::string> names(rules.size());
    transform(rules.begin(), rules.end(), names.begin(), getName);
    return names;''', '''    std::vector<std::string> names;
    for (const RuleBase *rule : rules)
    {
        names.push_back(getName(rule));
    }
    return names;''')]),
('rf-foreach-loop', [(RFH, '''        for_each(beg, end, [this](const std::string &s) { enableRule(s); });''', '''        for (T it = beg; it != end; ++it)
        {
            enableRule(*it);
        }''')]),
('ra-helper', [(RA, '''void RulesetBasedAnalyzer::analyze(std::vector<clang::ASTContext *> &contexts)
{''', '''static void runAll(const std::vector<RuleBase*> &rules, RuleCarrier *carrier)
{
    for (size_t i = 0; i < rules.size(); i++)
    {
        rules[i]->takeoff(carrier);
    }
}

void RulesetBasedAnalyzer::analyze(std::vector<clang::ASTContext *> &contexts)
{'''), (RA, '''        for (RuleBase *rule : _filteredRules)
        {
            rule->takeoff(carrier);
        }
        ResultCollector *results = ResultCollector::getInstance();
        results->add(violationSet);''', '''        runAll(_filteredRules, carrier);
        ResultCollector::getInstance()->add(violationSet);''')]),
('ra-index', [(RA, '''    for (const auto& context : contexts)
    {''', '''    for (auto it = contexts.begin(), end = contexts.end(); it != end; ++it)
    {
        clang::ASTContext *context = *it;''')]),
('dd-switch', [(DD, '''        if (diagnosticLevel == clang::DiagnosticsEngine::Warning)
        {
            results->addWarning(violation);
        }
        if (diagnosticLevel == clang::DiagnosticsEngine::Error ||
            diagnosticLevel == clang::DiagnosticsEngine::Fatal)
        {
            results->addError(violation);
        }''', '''        switch (diagnosticLevel)
        {
        case clang::DiagnosticsEngine::Warning:
            results->addWarning(violation);
            break;
        case clang::DiagnosticsEngine::Error:
        case clang::DiagnosticsEngine::Fatal:
            results->addError(violation);
            break;
        default:
            break;
        }''')]),
('dd-early', [(DD, '''    if (_isCheckerCustomer)
    {
        results->addCheckerBug(violation);
    }
    else
    {
        if (diagnosticLevel == clang::DiagnosticsEngine::Warning)
        {
            results->addWarning(violation);
        }
        if (diagnosticLevel == clang::DiagnosticsEngine::Error ||
            diagnosticLevel == clang::DiagnosticsEngine::Fatal)
        {
            results->addError(violation);
        }
    }''', '''    if (_isCheckerCustomer)
    {
        results->addCheckerBug(violation);
        return;
    }
    const bool isError = diagnosticLevel >= clang::DiagnosticsEngine::Error;
    if (isError)
    {
        results->addError(violation);
    }
    else if (diagnosticLevel == clang::DiagnosticsEngine::Warning)
    {
        results->addWarning(violation);
    }''')]),
('dd-loc-restructure', [(DD, '''    llvm::StringRef sourceFilename = sourceManager->getFilename(location);
    // If we didn't match, and we have a macro location try to expand it
    if (sourceFilename.empty() && location.isMacroID())
    {
        clang::SourceLocation macroLocation = sourceManager->getExpansionLoc(location);
        llvm::StringRef expansionFilename = sourceManager->getFilename(macroLocation);
        sourceLoc.filename = expansionFilename.str();
    }
    else
    {
        sourceLoc.filename = sourceFilename.str();
    }
''', '''    llvm::StringRef sourceFilename = sourceManager->getFilename(location);
    if (sourceFilename.empty() && location.isMacroID())
    {
        sourceFilename = sourceManager->getFilename(sourceManager->getExpansionLoc(location));
    }
    sourceLoc.filename = sourceFilename.str();
''')]),
('sh-mark-early', [(SH, '''    if(rule) {
        return declHasOCLintAttribute(decl, "suppress")
            || declHasActionAttribute(decl, "suppress", *rule);
    }
    return false;''', '''    if (!rule)
    {
        return false;
    }
    if (declHasOCLintAttribute(decl, "suppress"))
    {
        return true;
    }
    return declHasActionAttribute(decl, "suppress", *rule);''')]),
('sh-parents-merge', [(SH, '''        if (markedAsSuppress(aDecl, rule))
        {
            return true;
        }
        return markedParentsAsSuppress(*aDecl, context, rule);
    }''', '''        return markedAsSuppress(aDecl, rule) || markedParentsAsSuppress(*aDecl, context, rule);
    }''')]),
('sh-range-anyof', [(SH, '''    for (const auto& range : commentRanges)
    {
        if (beginLine >= range.first && beginLine <= range.second)
        {
            return true;
        }
    }

    return false;''', '''    return std::any_of(commentRanges.begin(), commentRanges.end(),
        [beginLine](const std::pair<int, int> &range)
        {
            return range.first <= beginLine && range.second >= beginLine;
        });''')]),
('sh-range-flag', [(SH, '''    for (const auto& range : commentRanges)
    {
        if (beginLine >= range.first && beginLine <= range.second)
        {
            return true;
        }
    }

    return false;''', '''    bool inside = false;
    for (const auto& range : commentRanges)
    {
        if (beginLine < range.first || beginLine > range.second)
        {
            continue;
        }
        inside = true;
        break;
    }

    return inside;''')]),
('sh-line-helper', [(SH, '''bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
{
    std::string filePath = getMainFilePath(context);
    auto commentLinesIt = singleLineMapping.find(filePath);
    std::set<int> commentLines;
    if (commentLinesIt == singleLineMapping.end())
    {
        auto mainFileID''', '''static std::set<int> collectCommentLines(clang::ASTContext &context)
{
    std::set<int> commentLines;
    {
        auto mainFileID'''), (SH, '''        singleLineMapping[filePath] = commentLines;
    }
    else
    {
        commentLines = commentLinesIt->second;
    }

    return commentLines.find(beginLine) != commentLines.end();''', '''    }
    return commentLines;
}

bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
{
    std::string filePath = getMainFilePath(context);
    auto commentLinesIt = singleLineMapping.find(filePath);
    std::set<int> commentLines;
    if (commentLinesIt == singleLineMapping.end())
    {
        commentLines = collectCommentLines(context);
        singleLineMapping[filePath] = commentLines;
    }
    else
    {
        commentLines = commentLinesIt->second;
    }

    return commentLines.find(beginLine) != commentLines.end();''')]),
('sh-range-cache-invert', [(SH, '''    RangeSet commentRanges;
    if (commentRangesIt == rangeMapping.end())
    {
        DeclAnnotationRangeCollector annotationCollector;
        commentRanges = annotationCollector.collect(context, rule);
        rangeMapping[rangeKey] = commentRanges;
    }
    else
    {
        commentRanges = commentRangesIt->second;
    }
''', '''    RangeSet commentRanges;
    if (commentRangesIt != rangeMapping.end())
    {
        commentRanges = commentRangesIt->second;
    }
    else
    {
        DeclAnnotationRangeCollector annotationCollector;
        commentRanges = annotationCollector.collect(context, rule);
        rangeMapping.insert(std::make_pair(rangeKey, commentRanges));
    }
''')]),
('sh-collect-range', [(SH, '''        for (clang::DeclContext::decl_iterator declIt = decl->decls_begin(),
            declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
        {
            clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
            if (startLocation.isValid() &&
                _sourceManager->getMainFileID() == _sourceManager->getFileID(startLocation))
            {
                (void) /* explicitly ignore the return of this function */
                    clang::RecursiveASTVisitor<DeclAnnotationRangeCollector>::TraverseDecl(*declIt);
            }
        }
''', '''        for (clang::Decl *child : decl->decls())
        {
            clang::SourceLocation startLocation = child->getBeginLoc();
            if (startLocation.isInvalid())
            {
                continue;
            }
            if (_sourceManager->getFileID(startLocation) == _sourceManager->getMainFileID())
            {
                TraverseDecl(child);
            }
        }
''')]),
('ab-add-early', [(AB, '''    if (!shouldSuppress(beginLine, *_carrier->getASTContext()))
    {
        llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
        _carrier->addViolation(filename.str(),
            beginLine,
            sourceManager->getPresumedColumnNumber(startFileLoc),
            sourceManager->getPresumedLineNumber(endFileLoc),
            sourceManager->getPresumedColumnNumber(endFileLoc),
            rule,
            message);
    }''', '''    if (shouldSuppress(beginLine, *_carrier->getASTContext()))
    {
        return;
    }
    const int beginColumn = sourceManager->getPresumedColumnNumber(startFileLoc);
    const int endLine = sourceManager->getPresumedLineNumber(endFileLoc);
    const int endColumn = sourceManager->getPresumedColumnNumber(endFileLoc);
    std::string path = sourceManager->getFilename(startFileLoc).str();
    _carrier->addViolation(path, beginLine, beginColumn, endLine, endColumn, rule, message);''')]),
('ab-add-template', [(AB, '''    if (stmt && !shouldSuppress(stmt, *_carrier->getASTContext(), rule))
    {
        addViolation(stmt->getBeginLoc(), stmt->getEndLoc(), rule, message);
    }''', '''    if (stmt == nullptr)
    {
        return;
    }
    bool suppressed = shouldSuppress(stmt, *_carrier->getASTContext(), rule);
    if (!suppressed)
    {
        clang::SourceRange range = stmt->getSourceRange();
        addViolation(stmt->getBeginLoc(), stmt->getEndLoc(), rule, message);
        (void)range;
    }''')]),
('ab-lang-ternary', [(AB, '''    if (langOpts.ObjC)
    {
        return supportsObjC();
    }
    if (langOpts.CPlusPlus)
    {
        return supportsCXX();
    }
    return supportsC();''', '''    return langOpts.ObjC ? supportsObjC()
        : langOpts.CPlusPlus ? supportsCXX()
        : supportsC();''')]),
('au-while-for', [(AU, '''    for(auto current = decl; current != nullptr; current = current->getSuperClass()) {
        if(current->getNameAsString() == className) {
            return true;
        }
    }
    return false;''', '''    const clang::ObjCInterfaceDecl *current = decl;
    while (current)
    {
        if (className == current->getNameAsString())
        {
            return true;
        }
        current = current->getSuperClass();
    }
    return false;''')]),
('au-isa-variadic', [(AU, '''        return context && (clang::isa<clang::ObjCInterfaceDecl>(context) ||
            clang::isa<clang::ObjCProtocolDecl>(context) ||
            clang::isa<clang::ObjCCategoryDecl>(context));''', '''        return context && clang::isa<clang::ObjCInterfaceDecl, clang::ObjCProtocolDecl,
            clang::ObjCCategoryDecl>(context);''')]),
('au-protocol-range', [(AU, '''        for (clang::ObjCProtocolList::iterator protocol = interfaceDecl->protocol_begin(),
            protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
        {
            clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
            if (protocolDecl->lookupInstanceMethod(selector))
            {
                return true;
            }
        }''', '''        for (clang::ObjCProtocolDecl *protocolDecl : interfaceDecl->protocols())
        {
            if (protocolDecl->lookupInstanceMethod(selector) != nullptr)
            {
                return true;
            }
        }''')]),
('au-superclass-early', [(AU, '''    if (decl && !isObjCMethodDeclLocatedInInterfaceContainer(decl))
    {
        clang::Selector selector = decl->getSelector();
        clang::ObjCInterfaceDecl *interfaceDecl = decl->getClassInterface();
        if (interfaceDecl)
        {
            clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass();
            return superInterface && superInterface->lookupInstanceMethod(selector);
        }
    }
    return false;''', '''    if (!decl || isObjCMethodDeclLocatedInInterfaceContainer(decl))
    {
        return false;
    }
    if (clang::ObjCInterfaceDecl *interfaceDecl = decl->getClassInterface())
    {
        if (clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass())
        {
            return superInterface->lookupInstanceMethod(decl->getSelector()) != nullptr;
        }
    }
    return false;''')]),
('js-array-helper', [(JS, '''    void writeHeader(std::ostream &out, std::string version)
    {''', '''    void writeViolations(std::ostream &out, std::vector<Violation> violations)
    {
        out << "[";
        for (size_t i = 0; i < violations.size(); ++i)
        {
            if (i > 0)
            {
                out << ",";
            }
            writeViolation(out, violations[i]);
        }
        out << "]";
    }

    void writeHeader(std::ostream &out, std::string version)
    {'''), (JS, '''        out << "[";
        std::vector<Violation> violationSet = results->allViolations();
        for (int index = 0, numberOfViolations = violationSet.size();
            index < numberOfViolations; index++)
        {
            if (index != 0)
            {
                out << ",";
            }
            writeViolation(out, violationSet.at(index));
        }
        out << "],";
        writeKey(out, "clangStaticAnalyzer");
        out << "[";
        std::vector<Violation> checkerBugs = results->allCheckerBugs();
        for (int index = 0, numberOfViolations = checkerBugs.size();
            index < numberOfViolations; index++)
        {
            if (index != 0)
            {
                out << ",";
            }
            writeViolation(out, checkerBugs.at(index));
        }
        out << "]";
        out << "}";
        out << std::endl;''', '''        writeViolations(out, results->allViolations());
        out << ",";
        writeKey(out, "clangStaticAnalyzer");
        writeViolations(out, results->allCheckerBugs());
        out << "}" << std::endl;''')]),
('js-inline-key', [(JS, '''        writeKey(out, key);
        out << value;
        writeComma(out, last);''', '''        out << '"' << key << "\\":" << value << (last ? "" : ",");''')]),
('js-first-flag', [(JS, '''        for (int index = 0, numberOfViolations = violationSet.size();
            index < numberOfViolations; index++)
        {
            if (index != 0)
            {
                out << ",";
            }
            writeViolation(out, violationSet.at(index));
        }''', '''        bool first = true;
        for (auto &violation : violationSet)
        {
            if (!first)
            {
                out << ",";
            }
            first = false;
            writeViolation(out, violation);
        }''')]),
('pm-escape-if', [(PM, '''            switch(c)
            {
                case '<':
                    output += "&lt;";
                    break;
                case '>':
                    output += "&gt;";
                    break;
                case '"':
                    output += "&quot;";
                    break;
                case '&':
                    output += "&amp;";
                    break;
                case '\\'':
                    output += "&apos;";
                    break;
                default:
                    output += c;
                    break;
            }''', '''            if (c == '<')
            {
                output += "&lt;";
            }
            else if (c == '>')
            {
                output += "&gt;";
            }
            else if (c == '"')
            {
                output.append("&quot;");
            }
            else if (c == '&')
            {
                output += "&amp;";
            }
            else if (c == '\\'')
            {
                output += "&apos;";
            }
            else
            {
                output.push_back(c);
            }''')]),
('pm-stream-merge', [(PM, '''        out << "<file name=\\"" << xmlEscape(violation.path) << "\\">" << std::endl;
        out << "<violation ";
        out << "begincolumn=\\"" << violation.startColumn << "\\" ";''', '''        out << "<file name=\\"" << xmlEscape(violation.path) << "\\">\\n"
            << "<violation begincolumn=\\"" << violation.startColumn << "\\" ";''')]),
('pm-attr-helper', [(PM, '''    void writeHeader(std::ostream &out, std::string version)
    {
        out <<''', '''    template <typename T>
    void writeAttribute(std::ostream &out, const char *name, const T &value)
    {
        out << name << "=\\"" << value << "\\" ";
    }

    void writeHeader(std::ostream &out, std::string version)
    {
        out <<'''), (PM, '''        out << "begincolumn=\\"" << violation.startColumn << "\\" ";
        out << "endcolumn=\\"" << violation.endColumn << "\\" ";
        out << "beginline=\\"" << violation.startLine << "\\" ";
        out << "endline=\\"" << violation.endLine << "\\" ";''', '''        writeAttribute(out, "begincolumn", violation.startColumn);
        writeAttribute(out, "endcolumn", violation.endColumn);
        writeAttribute(out, "beginline", violation.startLine);
        writeAttribute(out, "endline", violation.endLine);''')]),
('pm-unused-endl', [(PM, '''        for (const auto& compilerError : results->allErrors())
        {
            writeCompilerError(out, compilerError);
            out << std::endl;
        }''', '''        const auto &errors = results->allErrors();
        for (auto it = errors.cbegin(); it != errors.cend(); ++it)
        {
            writeCompilerError(out, *it);
            out << std::endl;
        }''')]),
]
