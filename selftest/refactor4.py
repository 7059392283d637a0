"""More behaviour-preserving edits (reporters, suppression, filter, main)."""
from refactor2 import F, S
RE = ['oclint-reporters/reporters/%sReporter.cpp' % x for x in ('JSON', 'XML', 'PMD', 'Text', 'HTML')]
JS, XM, PM, TX, HT = RE
AH, SH = ['oclint-rules/lib/helper/%sHelper.cpp' % x for x in ('Attribute', 'Suppress')]
AU = 'oclint-rules/lib/util/ASTUtil.cpp'
MA, RP, RU = 'oclint-driver/main.cpp', 'oclint-driver/reporters_dlfcn_port.cpp', 'oclint-driver/rules_dlfcn_port.cpp'
RF = 'oclint-driver/lib/RulesetFilter.cpp'
RC, AR = ['oclint-core/lib/%s.cpp' % x for x in ('ResultCollector', 'AbstractResults')]

CASES = [
 ('json-array-helper', [F(JS, 'virtual void report(', '''virtual void report(Results* results, std::ostream& out) override
    {
        out << "{";
        writeHeader(out, Constants::version());
        writeSummary(out, *results);
        writeViolations(out, "violation", results->allViolations());
        out << ",";
        writeViolations(out, "clangStaticAnalyzer", results->allCheckerBugs());
        out << "}";
        out << std::endl;
    }

    void writeViolations(std::ostream &out, const std::string &key, std::vector<Violation> violations)
    {
        writeKey(out, key);
        out << "[";
        bool first = true;
        for (auto &violation : violations)
        {
            if (!first)
            {
                out << ",";
            }
            first = false;
            writeViolation(out, violation);
        }
        out << "]";
    }''')]),
 ('json-sep-string', [S(JS, '''        for (int index = 0, numberOfViolations = violationSet.size();
            index < numberOfViolations; index++)
        {
            if (index != 0)
            {
                out << ",";
            }
            writeViolation(out, violationSet.at(index));
        }
''', '''        const char *separator = "";
        for (size_t i = 0; i < violationSet.size(); ++i)
        {
            out << separator;
            separator = ",";
            writeViolation(out, violationSet[i]);
        }
''')]),
 ('json-escape-if', [F(JS, 'std::string jsonEscape(', '''std::string jsonEscape(const std::string &data)
    {
        std::string output;
        for (const char c : data)
        {
            const unsigned char code = static_cast<unsigned char>(c);
            if (c == '"' || c == '\\\\')
            {
                output += '\\\\';
                output += c;
                continue;
            }
            if (code < 0x20)
            {
                char escaped[7];
                snprintf(escaped, sizeof(escaped), "\\\\u%04x", static_cast<unsigned int>(code));
                output += escaped;
                continue;
            }
            output += c;
        }
        return output;
    }''')]),
 ('json-priority-loop', [F(JS, 'void writeSummary(', '''void writeSummary(std::ostream &out, Results &results)
    {
        writeKey(out, "summary");
        out << "{";
        writeKeyValue(out, "numberOfFiles", results.numberOfFiles());
        writeKeyValue(out, "numberOfFilesWithViolations", results.numberOfFilesWithViolations());
        writeKey(out, "numberOfViolationsWithPriority");
        out << "[";
        for (int priority = 1; priority <= 3; priority++)
        {
            writePriority(out, results, priority);
            if (priority < 3)
            {
                out << ",";
            }
        }
        out << "]},";
    }''')]),
 ('json-end-helper', [F(JS, 'void writeViolation(', '''bool hasEnd(const Violation &violation) const
    {
        return !(violation.endLine == 0 || violation.endColumn == 0);
    }

    void writeRule(std::ostream &out, const RuleBase *rule)
    {
        if (rule == nullptr)
        {
            return;
        }
        writeKeyValue(out, "rule", rule->name());
        writeKeyValue(out, "category", rule->category());
        writeKeyValue(out, "priority", rule->priority());
    }

    void writeViolation(std::ostream &out, Violation &violation)
    {
        out << "{";
        writeKeyValue(out, "path", violation.path);
        writeKeyValue(out, "startLine", violation.startLine);
        writeKeyValue(out, "startColumn", violation.startColumn);
        if (hasEnd(violation))
        {
            writeKeyValue(out, "endLine", violation.endLine);
            writeKeyValue(out, "endColumn", violation.endColumn);
        }
        writeRule(out, violation.rule);
        writeKeyValue(out, "message", violation.message, true);
        out << "}";
    }''')]),
 ('json-chain', [F(JS, 'void writePriority(', '''void writePriority(std::ostream &out, Results &results, int priority)
    {
        const int number = results.numberOfViolationsWithPriority(priority);
        out << "{";
        writeKeyValue(out, "priority", priority);
        writeKeyValue(out, "number", number, true);
        out << "}";
    }'''), F(JS, 'void writeKey(', '''void writeKey(std::ostream &out, const std::string &key)
    {
        out << '"' << key << '"' << ':';
    }''')]),
 ('xml-escape-table', [F(XM, 'std::string xmlEscape(', '''static const char *entityOf(char c)
    {
        switch (c)
        {
            case '<': return "&lt;";
            case '>': return "&gt;";
            case '"': return "&quot;";
            case '&': return "&amp;";
            case '\\'': return "&apos;";
            default: return nullptr;
        }
    }

    std::string xmlEscape(const std::string &data)
    {
        std::string output;
        output.reserve(data.size());
        for (const auto &c : data)
        {
            const char *entity = entityOf(c);
            if (entity)
            {
                output += entity;
            }
            else
            {
                output += c;
            }
        }
        return output;
    }''')]),
 ('xml-escape-append', [F(XM, 'std::string xmlEscape(', '''std::string xmlEscape(const std::string &data)
    {
        std::string output;
        for (std::string::size_type i = 0; i < data.size(); ++i)
        {
            const char c = data[i];
            if (c == '<')
                output.append("&lt;");
            else if (c == '>')
                output.append("&gt;");
            else if (c == '"')
                output.append("&quot;");
            else if (c == '&')
                output.append("&amp;");
            else if (c == '\\'')
                output.append("&apos;");
            else
                output.push_back(c);
        }
        return output;
    }''')]),
 ('xml-list-helper', [F(XM, 'virtual void report(', '''virtual void report(Results* results, std::ostream& out) override
    {
        writeHeader(out, Constants::version());
        writeDatetime(out);
        writeSummary(out, *results);
        writeViolationList(out, "violations", results->allViolations());
        writeViolationList(out, "clangstaticanalyzer", results->allCheckerBugs());
        writeFooter(out);
        out << std::endl;
    }

    void writeViolationList(std::ostream &out, const std::string &tag, const std::vector<Violation> &violations)
    {
        out << "<" << tag << ">";
        for (const auto& violation : violations)
        {
            writeViolation(out, violation);
        }
        out << "</" << tag << ">";
    }''')]),
 ('xml-prio-loop', [F(XM, 'void writeSummary(', '''void writeSummary(std::ostream &out, Results &results)
    {
        out << "<summary>";
        writeSummaryProperty(out, "number of files", results.numberOfFiles());
        writeSummaryProperty(out, "files with violations", results.numberOfFilesWithViolations());
        for (int priority = 1; priority <= 3; ++priority)
        {
            writeSummaryProperty(out,
                "number of priority " + std::to_string(priority) + " violations",
                results.numberOfViolationsWithPriority(priority));
        }
        out << "</summary>";
    }''')]),
 ('xml-strftime-keep', [S(XM, 'time_t now = time(nullptr);\n        struct tm *tmNow = gmtime(&now);', 'const time_t now = time(nullptr);\n        const struct tm *tmNow = gmtime(&now);')]),
 ('pmd-attr-helper', [F(PM, '''void writeViolation(std::ostream &out,
                        const Violation &violation,
                        const PMDRuleDescription *ruleDescription)''', '''template <typename T>
    void writeAttribute(std::ostream &out, const char *key, const T &value)
    {
        out << key << "=\\"" << value << "\\" ";
    }

    void writeViolation(std::ostream &out,
                        const Violation &violation,
                        const PMDRuleDescription *ruleDescription)
    {
        out << "<file name=\\"" << xmlEscape(violation.path) << "\\">" << std::endl;
        out << "<violation ";
        writeAttribute(out, "begincolumn", violation.startColumn);
        writeAttribute(out, "endcolumn", violation.endColumn);
        writeAttribute(out, "beginline", violation.startLine);
        writeAttribute(out, "endline", violation.endLine);
        if (ruleDescription != nullptr)
        {
            ruleDescription->write(out);
        }
        out << ">" << std::endl;
        out << xmlEscape(violation.message) << std::endl;
        out << "</violation>" << std::endl;
        out << "</file>" << std::endl;
    }''')]),
 ('pmd-newline', [F(PM, 'virtual void report(', '''virtual void report(Results* results, std::ostream& out) override
    {
        writeHeader(out, Constants::version());
        const std::vector<Violation> errors = results->allErrors();
        for (auto it = errors.begin(); it != errors.end(); ++it)
        {
            writeCompilerError(out, *it);
            out << std::endl;
        }
        const auto warnings = results->allWarnings();
        for (size_t index = 0; index < warnings.size(); ++index)
        {
            writeCompilerWarning(out, warnings.at(index));
            out << std::endl;
        }
        for (const auto& violation : results->allViolations())
        {
            writeViolation(out, violation);
            out << std::endl;
        }
        for (const auto& violation : results->allCheckerBugs())
        {
            writeCheckerBug(out, violation);
            out << std::endl;
        }
        writeFooter(out);
    }''')]),
 ('pmd-ternary', [F(PM, 'void writeViolation(std::ostream &out, const Violation &violation)', '''void writeViolation(std::ostream &out, const Violation &violation)
    {
        if (!violation.rule)
        {
            writeViolation(out, violation, nullptr);
            return;
        }
        const PMDRuleDescription description(violation.rule);
        writeViolation(out, violation, &description);
    }''')]),
 ('text-location', [F(TX, 'void writeViolation(', '''void writeLocation(std::ostream &out, const Violation &violation)
    {
        out << violation.path << ":" << violation.startLine << ":" << violation.startColumn;
        out << ": ";
    }

    void writeViolation(std::ostream &out, const Violation &violation)
    {
        writeLocation(out, violation);
        const RuleBase &rule = *violation.rule;
        out << rule.name() << " [" << rule.category() << "|P" << rule.priority() << "]"
            << " " << violation.message;
    }'''), F(TX, 'void writeCompilerErrorOrWarning(', '''void writeCompilerErrorOrWarning(std::ostream &out, const Violation &violation)
    {
        writeLocation(out, violation);
        out << violation.message;
    }''')]),
 ('text-diag-if', [F(TX, 'virtual void report(', '''virtual void report(Results* results, std::ostream& out) override
    {
        writeDiagnostics(*results, out);
        out << std::endl << std::endl;
        writeHeader(out);
        out << std::endl << std::endl;
        writeSummary(out, *results);
        out << std::endl << std::endl;
        writeViolations(out, results->allViolations());
        out << std::endl;
        writeFooter(out, Constants::version());
        out << std::endl;
    }

    void writeDiagnostics(Results &results, std::ostream &out)
    {
        if (results.hasErrors())
        {
            writeCompilerDiagnostics(out, results.allErrors(),
                "Compiler Errors:\\n(please be aware that these errors "
                "will prevent OCLint from analyzing this source code)");
        }
        if (results.hasWarnings())
        {
            writeCompilerDiagnostics(out, results.allWarnings(), "Compiler Warnings:");
        }
        if (results.hasCheckerBugs())
        {
            writeCompilerDiagnostics(out,
                results.allCheckerBugs(), "Clang Static Analyzer Results:");
        }
    }''')]),
 ('text-summary-loop', [F(TX, 'void writeSummary(', '''void writeSummary(std::ostream &out, Results &results)
    {
        out << "Summary: TotalFiles=" << results.numberOfFiles() << " "
            << "FilesWithViolations=" << results.numberOfFilesWithViolations() << " ";
        for (int priority = 1; priority <= 3; priority++)
        {
            out << "P" << priority << "=" << results.numberOfViolationsWithPriority(priority) << " ";
        }
    }''')]),
 ('html-cell-helper', [F(HT, 'void writeCompilerErrorOrWarning(', '''void writeLocationCells(std::ostream &out, const Violation &violation)
    {
        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
            << ":" << violation.startColumn << "</td>";
    }

    void writeCompilerErrorOrWarning(std::ostream &out,
        const Violation &violation, std::string level)
    {
        writeLocationCells(out, violation);
        out << "<td>compiler " << level << "</td>";
        out << "<td></td><td class='cmplr-" << level << "'>" << level << "</td>";
        out << "<td>" << htmlEscape(violation.message) << "</td></tr>";
    }'''), F(HT, 'void writeViolation(', '''void writeViolation(std::ostream &out, const Violation &violation)
    {
        writeLocationCells(out, violation);
        const RuleBase *rule = violation.rule;
        const int priority = rule->priority();
        out << "<td>" << rule->name() << "</td>";
        out << "<td>" << rule->category() << "</td>";
        out << "<td class='priority" << priority << "'>" << priority << "</td>";
        out << "<td>" << htmlEscape(violation.message) << "</td></tr>";
    }''')]),
 ('html-bug-helper', [F(HT, 'void writeCheckerBugs(', '''void writeCheckerBug(std::ostream &out, const Violation &violation)
    {
        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
            << ":" << violation.startColumn << "</td>"
            << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
            << "checker bug</td><td>" << htmlEscape(violation.message) << "</td></tr>";
    }

    void writeCheckerBugs(std::ostream &out, const std::vector<Violation> &violations)
    {
        std::for_each(violations.begin(), violations.end(),
            [&](const Violation &violation) { writeCheckerBug(out, violation); });
    }'''), S(HT, '#include <ctime>', '#include <algorithm>\n#include <ctime>')]),
 ('ah-annot-split', [F(AH, 'bool attributeHasAnnotation(', '''static void extractComment(const std::string& annotation, size_t offset, std::string* comment)
{
    if (comment == nullptr)
    {
        return;
    }
    const auto commentStart = annotation.find('[', offset);
    if (commentStart == std::string::npos || annotation.back() != ']')
    {
        return;
    }
    *comment = annotation.substr(commentStart + 1, annotation.length() - commentStart - 2);
}

bool attributeHasAnnotation(
    const std::string& annotation,
    const std::string& attributeName,
    std::string* comment) {
    const bool qualified = attributeName.find('[') != std::string::npos;
    if (!qualified)
    {
        return attributeName == annotation;
    }
    if (annotation.length() < attributeName.length())
    {
        return false;
    }
    if (!std::equal(attributeName.begin(), attributeName.end(), annotation.begin()))
    {
        return false;
    }
    extractComment(annotation, attributeName.length(), comment);
    return true;
}''')]),
 ('ah-annot-compare', [S(AH, '''    if(annotation.length() < attributeName.length() ||
        !std::equal(attributeName.begin(), attributeName.end(), annotation.begin())) {''', '''    if(annotation.compare(0, attributeName.length(), attributeName) != 0) {''')]),
 ('ah-range-for', [F(AH, 'bool declHasAttribute(', '''bool declHasAttribute(
    const clang::Decl *decl,
    const std::string& attributeName,
    std::string* comment) {
    if (decl == nullptr)
    {
        return false;
    }

    for (const auto *annotate : decl->specific_attrs<clang::AnnotateAttr>())
    {
        if (annotate && attributeHasAnnotation(annotate->getAnnotation().str(), attributeName, comment))
        {
            return true;
        }
    }
    return false;
}''')]),
 ('ah-iter-inline', [F(AH, 'bool declHasAttribute(', '''bool declHasAttribute(
    const clang::Decl *decl,
    const std::string& attributeName,
    std::string* comment) {
    if (!decl)
    {
        return false;
    }

    bool found = false;
    for (auto attr = decl->specific_attr_begin<clang::AnnotateAttr>(),
        attrEnd = decl->specific_attr_end<clang::AnnotateAttr>();
        attr != attrEnd && !found;
        ++attr)
    {
        const clang::AnnotateAttr *annotate = clang::dyn_cast<clang::AnnotateAttr>(*attr);
        if (annotate)
        {
            found = attributeHasAnnotation(annotate->getAnnotation().str(), attributeName, comment);
        }
    }
    return found;
}''')]),
 ('ah-method-flow', [F(AH, 'bool objCMethodDeclHasActionAttributeImpl(', '''bool objCMethodDeclHasActionAttributeImpl(
    const clang::ObjCMethodDecl *decl,
    const std::string& action,
    const oclint::RuleBase& rule,
    std::string* comment) {
    if(!decl) {
        return false;
    }

    const bool marked = baseDeclHasActionAttributeImpl(decl, action, rule, comment) ||
        (decl->isPropertyAccessor() &&
            baseDeclHasActionAttributeImpl(decl->findPropertyDecl(), action, rule, comment));
    if(marked) {
        return true;
    }

    if(const auto *protocol = clang::dyn_cast<clang::ObjCProtocolDecl>(decl->getDeclContext())) {
       return baseDeclHasActionAttributeImpl(
           protocol->lookupMethod(decl->getSelector(), decl->isInstanceMethod()), action, rule, comment);
    }
    return objCMethodDeclHasAttributeFromCategory(decl, action, rule, comment);
}''')]),
 ('ah-cat-range', [S(AH, '''    for(auto it = interface->visible_categories_begin(),
             ite = interface->visible_categories_end();
             it != ite;
             ++it) {
        clang::ObjCMethodDecl* categoryMethodDecl =
            (*it)->getMethod(decl->getSelector(), decl->isInstanceMethod());''', '''    for(const auto *category : interface->visible_categories()) {
        clang::ObjCMethodDecl* categoryMethodDecl =
            category->getMethod(decl->getSelector(), decl->isInstanceMethod());''')]),
 ('ah-cat-hoist', [S(AH, '''    for(auto it = interface->visible_categories_begin(),
             ite = interface->visible_categories_end();
             it != ite;
             ++it) {
        clang::ObjCMethodDecl* categoryMethodDecl =
            (*it)->getMethod(decl->getSelector(), decl->isInstanceMethod());
        if(''', '''    const clang::Selector selector = decl->getSelector();
    const bool isInstance = decl->isInstanceMethod();
    for(auto it = interface->visible_categories_begin();
             it != interface->visible_categories_end();
             ++it) {
        const auto *category = *it;
        const clang::ObjCMethodDecl* categoryMethodDecl = category->getMethod(selector, isInstance);
        if(''')]),
 ('sh-parents-flat', [F(SH, 'bool markedParentsAsSuppress(', '''bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::RuleBase *rule)
{
    clang::DynTypedNodeList parents = context.getParents(node);
    if (parents.empty())
    {
        return false;
    }

    const clang::DynTypedNode &parent = *parents.begin();
    if (const clang::Decl *aDecl = parent.get<clang::Decl>())
    {
        return markedAsSuppress(aDecl, rule) || markedParentsAsSuppress(*aDecl, context, rule);
    }
    if (const clang::Stmt *aStmt = parent.get<clang::Stmt>())
    {
        return markedParentsAsSuppress(*aStmt, context, rule);
    }
    return false;
}''')]),
 ('sh-collect-range', [S(SH, '''        for (clang::DeclContext::decl_iterator declIt = decl->decls_begin(),
            declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
        {
            clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
            if (startLocation.isValid() &&
                _sourceManager->getMainFileID() == _sourceManager->getFileID(startLocation))
            {
                (void) /* explicitly ignore the return of this function */
                    clang::RecursiveASTVisitor<DeclAnnotationRangeCollector>::TraverseDecl(*declIt);
            }
        }
''', '''        const clang::FileID mainFile = _sourceManager->getMainFileID();
        for (clang::Decl *topLevelDecl : decl->decls())
        {
            const clang::SourceLocation startLocation = topLevelDecl->getBeginLoc();
            if (startLocation.isInvalid() || _sourceManager->getFileID(startLocation) != mainFile)
            {
                continue;
            }
            (void) TraverseDecl(topLevelDecl);
        }
''')]),
 ('sh-visit-early', [F(SH, 'bool VisitDecl(', '''bool VisitDecl(clang::Decl *decl)
    {
        if (!markedAsSuppress(decl, _rule))
        {
            return true;
        }
        _range.emplace(_sourceManager->getPresumedLineNumber(decl->getBeginLoc()),
            _sourceManager->getPresumedLineNumber(decl->getEndLoc()));
        return true;
    }''')]),
 ('sh-range-helper', [S(SH, '''    for (const auto& range : commentRanges)
    {
        if (beginLine >= range.first && beginLine <= range.second)
        {
            return true;
        }
    }

    return false;
}''', '''    return std::any_of(commentRanges.begin(), commentRanges.end(),
        [beginLine](const std::pair<int, int> &range)
        {
            return range.first <= beginLine && beginLine <= range.second;
        });
}'''), S(SH, '#include <unordered_map>', '#include <algorithm>\n#include <unordered_map>')]),
 ('sh-range-cache', [F(SH, 'bool rangeBasedShouldSuppress(', '''static const RangeSet &suppressedRanges(clang::ASTContext &context, oclint::RuleBase *rule)
{
    auto rangeKey = std::make_pair(getMainFilePath(context), rule);
    auto commentRangesIt = rangeMapping.find(rangeKey);
    if (commentRangesIt != rangeMapping.end())
    {
        return commentRangesIt->second;
    }
    DeclAnnotationRangeCollector annotationCollector;
    rangeMapping[rangeKey] = annotationCollector.collect(context, rule);
    return rangeMapping[rangeKey];
}

bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
{
    for (const auto& range : suppressedRanges(context, rule))
    {
        if (range.first <= beginLine && range.second >= beginLine)
        {
            return true;
        }
    }
    return false;
}''')]),
 ('sh-line-helper', [S(SH, '''bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
{
    std::string filePath = getMainFilePath(context);
    auto commentLinesIt = singleLineMapping.find(filePath);
    std::set<int> commentLines;
    if (commentLinesIt == singleLineMapping.end())
    {
''', '''static std::set<int> collectCommentLines(clang::ASTContext &context)
{
        std::set<int> commentLines;
'''), S(SH, '''        singleLineMapping[filePath] = commentLines;
    }
    else
    {
        commentLines = commentLinesIt->second;
    }

    return commentLines.find(beginLine) != commentLines.end();
}''', '''        return commentLines;
}

bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
{
    const std::string filePath = getMainFilePath(context);
    auto commentLinesIt = singleLineMapping.find(filePath);
    if (commentLinesIt == singleLineMapping.end())
    {
        commentLinesIt = singleLineMapping.emplace(filePath, collectCommentLines(context)).first;
    }
    return commentLinesIt->second.count(beginLine) > 0;
}''')]),
 ('au-super-flat', [F(AU, 'bool isObjCMethodDeclaredInSuperClass(', '''bool isObjCMethodDeclaredInSuperClass(clang::ObjCMethodDecl *decl)
{
    if (!decl || isObjCMethodDeclLocatedInInterfaceContainer(decl))
    {
        return false;
    }
    clang::ObjCInterfaceDecl *interfaceDecl = decl->getClassInterface();
    if (!interfaceDecl)
    {
        return false;
    }
    clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass();
    return superInterface != nullptr &&
        superInterface->lookupInstanceMethod(decl->getSelector()) != nullptr;
}''')]),
 ('au-proto-range', [S(AU, '''        for (clang::ObjCProtocolList::iterator protocol = interfaceDecl->protocol_begin(),
            protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
        {
            clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
''', '''        for (clang::ObjCProtocolDecl *protocolDecl : interfaceDecl->protocols())
        {
''')]),
 ('au-isa-multi', [F(AU, 'bool isObjCMethodDeclLocatedInInterfaceContainer(', '''bool isObjCMethodDeclLocatedInInterfaceContainer(clang::ObjCMethodDecl *decl)
{
    if (!decl)
    {
        return false;
    }
    const clang::DeclContext *context = decl->getDeclContext();
    return context != nullptr &&
        clang::isa<clang::ObjCInterfaceDecl, clang::ObjCProtocolDecl, clang::ObjCCategoryDecl>(context);
}''')]),
 ('rf-keep-helper', [F(RF, 'std::vector<RuleBase *> RulesetFilter::filteredRules()', '''std::vector<RuleBase *> RulesetFilter::filteredRules() const
{
    std::vector<RuleBase *> rules;
    const int numRules = oclint::RuleSet::numberOfRules();
    for (int index = 0; index < numRules; ++index)
    {
        RuleBase *rule = oclint::RuleSet::getRuleAtIndex(index);
        const std::string name = getName(rule);
        const bool enabled = _enabled.empty() || _enabled.count(name) != 0;
        const bool disabled = _disabled.count(name) != 0;
        if (enabled && !disabled)
        {
            rules.push_back(rule);
        }
    }
    return rules;
}'''), F(RF, 'void RulesetFilter::enableRule(', '''void RulesetFilter::enableRule(const std::string &ruleName)
{
    _disabled.erase(ruleName);
    _enabled.insert(ruleName);
}''')]),
 ('rf-names-loop', [F(RF, 'std::vector<std::string> RulesetFilter::filteredRuleNames()', '''std::vector<std::string> RulesetFilter::filteredRuleNames() const
{
    std::vector<std::string> names;
    for (const RuleBase *rule : filteredRules())
    {
        names.push_back(rule->identifier());
    }
    return names;
}''')]),
 ('rf-continue', [S(RF, '''        if ((_enabled.empty() || find(_enabled.begin(), _enabled.end(), name) != _enabled.end()) &&
            find(_disabled.begin(), _disabled.end(), name) == _disabled.end())
        {
            filteredRules.push_back(rule);
        }''', '''        if (_disabled.find(name) != _disabled.end())
        {
            continue;
        }
        if (!_enabled.empty() && _enabled.find(name) == _enabled.end())
        {
            continue;
        }
        filteredRules.push_back(rule);''')]),
 ('main-threshold-loop', [F(MA, 'bool numberOfViolationsExceedThreshold(', '''bool numberOfViolationsExceedThreshold(oclint::Results *results)
{
    const int limits[] = { oclint::option::maxP1(), oclint::option::maxP2(), oclint::option::maxP3() };
    for (int priority = 1; priority <= 3; priority++)
    {
        if (results->numberOfViolationsWithPriority(priority) > limits[priority - 1])
        {
            return true;
        }
    }
    return false;
}''')]),
 ('main-threshold-helper', [F(MA, 'bool numberOfViolationsExceedThreshold(', '''static bool exceeds(const oclint::Results &results, int priority, int limit)
{
    return results.numberOfViolationsWithPriority(priority) > limit;
}

bool numberOfViolationsExceedThreshold(oclint::Results *results)
{
    return exceeds(*results, 1, oclint::option::maxP1())
        || exceeds(*results, 2, oclint::option::maxP2())
        || exceeds(*results, 3, oclint::option::maxP3());
}''')]),
 ('main-print-helper', [F(MA, 'void printViolationsExceedThresholdError(', '''static void printCount(const oclint::Results *results, int priority, int limit)
{
    cerr << "P" << priority << "=" << results->numberOfViolationsWithPriority(priority)
        << "[" << limit << "] ";
}

void printViolationsExceedThresholdError(const oclint::Results *results)
{
    printErrorLine("violations exceed threshold");
    printCount(results, 1, oclint::option::maxP1());
    printCount(results, 2, oclint::option::maxP2());
    printCount(results, 3, oclint::option::maxP3());
    cerr << endl;
}''')]),
 ('main-results-make', [F(MA, 'std::unique_ptr<oclint::Results> getResults()', '''std::unique_ptr<oclint::Results> getResults()
{
    const oclint::ResultCollector &collector = *oclint::ResultCollector::getInstance();
    if (oclint::option::allowDuplicatedViolations())
    {
        return std::make_unique<oclint::RawResults>(collector);
    }
    return std::make_unique<oclint::UniqueResults>(collector);
}''')]),
 ('main-report-helper', [S(MA, '''    try
    {
        ostream *out = outStream();
        reporter()->report(results.get(), *out);
        disposeOutStream(out);
    }
    catch (const exception& e)
    {
        printErrorLine(e.what());
        return ERROR_WHILE_REPORTING;
    }

    return handleExit(results.get());
}''', '''    const int reportStatus = writeReport(results.get());
    if (reportStatus != SUCCESS)
    {
        return reportStatus;
    }
    return handleExit(results.get());
}'''), S(MA, '''int main(int argc''', '''static int writeReport(oclint::Results *results)
{
    try
    {
        ostream *out = outStream();
        reporter()->report(results, *out);
        disposeOutStream(out);
    }
    catch (const exception& e)
    {
        printErrorLine(e.what());
        return ERROR_WHILE_REPORTING;
    }
    return SUCCESS;
}

int main(int argc''')]),
 ('main-dispose-flat', [F(MA, 'void disposeOutStream(', '''void disposeOutStream(ostream* out)
{
    if (out == nullptr)
    {
        return;
    }
    if (oclint::option::hasOutputPath())
    {
        static_cast<ofstream *>(out)->close();
    }
    else
    {
        out->flush();
    }
    if (out->fail())
    {
        throw oclint::GenericException("cannot write the report completely");
    }
}''')]),
 ('main-handle-else', [F(MA, 'int handleExit(', '''int handleExit(oclint::Results *results)
{
    int exitCode = SUCCESS;
    if (results->hasErrors())
    {
        exitCode = COMPILATION_ERRORS;
    }
    else if (numberOfViolationsExceedThreshold(results))
    {
        printViolationsExceedThresholdError(results);
        exitCode = VIOLATIONS_EXCEED_THRESHOLD;
    }
    return exitCode;
}''')]),
 ('rp-load-early', [S(RP, '''            if (dirp->d_name[0] == '.')
            {
                continue;
            }
            std::string reporterPath = reportDirPath + "/" + std::string(dirp->d_name);''', '''            const std::string fileName(dirp->d_name);
            if (fileName[0] == '.')
            {
                continue;
            }
            const std::string reporterPath = reportDirPath + "/" + fileName;''')]),
 ('rp-open-helper', [S(RP, '''            void *reporterHandle = dlopen(reporterPath.c_str(), RTLD_LAZY);
            if (reporterHandle == nullptr)
            {
                std::cerr << dlerror() << std::endl;
                closedir(pDir);
                throw oclint::GenericException("cannot open dynamic library: " + reporterPath);
            }
            oclint::Reporter* (*createMethodPointer)();
            createMethodPointer = (oclint::Reporter* (*)())dlsym(reporterHandle, "create");
            if (createMethodPointer == nullptr)
            {
                std::cerr << dlerror() << std::endl;
                closedir(pDir);
                throw oclint::GenericException("cannot find reporter in library: " + reporterPath);
            }
            oclint::Reporter* reporter = (oclint::Reporter*)createMethodPointer();
''', '''            void *reporterHandle = dlopen(reporterPath.c_str(), RTLD_LAZY);
            if (!reporterHandle)
            {
                std::cerr << dlerror() << std::endl;
                closedir(pDir);
                throw oclint::GenericException("cannot open dynamic library: " + reporterPath);
            }
            auto createMethod = createMethodOf(reporterHandle);
            if (!createMethod)
            {
                std::cerr << dlerror() << std::endl;
                closedir(pDir);
                throw oclint::GenericException("cannot find reporter in library: " + reporterPath);
            }
            oclint::Reporter* reporter = createMethod();
'''), S(RP, 'void loadReporter()', '''typedef oclint::Reporter* (*CreateMethod)();

static CreateMethod createMethodOf(void *handle)
{
    return (CreateMethod)dlsym(handle, "create");
}

void loadReporter()''')]),
 ('ru-early-dir', [F(RU, 'void dynamicLoadRules(', '''void dynamicLoadRules(std::string ruleDirPath)
{
    DIR *pDir = opendir(ruleDirPath.c_str());
    if (!pDir)
    {
        return;
    }
    for (struct dirent *dirp = readdir(pDir); dirp != nullptr; dirp = readdir(pDir))
    {
        if (dirp->d_name[0] != '.')
        {
            const std::string rulePath = ruleDirPath + "/" + std::string(dirp->d_name);
            if (!dlopen(rulePath.c_str(), RTLD_LAZY))
            {
                std::cerr << dlerror() << std::endl;
                closedir(pDir);
                throw oclint::GenericException("cannot open dynamic library: " + rulePath);
            }
        }
    }
    closedir(pDir);
}''')]),
 ('ar-prio-countif', [F(AR, 'int AbstractResults::numberOfViolationsWithPriority(', '''int AbstractResults::numberOfViolationsWithPriority(int priority) const
{
    const std::vector<Violation> violations = allViolations();
    return std::count_if(violations.begin(), violations.end(),
        [priority](const Violation &violation)
        {
            return violation.rule->priority() == priority;
        });
}'''), S(AR, '#include <map>', '#include <algorithm>\n#include <map>')]),
 ('ar-files-skip', [F(AR, 'int AbstractResults::numberOfFilesWithViolations(', '''int AbstractResults::numberOfFilesWithViolations() const
{
    std::map<std::string, int> violationsMapping;
    for (const auto& violationSet : _resultCollector.getCollection())
    {
        const int count = violationSet->numberOfViolations();
        if (count <= 0)
        {
            continue;
        }
        const std::string &filePath = violationSet->getViolations().front().path;
        violationsMapping[filePath] += count;
    }
    return static_cast<int>(violationsMapping.size());
}''')]),
 ('ar-has-empty', [F(AR, 'bool AbstractResults::hasErrors(', '''bool AbstractResults::hasErrors() const
{
    return !allErrors().empty();
}'''), F(AR, 'bool AbstractResults::hasWarnings(', '''bool AbstractResults::hasWarnings() const
{
    return numberOfWarnings() != 0;
}''')]),
 ('rc-static-local', [F(RC, 'ResultCollector* ResultCollector::getInstance()', '''ResultCollector* ResultCollector::getInstance()
{
    if (!_singleton)
    {
        auto collector = new ResultCollector();
        _singleton = collector;
    }
    return _singleton;
}'''), F(RC, 'void ResultCollector::addError(', '''void ResultCollector::addError(const Violation& violation)
{
    ViolationSet *errors = getCompilerErrorSet();
    errors->addViolation(violation);
}''')]),
]
