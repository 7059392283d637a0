"""More behaviour-preserving edits, written function by function (driver, metrics, core)."""
import os
R = os.environ.get('CASES_REPO', '/repo')
OP, DR, CF = ['oclint-driver/lib/%s.cpp' % x for x in ('Options', 'Driver', 'ConfigFile')]
CC, NC, NP, SD = ['oclint-metrics/lib/%sMetric.cpp' % x for x in ('CyclomaticComplexity', 'Ncss', 'NPathComplexity', 'StmtDepth')]
RB, VS, VI, RS = ['oclint-core/lib/%s.cpp' % x for x in ('RuleBase', 'ViolationSet', 'Violation', 'RuleSet')]


def F(path, sig, new):
    """Replace the whole definition that starts with sig."""
    t = open(os.path.join(R, path)).read()
    assert t.count(sig) == 1, (path, sig, t.count(sig))
    i = t.index(sig)
    j = t.index('{', i)
    d = 0
    while True:
        if t[j] == '{':
            d += 1
        elif t[j] == '}':
            d -= 1
            if d == 0:
                break
        j += 1
    return (path, t[i:j + 1], new)


def S(path, old, new):
    return (path, old, new)


CASES = [
 ('op-update-local', [F(OP, 'void updateArgIfSet(', '''void updateArgIfSet(llvm::cl::opt<T> &argValue, const std::optional<T> &configValue)
{
    if (!configValue)
    {
        return;
    }
    const bool givenOnCommandLine = argValue.getNumOccurrences() != 0;
    if (givenOnCommandLine)
    {
        return;
    }
    argValue.setValue(*configValue);
}''')]),
 ('op-config-paths-init', [F(OP, 'static std::vector<std::string> configFilePaths()', '''static std::vector<std::string> configFilePaths()
{
    std::vector<std::string> paths { oclint::option::etcPath() + "/oclint" };
    const std::string home = oclint::option::homePath();
    if (!home.empty())
    {
        paths.emplace_back(home + "/.oclint");
    }
    paths.emplace_back(oclint::option::workingPath() + "/.oclint");
    return paths;
}''')]),
 ('op-process-config-direct', [S(OP, '''    std::vector<std::string> enableRules;
    for (auto rule : config.rules())
    {
        enableRules.push_back(rule);
    }
    filter.enableRules(enableRules.begin(), enableRules.end());
    std::vector<std::string> disableRules;
    for (auto rule : config.disableRules())
    {
        disableRules.push_back(rule);
    }
    filter.disableRules(disableRules.begin(), disableRules.end());
''', '''    const auto &enableRules = config.rules();
    filter.enableRules(enableRules.begin(), enableRules.end());
    const auto &disableRules = config.disableRules();
    filter.disableRules(disableRules.begin(), disableRules.end());
''')]),
 ('op-process-config-split', [F(OP, 'static void processConfigFile(const', '''static void applyRuleSelection(const oclint::option::ConfigFile &config)
{
    std::vector<std::string> enableRules(config.rules().begin(), config.rules().end());
    filter.enableRules(enableRules.begin(), enableRules.end());
    std::vector<std::string> disableRules(config.disableRules().begin(), config.disableRules().end());
    filter.disableRules(disableRules.begin(), disableRules.end());
}

static void applyArgs(const oclint::option::ConfigFile &config)
{
    updateArgIfSet(argOutput, config.output());
    updateArgIfSet(argReportType, config.reportType());
    updateArgIfSet(argMaxP1, config.maxP1());
    updateArgIfSet(argMaxP2, config.maxP2());
    updateArgIfSet(argMaxP3, config.maxP3());
    updateArgIfSet(argClangChecker, config.clangChecker());
    updateArgIfSet(argDuplications, config.allowDuplicatedViolations());
    updateArgIfSet(argGlobalAnalysis, config.enableGlobalAnalysis());
}

static void processConfigFile(const std::string &path)
{
    const oclint::option::ConfigFile config(path);
    for (const auto &ruleConfig : config.ruleConfigurations())
    {
        consumeRuleConfiguration(ruleConfig.key(), ruleConfig.value());
    }
    for (const auto &rulePath : config.rulePaths())
    {
        argRulesPath.push_back(rulePath);
    }
    applyRuleSelection(config);
    applyArgs(config);
}''')]),
 ('op-config-files-range', [F(OP, 'static void processConfigFiles()', '''static void processConfigFiles()
{
    for (const auto &path : configFilePaths())
    {
        processConfigFile(path);
    }
}''')]),
 ('op-rc-helper', [F(OP, 'void oclint::option::process(', '''static void processRuleConfigurationArgument(const std::string &configuration)
{
    const int indexOfSeparator = configuration.find_last_of("=");
    consumeRuleConfiguration(configuration.substr(0, indexOfSeparator),
        configuration.substr(indexOfSeparator + 1));
}

void oclint::option::process(const char *argv)
{
    preserveWorkingPath();
    preserveExecutablePath(argv);

    processConfigFiles();
    for (const auto &configuration : argRuleConfiguration)
    {
        processRuleConfigurationArgument(configuration);
    }

    filter.enableRules(argEnabledRules.begin(), argEnabledRules.end());
    filter.disableRules(argDisabledRules.begin(), argDisabledRules.end());
}''')]),
 ('op-rc-rfind', [S(OP, '''configuration.find_last_of("=")''', '''configuration.rfind('=')''')]),
 ('op-rulespath-ternary', [F(OP, 'std::vector<std::string> oclint::option::rulesPath()', '''std::vector<std::string> oclint::option::rulesPath()
{
    if (argRulesPath.empty())
    {
        return { libPath() + "/oclint/rules" };
    }
    return argRulesPath;
}''')]),
 ('op-output-if', [F(OP, 'std::string oclint::option::outputPath()', '''std::string oclint::option::outputPath()
{
    const bool isAbsolute = argOutput.at(0) == '/';
    if (isAbsolute)
    {
        return argOutput;
    }
    return workingPath() + "/" + argOutput;
}''')]),
 ('op-home-if', [F(OP, 'std::string oclint::option::homePath()', '''std::string oclint::option::homePath()
{
    const char *home = getenv("HOME");
    if (home == nullptr)
    {
        return "";
    }
    return home;
}''')]),
 ('op-cwd-invert', [F(OP, 'static void preserveWorkingPath()', '''static void preserveWorkingPath()
{
    char buffer[PATH_MAX];
    if (getcwd(buffer, PATH_MAX) == nullptr)
    {
        return;
    }
    absoluteWorkingPath = buffer;
}''')]),
 ('op-exec-early', [F(OP, 'static void preserveExecutablePath(', '''static void resolveProgram(llvm::SmallString<128> &path)
{
    auto found = llvm::sys::findProgramByName(llvm::sys::path::filename(path.str()));
    if (found)
    {
        path = *found;
    }
}

static void preserveExecutablePath(const char *argv)
{
    llvm::SmallString<128> installedPath(argv);
    const bool hasNoDirectory = llvm::sys::path::filename(installedPath) == installedPath;
    if (hasNoDirectory)
    {
        resolveProgram(installedPath);
    }
    llvm::sys::fs::make_absolute(installedPath);
    executablePath = llvm::sys::path::parent_path(installedPath).str();
}''')]),
 ('dr-run-swap', [F(DR, 'void Driver::run(', '''static void invokeEach(CompileCommandPairs &compileCommands,
    std::string &mainExecutable, oclint::Analyzer &analyzer)
{
    for (auto &compileCommand : compileCommands)
    {
        CompileCommandPairs oneCompileCommand { compileCommand };
        invoke(oneCompileCommand, mainExecutable, analyzer);
    }
}

void Driver::run(const clang::tooling::CompilationDatabase &compilationDatabase,
    llvm::ArrayRef<std::string> sourcePaths, oclint::Analyzer &analyzer)
{
    CompileCommandPairs compileCommands;
    constructCompileCommands(compileCommands, compilationDatabase, sourcePaths);

    static int staticSymbol;
    std::string mainExecutable = llvm::sys::fs::getMainExecutable("oclint", &staticSymbol);

    if (!option::enableGlobalAnalysis())
    {
        invokeEach(compileCommands, mainExecutable, analyzer);
    }
    else
    {
        invoke(compileCommands, mainExecutable, analyzer);
    }

    if (!option::enableClangChecker())
    {
        return;
    }
    invokeClangStaticAnalyzer(compileCommands, mainExecutable);
}''')]),
 ('dr-invoke-release', [F(DR, 'static void invoke(CompileCommandPairs', '''static void releaseCompilers(const std::vector<oclint::CompilerInstance *> &compilers)
{
    for (auto *compiler : compilers)
    {
        compiler->end();
        delete compiler;
    }
}

static void invoke(CompileCommandPairs &compileCommands,
    std::string &mainExecutable, oclint::Analyzer &analyzer)
{
    std::vector<oclint::CompilerInstance *> compilers;
    constructCompilers(compilers, compileCommands, mainExecutable);

    std::vector<clang::ASTContext *> localContexts;
    localContexts.reserve(compilers.size());
    for (auto compiler : compilers)
    {
        localContexts.push_back(&compiler->getASTContext());
    }

    analyzer.preprocess(localContexts);
    analyzer.analyze(localContexts);
    analyzer.postprocess(localContexts);

    releaseCompilers(compilers);
}''')]),
 ('dr-chdir-helper', [F(DR, 'static void constructCompilers(', '''static void changeDirectory(const std::string &directory)
{
    std::string targetDir = stringReplace(directory, "\\\\ ", " ");
    if (chdir(targetDir.c_str()) != 0)
    {
        throw oclint::GenericException("Cannot change dictionary into \\"" + targetDir +
            "\\", please make sure the directory exists and you have permission to access!");
    }
}

static void constructCompilers(std::vector<oclint::CompilerInstance *> &compilers,
    CompileCommandPairs &compileCommands,
    std::string &mainExecutable)
{
    for (auto &compileCommand : compileCommands)
    {
        std::vector<std::string> adjustedCmdLine =
            adjustArguments(compileCommand.second.CommandLine, compileCommand.first);

#ifndef NDEBUG
        printCompileCommandDebugInfo(compileCommand, adjustedCmdLine);
#endif

        LOG_VERBOSE("Compiling ");
        LOG_VERBOSE(compileCommand.first.c_str());
        LOG_VERBOSE_LINE(" ...");
        changeDirectory(compileCommand.second.Directory);

        clang::CompilerInvocation *compilerInvocation =
            newCompilerInvocation(mainExecutable, adjustedCmdLine);
        oclint::CompilerInstance *compiler = newCompilerInstance(compilerInvocation);

        compiler->start();
        const bool failed = compiler->getDiagnostics().hasErrorOccurred() || !compiler->hasASTContext();
        if (failed)
        {
            LOG_VERBOSE(" - Failed");
        }
        else
        {
            LOG_VERBOSE(" - Success");
            compilers.push_back(compiler);
        }
        LOG_VERBOSE_LINE("");
    }
}''')]),
 ('dr-construct-cmds-else', [F(DR, 'static void constructCompileCommands(', '''static void constructCompileCommands(
    CompileCommandPairs &compileCommands,
    const clang::tooling::CompilationDatabase &compilationDatabase,
    llvm::ArrayRef<std::string> sourcePaths)
{
    for (const auto &sourcePath : sourcePaths)
    {
        const std::string filePath = clang::tooling::getAbsolutePath(sourcePath);
        const auto commands = compilationDatabase.getCompileCommands(filePath);
        if (commands.empty())
        {
            llvm::errs() << "Skipping " << filePath << ". Compile command not found.\\n";
        }
        for (const auto &command : commands)
        {
            compileCommands.emplace_back(filePath, command);
        }
    }
}''')]),
 ('dr-cc1-anyof', [F(DR, 'static const llvm::opt::ArgStringList *getCC1Arguments(', '''static bool isOffloadCompilation(clang::driver::Compilation *compilation)
{
    auto actions = compilation->getActions();
    for (auto action : actions)
    {
        if (llvm::isa<clang::driver::OffloadAction>(action))
        {
            assert(actions.size() > 1);
            return true;
        }
    }
    return false;
}

static const llvm::opt::ArgStringList *getCC1Arguments(clang::driver::Compilation *compilation)
{
    const clang::driver::JobList &jobList = compilation->getJobs();

    auto jobSize = jobList.size();

    if (jobSize == 0)
    {
        throw oclint::GenericException("compilation contains no job:\\n" +
            compilationJobsToString(jobList) + "\\n");
    }

    if (jobSize > 1 && !isOffloadCompilation(compilation))
    {
        throw oclint::GenericException("compilation contains multiple jobs:\\n" +
            compilationJobsToString(jobList) + "\\n");
    }

    if (!clang::isa<clang::driver::Command>(*jobList.begin()))
    {
        throw oclint::GenericException("compilation job does not contain correct command:\\n" +
            compilationJobsToString(jobList) + "\\n");
    }

    const clang::driver::Command &cmd = clang::cast<clang::driver::Command>(*jobList.begin());
    if (llvm::StringRef(cmd.getCreator().getName()) != "clang")
    {
        throw oclint::GenericException("expected a command for clang compiler");
    }

    return &cmd.getArguments();
}''')]),
 ('dr-replace-for', [F(DR, 'std::string stringReplace(', '''std::string stringReplace(std::string orig, std::string oldStr, std::string newStr)
{
    for (auto pos = orig.find(oldStr); pos != std::string::npos;
        pos = orig.find(oldStr, pos + newStr.length()))
    {
        orig.replace(pos, oldStr.length(), newStr);
    }
    return orig;
}''')]),
 ('dr-adjust-split', [F(DR, 'static std::vector<std::string> adjustArguments(', '''static std::vector<std::string> adjustArguments(std::vector<std::string> &unadjustedCmdLine,
	const std::string& filename)
{
    auto stripOutput = clang::tooling::getClangStripOutputAdjuster();
    auto syntaxOnly = clang::tooling::getClangSyntaxOnlyAdjuster();
    auto argAdjuster = clang::tooling::combineAdjusters(stripOutput, syntaxOnly);
    return argAdjuster(unadjustedCmdLine, filename);
}''')]),
 ('dr-invocation-args', [S(DR, '''    for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
    {
        if (commandLine[cmdIndex] != "-gmodules")
        {
            argv.push_back(commandLine[cmdIndex].c_str());
        }
    }
''', '''    for (int cmdIndex = start; cmdIndex < end; ++cmdIndex)
    {
        const std::string &argument = commandLine[cmdIndex];
        if (argument == "-gmodules")
        {
            continue;
        }
        argv.push_back(argument.c_str());
    }
''')]),
 ('cf-empty-helper', [S(CF, '''        const llvm::StringRef &content = buffer.get()->getBuffer();

        const std::string whitespace(" \\t\\f\\v\\n\\r");
        if (content.str().find_last_not_of(whitespace) == std::string::npos) {''', '''        const llvm::StringRef content = buffer.get()->getBuffer();

        if (isBlank(content.str())) {'''), S(CF, '''oclint::option::ConfigFile::ConfigFile(const std::string &path)
''', '''static bool isBlank(const std::string &text)
{
    const std::string whitespace(" \\t\\f\\v\\n\\r");
    return text.find_last_not_of(whitespace) == std::string::npos;
}

oclint::option::ConfigFile::ConfigFile(const std::string &path)
''')]),
 ('cf-opt-if', [F(CF, 'static std::optional<int> createOptionalInt(', '''static std::optional<int> createOptionalInt(int value)
{
    if (value != INT_MIN)
    {
        return value;
    }
    return std::nullopt;
}'''), F(CF, 'static std::optional<std::string> createOptionalString(', '''static std::optional<std::string> createOptionalString(const std::string &value)
{
    if (value.empty())
    {
        return std::nullopt;
    }
    return std::optional<std::string>(value);
}''')]),
 ('cf-bool-ifs', [F(CF, 'static std::optional<bool> createOptionalBool(', '''static std::optional<bool> createOptionalBool(const TriState value)
{
    if (value == TRUE)
    {
        return true;
    }
    if (value == FALSE)
    {
        return false;
    }
    return std::nullopt;
}''')]),
 ('cf-mapping-order', [S(CF, '''    inputOutput.mapOptional("max-priority-1", _maxP1);
    inputOutput.mapOptional("max-priority-2", _maxP2);
    inputOutput.mapOptional("max-priority-3", _maxP3);
''', '''    inputOutput.mapOptional("max-priority-3", _maxP3);
    inputOutput.mapOptional("max-priority-2", _maxP2);
    inputOutput.mapOptional("max-priority-1", _maxP1);
''')]),
 ('cc-helper', [F(CC, 'bool CyclomaticComplexityMetric::VisitBinaryOperator', '''bool CyclomaticComplexityMetric::VisitBinaryOperator(clang::BinaryOperator *binaryOperator)
{
    if (binaryOperator->isLogicalOp())
    {
        ++_count;
    }
    return true;
}''')]),
 ('cc-switch', [F(CC, 'bool CyclomaticComplexityMetric::VisitBinaryOperator', '''bool CyclomaticComplexityMetric::VisitBinaryOperator(clang::BinaryOperator *binaryOperator)
{
    switch (binaryOperator->getOpcode())
    {
    case clang::BO_LAnd:
    case clang::BO_LOr:
        _count += 1;
        break;
    default:
        break;
    }
    return true;
}''')]),
 ('cc-start-one', [F(CC, 'int CyclomaticComplexityMetric::calculate(', '''int CyclomaticComplexityMetric::calculate(clang::Decl *decl)
{
    _count = 1;
    TraverseDecl(decl);
    return _count;
}''')]),
 ('nc-range', [F(NC, 'int NcssMetric::ncss(clang::CompoundStmt', '''int NcssMetric::ncss(clang::CompoundStmt *stmt)
{
    int sumOfNcss = 0;
    for (clang::Stmt *child : stmt->body())
    {
        sumOfNcss += ncss(child);
    }
    return sumOfNcss;
}''')]),
 ('nc-if-early', [F(NC, 'int NcssMetric::ncss(clang::IfStmt', '''int NcssMetric::ncss(clang::IfStmt *stmt)
{
    int result = 1 + ncss(stmt->getThen());
    if (clang::Stmt *elseStmt = stmt->getElse())
    {
        result += 1 + ncss(elseStmt);
    }
    return result;
}''')]),
 ('nc-try-single-acc', [F(NC, 'int NcssMetric::ncss(clang::CXXTryStmt', '''int NcssMetric::ncss(clang::CXXTryStmt *stmt)
{
    int total = 1 + ncss(stmt->getTryBlock());
    for (unsigned i = 0, handlers = stmt->getNumHandlers(); i < handlers; i++)
    {
        total += ncss(stmt->getHandler(i));
    }
    return total;
}''')]),
 ('nc-count-invert', [F(NC, 'extern "C" int getNcssCount(', '''extern "C" int getNcssCount(clang::Decl *decl)
{
    if (!decl->hasBody())
    {
        return 0;
    }
    return 1 + NcssMetric().ncss(decl->getBody());
}''')]),
 ('np-range', [F(NP, 'int NPathComplexityMetric::nPath(clang::CompoundStmt', '''int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
{
    int npath = 1;
    for (auto *child : stmt->body())
    {
        npath = limit(1LL * npath * nPath(child));
    }
    return npath;
}''')]),
 ('np-if-ternary', [F(NP, 'int NPathComplexityMetric::nPath(clang::IfStmt', '''int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
{
    clang::Stmt *elseStmt = stmt->getElse();
    const int nPathElseStmt = elseStmt ? nPath(elseStmt) : 1;
    return limit(0LL + nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt);
}''')]),
 ('np-switch-dyncast', [F(NP, 'int NPathComplexityMetric::nPath(clang::SwitchStmt', '''int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
{
    int internalNPath = 0;
    int nPathSwitchStmt = nPath(stmt->getCond());
    clang::Stmt *body = stmt->getBody();
    clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
    if (!compound)
    {
        return limit(0LL + nPathSwitchStmt + nPath(body));
    }
    for (clang::Stmt *child : compound->body())
    {
        if (!clang::isa<clang::SwitchCase>(child))
        {
            internalNPath = limit(1LL * internalNPath * nPath(child));
            continue;
        }
        nPathSwitchStmt = limit(0LL + nPathSwitchStmt + internalNPath);
        internalNPath = nPath(child);
    }
    return limit(0LL + nPathSwitchStmt + internalNPath);
}''')]),
 ('np-binary-invert', [F(NP, 'int NPathComplexityMetric::nPath(clang::BinaryOperator', '''int NPathComplexityMetric::nPath(clang::BinaryOperator *expr)
{
    if (!expr->isLogicalOp())
    {
        return 0;
    }
    const int lhs = nPath(expr->getLHS());
    const int rhs = nPath(expr->getRHS());
    return limit(1LL + lhs + rhs);
}''')]),
 ('np-limit-min', [(NP, 'static int limit(long long npath)\n{\n    return npath < INT_MAX ? static_cast<int>(npath) : INT_MAX;\n}',
  'static int limit(long long npath)\n{\n    return static_cast<int>(std::min<long long>(npath, INT_MAX));\n}'),
  (NP, '#include <climits>', '#include <algorithm>\n#include <climits>')]),
 ('np-limit-numeric', [(NP, 'static int limit(long long npath)\n{\n    return npath < INT_MAX ? static_cast<int>(npath) : INT_MAX;\n}',
  'static int limit(long long npath)\n{\n    const int most = std::numeric_limits<int>::max();\n    if (npath >= most)\n    {\n        return most;\n    }\n    return int(npath);\n}'),
  (NP, '#include <climits>', '#include <limits>')]),
 ('sd-max', [F(SD, 'int StmtDepthMetric::depth(clang::IfStmt', '''int StmtDepthMetric::depth(clang::IfStmt *stmt)
{
    clang::Stmt *elseStmt = stmt->getElse();
    return std::max(depth(stmt->getThen()), elseStmt ? depth(elseStmt) : 0);
}''')]),
 ('sd-compound-max', [F(SD, 'int StmtDepthMetric::depth(clang::CompoundStmt', '''int StmtDepthMetric::depth(clang::CompoundStmt *stmt)
{
    int maxDepth = 0;
    for (auto *child : stmt->body())
    {
        maxDepth = std::max(maxDepth, depth(child));
    }
    return maxDepth + 1;
}''')]),
 ('sd-try-ifelse', [F(SD, 'int StmtDepthMetric::depth(clang::ObjCAtTryStmt', '''int StmtDepthMetric::depth(clang::ObjCAtTryStmt *stmt)
{
    int maxDepth = depth(stmt->getTryBody());
    for (unsigned catchIndex = 0; catchIndex < stmt->getNumCatchStmts(); catchIndex++)
    {
        const int depthCatch = depth(stmt->getCatchStmt(catchIndex));
        maxDepth = depthCatch > maxDepth ? depthCatch : maxDepth;
    }

    if (clang::ObjCAtFinallyStmt *finallyStmt = stmt->getFinallyStmt())
    {
        maxDepth = std::max(maxDepth, depth(finallyStmt));
    }
    return maxDepth;
}''')]),
 ('rb-identifier-helper', [S(RB, '''    copy.erase(std::remove_if(copy.begin(), copy.end(),
               [](char eachChar){return !isalpha(eachChar);}), copy.end());
    return copy;''', '''    auto notAlpha = [](char eachChar) { return !isalpha(eachChar); };
    auto newEnd = std::remove_if(copy.begin(), copy.end(), notAlpha);
    copy.erase(newEnd, copy.end());
    return copy;''')]),
 ('rb-identifier-index', [S(RB, '''    for (std::string::iterator it = copy.begin() + 1; it != copy.end(); ++it)
    {
        if (!isalpha(*(it - 1)) && islower(*it))
        {
            *it = toupper(*it);
        }
    }
''', '''    for (size_t i = 1; i < copy.size(); ++i)
    {
        if (!isalpha(copy[i - 1]) && islower(copy[i]))
        {
            copy[i] = toupper(copy[i]);
        }
    }
''')]),
 ('vs-empty', [F(VS, 'int ViolationSet::numberOfViolations() const', '''int ViolationSet::numberOfViolations() const
{
    return static_cast<int>(getViolations().size());
}''')]),
 ('vi-init-list', [F(VI, 'Violation::Violation(RuleBase*', '''Violation::Violation(RuleBase* violatedRule, std::string violationFilePath,
                     int violationStartLine, int violationStartColumn,
                     int violationEndLine, int violationEndColumn,
                     std::string violationMessage)
    : rule(violatedRule), path(std::move(violationFilePath)),
      startLine(violationStartLine), startColumn(violationStartColumn),
      endLine(violationEndLine), endColumn(violationEndColumn),
      message(std::move(violationMessage))
{
}''')]),
 ('vi-eq-ifs', [F(VI, 'bool Violation::operator==(', '''bool Violation::operator==(const oclint::Violation &rhs) const
{
    if (rule != rhs.rule || path != rhs.path || message != rhs.message)
    {
        return false;
    }
    return startLine == rhs.startLine && startColumn == rhs.startColumn
        && endLine == rhs.endLine && endColumn == rhs.endColumn;
}''')]),
 ('vi-eq-tie', [F(VI, 'bool Violation::operator==(', '''bool Violation::operator==(const oclint::Violation &rhs) const
{
    return std::tie(rule, path, startLine, startColumn, endLine, endColumn, message) ==
        std::tie(rhs.rule, rhs.path, rhs.startLine, rhs.startColumn, rhs.endLine, rhs.endColumn, rhs.message);
}'''), S(VI, '''#include <utility>
''', '''#include <tuple>
#include <utility>
''')]),
 ('rs-init', [F(RS, 'RuleSet::RuleSet(RuleBase* rule)', '''static std::vector<RuleBase*> &allRules()
{
    if (!_rules)
    {
        _rules = new std::vector<RuleBase*>();
    }
    return *_rules;
}

RuleSet::RuleSet(RuleBase* rule)
{
    allRules().push_back(rule);
}''')]),
 ('rs-ternary', [F(RS, 'int RuleSet::numberOfRules()', '''int RuleSet::numberOfRules()
{
    if (!_rules)
    {
        return 0;
    }
    return _rules->size();
}'''), F(RS, 'RuleBase* RuleSet::getRuleAtIndex(', '''RuleBase* RuleSet::getRuleAtIndex(int index)
{
    return index < numberOfRules() ? _rules->at(index) : nullptr;
}''')]),
]
