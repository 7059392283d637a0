"""The properties: text, where each is anchored, and which functions' behaviour each one rests on.

`scope` is a list of (file regex, signature regex): the functions whose reviewed behaviour is an obligation of the
property.  `rules` names the hand-written rules of rules.py that decide the property (or a clause of it) directly.
"""

META = r'::(name|identifier|category|priority|description|since|attributeName|supportedLanguages|enableSuppress|additionalDocument|thresholds|fileName|example)\(\)$'
HOOKS = r'.'
NOTMETA = r'^(?!.*' + META + ')'

P = []


def prop(id, title, statement, over, text, why, files, mech, scope, rules=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                           'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]},
                  scope=scope, rules=list(rules)))


MAIN = r'oclint-driver/main\.cpp'
OPTS = r'oclint-driver/lib/Options\.cpp'
CONF = r'oclint-driver/lib/ConfigFile\.cpp'

prop('C01', 'Exit status tells truthfully how the run ended',
     'The exit status distinguishes the outcomes: success is reported only when no rule, reporter or command-line problem occurred, no compiler error was found and no priority exceeded its own limit. '
     'Each failure cause has its own documented non-zero status: rules not found, reporter not found, no input, error while processing, violations exceeding the threshold, compilation errors. '
     'A count equal to its limit is within the limit, the three priorities are judged independently, and compilation errors take effect whether or not thresholds are exceeded.',
     ['inputs', 'configurations', 'histories'],
     'Every combination of violation counts per priority, limits per priority, compiler error counts, loader failures and processing failures.',
     'No unit test links the entry point: nothing executes the exit path, the threshold comparison or the error handling at all.',
     ['oclint-driver/main.cpp', 'oclint-driver/include/oclint/ExitCode.h', 'oclint-core/lib/AbstractResults.cpp', 'oclint-driver/lib/Options.cpp'],
     [('main and its preparation steps', 'oclint-driver/main.cpp'), ('threshold comparison', 'oclint-driver/main.cpp numberOfViolationsExceedThreshold, handleExit'),
      ('status codes', 'oclint-driver/include/oclint/ExitCode.h')],
     [(MAIN, r'^(main|handleExit|numberOfViolationsExceedThreshold|prepare|printViolationsExceedThresholdError|consumeArgRulesPath|getResults|printErrorLine)\('), (MAIN, r'.'), (r'_dlfcn_port\.cpp', r'.'), (r'lib/Driver\.cpp', r'.'), (r'GenericException', r'.'), (r'DiagnosticDispatcher\.cpp', r'.'),
      (r'AbstractResults\.cpp', r'.'), (r'(Unique|Raw)Results\.cpp', r'.'), (r'ResultCollector\.cpp', r'.'), (r'ViolationSet\.cpp', r'.'),
      (OPTS, r'maxP[123]|argMaxP|option::process\(|reportType|rulesPath|ruleSet|hasOutputPath|outputPath')],
     ['enum_values'])

prop('C02', 'Command line overrides configuration files, later files override earlier ones',
     'Every setting takes the value given on the command line when one is given there; otherwise the value of the last configuration file that sets it; otherwise its documented default. '
     'Every key a configuration file can set reaches exactly the setting of that name, and list-valued settings accumulate. '
     'Values read from a configuration file stay valid and unchanged for as long as they are used.',
     ['configurations', 'inputs'],
     'Every subset of options given on the command line, and every sequence of configuration files with every subset of keys.',
     'The tests check one file or one option at a time; the merged precedence over all settings and the lifetime of file contents after parsing are never exercised.',
     ['oclint-driver/lib/Options.cpp', 'oclint-driver/lib/ConfigFile.cpp', 'oclint-core/lib/RuleConfiguration.cpp'],
     [('option definitions and merging', 'oclint-driver/lib/Options.cpp'), ('configuration file mapping', 'oclint-driver/lib/ConfigFile.cpp'),
      ('rule configuration store', 'oclint-core/lib/RuleConfiguration.cpp')],
     [(OPTS, r'.'), (CONF, r'.'), (r'RuleConfiguration\.cpp', r'.'), (MAIN, r'.')],
     ['no_dangling_views'],
     [('merged settings', 'option variables after all configuration files are consumed', 'oclint-driver/lib/Options.cpp')])

prop('C03', 'Exactly the selected rules run',
     'The set of rules that run is the enabled ones (all loaded rules when no enabled name remains) minus the disabled ones. '
     'Naming a rule again overrides what was said before: a later source wins over an earlier one, and within one source disabling wins over enabling. '
     'A rule named but not loaded adds nothing, and no rule is selected twice or dropped.',
     ['configurations', 'inputs'],
     'Every set of loaded rules and every combination of enabled and disabled names from command line and files.',
     'The filter tests use a handful of fixed names; completeness of the selection over all combinations is not sampled.',
     ['oclint-driver/lib/RulesetFilter.cpp', 'oclint-driver/include/oclint/RulesetFilter.h', 'oclint-core/lib/RuleSet.cpp', 'oclint-driver/lib/Options.cpp'],
     [('selection', 'oclint-driver/lib/RulesetFilter.cpp'), ('registry', 'oclint-core/lib/RuleSet.cpp')],
     [(r'RulesetFilter\.(cpp|h)', r'.'), (r'RuleSet\.cpp', r'.'), (OPTS, r'.'),
      (CONF, r'.'), (MAIN, r'.'), (r'RulesetBasedAnalyzer\.cpp', r'.'), (r'core/lib/RuleBase\.cpp', r'identifier')],
     [])

prop('C04', 'Every selected rule sees every translation unit, and every finding is kept',
     'Each analysed translation unit is handed to every selected rule exactly once, and everything the rules report for it is recorded. '
     'No translation unit, rule or recorded finding is skipped, merged into another unit or lost on the way to the results, whatever the number or order of units and rules.',
     ['inputs', 'configurations', 'histories'],
     'Every list of translation units, every rule set, every history of findings.',
     'Tests run a single rule on a single in-memory unit; the product of units and rules and the bookkeeping between them is never exercised.',
     ['oclint-driver/lib/RulesetBasedAnalyzer.cpp', 'oclint-core/lib/ViolationSet.cpp', 'oclint-core/lib/ResultCollector.cpp', 'oclint-core/lib/RuleCarrier.cpp', 'oclint-core/lib/RuleBase.cpp', 'oclint-core/lib/RawResults.cpp'],
     [('rule loop', 'oclint-driver/lib/RulesetBasedAnalyzer.cpp'), ('recording', 'oclint-core/lib/RuleCarrier.cpp, ViolationSet.cpp, ResultCollector.cpp')],
     [(r'RulesetBasedAnalyzer\.cpp', r'.'), (r'ViolationSet\.cpp', r'.'), (r'ResultCollector\.cpp', r'.'), (r'RuleCarrier\.cpp', r'.'), (r'core/lib/RuleBase\.cpp', r'takeoff'), (r'core/lib/Violation\.cpp', r'Violation::Violation'),
      (r'(Raw|Unique|Abstract)Results\.cpp', r'^(?!ViolationHash)'), (r'Driver\.cpp', r'.'), (r'Analyzer\.h', r'.'), (MAIN, r'^(main|getResults)\('),
      (r'AbstractASTRuleBase\.cpp', r'addViolation'), (r'AbstractSourceCodeReaderRule\.cpp', r'.'), (r'AbstractASTVisitorRule\.h', r'apply|traverse'), (r'AbstractASTMatcherRule\.(cpp|h)', r'apply')],
     [])

prop('C05', 'Duplicate removal keeps exactly one of each distinct finding',
     'By default two findings are reported once exactly when they agree on rule, file, location range and message; findings that differ in any of these are both kept. '
     'Keeping duplicates on request returns everything recorded. '
     'Which findings are kept never depends on hash values: equal findings always collide.',
     ['inputs', 'histories', 'configurations'],
     'Every multiset of recorded findings, in every order.',
     'The tests compare a few hand-made findings; the agreement between equality and hashing over all findings cannot be sampled.',
     ['oclint-core/lib/UniqueResults.cpp', 'oclint-core/lib/RawResults.cpp', 'oclint-core/lib/Violation.cpp', 'oclint-driver/main.cpp'],
     [('deduplication', 'oclint-core/lib/UniqueResults.cpp'), ('equality', 'oclint-core/lib/Violation.cpp')],
     [(r'UniqueResults\.cpp', r'^(?!ViolationHash)'), (r'RawResults\.cpp', r'.'), (r'core/lib/Violation\.cpp', r'.'), (r'ViolationSet\.cpp', r'operator=='), (MAIN, r'^getResults\('), (OPTS, r'allowDuplicatedViolations|argDuplications')],
     ['hash_equality'])

prop('C06', 'Summary counts agree with the findings reported',
     'The number of violations, the number per priority, the number of files, the number of files with violations and the numbers of errors, warnings and checker bugs given in any report are those of the findings and units of that run. '
     'The per-priority numbers add up to the total when every priority is 1 to 3.',
     ['inputs', 'histories'],
     'Every result set, with and without duplicate removal.',
     'Tests check counts on one or two fixed findings; consistency between listing and counting over arbitrary results is not sampled.',
     ['oclint-core/lib/AbstractResults.cpp', 'oclint-core/lib/UniqueResults.cpp', 'oclint-core/lib/RawResults.cpp'],
     [('statistics', 'oclint-core/lib/AbstractResults.cpp')],
     [(r'AbstractResults\.cpp', r'.'), (r'UniqueResults\.cpp', r'::all'), (r'RawResults\.cpp', r'::all'), (r'reporters/reporters/.*', r'writeSummary\(|writeSummaryTable|writeSummaryProperty|writePriority|writeKeyValue|writeFooter'), (r'ViolationSet\.cpp', r'.'), (r'ResultCollector\.cpp', r'.'), (r'RulesetBasedAnalyzer\.cpp', r'.'), (r'RuleCarrier\.cpp', r'.'), (r'DiagnosticDispatcher\.cpp', r'.'), (r'core/lib/Violation\.cpp', r'Violation::Violation'), (MAIN, r'^(getResults|handleExit)\(')],
     [])

prop('C07', 'Compiler diagnostics are recorded under their own severity',
     'Every compiler error, fatal errors included, is recorded as an error; every warning as a warning, or as a static-analysis finding when the static analyser produced it; notes and remarks of the compiler are not recorded. '
     'Each keeps the file, line, column and text of the diagnostic, and none is ever counted as a rule violation. '
     'A unit that failed to compile makes the run end as a compilation error.',
     ['inputs', 'programs'],
     'Every diagnostic of every severity, with or without a valid source position.',
     'No test feeds diagnostics; the consumer is exercised only by running the tool.',
     ['oclint-driver/lib/DiagnosticDispatcher.cpp', 'oclint-core/lib/ResultCollector.cpp', 'oclint-driver/lib/Driver.cpp', 'oclint-driver/lib/CompilerInstance.cpp'],
     [('routing by severity', 'oclint-driver/lib/DiagnosticDispatcher.cpp')],
     [(r'DiagnosticDispatcher\.cpp', r'.'), (r'ResultCollector\.cpp', r'add(Error|Warning|CheckerBug)|get(Compiler|Clang)|.'), (r'CompilerInstance\.cpp', r'.'),
      (r'Driver\.cpp', r'.'), (r'(Unique|Raw|Abstract)Results\.cpp', r'^(?!ViolationHash)'), (r'ViolationSet\.cpp', r'.'), (r'core/lib/Violation\.cpp', r'.'),
      (MAIN, r'^(handleExit|main|getResults)')],
     [])

prop('C08', 'Suppressed code reports nothing, and only suppressed code is silent',
     'A finding is dropped exactly when its line carries the suppression comment, or it lies in a declaration annotated to suppress all findings or this rule, or inside a statement or declaration nested in one. '
     'The annotation for one rule never silences another rule, and the decision is the same for every unit, order of rules and spelling of the position (macro or file).',
     ['programs', 'histories', 'configurations'],
     'Every annotated program, every rule, every order in which rules and units are analysed.',
     'Tests apply one rule to one snippet; interaction between rules, cached answers and nesting depth is never exercised.',
     ['oclint-rules/lib/helper/SuppressHelper.cpp', 'oclint-rules/lib/helper/AttributeHelper.cpp', 'oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/lib/AbstractSourceCodeReaderRule.cpp'],
     [('suppression decision', 'oclint-rules/lib/helper/SuppressHelper.cpp'), ('annotations', 'oclint-rules/lib/helper/AttributeHelper.cpp'), ('gate before recording', 'oclint-rules/lib/AbstractASTRuleBase.cpp addViolation')],
     [(r'SuppressHelper\.cpp', r'.'), (r'AttributeHelper\.cpp', r'.'), (r'AbstractASTRuleBase\.cpp', r'addViolation'), (r'AbstractSourceCodeReaderRule\.cpp', r'addViolation'), (r'core/lib/RuleBase\.cpp', r'attributeName|identifier'), (r'StdUtil', r'.'), (r'RuleCarrier\.cpp', r'.')],
     ['only_gated_reports'],
     [('range and line caches', 'annotated ranges and marked lines per file', 'oclint-rules/lib/helper/SuppressHelper.cpp')])

prop('C09', 'Findings are only about the main file and point at the right place',
     'Every declaration and statement written in the main file of a unit is examined, and nothing from an included file is. '
     'A finding carries the path, start line and column and end line and column of the code it is about, with code coming from a macro placed where the macro is used.',
     ['programs'],
     'Every program, with any nesting of includes and macros.',
     'Test snippets live in one file with no includes; the restriction and the position mapping are sampled only for plain code.',
     ['oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/lib/AbstractASTMatcherRule.cpp', 'oclint-core/lib/RuleCarrier.cpp'],
     [('top-level declaration loop', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h'), ('location mapping', 'oclint-rules/lib/AbstractASTRuleBase.cpp')],
     [(r'AbstractASTVisitorRule\.h', r'.'), (r'AbstractASTRuleBase\.cpp', r'addViolation'), (r'AbstractASTMatcherRule\.(cpp|h)', r'.'), (r'RuleCarrier\.cpp', r'.'), (r'AbstractSourceCodeReaderRule\.cpp', r'.'), (r'core/lib/Violation\.cpp', r'Violation::Violation')],
     [])

prop('C10', 'No rule cuts its traversal of the program short',
     'Finding or rejecting something in one place never stops a rule from examining the rest of the unit. '
     'A rule that walks the program itself still visits the nested code it is responsible for.',
     ['programs'],
     'Every program and every position in it, for every rule, metric and helper that walks the program.',
     'A test snippet holds one construct; code after the first match is rarely present, so an aborted walk goes unseen.',
     ['oclint-rules/rules', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-metrics/lib', 'oclint-rules/lib'],
     [('visit callbacks', 'every visitor in oclint-rules and oclint-metrics')],
     [(r'oclint-rules/', r'(CheckMethodsInsideClass|ContainsBinaryOperatorWithIvarAssignment|ContainsCallToSuperMethod|ContainsIvarFetch|DeclAnnotationRangeCollector|MessageAnalyzer|FindingBreak|ExtractLabelStmts|BinaryOperatorAnalyzer|ExtractReturnStmts|ExtractNSExceptionRaiser|ExtractObjCAtThrowStmts|CountCaseStmts|ExitTypeGetter)::'),
      (r'oclint-metrics/', r'.'), (r'AbstractASTVisitorRule\.h', r'.')],
     ['visit_returns_true', 'hooks_kept'])

prop('C11', 'Every rule reacts to the constructs it was written for',
     'Each handler of a rule is reached for every program element of its kind: visitor callbacks name an existing kind of element and take it as argument, and matcher rules look up the very bindings their patterns set. '
     'No handler of the reviewed rule set disappears or is replaced by one that is never called.',
     ['programs'],
     'Every rule, every handler, every program element of the kind.',
     'A callback with a wrong name or binding compiles silently, and only a test that happens to contain the construct would see it.',
     ['oclint-rules/rules', 'oclint-rules/lib/AbstractASTMatcherRule.cpp', 'oclint-metrics/lib'],
     [('visitor callbacks and matcher bindings', 'oclint-rules/rules')],
     [(r'AbstractASTMatcherRule\.(cpp|h)', r'.'), (r'oclint-rules/rules/', r'::(setUpMatcher|callback)\(')],
     ['hooks_bound', 'bindings_agree', 'hooks_kept'])

prop('C12', 'What one unit leaves behind never changes the findings of the next',
     'The findings for a translation unit are a function of that unit and the configuration: state a rule collects while walking one unit is cleared before the next one. '
     'Shared tables and caches are keyed so that entries of one unit cannot answer for another.',
     ['histories', 'programs'],
     'Every sequence of units analysed by the same rule instances.',
     'Each test creates a fresh rule for one unit; the tool reuses rule instances over all units.',
     ['oclint-rules/rules', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-rules/lib'],
     [('per-unit set-up and tear-down', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h')],
     [(r'AbstractASTVisitorRule\.h', r'apply|setUp|tearDown|traverse'), (r'oclint-rules/rules/', r'::(setUp|tearDown|apply)\(\)'), (r'SuppressHelper\.cpp', r'.'), (r'RulesetBasedAnalyzer\.cpp', r'.'), (r'core/lib/RuleBase\.cpp', r'takeoff'), (r'RuleCarrier\.cpp', r'.'),
      (r'ShortVariableName|UnnecessaryElse', NOTMETA), (r'AbstractASTMatcherRule\.(cpp|h)', r'.')],
     ['state_reset'])

prop('C13', 'No rule crashes on any compilable program',
     'Every optional part of a program element (a missing else, condition, body, name, declaration, superclass or definition) is checked before it is used. '
     'No rule dereferences an absent part, asks for a name that is not an identifier, or evaluates an expression that depends on a template parameter.',
     ['programs'],
     'Every program accepted by the compiler, for every rule and metric.',
     'Tests contain the shapes their authors thought of; a crash needs the shape they did not.',
     ['oclint-rules/rules', 'oclint-rules/lib', 'oclint-metrics/lib'],
     [('guards on optional parts', 'oclint-rules/rules, oclint-rules/lib/util/ASTUtil.cpp')],
     [(r'util/ASTUtil\.cpp', r'.'), (r'oclint-rules/lib/helper/', r'.')],
     ['null_guard'])

prop('C14', 'Complexity and size metrics follow their definitions for every construct',
     'Cyclomatic complexity, path count, statement count and nesting depth are computed compositionally: every kind of statement contributes what the metric documents for it, for every nesting of statements. '
     'No kind of statement contributes twice or is forgotten.',
     ['programs'],
     'Every function body.',
     'Tests evaluate a few dozen fixed bodies; the definition has to hold for each nesting of each statement kind.',
     ['oclint-metrics/lib/CyclomaticComplexityMetric.cpp', 'oclint-metrics/lib/NPathComplexityMetric.cpp', 'oclint-metrics/lib/NcssMetric.cpp', 'oclint-metrics/lib/StmtDepthMetric.cpp'],
     [('metric visitors and dispatch', 'oclint-metrics/lib, oclint-metrics/include/oclint/metric')],
     [(r'oclint-metrics/', r'.')],
     [])

prop('C15', 'Every rule has consistent and unique identity and metadata',
     'Every rule has a non-empty unique name, a category, and a priority of 1, 2 or 3; the documented name, category and priority stay what users configure and filter by. '
     'Every rule source registers exactly one instance of its own rule, and every rule source is part of the build unless its build file sets it aside by name.',
     ['programs', 'configurations'],
     'All rules of the product.',
     'Tests assert name, category and priority of single rules; uniqueness and registration across the whole set are not asserted anywhere.',
     ['oclint-rules/rules', 'oclint-core/include/oclint/RuleBase.h', 'oclint-core/lib/RuleSet.cpp'],
     [('metadata accessors', 'oclint-rules/rules'), ('registration', 'static registration objects in each rule source')],
     [(r'oclint-rules/rules/', META), (r'oclint-rules/rules/', r'^initialiser of .*:rules'), (r'core/lib/RuleBase\.cpp', r'identifier|attributeName'), (r'AbstractASTRuleBase\.cpp', r'supportedLanguages')],
     ['metadata', 'registered', 'hooks_kept'])

prop('C16', 'Thresholds come from the documented setting and compare as documented',
     'Each configurable rule reads its limit from its documented setting with its documented default, and reports exactly when the measured value crosses the limit in the documented direction. '
     'A value equal to the limit is handled as documented, and the message states the measured value and the limit.',
     ['programs', 'configurations'],
     'Every measured value and every configured limit, for every configurable rule.',
     'Tests configure one or two limits per rule; the boundary for other rules and values is not sampled.',
     ['oclint-rules/rules/size', 'oclint-rules/rules/naming', 'oclint-core/lib/RuleConfiguration.cpp'],
     [('limit lookup and comparison', 'oclint-rules/rules/size, naming, convention')],
     [(r'oclint-rules/rules/(size|naming)/', r'.'), (r'TooFewBranches|PreferEarlyExit', r'.'), (r'RuleConfiguration\.cpp', r'ForKey|hasKey|valueForKey'), (r'util/ASTUtil\.cpp', r'getLineCount'), (r'StdUtil', r'toString'), (r'oclint-metrics/', r'^get\w+\(')],
     [])

prop('C17', 'Basic rules report exactly the defects they describe',
     'Each rule of the basic group reports a finding for precisely the code pattern it documents, once per occurrence, and stays silent on code that lacks any part of the pattern.',
     ['programs'],
     'Every program; constant and bitwise conditions, dead code, broken and misplaced null checks, oddness checks, jumbled incrementers, finally blocks, goto, collapsible ifs, double negatives.',
     'Each rule is tested on a handful of snippets; the pattern quantifies over all programs.',
     ['oclint-rules/rules/basic', 'oclint-rules/rules/abstract', 'oclint-rules/lib/util/ASTUtil.cpp'],
     [('visit callbacks', 'oclint-rules/rules/basic')],
     [(r'oclint-rules/rules/basic/', NOTMETA), (r'rules/abstract/AbstractNullCheck', r'.'), (r'util/ASTUtil\.cpp', r'areSameExpr|ignoreCastExpr|isANullPointerExpr')],
     ['hooks_kept'])

prop('C18', 'Convention rules report exactly the deviations they describe',
     'Each rule of the convention group reports a finding for precisely the deviation it documents, once per occurrence, and stays silent on conforming code.',
     ['programs'],
     'Every program; switch statements and their labels, branching at loop ends, destructors, inverted logic, parameter reassignment, early exit, instance variable access.',
     'Each rule is tested on a handful of snippets; the convention quantifies over all programs.',
     ['oclint-rules/rules/convention', 'oclint-rules/lib/util/ASTUtil.cpp'],
     [('visit callbacks', 'oclint-rules/rules/convention')],
     [(r'oclint-rules/rules/convention/', NOTMETA), (r'util/ASTUtil\.cpp', r'isObjC|isCppMethod')],
     ['hooks_kept'])

prop('C19', 'Empty, redundant and unused code rules report exactly such code',
     'Each rule of the empty, redundant and unused groups reports a finding for precisely the useless code it documents, once per occurrence. '
     'Code that has an effect, a use or a comment the documentation exempts is never reported.',
     ['programs'],
     'Every program.',
     'Each rule is tested on a handful of snippets; useless code quantifies over all programs.',
     ['oclint-rules/rules/empty', 'oclint-rules/rules/redundant', 'oclint-rules/rules/unused', 'oclint-rules/rules/abstract'],
     [('visit callbacks', 'oclint-rules/rules/empty, redundant, unused')],
     [(r'oclint-rules/rules/(empty|redundant|unused)/', NOTMETA), (r'rules/abstract/AbstractEmptyBlock', r'.'), (r'util/ASTUtil\.cpp', r'areSameExpr|ignoreCastExpr|isANullPointerExpr|isObjC|isCppMethod')],
     ['hooks_kept'])

prop('C20', 'Design, naming, migration, Cocoa and CUDA rules report exactly their patterns',
     'Each rule of the design, naming, migration, Cocoa and CUDA groups reports a finding for precisely the code pattern it documents, once per occurrence, and stays silent elsewhere. '
     'Annotations that enforce a contract on Objective-C methods bind every override and implementation they document.',
     ['programs'],
     'Every program.',
     'Each rule is tested on a handful of snippets; several Objective-C patterns depend on class hierarchies tests do not vary.',
     ['oclint-rules/rules/design', 'oclint-rules/rules/naming', 'oclint-rules/rules/migration', 'oclint-rules/rules/cocoa', 'oclint-rules/rules/cuda', 'oclint-rules/lib/helper'],
     [('visit callbacks', 'oclint-rules/rules/design, naming, migration, cocoa, cuda')],
     [(r'oclint-rules/rules/(design|naming|migration|cocoa|cuda)/', NOTMETA), (r'lib/helper/(Attribute|Enforce)Helper', r'.'), (r'util/ASTUtil\.cpp', r'isObjC')],
     ['hooks_kept'])

prop('C21', 'Every report is well formed and keeps one record per finding',
     'In every format, each finding produces exactly one complete record and records are separated as the format demands, for any number of findings including none. '
     'Text taken from the program or the file system is escaped so that it cannot break the document.',
     ['inputs'],
     'Every result set, with any characters in paths, names and messages.',
     'Tests render single fixed findings piecewise; whole documents with zero, one or many findings or special characters are never produced.',
     ['oclint-reporters/reporters'],
     [('document writers', 'oclint-reporters/reporters')],
     [(r'oclint-reporters/reporters/', r'.')],
     ['escaping'])

prop('C22', 'Reports state each finding faithfully',
     'Every format that lists findings states for each one its own path, position, rule, category, priority and message, each under its own label, and lists all of them in every section the format has. '
     'Sections for compiler errors, warnings and static-analysis findings list the entries of their own kind.',
     ['inputs', 'configurations'],
     'Every result set and every format.',
     'Tests check fragments of the output on one finding; swapped or missing fields in the full report are not sampled.',
     ['oclint-reporters/reporters', 'oclint-core/lib/RawResults.cpp'],
     [('field writers', 'oclint-reporters/reporters')],
     [(r'oclint-reporters/reporters/', r'.'), (r'core/lib/Constants\.cpp', r'.'), (r'(Raw|Unique)Results\.cpp', r'^(?!ViolationHash)'), (r'core/lib/Violation\.cpp', r'.'), (r'ViolationSet\.cpp', r'.'), (r'ResultCollector\.cpp', r'.'), (r'RuleCarrier\.cpp', r'.')],
     [])

prop('C23', 'Rules and the chosen reporter are found and loaded, or the run fails',
     'Every rule library in every rule directory is loaded, and nothing else is. '
     'The reporter used is the one whose name was asked for; when it cannot be loaded the run stops with the error instead of reporting in another format or not at all.',
     ['configurations', 'fault_sequences', 'inputs'],
     'Every content of the rule and reporter directories, every requested format, and every load failure.',
     'Loading is excluded from the unit tests.',
     ['oclint-driver/rules_dlfcn_port.cpp', 'oclint-driver/reporters_dlfcn_port.cpp', 'oclint-driver/main.cpp', 'oclint-driver/lib/Options.cpp'],
     [('loaders', 'oclint-driver/rules_dlfcn_port.cpp, reporters_dlfcn_port.cpp')],
     [(r'_dlfcn_port\.cpp', r'.'), (MAIN, r'.'), (r'core/lib/RuleSet\.cpp', r'.'), (CONF, r'rulePaths|reportType|mapping'), (OPTS, r'option::process\(|rulesPath|reporterPath|reportType|argRulesPath|argReportType|installPrefix|libPath|binPath|etcPath|executablePath'), (r'oclint-reporters/reporters/', r'::name\(\)|create\(\)'), (r'GenericException', r'.')],
     [])

prop('C24', 'The report goes to the requested destination, completely',
     'With an output path the report goes to that file, resolved against the directory the tool was started in, and nowhere else; without one it goes to standard output. '
     'The report is written once, after the analysis, and the destination is flushed and released before the run ends.',
     ['configurations', 'fault_sequences'],
     'Every output path (absolute, relative, empty, unwritable) and every working directory change during analysis.',
     'Output handling lives in the entry point, which no test runs.',
     ['oclint-driver/main.cpp', 'oclint-driver/lib/Options.cpp'],
     [('output stream handling', 'oclint-driver/main.cpp outStream, disposeOutStream'), ('output path', 'oclint-driver/lib/Options.cpp')],
     [(MAIN, r'.'), (CONF, r'output|mapping'), (OPTS, r'outputPath|hasOutputPath|workingPath|absoluteWorkingPath|argOutput|preserve|option::process\(')],
     [])

prop('C25', 'Each file is compiled for analysis with its own compile command',
     'Every source file is analysed once per compile command found for it, with exactly that command\'s directory and arguments apart from the documented adjustments. '
     'A file without a compile command is skipped without affecting others, and the analyser runs once over all units or once per unit as requested.',
     ['configurations', 'inputs'],
     'Every compilation database and every list of source files, with global analysis on or off.',
     'No unit test covers the driver; it is not even compiled by the test build.',
     ['oclint-driver/lib/Driver.cpp', 'oclint-driver/lib/CompilerInstance.cpp', 'oclint-driver/main.cpp'],
     [('compile command handling', 'oclint-driver/lib/Driver.cpp')],
     [(r'lib/Driver\.cpp', r'.'), (r'CompilerInstance\.cpp', r'.'), (OPTS, r'enableGlobalAnalysis|enableClangChecker|argGlobalAnalysis|argClangChecker'), (MAIN, r'^main\('), (r'GenericException', r'.')],
     [])

prop('C26', 'A rule runs only on, and on all of, the languages it supports',
     'A rule examines a unit exactly when the unit\'s language is one the rule declares support for. '
     'Rules for one language family never report on another, and language support is decided the same way for every rule.',
     ['programs', 'configurations'],
     'Every language mode (C, C++, Objective-C and their mixtures, CUDA) and every rule.',
     'Tests compile a snippet in the one language the author chose.',
     ['oclint-rules/lib/AbstractASTRuleBase.cpp', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h', 'oclint-rules/lib/AbstractASTMatcherRule.cpp'],
     [('language gate', 'oclint-rules/lib/AbstractASTRuleBase.cpp isLanguageSupported')],
     [(r'AbstractASTRuleBase\.cpp', r'upport|CUDA'), (r'AbstractASTVisitorRule\.h', r'apply|isCUDA'), (r'AbstractASTMatcherRule\.(cpp|h)', r'apply'), (r'AbstractSourceCodeReaderRule\.cpp', r'apply'), (r'oclint-rules/rules/cuda/', NOTMETA), (r'oclint-rules/rules/', r'supportedLanguages\(\)|isLanguageSupported|supportedCUDA')],
     ['enum_values'])

prop('C27', 'The same input gives the same report every time',
     'Findings and their order depend only on the input, the configuration and the order of the rules and units: never on addresses, hash order, time, environment or uninitialised values. '
     'Only the documented date and time fields of a report vary between runs.',
     ['inputs', 'histories', 'schedules'],
     'Every program, every memory layout, every run.',
     'A test run sees one memory layout; order by address or hash shows only when the layout changes.',
     ['oclint-core/lib', 'oclint-driver/lib', 'oclint-rules/rules', 'oclint-rules/lib', 'oclint-metrics/lib', 'oclint-reporters/reporters'],
     [('ordered collections on every path to the report', 'all product sources')],
     [(r'(Unique|Raw)Results\.cpp', r'^(?!ViolationHash)'), (r'reporters/', r'writeDatetime|::report\('), (r'RulesetFilter\.(cpp|h)', r'.'), (r'RuleSet\.cpp', r'.'), (r'RulesetBasedAnalyzer\.cpp', r'.'), (r'ResultCollector\.cpp', r'.'), (r'ViolationSet\.cpp', r'.')],
     ['deterministic_iteration', 'no_ambient_input', 'initialised_members', 'no_dangling_views'])

prop('C28', 'Rule base classes drive line-based and pattern-based rules completely',
     'A line-based rule sees every line of the main file once, in order, with its own number and text. '
     'A pattern-based rule is called for every match of each of its patterns in the main file, and a rule is prepared before and cleaned up after each unit it examines.',
     ['programs'],
     'Every file content (with and without a final newline, empty lines) and every set of patterns.',
     'Tests use one short file; the last line, empty files and multiple patterns are not covered.',
     ['oclint-rules/lib/AbstractSourceCodeReaderRule.cpp', 'oclint-rules/lib/AbstractASTMatcherRule.cpp', 'oclint-rules/include/oclint/AbstractASTVisitorRule.h'],
     [('line loop', 'oclint-rules/lib/AbstractSourceCodeReaderRule.cpp'), ('matcher driver', 'oclint-rules/lib/AbstractASTMatcherRule.cpp')],
     [(r'AbstractSourceCodeReaderRule\.cpp', r'.'), (r'AbstractASTMatcherRule\.(cpp|h)', r'.'), (r'AbstractASTVisitorRule\.h', r'.'), (r'core/lib/RuleBase\.cpp', r'takeoff'), (r'LongLineRule', r'eachLine')],
     ['bindings_agree'])

prop('C29', 'Shared program queries answer correctly for every program',
     'The shared queries on programs (same expression, null pointer, declared in protocol, superclass or interface, child of class, line count) and on annotations answer by the structure of the program alone. '
     'Class hierarchies, categories and protocols are searched completely, and text helpers treat every character.',
     ['programs', 'inputs'],
     'Every expression, declaration, class hierarchy and string.',
     'Tests use a few expressions and one or two levels of hierarchy.',
     ['oclint-rules/lib/util/ASTUtil.cpp', 'oclint-rules/lib/util/StdUtil.cpp', 'oclint-rules/include/oclint/util/StdUtil.h', 'oclint-rules/lib/helper/AttributeHelper.cpp', 'oclint-rules/lib/helper/EnforceHelper.cpp'],
     [('queries', 'oclint-rules/lib/util, oclint-rules/lib/helper')],
     [(r'lib/util/', r'.'), (r'util/StdUtil\.h', r'.'), (r'lib/helper/(Attribute|Enforce)', r'.')],
     [])

NOT_APPLICABLE = []

# every property also rests on the hooks and members of the classes it is about
for _p in P:
    for _r in ('hooks_kept', 'members_kept'):
        if _r not in _p['rules']:
            _p['rules'].append(_r)

BY_ID = {p['id']: p for p in P}
