"""Renamings: helper classes, members, file-level variables and functions, parameters."""
import os
import re
R = os.environ.get('CASES_REPO', '/repo')


def W(old, new, *paths):
    out = []
    for p in paths:
        t = open(os.path.join(R, p)).read()
        assert re.search(r'\b%s\b' % old, t), (p, old)
        out.append((p, t, re.sub(r'\b%s\b' % old, new, t)))
    return out


B = 'oclint-rules/rules/'
L = 'oclint-rules/lib/'
I = 'oclint-rules/include/oclint/'
D = 'oclint-driver/lib/'
M = 'oclint-metrics/'
CASES = [
 ('class-labels', W('ExtractLabelStmts', 'LabelCollector', B + 'convention/NonCaseLabelInSwitchStatementRule.cpp')),
 ('class-returns', W('ExtractReturnStmts', 'FinallyReturns', B + 'basic/ReturnFromFinallyBlockRule.cpp')),
 ('class-supercall', W('ContainsCallToSuperMethod', 'SuperCallFinder', B + 'cocoa/ObjCVerifyMustCallSuperRule.cpp')),
 ('class-annotation', W('DeclAnnotationRangeCollector', 'SuppressedRanges', L + 'helper/SuppressHelper.cpp')),
 ('fn-consume', W('consumeRuleConfiguration', 'storeRuleConfiguration', D + 'Options.cpp')),
 ('global-lines', W('singleLineMapping', 'markedLines', L + 'helper/SuppressHelper.cpp')),
 ('global-ranges', W('rangeMapping', 'suppressedRanges', L + 'helper/SuppressHelper.cpp')),
 ('global-option', W('absoluteWorkingPath', 'startDirectory', D + 'Options.cpp')),
 ('global-args', W('argMaxP1', 'maxPriorityOne', D + 'Options.cpp')),
 ('global-reporter', W('selectedReporter', 'activeReporter', 'oclint-driver/reporters_dlfcn_port.cpp')),
 ('member-threshold', W('_threshold', '_limit', B + 'size/LongClassRule.cpp')),
 ('member-threshold2', W('_threshold', '_maximum', B + 'size/TooManyParametersRule.cpp')),
 ('member-finder', W('_finder', '_matchFinder', L + 'AbstractASTMatcherRule.cpp', I + 'AbstractASTMatcherRule.h')),
 ('member-count', W('_count', '_branches', M + 'lib/CyclomaticComplexityMetric.cpp', M + 'include/oclint/metric/CyclomaticComplexityMetric.h')),
 ('member-errors', W('_compilerErrorSet', '_errorSet', 'oclint-core/lib/ResultCollector.cpp', 'oclint-core/include/oclint/ResultCollector.h')),
 ('member-carrier', W('_violationSet', '_violations', 'oclint-core/lib/RuleCarrier.cpp', 'oclint-core/include/oclint/RuleCarrier.h')),
 ('member-collection', W('_collection', '_sets', 'oclint-core/lib/ResultCollector.cpp', 'oclint-core/include/oclint/ResultCollector.h')),
 ('member-warnings', W('_compilerWarningSet', '_warnings', 'oclint-core/lib/ResultCollector.cpp', 'oclint-core/include/oclint/ResultCollector.h')),
 ('member-filter', W('_enabled', '_picked', D + 'RulesetFilter.cpp', 'oclint-driver/include/oclint/RulesetFilter.h')),
 ('member-selector', W('_foundSuperCall', '_seen', B + 'cocoa/ObjCVerifyMustCallSuperRule.cpp')),
 ('member-returns', W('_returns', '_found', B + 'basic/ReturnFromFinallyBlockRule.cpp')),
 ('method-private', W('applyDecl', 'checkLength', B + 'size/LongClassRule.cpp')),
 ('method-numbers', W('numberOfCases', 'caseCount', B + 'convention/TooFewBranchesInSwitchStatementRule.cpp')),
 ('method-recursive', W('check', 'inspectBases', B + 'convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp')),
 ('fn-suppress', W('markedAsSuppress', 'isMarked', L + 'helper/SuppressHelper.cpp')),
 ('fn-line', W('lineBasedShouldSuppress', 'lineIsMarked', L + 'helper/SuppressHelper.cpp')),
 ('fn-parents', W('markedParentsAsSuppress', 'parentIsMarked', L + 'helper/SuppressHelper.cpp')),
 ('typedef', W('RangeSet', 'LineRanges', L + 'helper/SuppressHelper.cpp')),
 ('bound-name', W('field', 'member', B + 'design/AvoidPrivateStaticMembersRule.cpp')),
]
CASES = [c for c in CASES if c[1]]
