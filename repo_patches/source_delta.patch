From 05f2ab07504cfc4ce83b3f2a7c264b15e8534b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:15 +0000
Subject: [PATCH 01/27] fix: keep configuration file values beyond the lifetime
 of the parsed buffer

ConfigFile stored string references into the file buffer and the YAML
parser, both of which end with the constructor, so every value was read
after it had been freed.
---
 oclint-driver/include/oclint/ConfigFile.h | 25 ++++++++++++-----------
 oclint-driver/lib/ConfigFile.cpp          | 15 +++++++-------
 oclint-driver/lib/Options.cpp             | 10 ++++-----
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..d79a0c6 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,7 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <string>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -14,12 +15,12 @@ namespace option
 class RuleConfigurationPair
 {
 private:
-    llvm::StringRef _key;
-    llvm::StringRef _value;
+    std::string _key;
+    std::string _value;
 
 public:
-    const llvm::StringRef &key() const;
-    const llvm::StringRef &value() const;
+    const std::string &key() const;
+    const std::string &value() const;
 
     void mapping(llvm::yaml::IO& io);
 };
@@ -30,12 +31,12 @@ class ConfigFile
 {
 private:
     std::string _path;
-    std::vector<llvm::StringRef> _rules;
-    std::vector<llvm::StringRef> _disableRules;
-    std::vector<llvm::StringRef> _rulePaths;
+    std::vector<std::string> _rules;
+    std::vector<std::string> _disableRules;
+    std::vector<std::string> _rulePaths;
     std::vector<RuleConfigurationPair> _ruleConfigurations;
-    llvm::StringRef _output;
-    llvm::StringRef _reportType;
+    std::string _output;
+    std::string _reportType;
     int _maxP1;
     int _maxP2;
     int _maxP3;
@@ -47,9 +48,9 @@ public:
     explicit ConfigFile(const std::string &path);
 
     const std::string &path() const;
-    const std::vector<llvm::StringRef> &rules() const;
-    const std::vector<llvm::StringRef> &disableRules() const;
-    const std::vector<llvm::StringRef> &rulePaths() const;
+    const std::vector<std::string> &rules() const;
+    const std::vector<std::string> &disableRules() const;
+    const std::vector<std::string> &rulePaths() const;
     const std::vector<RuleConfigurationPair> &ruleConfigurations() const;
     std::optional<std::string> output() const;
     std::optional<std::string> reportType() const;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..a19a412 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -31,12 +31,12 @@ struct MappingTraits<RuleConfigurationPair>
 }
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::key() const
+const std::string &oclint::option::RuleConfigurationPair::key() const
 {
     return _key;
 }
 
-const llvm::StringRef &oclint::option::RuleConfigurationPair::value() const
+const std::string &oclint::option::RuleConfigurationPair::value() const
 {
     return _value;
 }
@@ -111,17 +111,17 @@ const std::string &oclint::option::ConfigFile::path() const
     return _path;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rules() const
+const std::vector<std::string> &oclint::option::ConfigFile::rules() const
 {
     return _rules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::disableRules() const
+const std::vector<std::string> &oclint::option::ConfigFile::disableRules() const
 {
     return _disableRules;
 }
 
-const std::vector<llvm::StringRef> &oclint::option::ConfigFile::rulePaths() const
+const std::vector<std::string> &oclint::option::ConfigFile::rulePaths() const
 {
     return _rulePaths;
 }
@@ -131,10 +131,9 @@ const std::vector<RuleConfigurationPair> &oclint::option::ConfigFile::ruleConfig
     return _ruleConfigurations;
 }
 
-static std::optional<std::string> createOptionalString(const llvm::StringRef &value)
+static std::optional<std::string> createOptionalString(const std::string &value)
 {
-    const std::string &string = value.str();
-    return string.size() ? std::optional<std::string>(string) : std::optional<std::string>();
+    return value.size() ? std::optional<std::string>(value) : std::optional<std::string>();
 }
 
 std::optional<std::string> oclint::option::ConfigFile::output() const
diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..789647e 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -143,22 +143,22 @@ static void processConfigFile(const std::string &path)
     oclint::option::ConfigFile config(path);
     for (const oclint::option::RuleConfigurationPair &ruleConfig : config.ruleConfigurations())
     {
-        consumeRuleConfiguration(ruleConfig.key().str(), ruleConfig.value().str());
+        consumeRuleConfiguration(ruleConfig.key(), ruleConfig.value());
     }
-    for (const llvm::StringRef &rulePath : config.rulePaths())
+    for (const std::string &rulePath : config.rulePaths())
     {
-        argRulesPath.push_back(rulePath.str());
+        argRulesPath.push_back(rulePath);
     }
     std::vector<std::string> enableRules;
     for (auto rule : config.rules())
     {
-        enableRules.push_back(rule.str());
+        enableRules.push_back(rule);
     }
     filter.enableRules(enableRules.begin(), enableRules.end());
     std::vector<std::string> disableRules;
     for (auto rule : config.disableRules())
     {
-        disableRules.push_back(rule.str());
+        disableRules.push_back(rule);
     }
     filter.disableRules(disableRules.begin(), disableRules.end());
 
-- 
2.43.0


From da969eaef2c6e8db0f91daff0edeb8984b86ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 02/27] fix: escape paths, rule names and messages in the XML
 report

A message or path with a quote, ampersand or angle bracket made the
document malformed.
---
 oclint-reporters/reporters/XMLReporter.cpp | 36 ++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..852800f 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -89,6 +89,42 @@ public:
         out << "></violation>";
     }
 
+    std::string xmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&apos;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
+    void writeViolationAttribute(std::ostream &out, std::string key, const std::string &value)
+    {
+        out << " " << key << "=\"" << xmlEscape(value) << "\"";
+    }
+
     template <typename T>
     void writeViolationAttribute(std::ostream &out, std::string key, T value)
     {
-- 
2.43.0


From 59ff8bb2a342c4c36b6d6750093e4ca76b2d8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 03/27] fix: write the calendar month in the XML report

tm_mon counts from zero, so every report was dated a month early and
January became month 00.
---
 oclint-reporters/reporters/XMLReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 852800f..1a8ea90 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
-- 
2.43.0


From 24463885a7e63494c7c6e96af6997a356f5aae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 04/27] fix: escape paths and messages in the HTML report

Messages quote program text such as template arguments, which browsers
read as tags.
---
 oclint-reporters/reporters/HTMLReporter.cpp | 43 ++++++++++++++++++---
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..3218e06 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -66,25 +66,56 @@ public:
             << "OCLint v" << version << "</a>.</p>";
     }
 
+    std::string htmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&#39;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
         out << "<td>" << rule->name() << "</td>"
             << "<td>" << rule->category() << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +131,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << htmlEscape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From 4ff182290742947fd6fcfe406d2901f4064e632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 05/27] fix: escape the path in the PMD report like the message

A path with an ampersand or quote made the document malformed.
---
 oclint-reporters/reporters/PMDReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..0be05a1 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscape(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
-- 
2.43.0


From 8282a05ae6661630c02f619907f551a47f8eb5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 06/27] fix: escape strings in the JSON report

A path or message with a quote, backslash or control character made the
document invalid.
---
 oclint-reporters/reporters/JSONReporter.cpp | 35 ++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..3c0e26c 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <ctime>
 
 #include "oclint/Constants.h"
@@ -72,10 +73,42 @@ public:
         }
     }
 
+    std::string jsonEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '"':
+                    output += "\\\"";
+                    break;
+                case '\\':
+                    output += "\\\\";
+                    break;
+                default:
+                    if (static_cast<unsigned char>(c) < 0x20)
+                    {
+                        char escaped[7];
+                        snprintf(escaped, sizeof(escaped), "\\u%04x",
+                            static_cast<unsigned int>(static_cast<unsigned char>(c)));
+                        output += escaped;
+                    }
+                    else
+                    {
+                        output += c;
+                    }
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << jsonEscape(value) << "\"";
         writeComma(out, last);
     }
 
-- 
2.43.0


From 813ae921850aaeaa1c4753252fd05667e18c30c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 07/27] fix: run the rules for C on C89 units

A unit compiled with -std=c89 or -std=gnu89 is neither C99, C++ nor
Objective-C, so no rule ever looked at it.
---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..3835ae8 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -77,11 +77,7 @@ bool AbstractASTRuleBase::isLanguageSupported() const
     {
         return supportsCXX();
     }
-    if (langOpts.C99)
-    {
-        return supportsC();
-    }
-    return false;
+    return supportsC();
 }
 
 unsigned int AbstractASTRuleBase::supportedCUDAFunctionAttrs() const
-- 
2.43.0


From 3289f761bc99a57fc7311ab770f93d6cc4233234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 08/27] fix: do not crash on protected methods that a protocol
 declares

A method declared in a protocol has no class interface.
---
 oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..a5faae3 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -62,7 +62,8 @@ public:
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-                    " from outside " + sourceClass->getNameAsString() + " and its subclasses";
+                    " from outside " + (sourceClass ? sourceClass : expr->getReceiverInterface())
+                    ->getNameAsString() + " and its subclasses";
                 addViolation(expr, this, description);
             }
         }
-- 
2.43.0


From 08e3fc42b6efaba3c2e8e443dec356b21e7d9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 09/27] fix: answer for methods without a class in
 isObjCMethodDeclInChildOfClass

Methods of protocols have no class interface, which was dereferenced.
---
 oclint-rules/lib/util/ASTUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index e538545..f4a4b9d 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -57,7 +57,7 @@ bool isObjCMethodDeclLocatedInInterfaceContainer(clang::ObjCMethodDecl *decl)
 bool isObjCMethodDeclInChildOfClass(
     const clang::ObjCMethodDecl* decl, const std::string& className) {
     const clang::ObjCInterfaceDecl* interface = decl->getClassInterface();
-    while (interface->getSuperClass() != nullptr)
+    while (interface != nullptr && interface->getSuperClass() != nullptr)
     {
         interface = interface->getSuperClass();
         if(interface->getNameAsString() == className) {
-- 
2.43.0


From 80700584f25f76b9b245f67ffda192b35570814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 10/27] fix: do not evaluate conditions that depend on template
 parameters

The evaluator requires expressions that are not value-dependent and
asserts so; there is nothing constant to report in a template pattern.
---
 oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp | 3 ++-
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
index 862928f..0ca7b4f 100644
--- a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
@@ -54,7 +54,8 @@ public:
         Expr *conditionExpr = conditionalOperator->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (!conditionExpr->isValueDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index a012e00..abcc30f 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -60,7 +60,8 @@ public:
         Expr *conditionExpr = ifStmt->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (!conditionExpr->isValueDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
-- 
2.43.0


From de84f86252642b67be12b9e3359de307bf3cc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 11/27] fix: forget the loop variables of the previous unit in
 short variable name

Variables remembered from one translation unit could silence a finding
in the next one when a declaration got the same address.
---
 oclint-rules/rules/naming/ShortVariableNameRule.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..319be8f 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -99,6 +99,11 @@ public:
     }
 #endif
 
+    virtual void setUp() override
+    {
+        clearVarDeclsStack();
+    }
+
     bool VisitVarDecl(VarDecl *varDecl)
     {
         std::string varName = varDecl->getNameAsString();
-- 
2.43.0


From 9064c12af893124730fce6707db94f8b45598d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 12/27] fix: keep suppressed ranges apart for each rule

The ranges were cached per file only, so the annotations for the rule
that asked first silenced, or failed to silence, every other rule.
---
 oclint-rules/lib/helper/SuppressHelper.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..8bc2971 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -1,5 +1,6 @@
 #include "oclint/helper/SuppressHelper.h"
 
+#include <map>
 #include <regex>
 #include <set>
 #include <unordered_map>
@@ -166,19 +167,19 @@ bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
     return commentLines.find(beginLine) != commentLines.end();
 }
 
-typedef std::unordered_map<std::string, RangeSet> RangeMap;
+typedef std::map<std::pair<std::string, oclint::RuleBase *>, RangeSet> RangeMap;
 static RangeMap rangeMapping;
 
 bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentRangesIt = rangeMapping.find(filePath);
+    auto rangeKey = std::make_pair(getMainFilePath(context), rule);
+    auto commentRangesIt = rangeMapping.find(rangeKey);
     RangeSet commentRanges;
     if (commentRangesIt == rangeMapping.end())
     {
         DeclAnnotationRangeCollector annotationCollector;
         commentRanges = annotationCollector.collect(context, rule);
-        rangeMapping[filePath] = commentRanges;
+        rangeMapping[rangeKey] = commentRanges;
     }
     else
     {
-- 
2.43.0


From d6cbeb12ae4c50ae506cfa7a22406063ccf632d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 13/27] fix: count range-based for loops in the metrics

All four metrics know for, while, do and the Objective-C for-in loop, but
took a C++ range-based for for a statement without a body.
---
 .../include/oclint/metric/CyclomaticComplexityMetric.h      | 1 +
 .../include/oclint/metric/NPathComplexityMetric.h           | 2 ++
 oclint-metrics/include/oclint/metric/NcssMetric.h           | 2 ++
 oclint-metrics/include/oclint/metric/StmtDepthMetric.h      | 2 ++
 oclint-metrics/lib/CyclomaticComplexityMetric.cpp           | 6 ++++++
 oclint-metrics/lib/NPathComplexityMetric.cpp                | 5 +++++
 oclint-metrics/lib/NcssMetric.cpp                           | 5 +++++
 oclint-metrics/lib/StmtDepthMetric.cpp                      | 5 +++++
 8 files changed, 28 insertions(+)

diff --git a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
index 62aa5a3..a9f7aeb 100644
--- a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
@@ -23,6 +23,7 @@ public:
 
     bool VisitIfStmt(clang::IfStmt *stmt);
     bool VisitForStmt(clang::ForStmt *stmt);
+    bool VisitCXXForRangeStmt(clang::CXXForRangeStmt *stmt);
     bool VisitObjCForCollectionStmt(clang::ObjCForCollectionStmt *stmt);
     bool VisitWhileStmt(clang::WhileStmt *stmt);
     bool VisitDoStmt(clang::DoStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index 4d57bff..81b88bb 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -29,6 +29,7 @@ public:
             DISPATH(clang::ForStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::ObjCForCollectionStmt);
         }
         return 1;
@@ -51,6 +52,7 @@ public:
     int nPath(clang::WhileStmt *stmt);
     int nPath(clang::DoStmt *stmt);
     int nPath(clang::ForStmt *stmt);
+    int nPath(clang::CXXForRangeStmt *stmt);
     int nPath(clang::ObjCForCollectionStmt *stmt);
     int nPath(clang::SwitchStmt *stmt);
     int nPath(clang::SwitchCase *stmt);
diff --git a/oclint-metrics/include/oclint/metric/NcssMetric.h b/oclint-metrics/include/oclint/metric/NcssMetric.h
index 5dd80ac..272d686 100644
--- a/oclint-metrics/include/oclint/metric/NcssMetric.h
+++ b/oclint-metrics/include/oclint/metric/NcssMetric.h
@@ -22,6 +22,7 @@ public:
             DISPATH(clang::WhileStmt);
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::ObjCForCollectionStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
@@ -43,6 +44,7 @@ public:
     int ncss(clang::WhileStmt *stmt);
     int ncss(clang::DoStmt *stmt);
     int ncss(clang::ForStmt *stmt);
+    int ncss(clang::CXXForRangeStmt *stmt);
     int ncss(clang::ObjCForCollectionStmt *stmt);
     int ncss(clang::SwitchStmt *stmt);
     int ncss(clang::SwitchCase *stmt);
diff --git a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
index 9a2efcc..ef6126f 100644
--- a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
+++ b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
@@ -21,6 +21,7 @@ public:
             DISPATH(clang::WhileStmt);
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::ObjCForCollectionStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
@@ -40,6 +41,7 @@ public:
     int depth(clang::WhileStmt *stmt);
     int depth(clang::DoStmt *stmt);
     int depth(clang::ForStmt *stmt);
+    int depth(clang::CXXForRangeStmt *stmt);
     int depth(clang::ObjCForCollectionStmt *stmt);
     int depth(clang::SwitchStmt *stmt);
     int depth(clang::SwitchCase *stmt);
diff --git a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
index 5638fae..d5ba734 100644
--- a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
+++ b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
@@ -21,6 +21,12 @@ bool CyclomaticComplexityMetric::VisitForStmt(clang::ForStmt *)
     return true;
 }
 
+bool CyclomaticComplexityMetric::VisitCXXForRangeStmt(clang::CXXForRangeStmt *)
+{
+    _count++;
+    return true;
+}
+
 bool CyclomaticComplexityMetric::VisitObjCForCollectionStmt(clang::ObjCForCollectionStmt *)
 {
     _count++;
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 15bb38e..5994134 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -63,6 +63,11 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
         + nPath(stmt->getBody()) + 1;
 }
 
+int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
+{
+    return nPath(stmt->getBody()) + 2;
+}
+
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
 {
     // If we convert a foreach loop to a simple for loop, it will looks like
diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 07a7fcf..f212f53 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -44,6 +44,11 @@ int NcssMetric::ncss(clang::ForStmt *stmt)
     return 1 + ncss(stmt->getBody());
 }
 
+int NcssMetric::ncss(clang::CXXForRangeStmt *stmt)
+{
+    return 1 + ncss(stmt->getBody());
+}
+
 int NcssMetric::ncss(clang::ObjCForCollectionStmt *stmt)
 {
     return 1 + ncss(stmt->getBody());
diff --git a/oclint-metrics/lib/StmtDepthMetric.cpp b/oclint-metrics/lib/StmtDepthMetric.cpp
index e41b431..42e14ac 100644
--- a/oclint-metrics/lib/StmtDepthMetric.cpp
+++ b/oclint-metrics/lib/StmtDepthMetric.cpp
@@ -44,6 +44,11 @@ int StmtDepthMetric::depth(clang::ForStmt *stmt)
     return depth(stmt->getBody());
 }
 
+int StmtDepthMetric::depth(clang::CXXForRangeStmt *stmt)
+{
+    return depth(stmt->getBody());
+}
+
 int StmtDepthMetric::depth(clang::ObjCForCollectionStmt *stmt)
 {
     return depth(stmt->getBody());
-- 
2.43.0


From 3623664a7fc2e8c58e19b21c056e04d873d24f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 14/27] fix: report failed writes of the report

A full disk or closed pipe left a truncated report and a success status.
---
 oclint-driver/main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/oclint-driver/main.cpp b/oclint-driver/main.cpp
index 0810174..d456a1c 100644
--- a/oclint-driver/main.cpp
+++ b/oclint-driver/main.cpp
@@ -70,6 +70,14 @@ void disposeOutStream(ostream* out)
         ofstream *fout = (ofstream *)out;
         fout->close();
     }
+    else if (out)
+    {
+        out->flush();
+    }
+    if (out && out->fail())
+    {
+        throw oclint::GenericException("cannot write the report completely");
+    }
 }
 
 void listRules()
-- 
2.43.0


From 8f23e26ec052225c6c2a4483b41f1778103cf463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 15/27] fix: remember working directories of any valid length

A directory longer than 299 characters was not remembered, and relative
output paths then started at the root of the file system.
---
 oclint-driver/lib/Options.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 789647e..35e4e97 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -1,5 +1,6 @@
 #include "oclint/Options.h"
 
+#include <climits>
 #include <unistd.h>
 
 #include <llvm/Option/OptTable.h>
@@ -180,8 +181,8 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    char path[PATH_MAX];
+    if (getcwd(path, sizeof(path)))
     {
         absoluteWorkingPath = std::string(path);
     }
-- 
2.43.0


From c37501386a01e6b880add6df24e551a601051144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 16/27] fix: Do not examine bodies of late parsed templates,
 which have none yet

---
 oclint-rules/rules/size/LongMethodRule.cpp      | 4 ++++
 oclint-rules/rules/size/NPathComplexityRule.cpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index a645e00..b39c71d 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -17,6 +17,10 @@ private:
             !isCppMethodDeclLocatedInCppRecordDecl(dyn_cast<CXXMethodDecl>(decl)))
         {
             Stmt *stmt = decl->getBody();
+            if (stmt == nullptr)
+            {
+                return; // late parsed template
+            }
             int length = getLineCount(stmt->getSourceRange(), _carrier->getSourceManager());
             int threshold = RuleConfiguration::intForKey("LONG_METHOD", 50);
             if (length > threshold)
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 8bf664a..42fca9a 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -21,7 +21,7 @@ private:
     {
         if (decl->hasBody())
         {
-            CompoundStmt *bodyStmt = dyn_cast<CompoundStmt>(decl->getBody());
+            CompoundStmt *bodyStmt = dyn_cast_or_null<CompoundStmt>(decl->getBody());
             if (bodyStmt)
             {
                 int npath = getNPathComplexity(bodyStmt);
-- 
2.43.0


From 711afae14440cb6f10ec79baec12211b36771881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 17/27] fix: Do not ask operators for a plain name in redundant
 local variable

---
 oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
index b3539cf..4801df7 100644
--- a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
@@ -89,7 +89,8 @@ public:
         {
             NamedDecl *returnDeclRef = extractReturnDeclRef(compoundStmt);
             NamedDecl *namedDecl = extractNamedDecl(compoundStmt);
-            if (returnDeclRef && namedDecl && returnDeclRef->getName() == namedDecl->getName())
+            if (returnDeclRef && namedDecl &&
+                returnDeclRef->getDeclName() == namedDecl->getDeclName())
             {
                 addViolation(namedDecl, this);
             }
-- 
2.43.0


From 43b72e0872377094e5f06312df454b226f2a9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:52 +0000
Subject: [PATCH 18/27] fix: Fail with a message when a library in the reporter
 directory is no reporter

---
 oclint-driver/reporters_dlfcn_port.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oclint-driver/reporters_dlfcn_port.cpp b/oclint-driver/reporters_dlfcn_port.cpp
index c02d9af..b32c72a 100644
--- a/oclint-driver/reporters_dlfcn_port.cpp
+++ b/oclint-driver/reporters_dlfcn_port.cpp
@@ -33,6 +33,12 @@ void loadReporter()
             }
             oclint::Reporter* (*createMethodPointer)();
             createMethodPointer = (oclint::Reporter* (*)())dlsym(reporterHandle, "create");
+            if (createMethodPointer == nullptr)
+            {
+                std::cerr << dlerror() << std::endl;
+                closedir(pDir);
+                throw oclint::GenericException("cannot find reporter in library: " + reporterPath);
+            }
             oclint::Reporter* reporter = (oclint::Reporter*)createMethodPointer();
             if (reporter->name() == oclint::option::reportType())
             {
-- 
2.43.0


From b31cf631e7d2bbd6432b2308972249045cbe7d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:18 +0000
Subject: [PATCH 19/27] fix: Accept calls to super in class methods that must
 call super

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 73935cf..938f9ce 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -26,7 +26,8 @@ public:
     bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
     {
         if(expr->getSelector().getAsString() == _selector
-        && expr->getReceiverKind() == ObjCMessageExpr::SuperInstance) {
+        && (expr->getReceiverKind() == ObjCMessageExpr::SuperInstance
+            || expr->getReceiverKind() == ObjCMessageExpr::SuperClass)) {
             _foundSuperCall = true;
         }
         return true;
-- 
2.43.0


From 7f5c8f0ebb7a8c9cba9b126f09e2940cebf56cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:18 +0000
Subject: [PATCH 20/27] fix: Do not demand a call to super of mere declarations

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 938f9ce..60ccabe 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -126,6 +126,11 @@ public:
 #endif
 
     bool VisitObjCMethodDecl(ObjCMethodDecl* decl) {
+        // Only implementations can call anything
+        if(!decl->hasBody()) {
+            return true;
+        }
+
         // Save the method name
         string selectorName = decl->getSelector().getAsString();
 
-- 
2.43.0


From 3fc3d9f0df39a7c32e07f90b9b1fc2bd1e1c3055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 21/27] fix: Do not let the NPath complexity of large functions
 overflow

---
 oclint-metrics/lib/NPathComplexityMetric.cpp | 39 +++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 5994134..cf5fb0f 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -1,14 +1,25 @@
 #include "oclint/metric/NPathComplexityMetric.h"
 
+#include <climits>
+
 using namespace oclint;
 
+/*
+ * The number of paths grows exponentially with the length of the code,
+ * so more paths than an int can tell count as INT_MAX
+ */
+static int limit(long long npath)
+{
+    return npath < INT_MAX ? static_cast<int>(npath) : INT_MAX;
+}
+
 int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
 {
     int npath = 1;
     for (clang::CompoundStmt::body_iterator body = stmt->body_begin(), bodyEnd = stmt->body_end();
         body != bodyEnd; body++)
     {
-        npath *= nPath(*body);
+        npath = limit(1LL * npath * nPath(*body));
     }
     return npath;
 }
@@ -21,17 +32,17 @@ int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
     {
         nPathElseStmt = nPath(elseStmt);
     }
-    return nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt;
+    return limit(0LL + nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt);
 }
 
 int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return limit(0LL + nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return limit(0LL + nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
@@ -59,13 +70,13 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
     // As a conclusion, in my opinion, same logic in different formats should not reduce
     // the complexity. However, here, I will follow Nejmeh's NPath
 
-    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
-        + nPath(stmt->getBody()) + 1;
+    return limit(0LL + nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
+        + nPath(stmt->getBody()) + 1);
 }
 
 int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
 {
-    return nPath(stmt->getBody()) + 2;
+    return limit(0LL + nPath(stmt->getBody()) + 2);
 }
 
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
@@ -78,7 +89,7 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     // So, convert to same logic in for statement, we assume the NPath complexity as below
     // NP(Foreach) := NP((for-range)) + 2
 
-    return nPath(stmt->getBody()) + 2;
+    return limit(0LL + nPath(stmt->getBody()) + 2);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
@@ -87,7 +98,7 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     clang::Stmt *body = stmt->getBody();
     if(!clang::isa<clang::CompoundStmt>(body))
     {
-        return nPathSwitchStmt + nPath(body);
+        return limit(0LL + nPathSwitchStmt + nPath(body));
     }
     clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
     for (clang::CompoundStmt::body_iterator bodyStmt = compound->body_begin(),
@@ -95,15 +106,15 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     {
         if (clang::isa<clang::SwitchCase>(*bodyStmt))
         {
-            nPathSwitchStmt += internalNPath;
+            nPathSwitchStmt = limit(0LL + nPathSwitchStmt + internalNPath);
             internalNPath = nPath(*bodyStmt);
         }
         else
         {
-            internalNPath *= nPath(*bodyStmt);
+            internalNPath = limit(1LL * internalNPath * nPath(*bodyStmt));
         }
     }
-    return nPathSwitchStmt + internalNPath;
+    return limit(0LL + nPathSwitchStmt + internalNPath);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
@@ -113,14 +124,14 @@ int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
 
 int NPathComplexityMetric::nPath(clang::ConditionalOperator *expr)
 {
-    return nPath(expr->getCond()) + nPath(expr->getTrueExpr()) + nPath(expr->getFalseExpr()) + 2;
+    return limit(0LL + nPath(expr->getCond()) + nPath(expr->getTrueExpr()) + nPath(expr->getFalseExpr()) + 2);
 }
 
 int NPathComplexityMetric::nPath(clang::BinaryOperator *expr)
 {
     if (expr->getOpcode() == clang::BO_LAnd || expr->getOpcode() == clang::BO_LOr)
     {
-        return 1 + nPath(expr->getLHS()) + nPath(expr->getRHS());
+        return limit(0LL + 1 + nPath(expr->getLHS()) + nPath(expr->getRHS()));
     }
     return 0;
 }
-- 
2.43.0


From e2d3555bde0dfcfb1248eb0ba89711bc76fb1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:40 +0000
Subject: [PATCH 22/27] fix: List the envied classes in an order that does not
 depend on hash values

---
 oclint-rules/rules/design/FeatureEnvyRule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/design/FeatureEnvyRule.cpp b/oclint-rules/rules/design/FeatureEnvyRule.cpp
index 54515c5..c78af25 100644
--- a/oclint-rules/rules/design/FeatureEnvyRule.cpp
+++ b/oclint-rules/rules/design/FeatureEnvyRule.cpp
@@ -1,5 +1,5 @@
 #include <sstream>
-#include <unordered_map>
+#include <map>
 
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
@@ -15,7 +15,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
 {
     class MessageAnalyzer : public RecursiveASTVisitor<MessageAnalyzer>
     {
-        unordered_map<string, long> _receiversCount;
+        map<string, long> _receiversCount;
 
     public:
         vector<string> analyzeObjC(ObjCMethodDecl *decl)
-- 
2.43.0


From 55e92de627c921aaff76f8007d15d0f901b2f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 23/27] fix: two rules dereferenced the missing condition of a
 consteval if

---
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp          | 3 ++-
 .../rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index abcc30f..8dcd778 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -60,7 +60,8 @@ public:
         Expr *conditionExpr = ifStmt->getCond();
 
         bool evaluatedResult;
-        if (!conditionExpr->isValueDependent() &&
+        if (conditionExpr && // consteval if has no condition
+            !conditionExpr->isValueDependent() &&
             conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
diff --git a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
index 8734f1a..8c9e422 100644
--- a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
@@ -150,7 +150,8 @@ public:
 
     bool VisitIfStmt(IfStmt* ifStmt)
     {
-        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
+        if (ifStmt == nullptr || ifStmt->getElse() != nullptr
+            || ifStmt->getCond() == nullptr) // consteval if has no condition
         {
             return true;
         }
-- 
2.43.0


From cbd6250b4482da8edaf0804c686f5cd4fb84845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 24/27] fix: returns from blocks and lambdas do not return from
 the finally block around them

---
 .../rules/basic/ReturnFromFinallyBlockRule.cpp        | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/oclint-rules/rules/basic/ReturnFromFinallyBlockRule.cpp b/oclint-rules/rules/basic/ReturnFromFinallyBlockRule.cpp
index bf667c5..1150bec 100644
--- a/oclint-rules/rules/basic/ReturnFromFinallyBlockRule.cpp
+++ b/oclint-rules/rules/basic/ReturnFromFinallyBlockRule.cpp
@@ -24,6 +24,17 @@ class ReturnFromFinallyBlockRule : public AbstractASTVisitorRule<ReturnFromFinal
             _returns->push_back(returnStmt);
             return true;
         }
+
+        // returning from a block or a lambda does not leave the finally block
+        bool TraverseBlockExpr(BlockExpr *)
+        {
+            return true;
+        }
+
+        bool TraverseLambdaExpr(LambdaExpr *)
+        {
+            return true;
+        }
     };
 
 public:
-- 
2.43.0


From 721775e5f13b41b9b8bf8fad6e3626cde4087027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:41 +0000
Subject: [PATCH 25/27] fix: cases of nested switch statements counted as
 branches of the outer one

---
 .../TooFewBranchesInSwitchStatementRule.cpp   | 32 ++++++++-----------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
index ca132e8..c6b72e9 100644
--- a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
@@ -9,25 +9,22 @@ using namespace oclint;
 class TooFewBranchesInSwitchStatementRule :
     public AbstractASTVisitorRule<TooFewBranchesInSwitchStatementRule>
 {
-    class CountCaseStmts : public RecursiveASTVisitor<CountCaseStmts>
+private:
+    // cases of nested switch statements belong to those
+    int numberOfCases(SwitchStmt *switchStmt)
     {
-    private:
-        int _count;
-
-    public:
-        int count(SwitchStmt *switchStmt)
+        int count = 0;
+        for (SwitchCase *switchCase = switchStmt->getSwitchCaseList();
+            switchCase;
+            switchCase = switchCase->getNextSwitchCase())
         {
-            _count = 0;
-            (void) /* explicitly ignore the return of this function */ TraverseStmt(switchStmt);
-            return _count;
+            if (isa<CaseStmt>(switchCase))
+            {
+                count++;
+            }
         }
-
-        bool VisitCaseStmt(CaseStmt *)
-        {
-            _count++;
-            return true;
-        }
-    };
+        return count;
+    }
 
 public:
     virtual const string name() const override
@@ -86,8 +83,7 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        CountCaseStmts countCaseStmts;
-        int numberOfCaseStmts = countCaseStmts.count(switchStmt);
+        int numberOfCaseStmts = numberOfCases(switchStmt);
         int threshold = RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3);
         if (numberOfCaseStmts < threshold)
         {
-- 
2.43.0


From fba186c6919f4319f20c6b6f9c5e2483e4ae7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:16 +0000
Subject: [PATCH 26/27] fix: comparing wide string literals of a conditional
 operator ran into an assertion

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f726478..283d412 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -116,7 +116,9 @@ private:
     {
         StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
         StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
-        return trueStr && falseStr && trueStr->getString() == falseStr->getString();
+        return trueStr && falseStr &&
+            trueStr->getCharByteWidth() == falseStr->getCharByteWidth() &&
+            trueStr->getBytes() == falseStr->getBytes();
     }
 
     bool isNotEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0


From afda4516c39569d5e75da41ada5b2a5f58159e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:00 +0000
Subject: [PATCH 27/27] fix: comparing integer literals of different widths ran
 into an assertion

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index 283d412..d9fc526 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -93,7 +93,8 @@ private:
     {
         IntegerLiteral *trueInteger = dyn_cast_or_null<IntegerLiteral>(trueExpr);
         IntegerLiteral *falseInteger = dyn_cast_or_null<IntegerLiteral>(falseExpr);
-        return trueInteger && falseInteger && trueInteger->getValue() == falseInteger->getValue();
+        return trueInteger && falseInteger &&
+            llvm::APInt::isSameValue(trueInteger->getValue(), falseInteger->getValue());
     }
 
     bool isFloatingLiteralEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0

