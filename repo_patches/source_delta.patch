From 45d439ec5aef388b933fb9b20ac870e1f4c881df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 01/83] fix: clazy-standalone: don't add level1 when only
 CLAZY_CHECKS selects checks

The environment variable selects the checks in clazy-standalone as it does
in the plugin; level1 is only the default if nothing at all was requested.
---
 src/Clazy.cpp               | 6 ++++--
 src/ClazyStandaloneMain.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Clazy.cpp b/src/Clazy.cpp
index 04b9217..c5f1e08 100644
--- a/src/Clazy.cpp
+++ b/src/Clazy.cpp
@@ -307,7 +307,7 @@ ClazyStandaloneASTAction::ClazyStandaloneASTAction(const std::string &checkList,
                                                    const std::string &exportFixesFilename,
                                                    const std::vector<std::string> &translationUnitPaths,
                                                    ClazyContext::ClazyOptions options)
-    : m_checkList(checkList.empty() ? "level1" : checkList)
+    : m_checkList(checkList)
     , m_headerFilter(headerFilter.empty() ? getEnvVariable("CLAZY_HEADER_FILTER") : headerFilter)
     , m_ignoreDirs(ignoreDirs.empty() ? getEnvVariable("CLAZY_IGNORE_DIRS") : ignoreDirs)
     , m_lineFilter(lineFilter)
@@ -322,7 +322,9 @@ std::unique_ptr<ASTConsumer> ClazyStandaloneASTAction::CreateASTConsumer(Compile
     auto *cm = CheckManager::instance();
 
     std::vector<std::string> checks;
-    checks.push_back(m_checkList);
+    if (!m_checkList.empty()) { // Otherwise only CLAZY_CHECKS counts, or the default level if that's not set either
+        checks.push_back(m_checkList);
+    }
     const RegisteredCheck::List requestedChecks = cm->requestedChecks(checks);
 
     if (requestedChecks.empty()) {
diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index 88c46b3..e688e87 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -187,8 +187,10 @@ int main(int argc, const char **argv)
     }
 
     if (s_listEnabledChecks.getValue()) {
-        std::string checksFromArgs = s_checks.getValue();
-        std::vector<std::string> checks = {checksFromArgs.empty() ? "level1" : checksFromArgs};
+        std::vector<std::string> checks;
+        if (!s_checks.getValue().empty()) {
+            checks.push_back(s_checks.getValue());
+        }
         const RegisteredCheck::List enabledChecks = CheckManager::instance()->requestedChecks(checks);
 
         if (!enabledChecks.empty()) {
-- 
2.43.0


From 465e9b827cb135e414a57acd4f34b0d6c0a1d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 02/83] fix: modernize-list-initialization: don't read
 declaration groups as a single declaration

getSingleDecl() may only be called for statements declaring one thing; for
'int a, b;' it returned an invalid pointer, which was then dereferenced.
---
 src/checks/manuallevel/modernize-list-initialization.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index 0b3c8ea..d0bf806 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -17,7 +17,12 @@ using namespace clang;
 void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
 {
     if (auto expr = dyn_cast<DeclStmt>(stmt)) {
-        if (auto varDecl = dyn_cast<VarDecl>(expr->getSingleDecl()); varDecl && varDecl->hasInit()) {
+        for (auto *decl : expr->decls()) {
+            auto varDecl = dyn_cast<VarDecl>(decl);
+            if (!varDecl || !varDecl->hasInit()) {
+                continue;
+            }
+
             if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
                 if (name == "QStringList" || name.starts_with("QList")) {
-- 
2.43.0


From cc9d88a18892701c15dba1f2ba834906504988da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 03/83] fix: foreach: check for a single declaration before
 asking for it

---
 src/checks/level1/foreach.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/foreach.cpp b/src/checks/level1/foreach.cpp
index 07ff272..25876b7 100644
--- a/src/checks/level1/foreach.cpp
+++ b/src/checks/level1/foreach.cpp
@@ -126,7 +126,7 @@ void Foreach::checkBigTypeMissingRef()
     // Get the variable declaration (lhs of foreach)
     std::vector<DeclStmt *> varDecls;
     clazy::getChilds<DeclStmt>(forStatements.at(0), varDecls);
-    if (varDecls.empty()) {
+    if (varDecls.empty() || !varDecls.at(0)->isSingleDecl()) {
         return;
     }
 
-- 
2.43.0


From 5cb4874608f60859ba783b80de12f25efa4a3ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 04/83] fix: qstring-allocations: don't assert and dump the AST
 for unusual ternary operators

Nested ternaries, for example, are fine; there's just no fixit for them.
---
 src/checks/level2/qstring-allocations.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 5f721aa..608ee9b 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -374,9 +374,7 @@ std::vector<FixItHint> QStringAllocations::fixItReplaceWordWithWordInTernary(cla
     addConstructExpr(ternary->getFalseExpr());
 
     if (constructExprs.size() != 2) {
-        llvm::errs() << "Weird ternary operator with " << constructExprs.size() << " constructExprs at " << ternary->getBeginLoc().printToString(sm()) << "\n";
-        ternary->dump();
-        assert(false);
+        // Not both branches are QLatin1String ctor calls, for example one is a nested ternary, there's no fixit for that
         return {};
     }
 
-- 
2.43.0


From dd3e19334a3d32836f2560542af7ed7b74fd6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 05/83] fix: qcolor-from-literal, don't read u"" literals as
 char strings

---
 src/checks/level0/qcolor-from-literal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index 73c3fa7..b1277ae 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -69,7 +69,7 @@ public:
                 isStaticFromString = true;
             }
         }
-        if (!lt) {
+        if (!lt || lt->getCharByteWidth() != 1) { // u"" literals can't be read as a StringRef
             return;
         }
 
@@ -162,7 +162,7 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
     }
 
     auto *lt = clazy::getFirstChildOfType2<StringLiteral>(call->getArg(0));
-    if (lt && isStringColorLiteralPattern(lt->getString())) {
+    if (lt && lt->getCharByteWidth() == 1 && isStringColorLiteralPattern(lt->getString())) {
         emitWarning(lt, "The ctor taking ints is cheaper than QColor::setNamedColor(QString)");
     }
 }
-- 
2.43.0


From 473e70b97b5c8ec00fe593c316ee66ad4c6f21a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 06/83] fix: compare-member-check, don't crash on a return
 without a value

---
 src/checks/manuallevel/compare-member-check.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 7bc430c..533d445 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -81,6 +81,8 @@ public:
                 if (!returnStmt)
                     return;
                 const Expr *returnExpr = returnStmt->getRetValue();
+                if (!returnExpr)
+                    return;
                 if (const auto *exprWithCleanups = dyn_cast<ExprWithCleanups>(returnExpr)) {
                     if (auto opCallExpr = dyn_cast<CXXOperatorCallExpr>(exprWithCleanups->getSubExpr())) {
                         const Expr *lhs = opCallExpr->getArg(0);
-- 
2.43.0


From 224809ccd1232d812604c8a8b56b423258f509aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 07/83] fix: readlock-detaching, don't crash on lockForRead()
 outside of a function body

---
 src/checks/level1/readlock-detaching.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 59359b7..8b122e9 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -155,6 +155,9 @@ public:
 
         if (const auto lockCall = result.Nodes.getNodeAs<CXXMemberCallExpr>("qreadwritelockCall")) {
             const auto surroundingStmt = getSorroundingCompondStmt(*lockCall);
+            if (!surroundingStmt) {
+                return;
+            }
             // The end location for sure needs to be adjusted within the visitor. We just assume it is going to be in the same block the lock was locked
             MemberCallVisitor visitor(result.Context, m_check, SourceRange(lockCall->getBeginLoc(), surroundingStmt->getEndLoc()));
             visitor.TraverseStmt(const_cast<CompoundStmt *>(surroundingStmt));
-- 
2.43.0


From 8b268f35aab2117402678a1cfed411eca9168605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 08/83] fix: qstring-left, look through the cast to qsizetype
 of Qt6

---
 src/checks/level1/qstring-left.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/qstring-left.cpp b/src/checks/level1/qstring-left.cpp
index 27e2c67..4723024 100644
--- a/src/checks/level1/qstring-left.cpp
+++ b/src/checks/level1/qstring-left.cpp
@@ -28,7 +28,7 @@ void QStringLeft::VisitStmt(clang::Stmt *stmt)
     }
 
     Expr *firstArg = memberCall->getArg(0);
-    auto *lt = firstArg ? dyn_cast<IntegerLiteral>(firstArg) : nullptr;
+    auto *lt = firstArg ? dyn_cast<IntegerLiteral>(firstArg->IgnoreImpCasts()) : nullptr; // implicit cast to qsizetype in Qt6
     if (lt) {
         const auto value = lt->getValue();
         if (value == 0) {
-- 
2.43.0


From 52e668630e12a99f93c63c4dc2ab0af42744fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 09/83] fix: container-inside-loop, recognise std::vector

---
 src/checks/manuallevel/container-inside-loop.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/container-inside-loop.cpp b/src/checks/manuallevel/container-inside-loop.cpp
index 018eefc..c56853a 100644
--- a/src/checks/manuallevel/container-inside-loop.cpp
+++ b/src/checks/manuallevel/container-inside-loop.cpp
@@ -29,7 +29,12 @@ void ContainerInsideLoop::VisitStmt(clang::Stmt *stmt)
     }
 
     CXXConstructorDecl *ctor = ctorExpr->getConstructor();
-    if (!ctor || !clazy::equalsAny(clazy::classNameFor(ctor), {"QVector", "std::vector", "QList"})) {
+    if (!ctor) {
+        return;
+    }
+
+    const bool isStdVector = clazy::name(ctor->getParent()) == "vector" && ctor->getParent()->isInStdNamespace();
+    if (!isStdVector && !clazy::equalsAny(clazy::classNameFor(ctor), {"QVector", "QList"})) {
         return;
     }
 
-- 
2.43.0


From 8241ca3943354ec856457876b27682b1c97f8f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 10/83] fix: Emit each warning only once when matchers see
 template instantiations

---
 src/checkbase.cpp | 4 ++++
 src/checkbase.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index f353df4..c1dc2b2 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -242,6 +242,10 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
         m_emittedWarningsInMacro.push_back(loc.getRawEncoding());
     }
 
+    if (printWarningTag && !m_emittedWarnings.emplace(loc.getRawEncoding(), error).second) {
+        return; // AST matchers see the same code again in each template instantiation
+    }
+
     if (printWarningTag) {
         error += tag();
     }
diff --git a/src/checkbase.h b/src/checkbase.h
index 832b3d6..9084e26 100644
--- a/src/checkbase.h
+++ b/src/checkbase.h
@@ -23,6 +23,7 @@
 #include <clang/Parse/Parser.h>
 #include <llvm/Config/llvm-config.h>
 
+#include <set>
 #include <string>
 #include <utility>
 #include <vector>
@@ -217,6 +218,7 @@ private:
     friend class ClazyAstMatcherCallback;
     ClazyPreprocessorCallbacks *const m_preprocessorCallbacks;
     std::vector<unsigned int> m_emittedWarningsInMacro;
+    std::set<std::pair<unsigned int, std::string>> m_emittedWarnings;
     std::vector<unsigned int> m_emittedManualFixItsWarningsInMacro;
     std::vector<std::pair<clang::SourceLocation, std::string>> m_queuedManualInterventionWarnings;
     const Options m_options;
-- 
2.43.0


From 6a6fcf42e6df301cd39850bf66b75faa9e731db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 11/83] fix: AST matcher based checks, skip system headers like
 the others

---
 src/checks/level0/qcolor-from-literal.cpp       | 4 ++--
 src/checks/level1/readlock-detaching.cpp        | 4 ++--
 src/checks/manuallevel/compare-member-check.cpp | 2 +-
 src/checks/manuallevel/unused-result-check.cpp  | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index b1277ae..f82d866 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -170,8 +170,8 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
 void QColorFromLiteral::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<QColorFromLiteral_Callback>(this);
-    finder.addMatcher(cxxConstructExpr(hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))),
+    finder.addMatcher(cxxConstructExpr(unless(isExpansionInSystemHeader()), hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))),
                       m_astMatcherCallBack.get());
-    finder.addMatcher(callExpr(hasDeclaration(cxxMethodDecl(hasName("fromString"), hasParent(cxxRecordDecl(hasName("QColor")))))).bind("methodCall"),
+    finder.addMatcher(callExpr(unless(isExpansionInSystemHeader()), hasDeclaration(cxxMethodDecl(hasName("fromString"), hasParent(cxxRecordDecl(hasName("QColor")))))).bind("methodCall"),
                       m_astMatcherCallBack.get());
 }
diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 8b122e9..35bcd1a 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -168,8 +168,8 @@ public:
 void ReadlockDetaching::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<ReadlockDetaching_Callback>(this);
-    finder.addMatcher(cxxConstructExpr(hasType(cxxRecordDecl(hasName("QReadLocker")))).bind("qreadlockerCtor"), m_astMatcherCallBack.get());
+    finder.addMatcher(cxxConstructExpr(unless(isExpansionInSystemHeader()), hasType(cxxRecordDecl(hasName("QReadLocker")))).bind("qreadlockerCtor"), m_astMatcherCallBack.get());
     finder.addMatcher(
-        cxxMemberCallExpr(on(hasType(cxxRecordDecl(hasName("QReadWriteLock")))), callee(cxxMethodDecl(hasName("lockForRead")))).bind("qreadwritelockCall"),
+        cxxMemberCallExpr(unless(isExpansionInSystemHeader()), on(hasType(cxxRecordDecl(hasName("QReadWriteLock")))), callee(cxxMethodDecl(hasName("lockForRead")))).bind("qreadwritelockCall"),
         m_astMatcherCallBack.get());
 }
diff --git a/src/checks/manuallevel/compare-member-check.cpp b/src/checks/manuallevel/compare-member-check.cpp
index 533d445..9994fd8 100644
--- a/src/checks/manuallevel/compare-member-check.cpp
+++ b/src/checks/manuallevel/compare-member-check.cpp
@@ -117,5 +117,5 @@ CompareMemberCheck::~CompareMemberCheck() = default;
 void CompareMemberCheck::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<MemberCaller>(this);
-    finder.addMatcher(cxxOperatorCallExpr().bind("callExpr"), m_astMatcherCallBack.get());
+    finder.addMatcher(cxxOperatorCallExpr(unless(isExpansionInSystemHeader())).bind("callExpr"), m_astMatcherCallBack.get());
 }
diff --git a/src/checks/manuallevel/unused-result-check.cpp b/src/checks/manuallevel/unused-result-check.cpp
index c57b6ae..c5dd389 100644
--- a/src/checks/manuallevel/unused-result-check.cpp
+++ b/src/checks/manuallevel/unused-result-check.cpp
@@ -56,5 +56,5 @@ UnusedResultCheck::~UnusedResultCheck() = default;
 void UnusedResultCheck::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<Caller>(this);
-    finder.addMatcher(cxxMemberCallExpr().bind("opCallExpr"), m_astMatcherCallBack.get());
+    finder.addMatcher(cxxMemberCallExpr(unless(isExpansionInSystemHeader())).bind("opCallExpr"), m_astMatcherCallBack.get());
 }
-- 
2.43.0


From 13b718e0f220c2ee24de855226d90b440ff4c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 12/83] fix: copyable-polymorphic, don't crash on final
 templates with a dependent base

---
 src/checks/level2/copyable-polymorphic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 9ade947..52808ba 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -44,6 +44,9 @@ static bool hasPublicCopyInAncestors(const CXXRecordDecl *record)
     for (auto base : record->bases()) {
         if (const Type *t = base.getType().getTypePtrOrNull()) {
             const CXXRecordDecl *baseRecord = t->getAsCXXRecordDecl();
+            if (!baseRecord) {
+                continue; // A dependent base
+            }
             if (hasPublicCopy(baseRecord)) {
                 return true;
             }
-- 
2.43.0


From ec8adcb6165001e42cf3543bc80a327653928775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 13/83] fix: NOLINT and NOLINTNEXTLINE, suppress all warnings
 of the line, not only the first

---
 src/SuppressionManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 7a6d9f2..136ca40 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -104,7 +104,6 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     const LineNumber lineNumber = sm.getSpellingLineNumber(loc);
     if (suppressions.skipNextLine.count(lineNumber) > 0) {
-        suppressions.skipNextLine.erase(lineNumber);
         return true;
     }
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
-- 
2.43.0


From f0c44bba875cd5361e1dffe114ca00ae65cb57d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 14/83] fix: NOLINT with a list of checks, honour every check
 of the list

---
 src/SuppressionManager.cpp | 11 +++++++----
 src/SuppressionManager.h   |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 136ca40..c83b473 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -54,8 +54,8 @@ static std::vector<llvm::Regex> splitDisabledChecksText(const std::string &disab
 {
     std::vector<llvm::Regex> disabledChecksRegexes;
     for (const auto &split : clazy::splitString(disableText, ',')) {
-        if (split.find("clazy-") == 0) {
-            StringRef sanitizedCheckName = llvm::StringRef(split).substr(strlen("clazy-")).rtrim();
+        StringRef sanitizedCheckName = llvm::StringRef(split).trim();
+        if (sanitizedCheckName.consume_front("clazy-")) {
             disabledChecksRegexes.push_back(createRegexFromGlob(sanitizedCheckName));
         }
     }
@@ -109,8 +109,11 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
     if (suppressions.checksToSkipByLine.find(LineAndCheckName(lineNumber, checkName)) != suppressions.checksToSkipByLine.cend())
         return true;
 
-    if (auto it = suppressions.checkWildcardsToSkipByLine.find(lineNumber); it != suppressions.checkWildcardsToSkipByLine.end()) {
-        return it->second.match(checkName);
+    const auto [wildcardsBegin, wildcardsEnd] = suppressions.checkWildcardsToSkipByLine.equal_range(lineNumber);
+    for (auto wildcardIt = wildcardsBegin; wildcardIt != wildcardsEnd; ++wildcardIt) {
+        if (wildcardIt->second.match(checkName)) {
+            return true;
+        }
     }
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 0106a01..089733a 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -45,7 +45,7 @@ public:
         std::set<unsigned> skipNextLine;
         std::set<CheckName> checksToSkip;
         std::set<LineAndCheckName> checksToSkipByLine;
-        std::unordered_map<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
+        std::unordered_multimap<LineNumber, llvm::Regex> checkWildcardsToSkipByLine;
         std::vector<CheckBeginAndEnd> checkWildcardsRanges;
     };
 
-- 
2.43.0


From d5931deeef53c6fa7858b38daced1bd6f02e702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 15/83] fix: NOLINTBEGIN, ranges may overlap, and may be about
 other checks than those of clazy

---
 src/SuppressionManager.cpp | 12 +++++++-----
 src/SuppressionManager.h   |  1 +
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index c83b473..780a27d 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -118,10 +118,11 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
 
     for (const auto &rangeSuppression : suppressions.checkWildcardsRanges) {
         if (rangeSuppression.begin <= lineNumber && rangeSuppression.end >= lineNumber) {
-            return rangeSuppression.checksToSkipWildcard.empty()
-                || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
-                       return regex.match(checkName);
-                   });
+            if (rangeSuppression.allChecks || std::ranges::any_of(rangeSuppression.checksToSkipWildcard, [&checkName](const llvm::Regex &regex) {
+                    return regex.match(checkName);
+                })) {
+                return true;
+            }
         }
     }
 
@@ -174,7 +175,8 @@ void SuppressionManager::parseFile(FileID id, const SourceManager &sm, const cla
                 } else {
                     const auto [beginLineNumber, disabledChecks] = checkRangeStack.top();
                     checkRangeStack.pop();
-                    suppressions.checkWildcardsRanges.push_back(CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), beginLineNumber, lineNumber});
+                    suppressions.checkWildcardsRanges.push_back(
+                        CheckBeginAndEnd{splitDisabledChecksText(disabledChecks), disabledChecks.empty(), beginLineNumber, lineNumber});
                 }
 
             } else {
diff --git a/src/SuppressionManager.h b/src/SuppressionManager.h
index 089733a..6a63726 100644
--- a/src/SuppressionManager.h
+++ b/src/SuppressionManager.h
@@ -36,6 +36,7 @@ public:
     using LineAndCheckName = std::pair<LineNumber, CheckName>;
     struct CheckBeginAndEnd {
         std::vector<llvm::Regex> checksToSkipWildcard;
+        bool allChecks; // There was no list of checks
         LineNumber begin;
         LineNumber end;
     };
-- 
2.43.0


From 2fead7ab194c637698843525b0c12292165f0cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:23 +0000
Subject: [PATCH 16/83] fix: ifndef-define-typo, skip system headers like the
 other checks

---
 src/checks/manuallevel/ifndef-define-typo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/checks/manuallevel/ifndef-define-typo.cpp b/src/checks/manuallevel/ifndef-define-typo.cpp
index 80d1663..cac1724 100644
--- a/src/checks/manuallevel/ifndef-define-typo.cpp
+++ b/src/checks/manuallevel/ifndef-define-typo.cpp
@@ -65,6 +65,10 @@ void IfndefDefineTypo::VisitEndif(SourceLocation, SourceLocation)
 
 void IfndefDefineTypo::maybeWarn(const std::string &define, SourceLocation loc)
 {
+    if (sm().isInSystemHeader(loc)) {
+        return;
+    }
+
     if (m_lastIfndef == "Q_CONSTRUCTOR_FUNCTION") { // Transform into a list if more false-positives need to be added
         return;
     }
-- 
2.43.0


From 8ac363d3766108c13630c1ff19ebf0a2a374c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 17/83] fix: qproperty-without-notify, accept any white space
 between the words

---
 src/checks/level1/qproperty-without-notify.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checks/level1/qproperty-without-notify.cpp b/src/checks/level1/qproperty-without-notify.cpp
index d2f4f96..7a50be2 100644
--- a/src/checks/level1/qproperty-without-notify.cpp
+++ b/src/checks/level1/qproperty-without-notify.cpp
@@ -13,6 +13,7 @@
 #include <clang/Lex/Token.h>
 #include <llvm/ADT/StringRef.h>
 
+#include <string_view>
 #include <vector>
 
 using namespace clang;
@@ -55,13 +56,12 @@ void QPropertyWithoutNotify::VisitMacroExpands(const clang::Token &MacroNameTok,
         text.pop_back();
     }
 
-    std::vector<std::string> split = clazy::splitString(text, ' ');
+    const std::vector<std::string_view> split = clazy::splitStringBySpaces(text);
 
     bool found_read = false;
     bool found_constant = false;
     bool found_notify = false;
-    for (std::string &token : split) {
-        clazy::rtrim(/*by-ref*/ token);
+    for (const std::string_view token : split) {
         if (!found_read && token == "READ") {
             found_read = true;
             continue;
-- 
2.43.0


From 614d94e5071e092b951274e1888259d69b76d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 18/83] fix: qproperty-type-mismatch, don't crash on properties
 without a name

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 6ae66b0..17fd0cc 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -243,10 +243,14 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         return str == "*"sv || str == "&"sv;
     };
 
-    for (; isModifier(split[splitIndex]) || p.type.empty(); ++splitIndex) {
+    for (; splitIndex < split.size() && (isModifier(split[splitIndex]) || p.type.empty()); ++splitIndex) {
         p.type += split[splitIndex];
     }
 
+    if (splitIndex == split.size()) {
+        return; // There's no name
+    }
+
     // Handle name
     p.name = split[splitIndex];
 
-- 
2.43.0


From 55d9828e2d5701bb4c40967a9c14041b71b6076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 19/83] fix: qproperty-type-mismatch, check MEMBER properties
 whose member has another name

---
 src/checks/manuallevel/qproperty-type-mismatch.cpp | 10 +++++++---
 src/checks/manuallevel/qproperty-type-mismatch.h   |  1 +
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index 17fd0cc..e9c4d81 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -168,7 +168,7 @@ void QPropertyTypeMismatch::checkMethodAgainstProperty(const Property &prop, con
 
 void QPropertyTypeMismatch::checkFieldAgainstProperty(const Property &prop, const FieldDecl &field, const std::string &fieldName)
 {
-    if (prop.member && prop.name == fieldName) {
+    if (prop.member && (prop.memberName.empty() ? prop.name : prop.memberName) == fieldName) {
         std::string typeStr;
         if (!typesMatch(prop.type, field.getType(), typeStr)) {
             emitWarning(&field,
@@ -270,7 +270,7 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
     }
 
     // Handle Q_PROPERTY functions
-    enum { None, Read, Write, Notify } next = None;
+    enum { None, Read, Write, Notify, Member } next = None;
 
     for (const std::string_view &token : split) {
         switch (next) {
@@ -286,7 +286,8 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
                 continue;
             } else if (token == "MEMBER"sv) {
                 p.member = true;
-                break;
+                next = Member;
+                continue;
             }
             break;
         }
@@ -299,6 +300,9 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
         case Notify:
             p.notify = token;
             break;
+        case Member:
+            p.memberName = token;
+            break;
         }
 
         next = None;
diff --git a/src/checks/manuallevel/qproperty-type-mismatch.h b/src/checks/manuallevel/qproperty-type-mismatch.h
index 557350f..480d5b6 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.h
+++ b/src/checks/manuallevel/qproperty-type-mismatch.h
@@ -43,6 +43,7 @@ private:
     struct Property {
         clang::SourceLocation loc;
         bool member{};
+        std::string memberName;
         std::string name;
         std::string type;
         std::string read;
-- 
2.43.0


From 113c0b883de366b2c95ea9c9cccad4db9304b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 20/83] fix: only-qt, decide for each translation unit whether
 it uses Qt

---
 src/ClazyContext.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index c870795..3f912f6 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -17,6 +17,7 @@
 #include <llvm/Support/JSON.h>
 #include <llvm/Support/Regex.h>
 
+#include <algorithm>
 #include <cstdlib>
 
 using namespace clang;
@@ -171,16 +172,9 @@ void ClazyContext::registerPreprocessorCallbacks(clang::Preprocessor &pp)
 
 bool ClazyContext::isQt() const
 {
-    static const bool s_isQt = [this] {
-        for (const auto &s : m_pp.Macros) {
-            if (s.first == "QT_CORE_LIB") {
-                return true;
-            }
-        }
-        return false;
-    }();
-
-    return s_isQt;
+    return std::ranges::any_of(m_pp.Macros, [](const auto &macro) {
+        return macro.first == "QT_CORE_LIB";
+    });
 }
 std::string ClazyContext::qtNamespace() const
 {
-- 
2.43.0


From 0ac72fa68cb0cc7472cc04650c9b26e72ce774fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:32 +0000
Subject: [PATCH 21/83] fix: clang-tidy, run the checks on all translation
 units, not only the first

---
 src/ClazyClangTidyModule.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index 1573384..dde7226 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -71,6 +71,7 @@ public:
         }
         m_allChecks.clear();
         delete clazyContext;
+        s_enabledChecks.clear(); // The checks are created anew for each translation unit
     }
 
     void registerMatchers(ast_matchers::MatchFinder *Finder) override
-- 
2.43.0


From bb5c84e8673cbc647fd15a360e29b87cd0fb7925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 22/83] fix: Don't use warning texts, which may hold user code,
 as format strings

---
 src/ClazyClangTidyModule.cpp | 2 +-
 src/ClazyContext.cpp         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ClazyClangTidyModule.cpp b/src/ClazyClangTidyModule.cpp
index dde7226..fac82be 100644
--- a/src/ClazyClangTidyModule.cpp
+++ b/src/ClazyClangTidyModule.cpp
@@ -139,7 +139,7 @@ public:
                clang::DiagnosticIDs::Level level,
                std::string error,
                const std::vector<clang::FixItHint> &fixits) {
-            clangTidyContext->diag("clazy-" + checkName, loc, error, level) << fixits;
+            clangTidyContext->diag("clazy-" + checkName, loc, "%0", level) << error << fixits;
         };
 };
 
diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 3f912f6..3f26a65 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -102,8 +102,9 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
                                                         std::string error,
                                                         const std::vector<clang::FixItHint> &fixits) {
         auto &engine = astContext->getDiagnostics();
-        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, error.c_str());
+        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0"); // The text may hold user code, it's no format string
         DiagnosticBuilder B = engine.Report(loc, id);
+        B << error;
         for (const FixItHint &fixit : fixits) {
             if (!fixit.isNull()) {
                 B.AddFixItHint(fixit);
-- 
2.43.0


From 0c6552a5451ac2ad2c1971755eeb08aa855d552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 23/83] fix: clazy-standalone, write the fixes file when the
 run is over, and report when that fails

---
 src/ClazyContext.cpp        | 10 +++-------
 src/ClazyStandaloneMain.cpp |  9 ++++++++-
 src/FixItExporter.cpp       | 23 ++++++++++++++++++-----
 src/FixItExporter.h         |  8 +++++++-
 4 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 3f26a65..4262b71 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -144,15 +144,11 @@ ClazyContext::~ClazyContext()
     delete accessSpecifierManager;
     delete parentMap;
 
-    static unsigned long count = 0;
-    count++;
-
     if (exporter) {
-        // With clazy-standalone we use the same YAML file for all translation-units, so only
-        // write out the last one. With clazy-plugin there's a YAML file per translation unit.
+        // With clazy-plugin there's a YAML file per translation unit. With clazy-standalone all translation units
+        // share one, which is written at the end of the run.
         const bool isClazyPlugin = m_translationUnitPaths.empty();
-        const bool isLast = count == m_translationUnitPaths.size();
-        if (isLast || isClazyPlugin) {
+        if (isClazyPlugin) {
             exporter->Export();
         }
         delete exporter;
diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index e688e87..8d404cf 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -8,6 +8,7 @@
 
 #include "Clazy.h"
 #include "ClazyContext.h"
+#include "FixItExporter.h"
 
 #include "checks.json.h"
 
@@ -225,5 +226,11 @@ int main(int argc, const char **argv)
 
     ClangTool tool(optionsParser.getCompilations(), optionsParser.getSourcePathList(), std::make_shared<PCHContainerOperations>(), fs);
 
-    return tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+    int result = tool.run(new ClazyToolActionFactory(optionsParser.getSourcePathList()));
+
+    if (!s_exportFixes.getValue().empty() && !FixItExporter::Export(s_exportFixes.getValue()) && result == 0) {
+        result = 1;
+    }
+
+    return result;
 }
diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 2e5fe40..341ba3c 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -175,15 +175,28 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
     }
 }
 
-void FixItExporter::Export()
+bool FixItExporter::Export(const std::string &fileName)
 {
-    auto tuDiag = getTuDiag();
-    if (!tuDiag.Diagnostics.empty()) {
-        std::error_code EC;
-        llvm::raw_fd_ostream OS(exportFixes, EC, llvm::sys::fs::OF_None);
+    if (getTuDiag().Diagnostics.empty()) {
+        return true;
+    }
+
+    std::error_code EC;
+    llvm::raw_fd_ostream OS(fileName, EC, llvm::sys::fs::OF_None);
+    if (!EC) {
         llvm::yaml::Output YAML(OS);
         YAML << getTuDiag();
+        OS.close();
+        EC = OS.error();
+        OS.clear_error();
     }
+
+    if (EC) {
+        llvm::errs() << "clazy: could not write the fixes to " << fileName << ": " << EC.message() << "\n";
+        return false;
+    }
+
+    return true;
 }
 
 void FixItExporter::Diag(SourceLocation Loc, unsigned DiagID)
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index 7ac084b..f35787a 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -34,7 +34,13 @@ public:
 
     void HandleDiagnostic(clang::DiagnosticsEngine::Level DiagLevel, const clang::Diagnostic &Info) override;
 
-    void Export();
+    /// Writes what was recorded since the start of the run (clazy-standalone) or of the translation unit (plugin)
+    static bool Export(const std::string &fileName);
+
+    void Export()
+    {
+        Export(exportFixes);
+    }
 
     /// Emit a diagnostic via the adapted diagnostic client.
     void Diag(clang::SourceLocation Loc, unsigned DiagID);
-- 
2.43.0


From 6206019e67ba60959c468110b338cbefe79d8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 24/83] fix: clazy-standalone, fail when the overlay file can't
 be used

---
 src/ClazyStandaloneMain.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index 8d404cf..ec61bec 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -211,7 +211,7 @@ int main(int argc, const char **argv)
         llvm::ErrorOr<std::unique_ptr<llvm::MemoryBuffer>> buffer = fs->getBufferForFile(overlayFile);
         if (!buffer) {
             llvm::errs() << "Can't load virtual filesystem overlay file '" << overlayFile << "': " << buffer.getError().message() << ".\n";
-            return 0;
+            return 1;
         }
 
         IntrusiveRefCntPtr<vfs::FileSystem> vfso = vfs::getVFSFromYAML(std::move(buffer.get()),
@@ -219,7 +219,7 @@ int main(int argc, const char **argv)
                                                                        overlayFile);
         if (!vfso) {
             llvm::errs() << "Error: invalid virtual filesystem overlay file '" << overlayFile << "'.\n";
-            return 0;
+            return 1;
         }
         fs->pushOverlay(vfso);
     }
-- 
2.43.0


From 638fdda72ef908a88142f5ae87485f28bc111c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 25/83] fix: Export the fixes of warnings that were promoted to
 errors too

---
 src/FixItExporter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 341ba3c..d78a903 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -127,6 +127,13 @@ tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
     return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
 }
 
+static bool isClazyDiagnostic(const Diagnostic &Info)
+{
+    SmallString<256> message;
+    Info.FormatDiagnostic(message);
+    return message.find("[-Wclazy-") != StringRef::npos;
+}
+
 // This function should export diagnostics, even if they are not fixits! Needed for Qtcreator integration
 void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const Diagnostic &Info)
 {
@@ -138,8 +145,9 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
         Client->HandleDiagnostic(DiagLevel, Info);
     }
 
-    // Convert and record warning diagnostics and their notes
-    if (DiagLevel == DiagnosticsEngine::Warning) {
+    // Convert and record warning diagnostics and their notes. Warnings of clazy may have been promoted to errors.
+    const bool isClazyError = DiagLevel == DiagnosticsEngine::Error && isClazyDiagnostic(Info);
+    if (DiagLevel == DiagnosticsEngine::Warning || isClazyError) {
         auto ToolingDiag = ConvertDiagnostic(Info);
         for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
             const FixItHint &Hint = Info.getFixItHint(Idx);
-- 
2.43.0


From 647282fe34fefdb838d46b4eaca5f5829e2692c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 26/83] fix: fix: Q_SLOT, Q_SIGNAL, Q_INVOKABLE and
 Q_SCRIPTABLE followed by a comment or an empty line

---
 src/Utils.cpp | 37 ++-----------------------------------
 1 file changed, 2 insertions(+), 35 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 82c73f4..16f2a12 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -991,41 +991,8 @@ std::string Utils::filenameForLoc(SourceLocation loc, const clang::SourceManager
 
 SourceLocation Utils::locForNextToken(SourceLocation loc, const clang::SourceManager &sm, const clang::LangOptions &lo)
 {
-    std::pair<FileID, unsigned> locInfo = sm.getDecomposedLoc(loc);
-    bool InvalidTemp = false;
-    StringRef File = sm.getBufferData(locInfo.first, &InvalidTemp);
-    if (InvalidTemp) {
-        return {};
-    }
-
-    const char *TokenBegin = File.data() + locInfo.second;
-    Lexer lexer(sm.getLocForStartOfFile(locInfo.first), lo, File.begin(), TokenBegin, File.end());
-
-    Token Tok;
-    lexer.LexFromRawLexer(Tok);
-
-    SourceLocation TokenLoc = Tok.getLocation();
-
-    // Calculate how much whitespace needs to be skipped if any.
-    unsigned NumWhitespaceChars = 0;
-    const char *TokenEnd = sm.getCharacterData(TokenLoc) + Tok.getLength();
-    unsigned char C = *TokenEnd;
-    while (isHorizontalWhitespace(C)) {
-        C = *(++TokenEnd);
-        NumWhitespaceChars++;
-    }
-
-    // Skip \r, \n, \r\n, or \n\r
-    if (C == '\n' || C == '\r') {
-        char PrevC = C;
-        C = *(++TokenEnd);
-        NumWhitespaceChars++;
-        if ((C == '\n' || C == '\r') && C != PrevC) {
-            NumWhitespaceChars++;
-        }
-    }
-
-    return loc.getLocWithOffset(Tok.getLength() + NumWhitespaceChars);
+    const auto token = Lexer::findNextToken(loc, sm, lo); // Skips white space and comments
+    return token ? token->getLocation() : SourceLocation();
 }
 
 bool Utils::literalContainsEscapedBytes(StringLiteral *lt, const SourceManager &sm, const LangOptions &lo)
-- 
2.43.0


From 9454ac1970f692b3ac51147951ca6475d0d8a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 27/83] fix: fix: fully-qualified-moc-types: comments are no
 part of a type

---
 .../level0/fully-qualified-moc-types.cpp      | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index c2b038e..f025816 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -28,6 +28,22 @@
 
 using namespace clang;
 
+/*
+ * The source text of a range, without its comments
+ */
+static std::string sourceTextWithoutComments(CharSourceRange range, const SourceManager &sm, const LangOptions &lo)
+{
+    const std::string text = Lexer::getSourceText(range, sm, lo).str();
+    Lexer lexer(SourceLocation(), lo, text.data(), text.data(), text.data() + text.size());
+    std::string out;
+    Token tok;
+    for (bool atEnd = false; !atEnd;) {
+        atEnd = lexer.LexFromRawLexer(tok);
+        out += std::string(lexer.getBufferLocation() - tok.getLength(), tok.getLength()) + ' ';
+    }
+    return out;
+}
+
 /*
  * When we get the raw string from the lexer, ensure we remove unneeded whitespaces to get a proper representation of the expression
  */
@@ -96,8 +112,7 @@ std::string FullyQualifiedMocTypes::writtenType(const ParmVarDecl *param) const
     }
 
     CharSourceRange CSR = CharSourceRange::getTokenRange(TL.getSourceRange());
-    StringRef text = Lexer::getSourceText(CSR, sm(), lo());
-    return normalizeType(text.str());
+    return normalizeType(sourceTextWithoutComments(CSR, sm(), lo()));
 }
 
 void FullyQualifiedMocTypes::VisitDecl(clang::Decl *decl)
@@ -147,8 +162,7 @@ void FullyQualifiedMocTypes::VisitDecl(clang::Decl *decl)
         if (returnT->isReferenceType() || returnT->isPointerType()) {
             returnTypeSourceRange = SourceRange(returnTypeSourceRange.getBegin(), returnTypeSourceRange.getEnd().getLocWithOffset(-1));
         }
-        StringRef returnText = Lexer::getSourceText(CharSourceRange::getTokenRange(returnTypeSourceRange), sm(), lo());
-        const std::string typeName = normalizeType(returnText.str());
+        const std::string typeName = normalizeType(sourceTextWithoutComments(CharSourceRange::getTokenRange(returnTypeSourceRange), sm(), lo()));
         std::string qualifiedTypeName;
         if (!typeName.empty() && !typeIsFullyQualified(clazy::pointeeQualType(returnT), /*by-ref*/ qualifiedTypeName, typeName)) {
             if (method->getReturnType()->isReferenceType() || method->getReturnType()->isPointerType()) {
-- 
2.43.0


From 3d1a9df933a4d5d98188902ac64ae5779f848c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 28/83] fix: fix: incorrect-emit: comments between emit and the
 call

---
 src/checks/level1/incorrect-emit.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/checks/level1/incorrect-emit.cpp b/src/checks/level1/incorrect-emit.cpp
index 10b702f..063a2b9 100644
--- a/src/checks/level1/incorrect-emit.cpp
+++ b/src/checks/level1/incorrect-emit.cpp
@@ -17,6 +17,7 @@
 #include <clang/Basic/IdentifierTable.h>
 #include <clang/Basic/LLVM.h>
 #include <clang/Basic/SourceManager.h>
+#include <clang/Lex/Lexer.h>
 #include <clang/Lex/Token.h>
 #include <llvm/ADT/StringRef.h>
 #include <llvm/Support/Casting.h>
@@ -30,18 +31,6 @@ IncorrectEmit::IncorrectEmit(const std::string &name, Options options)
     m_filesToIgnore = {"moc_", ".moc"};
 }
 
-size_t countUntilNonSpaceOrParen(const char *start, size_t prefixLen)
-{
-    size_t count = prefixLen;
-    start += prefixLen;
-    // Skip spaces and '(' characters
-    while (*start && (isspace(*start) || *start == '(')) {
-        ++count;
-        ++start;
-    }
-    return count;
-}
-
 void IncorrectEmit::VisitMacroExpands(const Token &MacroNameTok, const SourceRange &range, const MacroInfo *info)
 {
     IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
@@ -51,9 +40,16 @@ void IncorrectEmit::VisitMacroExpands(const Token &MacroNameTok, const SourceRan
     const bool isEmit = ii->getName() == "emit";
     const bool isQEmit = ii->getName() == "Q_EMIT";
     if (isEmit || isQEmit) {
-        const char *start = sm().getCharacterData(range.getBegin());
-        const size_t char_offset = countUntilNonSpaceOrParen(start, isEmit ? strlen("emit") : strlen("Q_EMIT"));
-        SourceLocation newLocation = range.getBegin().getLocWithOffset(char_offset);
+        // Skip white space, comments and '(' to get to the call
+        SourceLocation newLocation = range.getBegin();
+        std::optional<Token> token;
+        do {
+            token = Lexer::findNextToken(newLocation, sm(), lo());
+            if (!token) {
+                return;
+            }
+            newLocation = token->getLocation();
+        } while (token->is(tok::l_paren));
         m_emitLocations.push_back(newLocation);
     }
 }
-- 
2.43.0


From 42a2784e1b56bef4f7836bcef463c4f177f28e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 29/83] fix: fix: suppression comments on the lines of macro
 arguments

---
 src/SuppressionManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SuppressionManager.cpp b/src/SuppressionManager.cpp
index 780a27d..6acef62 100644
--- a/src/SuppressionManager.cpp
+++ b/src/SuppressionManager.cpp
@@ -70,7 +70,12 @@ bool SuppressionManager::isSuppressed(const std::string &checkName,
                                       const clang::LangOptions &lo) const
 {
     if (loc.isMacroID()) {
+        // The warning is shown at the line of the macro argument it is in, which need not be the line the macro starts at
+        const SourceLocation fileLoc = sm.getFileLoc(loc);
         loc = sm.getExpansionLoc(loc);
+        if (fileLoc != loc && isSuppressed(checkName, fileLoc, sm, lo)) {
+            return true;
+        }
     }
 
     FileID fileID = sm.getFileID(loc);
-- 
2.43.0


From d32c74d21d254c65aa0cc85e6d4199e290fb6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 30/83] fix: fix: -line-filter uses the line that is shown, for
 macro arguments too

---
 src/ClazyContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index 4262b71..d3faba6 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -188,7 +188,7 @@ bool ClazyContext::passesLineFilter(clang::SourceLocation loc) const
         return true;
     }
 
-    const PresumedLoc ploc = sm.getPresumedLoc(loc);
+    const PresumedLoc ploc = sm.getPresumedLoc(sm.getFileLoc(loc)); // The line that's shown, for macro arguments too
     if (ploc.isInvalid()) {
         return true; // Don't drop diagnostics we can't attribute to a location
     }
-- 
2.43.0


From bba5c2892587b2a3d29979e896579b5a2939e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:30 +0000
Subject: [PATCH 31/83] fix: fix: no warnings of preprocessor callbacks for
 system headers, nor for non-Qt files with only-qt

---
 src/checkbase.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index c1dc2b2..646c547 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -227,6 +227,14 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
         return;
     }
 
+    if ((m_context->options & ClazyContext::ClazyOption_OnlyQt) && !m_context->isQt()) {
+        return; // The AST isn't traversed in this case, but preprocessor callbacks are called
+    }
+
+    if (loc.isValid() && sm().isInSystemHeader(loc)) {
+        return; // Declarations and statements in there aren't visited, but preprocessor callbacks are called
+    }
+
     if (m_context->shouldIgnoreFile(loc)) {
         return;
     }
-- 
2.43.0


From bb4815f385ae87e24360be06aef335894042f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 32/83] fix: fix: warnings treated as errors don't end the
 analysis

---
 src/ClazyContext.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ClazyContext.cpp b/src/ClazyContext.cpp
index d3faba6..5e34981 100644
--- a/src/ClazyContext.cpp
+++ b/src/ClazyContext.cpp
@@ -102,7 +102,15 @@ ClazyContext::ClazyContext(clang::ASTContext *context,
                                                         std::string error,
                                                         const std::vector<clang::FixItHint> &fixits) {
         auto &engine = astContext->getDiagnostics();
-        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0"); // The text may hold user code, it's no format string
+        // The text may hold user code, it's no format string
+#if LLVM_VERSION_MAJOR < 20
+        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(level, "%0");
+#else
+        // A warning that's treated as error stays a warning by class, otherwise it would count as unrecoverable and the rest of the code isn't analysed
+        const auto severity = level == DiagnosticIDs::Error ? diag::Severity::Error : diag::Severity::Warning;
+        unsigned id = engine.getDiagnosticIDs()->getCustomDiagID(
+            {severity, "%0", DiagnosticIDs::CLASS_WARNING, /*ShowInSystemHeader=*/true, /*ShowInSystemMacro=*/true});
+#endif
         DiagnosticBuilder B = engine.Report(loc, id);
         B << error;
         for (const FixItHint &fixit : fixits) {
-- 
2.43.0


From 43b3ad721fb1707108fc62f6390f2d4cc4539a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 33/83] fix: simpleTypeName of references names the namespace
 as well

---
 src/StringUtils.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/StringUtils.h b/src/StringUtils.h
index 3bcd51c..36a1366 100644
--- a/src/StringUtils.h
+++ b/src/StringUtils.h
@@ -254,11 +254,13 @@ inline std::string accessString(clang::AccessSpecifier s)
  */
 inline std::string simpleTypeName(clang::QualType qt, const clang::LangOptions &lo)
 {
-    const auto *t = qt.getTypePtrOrNull();
-    if (!t) {
+    if (qt.isNull()) {
         return {};
     }
 
+    qt = qt.getNonReferenceType();
+    const auto *t = qt.getTypePtr();
+
 #if LLVM_VERSION_MAJOR < 22
     if (clang::ElaboratedType::classof(t)) {
         qt = static_cast<const clang::ElaboratedType *>(t)->getNamedType();
-- 
2.43.0


From 64aebe6be08774b6a22dcbba44906ad88ad4263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 34/83] fix: fully-qualified-moc-types with Qt in a namespace

---
 .../level0/fully-qualified-moc-types.cpp      | 23 ++++++++++++++++++-
 src/checks/level0/fully-qualified-moc-types.h |  1 +
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/checks/level0/fully-qualified-moc-types.cpp b/src/checks/level0/fully-qualified-moc-types.cpp
index f025816..de27982 100644
--- a/src/checks/level0/fully-qualified-moc-types.cpp
+++ b/src/checks/level0/fully-qualified-moc-types.cpp
@@ -233,6 +233,25 @@ std::string FullyQualifiedMocTypes::resolveTemplateType(const clang::TemplateSpe
     return str;
 }
 
+std::string FullyQualifiedMocTypes::withoutQtNamespace(std::string typeName) const
+{
+    const std::string qtNamespace = m_context->qtNamespace();
+    if (qtNamespace.empty()) {
+        return typeName;
+    }
+
+    const std::string prefix = qtNamespace + "::";
+    for (size_t pos = typeName.find(prefix); pos != std::string::npos; pos = typeName.find(prefix, pos)) {
+        const char prev = pos == 0 ? ' ' : typeName[pos - 1];
+        if (isalnum(static_cast<unsigned char>(prev)) || prev == '_' || prev == ':') {
+            pos += prefix.size(); // Only the end of another name
+        } else {
+            typeName.erase(pos, prefix.size());
+        }
+    }
+    return typeName;
+}
+
 bool FullyQualifiedMocTypes::typeIsFullyQualified(QualType t, std::string &qualifiedTypeName, const std::string &nameAsWritten) const
 {
     qualifiedTypeName.clear();
@@ -249,7 +268,9 @@ bool FullyQualifiedMocTypes::typeIsFullyQualified(QualType t, std::string &quali
             qualifiedTypeName = getQualifiedNameOfType(ptr, true);
         }
 
-        return qualifiedTypeName.empty() || nameAsWritten == qualifiedTypeName;
+        // The classes of a Qt configured in a namespace are used without naming it
+        qualifiedTypeName = withoutQtNamespace(qualifiedTypeName);
+        return qualifiedTypeName.empty() || withoutQtNamespace(nameAsWritten) == qualifiedTypeName;
     }
     return true;
 }
diff --git a/src/checks/level0/fully-qualified-moc-types.h b/src/checks/level0/fully-qualified-moc-types.h
index 8f6bf88..c0462bd 100644
--- a/src/checks/level0/fully-qualified-moc-types.h
+++ b/src/checks/level0/fully-qualified-moc-types.h
@@ -32,6 +32,7 @@ private:
     bool handleQ_PROPERTY(clang::CXXMethodDecl *);
     void VisitMacroExpands(const clang::Token &MacroNameTok, const clang::SourceRange &range, const clang::MacroInfo *minfo = nullptr) override;
     void registerQ_GADGET(clang::SourceLocation);
+    std::string withoutQtNamespace(std::string typeName) const;
     bool typeIsFullyQualified(clang::QualType t, std::string &qualifiedTypeName, const std::string &nameAsWritten) const;
     std::string getQualifiedNameOfType(const clang::Type *ptr, bool resolveTemplateArgs) const;
     std::string resolveTemplateType(const clang::TemplateSpecializationType *ptr, bool resolveTemplateArgs) const;
-- 
2.43.0


From de84c08cafbc1e6a35e7571cdf1e819f4b49e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 35/83] fix: QT_NAMESPACE defined as something other than a
 name

---
 src/AccessSpecifierManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index 7fabf20..d61ca30 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -78,7 +78,7 @@ public:
         IdentifierInfo *ii = MacroNameTok.getIdentifierInfo();
         if (ii && ii->getName() == "QT_NAMESPACE") {
             const auto tokens = MD->getDefinition().getMacroInfo()->tokens();
-            if (tokens.size() == 1) {
+            if (tokens.size() == 1 && tokens.front().getIdentifierInfo()) {
                 m_qtNamespace = tokens.front().getIdentifierInfo()->getName();
             }
         }
-- 
2.43.0


From 74cc299a3cd361cba793de5b91895ea53cfe9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 36/83] fix: post-event with Qt in a namespace

---
 src/checks/level1/post-event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level1/post-event.cpp b/src/checks/level1/post-event.cpp
index 6e7214e..12413ac 100644
--- a/src/checks/level1/post-event.cpp
+++ b/src/checks/level1/post-event.cpp
@@ -34,7 +34,7 @@ void PostEvent::VisitStmt(clang::Stmt *stmt)
     }
 
     Expr *event = callexpr->getNumArgs() > 1 ? callexpr->getArg(1) : nullptr;
-    if (!event || clazy::simpleTypeName(event->getType(), lo()) != qtNamespaced("QEvent *")) {
+    if (!event || clazy::simpleTypeName(event->getType().getCanonicalType(), lo()) != qtNamespaced("QEvent *")) {
         return;
     }
 
-- 
2.43.0


From 59b05c2e9edc3b3ae8fb359624d715ffefe3e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 37/83] fix: compare with the names of Qt classes in their
 namespace

---
 .../level0/use-static-qregularexpression.cpp     |  2 +-
 src/checks/level1/const-signal-or-slot.cpp       |  2 +-
 src/checks/level2/qstring-allocations.cpp        | 16 ++++++++--------
 src/checks/level2/rule-of-three.cpp              |  2 +-
 src/checks/manuallevel/qstring-ref.cpp           |  8 ++++----
 .../qvariant-template-instantiation.cpp          |  4 ++--
 6 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/checks/level0/use-static-qregularexpression.cpp b/src/checks/level0/use-static-qregularexpression.cpp
index ef68722..afb6ddc 100644
--- a/src/checks/level0/use-static-qregularexpression.cpp
+++ b/src/checks/level0/use-static-qregularexpression.cpp
@@ -43,7 +43,7 @@ static bool isQStringModifiedAfterCreation(clang::Stmt *expr, LangOptions lo)
     // This QString is the result of a .arg/.mid or similar call, check all args if they are a literal
     if (auto *methodCall = clazy::getFirstChildOfType<CXXMemberCallExpr>(expr)) {
         if (auto *callee = methodCall->getMethodDecl()) {
-            if (callee->getReturnType().getAsString(lo) == "QString") {
+            if (const auto *record = callee->getReturnType()->getAsCXXRecordDecl(); record && clazy::name(record) == "QString") {
                 return true;
             }
         }
diff --git a/src/checks/level1/const-signal-or-slot.cpp b/src/checks/level1/const-signal-or-slot.cpp
index 695e973..8b79b23 100644
--- a/src/checks/level1/const-signal-or-slot.cpp
+++ b/src/checks/level1/const-signal-or-slot.cpp
@@ -65,7 +65,7 @@ void ConstSignalOrSlot::VisitDecl(Decl *decl)
     }
 
     const CXXRecordDecl *record = method->getParent();
-    if (clazy::derivesFrom(record, "QDBusAbstractInterface")) {
+    if (clazy::derivesFrom(record, qtNamespaced("QDBusAbstractInterface"))) {
         return;
     }
 
diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index 608ee9b..c54a1d3 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -393,7 +393,7 @@ std::vector<FixItHint> QStringAllocations::fixItReplaceWordWithWordInTernary(cla
 // false for: QString::fromLatin1("")
 // true for: QString s = QString::fromLatin1("foo")
 // false for: s += QString::fromLatin1("foo"), etc.
-static bool isQStringLiteralCandidate(Stmt *s, ParentMap *map, const LangOptions &lo, const SourceManager &sm, int currentCall = 0)
+static bool isQStringLiteralCandidate(Stmt *s, ParentMap *map, const std::string &qtNamespace, const LangOptions &lo, const SourceManager &sm, int currentCall = 0)
 {
     if (!s) {
         return false;
@@ -409,18 +409,18 @@ static bool isQStringLiteralCandidate(Stmt *s, ParentMap *map, const LangOptions
         return true;
     }
 
-    if (Utils::isAssignOperator(dyn_cast<CXXOperatorCallExpr>(s), "QString", "QLatin1String", lo)) {
+    if (Utils::isAssignOperator(dyn_cast<CXXOperatorCallExpr>(s), "QString", clazy::qtNamespaced("QLatin1String", qtNamespace), lo)) {
         return true;
     }
 
-    if (Utils::isAssignOperator(dyn_cast<CXXOperatorCallExpr>(s), "QString", "QString", lo)) {
+    if (Utils::isAssignOperator(dyn_cast<CXXOperatorCallExpr>(s), "QString", clazy::qtNamespaced("QString", qtNamespace), lo)) {
         return true;
     }
 
     auto *callExpr = dyn_cast<CallExpr>(s);
     StringLiteral *literal = stringLiteralForCall(callExpr);
     auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(s);
-    if (operatorCall && clazy::returnTypeName(operatorCall, lo) != "QTestData") {
+    if (operatorCall && clazy::returnTypeName(operatorCall, lo) != clazy::qtNamespaced("QTestData", qtNamespace)) {
         // QTest::newRow will static_assert when using QLatin1String
         // Q_STATIC_ASSERT_X(QMetaTypeId2<T>::Defined, "Type is not registered, please use the Q_DECLARE_METATYPE macro to make it known to Qt's meta-object
         // system");
@@ -429,7 +429,7 @@ static bool isQStringLiteralCandidate(Stmt *s, ParentMap *map, const LangOptions
         if (className == "QString") {
             return false;
         }
-        if (className.empty() && clazy::hasArgumentOfType(operatorCall->getDirectCallee(), "QString", lo)) {
+        if (className.empty() && clazy::hasArgumentOfType(operatorCall->getDirectCallee(), clazy::qtNamespaced("QString", qtNamespace), lo)) {
             return false;
         }
     }
@@ -452,7 +452,7 @@ static bool isQStringLiteralCandidate(Stmt *s, ParentMap *map, const LangOptions
 
     if (currentCall == 0 || dyn_cast<ImplicitCastExpr>(s) || dyn_cast<CXXBindTemporaryExpr>(s)
         || dyn_cast<MaterializeTemporaryExpr>(s)) { // recurse over this cruft
-        return isQStringLiteralCandidate(clazy::parent(map, s), map, lo, sm, currentCall + 1);
+        return isQStringLiteralCandidate(clazy::parent(map, s), map, qtNamespace, lo, sm, currentCall + 1);
     }
 
     return false;
@@ -462,7 +462,7 @@ std::vector<FixItHint> QStringAllocations::fixItReplaceFromLatin1OrFromUtf8(Call
 {
     std::vector<FixItHint> fixits;
 
-    std::string replacement = isQStringLiteralCandidate(callExpr, m_context->parentMap, lo(), sm()) ? "QStringLiteral" : "QLatin1String";
+    std::string replacement = isQStringLiteralCandidate(callExpr, m_context->parentMap, m_context->qtNamespace(), lo(), sm()) ? "QStringLiteral" : "QLatin1String";
     if (replacement == "QStringLiteral" && callExpr->getBeginLoc().isMacroID()) {
         queueManualFixitWarning(callExpr->getBeginLoc(), "Can't use QStringLiteral in macro!");
         return {};
@@ -569,7 +569,7 @@ void QStringAllocations::VisitOperatorCall(Stmt *stm)
         return;
     }
 
-    if (clazy::returnTypeName(operatorCall, lo()) == "QTestData") {
+    if (clazy::returnTypeName(operatorCall, lo()) == qtNamespaced("QTestData")) {
         // QTest::newRow will static_assert when using QLatin1String
         // Q_STATIC_ASSERT_X(QMetaTypeId2<T>::Defined, "Type is not registered, please use the Q_DECLARE_METATYPE macro to make it known to Qt's meta-object
         // system");
diff --git a/src/checks/level2/rule-of-three.cpp b/src/checks/level2/rule-of-three.cpp
index f3a76e1..3f749c5 100644
--- a/src/checks/level2/rule-of-three.cpp
+++ b/src/checks/level2/rule-of-three.cpp
@@ -129,7 +129,7 @@ void RuleOfThree::VisitDecl(clang::Decl *decl)
         }
     }
 
-    if (!hasUserDtor && (clazy::derivesFrom(record, "QSharedData") || dtorDefaultedByUser)) {
+    if (!hasUserDtor && (clazy::derivesFrom(record, qtNamespaced("QSharedData")) || dtorDefaultedByUser)) {
         return;
     }
 
diff --git a/src/checks/manuallevel/qstring-ref.cpp b/src/checks/manuallevel/qstring-ref.cpp
index 3d98f97..81d8eb1 100644
--- a/src/checks/manuallevel/qstring-ref.cpp
+++ b/src/checks/manuallevel/qstring-ref.cpp
@@ -38,7 +38,7 @@ static bool isInterestingFirstMethod(CXXMethodDecl *method)
     return clazy::contains(list, clazy::name(method));
 }
 
-static bool isInterestingSecondMethod(CXXMethodDecl *method, const clang::LangOptions &lo)
+static bool isInterestingSecondMethod(CXXMethodDecl *method, const std::string &qtNamespace, const clang::LangOptions &lo)
 {
     if (!method || clazy::name(method->getParent()) != "QString") {
         return false;
@@ -53,7 +53,7 @@ static bool isInterestingSecondMethod(CXXMethodDecl *method, const clang::LangOp
         return false;
     }
 
-    return !clazy::anyArgIsOfAnySimpleType(method, {"QRegExp", "QRegularExpression"}, lo);
+    return !clazy::anyArgIsOfAnySimpleType(method, {clazy::qtNamespaced("QRegExp", qtNamespace), clazy::qtNamespaced("QRegularExpression", qtNamespace)}, lo);
 }
 
 static bool isMethodReceivingQStringRef(CXXMethodDecl *method)
@@ -124,7 +124,7 @@ bool StringRefCandidates::isConvertedToSomethingElse(clang::Stmt *s) const
     if (containsChild(constr->getArg(0), s)) {
         CXXConstructorDecl *ctor = constr->getConstructor();
         CXXRecordDecl *record = ctor ? ctor->getParent() : nullptr;
-        return record ? record->getQualifiedNameAsString() != "QString" : false;
+        return record ? record->getQualifiedNameAsString() != qtNamespaced("QString") : false;
     }
 
     return false;
@@ -140,7 +140,7 @@ bool StringRefCandidates::processCase1(CXXMemberCallExpr *memberCall)
     // In the AST secondMethod() is parent of firstMethod() call, and will be visited first (because at runtime firstMethod() is resolved first().
     // So check for interesting second method first
     CXXMethodDecl *method = memberCall->getMethodDecl();
-    if (!isInterestingSecondMethod(method, lo())) {
+    if (!isInterestingSecondMethod(method, m_context->qtNamespace(), lo())) {
         return false;
     }
 
diff --git a/src/checks/manuallevel/qvariant-template-instantiation.cpp b/src/checks/manuallevel/qvariant-template-instantiation.cpp
index 498295d..f0ab076 100644
--- a/src/checks/manuallevel/qvariant-template-instantiation.cpp
+++ b/src/checks/manuallevel/qvariant-template-instantiation.cpp
@@ -63,12 +63,12 @@ void QVariantTemplateInstantiation::VisitStmt(clang::Stmt *stm)
         if (const auto *templateDecl = specDecl->getSpecializedTemplate()) {
             if (templateDecl->getNameAsString() == "QHash" || templateDecl->getNameAsString() == "QMap") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 2) || !(templateArgs.get(1).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 2) || !(templateArgs.get(1).getAsType().getAsString() == qtNamespaced("QVariant"))) {
                     return;
                 }
             } else if (templateDecl->getNameAsString() == "QList") {
                 const TemplateArgumentList &templateArgs = specDecl->getTemplateArgs();
-                if (!(templateArgs.size() == 1) || !(templateArgs.get(0).getAsType().getAsString() == "QVariant")) {
+                if (!(templateArgs.size() == 1) || !(templateArgs.get(0).getAsType().getAsString() == qtNamespaced("QVariant"))) {
                     return;
                 }
             }
-- 
2.43.0


From 7291fb179b8920a1f5a85708e63b8b7ebe7579eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 38/83] fix: wrapper in a folder with spaces, its exit status
 and options

---
 clazy.cmake | 73 ++++++++++++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/clazy.cmake b/clazy.cmake
index d72e918..3901a61 100644
--- a/clazy.cmake
+++ b/clazy.cmake
@@ -1,10 +1,10 @@
 #!/usr/bin/env sh
 
-libdir=$("@READLINK_CMD@" -f "$(dirname ${0})/@BIN_RELATIVE_LIBDIR@")
-sharedir=$("@READLINK_CMD@" -f "$(dirname ${0})/@BIN_RELATIVE_SHAREDIR@")
+libdir=$("@READLINK_CMD@" -f "$(dirname "${0}")/@BIN_RELATIVE_LIBDIR@")
+sharedir=$("@READLINK_CMD@" -f "$(dirname "${0}")/@BIN_RELATIVE_SHAREDIR@")
 
 HELP() {
-  echo "Usage: `basename $0` [options] [clang++-options]"
+  echo "Usage: $(basename "$0") [options] [clang++-options]"
   echo
   echo "Static analyzer for C++/Qt code (https://invent.kde.org/sdk/clazy)"
   echo
@@ -42,44 +42,46 @@ PRLIST() {
   if ( test -d "$sharedir/doc/clazy/$1" )
   then
     echo "$2:"
-    ls -1 $sharedir/doc/clazy/$1/README* | awk -F/ '{printf("    %s\n", $NF)}' | sed s/README-// | sed s/\.md$// | sort
+    ls -1 "$sharedir"/doc/clazy/"$1"/README* | awk -F/ '{printf("    %s\n", $NF)}' | sed s/README-// | sed s/\.md$// | sort
   else
     echo "There are no checkers available for $1"
   fi
 }
 
 PRINFO() {
-  lst=`ls -1 $sharedir/doc/clazy/level*/README*$1* $sharedir/doc/clazy/manuallevel/README*$1* 2>/dev/null`
-  if ( test ! -z "$lst" )
-  then
-    for f in $lst
-    do
-      l=`echo $f | awk -F/ '{foo=NF-1; printf("    %s:%s\n", $foo,$NF)}'`
-      level=`echo $l | cut -d: -f1`
-      checker=`echo $l | cut -d: -f2 | sed s/README-// | sed s/\.md$//`
+  found=""
+  for f in "$sharedir"/doc/clazy/level*/README*$1* "$sharedir"/doc/clazy/manuallevel/README*$1*
+  do
+    if ( test -f "$f" )
+    then
+      found="yes"
+      level=$(basename "$(dirname "$f")")
+      checker=$(basename "$f" .md | sed s/README-//)
       echo "== Explanation for checker $checker ($level) =="
-      cat $f
+      cat "$f"
       echo
-    done
-  else
+    fi
+  done
+  if ( test -z "$found" )
+  then
     echo "There is no explanation available for checker \"$1\""
     echo "Run 'clazy --explain' to see the list of all available checkers."
   fi
 }
 
-if ( test $# -gt 0 -a "$1" = "--help" )
+if ( test "$1" = "--help" )
 then
   HELP
   exit
 fi
 
-if ( test $# -gt 0 -a "$1" = "--version" )
+if ( test "$1" = "--version" )
 then
   VERSION
   exit
 fi
 
-if ( test $# -gt 0 -a "$1" = "--list" )
+if ( test "$1" = "--list" )
 then
   echo "List of available clazy checkers:"
   PRLIST level0 "Checks from level0. Very stable checks, 100% safe, no false-positives"
@@ -90,34 +92,35 @@ then
   exit
 fi
 
-if ( test $# -gt 0 -a "$1" = "--explain" )
+if ( test "$1" = "--explain" )
 then
   shift
-  PRINFO $@
+  PRINFO "$@"
   exit
 fi
 
 ExtraClangOptions=""
-if ( test $# -gt 0 -a "$1" = "--qtdeveloper" )
+if ( test "$1" = "--qtdeveloper" )
 then
   shift
   ExtraClangOptions="-Xclang -plugin-arg-clazy -Xclang qt-developer"
 fi
-if ( test $# -gt 0 -a "$1" = "--visit-implicit-code" )
+if ( test "$1" = "--visit-implicit-code" )
 then
   shift
-  ExtraClangOptions="-Xclang -plugin-arg-clazy -Xclang visit-implicit-code"
+  ExtraClangOptions="$ExtraClangOptions -Xclang -plugin-arg-clazy -Xclang visit-implicit-code"
 fi
 
+JniInclude=""
 case "$CLAZY_CHECKS" in
   *jni-signatures*)
     if [ -z "$ANDROID_NDK" ]
     then
         echo "To test JNI signatures you need to set ANDROID_NDK to your Android NDK installation."
-        exit
+        exit 1
     fi
 
-    ExtraClangOptions=$ExtraClangOptions" -idirafter"$ANDROID_NDK"/sysroot/usr/include"
+    JniInclude="-idirafter$ANDROID_NDK/sysroot/usr/include"
   ;;
 esac
 
@@ -126,26 +129,26 @@ ClazyPluginLib=ClazyPlugin@CMAKE_SHARED_LIBRARY_SUFFIX@
 if ( test -f "$libdir/$ClazyPluginLib" )
 then
     # find plugin libraries in install dir
-    export LD_LIBRARY_PATH=$libdir:$LD_LIBRARY_PATH
-    export DYLD_LIBRARY_PATH=$libdir:$DYLD_LIBRARY_PATH
-elif ( test -f "$(dirname $0)/lib/$ClazyPluginLib" )
+    export LD_LIBRARY_PATH="$libdir:$LD_LIBRARY_PATH"
+    export DYLD_LIBRARY_PATH="$libdir:$DYLD_LIBRARY_PATH"
+elif ( test -f "$(dirname "$0")/lib/$ClazyPluginLib" )
 then
     # find plugin libraries in build dir
-    export LD_LIBRARY_PATH=$(dirname $0)/lib:$LD_LIBRARY_PATH
-    export DYLD_LIBRARY_PATH=$(dirname $0)/lib:$DYLD_LIBRARY_PATH
+    export LD_LIBRARY_PATH="$(dirname "$0")/lib:$LD_LIBRARY_PATH"
+    export DYLD_LIBRARY_PATH="$(dirname "$0")/lib:$DYLD_LIBRARY_PATH"
 fi
 
-if ( test $# -gt 0 -a "$1" = "--standalone" )
+if ( test "$1" = "--standalone" )
 then
   shift
-  if ( test -f "$(dirname $0)/clazy-standalone" )
+  if ( test -f "$(dirname "$0")/clazy-standalone" )
   then
     # find binary in install dir
-    $(dirname $0)/clazy-standalone "$@"
+    "$(dirname "$0")/clazy-standalone" "$@"
   else
     # hope binary is in the expected build dir
-    $(dirname $0)/bin/clazy-standalone "$@"
+    "$(dirname "$0")/bin/clazy-standalone" "$@"
   fi
 else
-  ${CLANGXX:-clang++} -Qunused-arguments -Xclang -load -Xclang $ClazyPluginLib -Xclang -add-plugin -Xclang clazy $ExtraClangOptions "$@"
+  ${CLANGXX:-clang++} -Qunused-arguments -Xclang -load -Xclang $ClazyPluginLib -Xclang -add-plugin -Xclang clazy $ExtraClangOptions ${JniInclude:+"$JniInclude"} "$@"
 fi
-- 
2.43.0


From 667f6eee91baa5e67f255405edf82ad24fe0a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 39/83] fix: report a failure to write the supported checks

---
 src/ClazyStandaloneMain.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ClazyStandaloneMain.cpp b/src/ClazyStandaloneMain.cpp
index ec61bec..a718a88 100644
--- a/src/ClazyStandaloneMain.cpp
+++ b/src/ClazyStandaloneMain.cpp
@@ -183,7 +183,11 @@ int main(int argc, const char **argv)
     // llvm::errs() << optionsParser.getSourcePathList().size() << "\n";
 
     if (s_supportedChecks.getValue()) {
-        std::cout << SUPPORTED_CHECKS_JSON_STR;
+        std::cout << SUPPORTED_CHECKS_JSON_STR << std::flush;
+        if (!std::cout) {
+            llvm::errs() << "clazy: could not write the supported checks to the standard output\n";
+            return 1;
+        }
         return 0;
     }
 
-- 
2.43.0


From 78dc727ba9f12eba3ad3d2b80f2d5ac4cd546733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 40/83] fix: don't show the manual intervention notes of
 suppressed warnings with the next warning

---
 src/checkbase.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/checkbase.cpp b/src/checkbase.cpp
index 646c547..2b32574 100644
--- a/src/checkbase.cpp
+++ b/src/checkbase.cpp
@@ -26,6 +26,7 @@
 #include <llvm/Support/raw_ostream.h>
 
 #include <memory>
+#include <utility>
 #include <vector>
 
 namespace clang
@@ -223,6 +224,9 @@ std::string CheckBase::tag() const
 
 void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const std::vector<FixItHint> &fixits, bool printWarningTag)
 {
+    // These belong to this warning, they aren't shown either if it isn't
+    const auto queuedManualInterventionWarnings = std::exchange(m_queuedManualInterventionWarnings, {});
+
     if (m_context->suppressionManager.isSuppressed(m_name, loc, sm(), lo())) {
         return;
     }
@@ -260,7 +264,7 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
     reallyEmitWarning(loc, error, fixits);
 
-    for (const auto &l : m_queuedManualInterventionWarnings) {
+    for (const auto &l : queuedManualInterventionWarnings) {
         std::string msg("FixIt failed, requires manual intervention: ");
         if (!l.second.empty()) {
             msg += ' ' + l.second;
@@ -268,8 +272,6 @@ void CheckBase::emitWarning(clang::SourceLocation loc, std::string error, const
 
         reallyEmitWarning(l.first, msg + tag(), {});
     }
-
-    m_queuedManualInterventionWarnings.clear();
 }
 
 void CheckBase::emitInternalError(SourceLocation loc, std::string error)
-- 
2.43.0


From 1673d37a5f10a8939176489bf3e823ad79627ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 41/83] fix: parse Q_PROPERTY by tokens in the property checks
 (comments, types of several words, nested classes)

---
 src/Utils.cpp                                 |  14 ++
 src/Utils.h                                   |   3 +
 .../level1/qproperty-without-notify.cpp       |   8 +-
 .../manuallevel/qproperty-type-mismatch.cpp   | 134 +++++++++++++-----
 4 files changed, 123 insertions(+), 36 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 16f2a12..ab192aa 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -639,6 +639,20 @@ bool Utils::insideCTORCall(ParentMap *map, Stmt *s, const std::vector<llvm::Stri
     return insideCTORCall(map, clazy::parent(map, s), anyOf);
 }
 
+std::vector<std::string> Utils::tokens(const std::string &text, const clang::LangOptions &lo)
+{
+    std::vector<std::string> result;
+    Lexer lexer(SourceLocation(), lo, text.data(), text.data(), text.data() + text.size());
+    Token token;
+    for (bool atEnd = false; !atEnd;) {
+        atEnd = lexer.LexFromRawLexer(token);
+        if (token.isNot(tok::eof)) {
+            result.emplace_back(lexer.getBufferLocation() - token.getLength(), token.getLength());
+        }
+    }
+    return result;
+}
+
 bool Utils::presumedLocationsEqual(const clang::PresumedLoc &l1, const clang::PresumedLoc &l2)
 {
     return l1.isValid() && l2.isValid() && l1.getColumn() == l2.getColumn() && l1.getLine() == l2.getLine()
diff --git a/src/Utils.h b/src/Utils.h
index a248d1d..1b22700 100644
--- a/src/Utils.h
+++ b/src/Utils.h
@@ -140,6 +140,9 @@ bool isAssignOperator(clang::CXXOperatorCallExpr *op, llvm::StringRef className,
 
 bool isImplicitCastTo(clang::Stmt *, const std::string &);
 
+/// Returns the spelling of each token of the text, without the comments
+std::vector<std::string> tokens(const std::string &text, const clang::LangOptions &lo);
+
 bool presumedLocationsEqual(const clang::PresumedLoc &l1, const clang::PresumedLoc &l2);
 
 // Returns the list of methods with name methodName that the class/struct record contains
diff --git a/src/checks/level1/qproperty-without-notify.cpp b/src/checks/level1/qproperty-without-notify.cpp
index 7a50be2..b4cba13 100644
--- a/src/checks/level1/qproperty-without-notify.cpp
+++ b/src/checks/level1/qproperty-without-notify.cpp
@@ -5,7 +5,7 @@
 */
 
 #include "qproperty-without-notify.h"
-#include "clazy_stl.h"
+#include "Utils.h"
 
 #include <clang/Basic/IdentifierTable.h>
 #include <clang/Basic/SourceManager.h>
@@ -13,7 +13,7 @@
 #include <clang/Lex/Token.h>
 #include <llvm/ADT/StringRef.h>
 
-#include <string_view>
+#include <string>
 #include <vector>
 
 using namespace clang;
@@ -56,12 +56,12 @@ void QPropertyWithoutNotify::VisitMacroExpands(const clang::Token &MacroNameTok,
         text.pop_back();
     }
 
-    const std::vector<std::string_view> split = clazy::splitStringBySpaces(text);
+    const std::vector<std::string> split = Utils::tokens(text, lo());
 
     bool found_read = false;
     bool found_constant = false;
     bool found_notify = false;
-    for (const std::string_view token : split) {
+    for (const std::string &token : split) {
         if (!found_read && token == "READ") {
             found_read = true;
             continue;
diff --git a/src/checks/manuallevel/qproperty-type-mismatch.cpp b/src/checks/manuallevel/qproperty-type-mismatch.cpp
index e9c4d81..9a55d92 100644
--- a/src/checks/manuallevel/qproperty-type-mismatch.cpp
+++ b/src/checks/manuallevel/qproperty-type-mismatch.cpp
@@ -8,6 +8,7 @@
 #include "AccessSpecifierManager.h"
 #include "ClazyContext.h"
 #include "TypeUtils.h"
+#include "Utils.h"
 
 #include <clang/AST/Decl.h>
 #include <clang/AST/DeclCXX.h>
@@ -25,10 +26,93 @@
 
 #include <algorithm>
 #include <cctype>
+#include <string>
 #include <string_view>
 
 using namespace clang;
 
+// Parses the type the tokens start with. The result is spelled like the types returned by cleanupType().
+static std::string parseType(const std::vector<std::string> &tokens, std::size_t &index)
+{
+    std::string type;
+    std::string modifiers; // pointers
+    bool isConst = false;
+    bool isBuiltin = false;
+    bool isReference = false;
+    bool isUnsigned = false;
+    int numLongs = 0;
+    std::string builtin;
+
+    for (; index < tokens.size(); ++index) {
+        const std::string &token = tokens[index];
+        if (token == "const" && modifiers.empty()) {
+            isConst = true;
+        } else if (token == "*" || token == "const") {
+            modifiers += token;
+        } else if (token == "&" || token == "&&") {
+            isReference = true;
+        } else if (!modifiers.empty() || isReference) {
+            break;
+        } else if (type.empty() && (token == "struct" || token == "class" || token == "enum" || token == "typename" || token == "volatile")) {
+            continue;
+        } else if (type.empty()
+                   && (token == "unsigned" || token == "signed" || token == "short" || token == "long" || token == "int" || token == "char"
+                       || token == "double")) {
+            isBuiltin = true;
+            if (token == "unsigned") {
+                isUnsigned = true;
+            } else if (token == "long") {
+                ++numLongs;
+            } else if ((token != "int" || builtin.empty()) && (token != "signed" || builtin.empty())) {
+                builtin = builtin == "signed" && token == "char" ? "signedchar" : token;
+            }
+        } else if (token == "<" && !type.empty()) {
+            int depth = 0;
+            for (; index < tokens.size(); ++index) {
+                type += tokens[index];
+                depth += std::count(tokens[index].begin(), tokens[index].end(), '<') - std::count(tokens[index].begin(), tokens[index].end(), '>');
+                if (depth <= 0) {
+                    break;
+                }
+            }
+            if (index == tokens.size()) {
+                break;
+            }
+        } else if (token == "::" || type.empty() || clazy::endsWith(type, "::")) {
+            if (isBuiltin) {
+                break;
+            }
+            type += token;
+        } else {
+            break;
+        }
+    }
+
+    if (isBuiltin) {
+        if (numLongs > 0 && builtin != "double") {
+            builtin = numLongs > 1 ? "longlong" : "long";
+        } else if (numLongs > 0) {
+            builtin = "longdouble";
+        } else if (builtin.empty() || builtin == "signed") {
+            builtin = "int";
+        }
+        type = (isUnsigned ? "unsigned" : "") + builtin;
+    }
+
+    // Only what's pointed to can have a const that matters
+    return (isConst && !modifiers.empty() ? "const" : "") + type + modifiers;
+}
+
+// Returns whether loc is in the class, and not in a class nested in it
+static bool isInClass(const RecordDecl *theClass, SourceLocation loc)
+{
+    const SourceRange range = theClass->getSourceRange();
+    return range.getBegin() < loc && loc < range.getEnd() && std::none_of(theClass->decls_begin(), theClass->decls_end(), [loc](const Decl *decl) {
+               const auto *nested = dyn_cast<RecordDecl>(decl);
+               return nested && nested->getBeginLoc() < loc && loc < nested->getEndLoc();
+           });
+}
+
 void QPropertyTypeMismatch::VisitDecl(clang::Decl *decl)
 {
     if (auto *method = dyn_cast<CXXMethodDecl>(decl)) {
@@ -47,11 +131,10 @@ void QPropertyTypeMismatch::VisitMethod(const clang::CXXMethodDecl &method)
     }
 
     const auto &theClass = method.getParent();
-    const auto &classRange = theClass->getSourceRange();
     const auto &methodName = method.getNameInfo().getName().getAsString();
 
     for (const auto &prop : m_qproperties) {
-        if (classRange.getBegin() < prop.loc && prop.loc < classRange.getEnd()) {
+        if (isInClass(theClass, prop.loc)) {
             checkMethodAgainstProperty(prop, method, methodName);
         }
     }
@@ -60,11 +143,10 @@ void QPropertyTypeMismatch::VisitMethod(const clang::CXXMethodDecl &method)
 void QPropertyTypeMismatch::VisitField(const FieldDecl &field)
 {
     const auto &theClass = field.getParent();
-    const auto &classRange = theClass->getSourceRange();
     const auto &methodName = field.getName().str();
 
     for (const auto &prop : m_qproperties) {
-        if (classRange.getBegin() < prop.loc && prop.loc < classRange.getEnd()) {
+        if (isInClass(theClass, prop.loc)) {
             checkFieldAgainstProperty(prop, field, methodName);
         }
     }
@@ -190,6 +272,17 @@ bool QPropertyTypeMismatch::typesMatch(const std::string &type1, QualType type2Q
         return it->second == type2Qt || cleanupType(it->second) == type2Cleaned;
     }
 
+    // Maybe it's a template alias, such as QVector, and written in the same way
+    PrintingPolicy po(lo());
+    po.SuppressTagKeyword = true;
+    std::string type2Written = type2Qt.getNonReferenceType().getUnqualifiedType().getAsString(po);
+    std::erase_if(type2Written, [](char c) {
+        return std::isspace(c);
+    });
+    if (type1 == type2Written) {
+        return true;
+    }
+
     // Maybe the difference is just the scope, if yes then don't warn. We already have a check for complaining about lack of scope
     type2Cleaned = cleanupType(type2Qt, /*unscopped=*/true);
     return type1 == type2Cleaned;
@@ -227,7 +320,7 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
     }
     text = text.substr(contentBegin, contentLength);
 
-    std::vector<std::string_view> split = clazy::splitStringBySpaces(text);
+    const std::vector<std::string> split = Utils::tokens(text.str(), lo());
     if (split.size() < 2) {
         return;
     }
@@ -236,43 +329,20 @@ void QPropertyTypeMismatch::VisitMacroExpands(const clang::Token &MacroNameTok,
     p.loc = range.getBegin();
 
     std::size_t splitIndex = 0;
-    using namespace std::string_view_literals;
-
-    // Handle type (type string and any following modifiers)
-    const auto isModifier = [](std::string_view str) {
-        return str == "*"sv || str == "&"sv;
-    };
-
-    for (; splitIndex < split.size() && (isModifier(split[splitIndex]) || p.type.empty()); ++splitIndex) {
-        p.type += split[splitIndex];
-    }
-
-    if (splitIndex == split.size()) {
+    p.type = parseType(split, splitIndex);
+    if (p.type.empty() || splitIndex == split.size()) {
         return; // There's no name
     }
 
     // Handle name
     p.name = split[splitIndex];
 
-    std::size_t actualNameStartPos = 0;
-    // FIXME: This is getting hairy, better use regexps
-    for (unsigned int i = 0; i < p.name.size(); ++i) {
-        if (p.name[i] == '*' || p.name[i] == '&') {
-            p.type += p.name[i];
-            ++actualNameStartPos;
-        } else {
-            break;
-        }
-    }
-
-    if (actualNameStartPos) {
-        p.name.erase(0, actualNameStartPos);
-    }
+    using namespace std::string_view_literals;
 
     // Handle Q_PROPERTY functions
     enum { None, Read, Write, Notify, Member } next = None;
 
-    for (const std::string_view &token : split) {
+    for (const std::string &token : split) {
         switch (next) {
         case None: {
             if (token == "READ"sv) {
-- 
2.43.0


From 85b18c40b9aa40ea4c7992accbd76fbc4ead6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 42/83] fix: qbytearray-conversion-to-c-style: accept blanks
 before the parenthesis of QByteArrayLiteral

---
 .../qbytearray-conversion-to-c-style.cpp      | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index fb62d1c..1e56278 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -66,14 +66,22 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
             return;
         }
 
-        auto modifyStr = [&str](const char *name) {
-            str.remove_suffix(1);
-            str.remove_prefix(strlen(name));
+        // Leaves only the argument if it's a call of name
+        auto takeArgument = [&str](StringRef name) {
+            StringRef text = str;
+            if (!text.consume_front(name)) {
+                return false;
+            }
+            text = text.ltrim();
+            if (!text.consume_front("(")) {
+                return false;
+            }
+            str = text.drop_back().trim();
+            return true;
         };
         // This only works with Qt6 where QByteArrayLiteral is a macro, but not with
         // Qt5 where QByteArrayLiteral is a lambda.
-        if (str.find("QByteArrayLiteral(") == 0) {
-            modifyStr("QByteArrayLiteral(");
+        if (takeArgument("QByteArrayLiteral")) {
             CharSourceRange expRange = sm().getExpansionRange(funcCastExpr->getBeginLoc());
             if (!expRange.isValid()) {
                 return;
@@ -81,8 +89,7 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
             std::vector<FixItHint> fixits = {clazy::createReplacement(expRange.getAsRange(), std::string{str})};
             emitWarning(expRange.getBegin(), msg, fixits);
             return;
-        } else if (str.find("QByteArray(") == 0) {
-            modifyStr("QByteArray(");
+        } else if (takeArgument("QByteArray")) {
             std::vector<FixItHint> fixits = {clazy::createReplacement(sr, std::string{str})};
             emitWarning(sr.getBegin(), msg, fixits);
             return;
-- 
2.43.0


From 334dea366aefed9d259f25cce28811ab124625d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 43/83] fix: qbytearray-conversion-to-c-style: report
 conversions written in macros of system headers where they're used

---
 src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index 1e56278..70645ad 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -97,6 +97,11 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
     }
 
     SourceLocation begin = sm().getSpellingLoc(sr.getBegin());
+    if (sm().isInSystemHeader(begin)) {
+        // Written in a macro of Qt, it can only be shown where that's used
+        emitWarning(sm().getExpansionLoc(sr.getBegin()), msg);
+        return;
+    }
     SourceLocation end = sm().getSpellingLoc(sr.getEnd());
     CharSourceRange r = CharSourceRange::getTokenRange(begin, end);
     if (!r.isValid()) {
-- 
2.43.0


From 5c7206e5cd361ce022d6c66ed28dc3b72f702969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 44/83] fix: Find Q_SIGNAL, Q_SLOT, Q_INVOKABLE and
 Q_SCRIPTABLE anywhere in a declaration

They were only seen right before the place where the AST says the method
starts, so they were missed with attributes, specifiers or other macros
around them
---
 src/AccessSpecifierManager.cpp | 77 +++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/AccessSpecifierManager.cpp b/src/AccessSpecifierManager.cpp
index d61ca30..d09a9eb 100644
--- a/src/AccessSpecifierManager.cpp
+++ b/src/AccessSpecifierManager.cpp
@@ -112,27 +112,49 @@ public:
             QtAccessSpecifierType qtAccessSpecifier = isSlots ? QtAccessSpecifier_Slot : QtAccessSpecifier_Signal;
             m_qtAccessSpecifiers.push_back({loc, clang::AS_none, qtAccessSpecifier});
         } else {
-            // Get the location of the method declaration, so we can compare directly when we visit methods
-            loc = Utils::locForNextToken(loc, m_sm, m_lo);
-            if (loc.isInvalid()) {
-                return;
-            }
             if (isSignal) {
-                m_individualSignals.push_back(loc.getRawEncoding());
+                m_individualSignals.push_back(loc);
             } else if (isSlot) {
-                m_individualSlots.push_back(loc.getRawEncoding());
+                m_individualSlots.push_back(loc);
             } else if (isInvokable) {
-                m_invokables.push_back(loc.getRawEncoding());
+                m_invokables.push_back(loc);
             } else if (isScriptable) {
-                m_scriptables.push_back(loc.getRawEncoding());
+                m_scriptables.push_back(loc);
             }
         }
     }
 
-    std::vector<unsigned> m_individualSignals; // Q_SIGNAL
-    std::vector<unsigned> m_individualSlots; // Q_SLOT
-    std::vector<unsigned> m_invokables; // Q_INVOKABLE
-    std::vector<unsigned> m_scriptables; // Q_SCRIPTABLE
+    /**
+     * Returns whether one of the macros is part of the declaration of the method, which it doesn't need to
+     * start: "static Q_INVOKABLE void foo()", "Q_INVOKABLE [[nodiscard]] int foo()", "Q_SIGNAL Q_SCRIPTABLE void foo()".
+     */
+    bool isMarkedBy(const std::vector<SourceLocation> &macros, const CXXMethodDecl *method) const
+    {
+        const SourceLocation nameLoc = m_sm.getFileLoc(method->getLocation());
+        SourceLocation nearest;
+        for (SourceLocation loc : macros) {
+            if (loc < nameLoc && (nearest.isInvalid() || nearest < loc)) {
+                nearest = loc;
+            }
+        }
+        if (nearest.isInvalid() || m_sm.getFileID(nearest) != m_sm.getFileID(nameLoc)) {
+            return false;
+        }
+
+        for (SourceLocation loc = nearest; loc < nameLoc;) {
+            const std::optional<Token> tok = Lexer::findNextToken(loc, m_sm, m_lo);
+            if (!tok || tok->isOneOf(tok::semi, tok::l_brace, tok::r_brace, tok::colon)) {
+                return false; // It's part of an earlier declaration
+            }
+            loc = tok->getLocation();
+        }
+        return true;
+    }
+
+    std::vector<SourceLocation> m_individualSignals; // Q_SIGNAL
+    std::vector<SourceLocation> m_individualSlots; // Q_SLOT
+    std::vector<SourceLocation> m_invokables; // Q_INVOKABLE
+    std::vector<SourceLocation> m_scriptables; // Q_SCRIPTABLE
     std::string m_qtNamespace;
     ClazySpecifierList m_qtAccessSpecifiers;
     const SourceManager &m_sm;
@@ -228,24 +250,18 @@ QtAccessSpecifierType AccessSpecifierManager::qtAccessSpecifierType(const CXXMet
     const SourceLocation methodLoc = method->getBeginLoc();
 
     // Process Q_SIGNAL:
-    for (auto signalLoc : m_preprocessorCallbacks->m_individualSignals) {
-        if (signalLoc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Signal;
-        }
+    if (m_preprocessorCallbacks->isMarkedBy(m_preprocessorCallbacks->m_individualSignals, method)) {
+        return QtAccessSpecifier_Signal;
     }
 
     // Process Q_SLOT:
-    for (auto slotLoc : m_preprocessorCallbacks->m_individualSlots) {
-        if (slotLoc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Slot;
-        }
+    if (m_preprocessorCallbacks->isMarkedBy(m_preprocessorCallbacks->m_individualSlots, method)) {
+        return QtAccessSpecifier_Slot;
     }
 
     // Process Q_INVOKABLE:
-    for (auto loc : m_preprocessorCallbacks->m_invokables) {
-        if (loc == methodLoc.getRawEncoding()) {
-            return QtAccessSpecifier_Invokable;
-        }
+    if (m_preprocessorCallbacks->isMarkedBy(m_preprocessorCallbacks->m_invokables, method)) {
+        return QtAccessSpecifier_Invokable;
     }
 
     // Process Q_SLOTS and Q_SIGNALS:
@@ -281,18 +297,11 @@ bool AccessSpecifierManager::isScriptable(const CXXMethodDecl *method) const
         return false;
     }
 
-    const SourceLocation methodLoc = method->getBeginLoc();
-    if (methodLoc.isMacroID()) {
+    if (method->getBeginLoc().isMacroID()) {
         return false;
     }
 
-    for (auto loc : m_preprocessorCallbacks->m_scriptables) {
-        if (loc == methodLoc.getRawEncoding()) {
-            return true;
-        }
-    }
-
-    return false;
+    return m_preprocessorCallbacks->isMarkedBy(m_preprocessorCallbacks->m_scriptables, method);
 }
 
 llvm::StringRef AccessSpecifierManager::qtAccessSpecifierTypeStr(QtAccessSpecifierType t) const
-- 
2.43.0


From 6ee3690d6a5d12d3062f601169492b50660e3fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 45/83] fix: qcolor-from-literal: fixits that compile for
 implicit conversions and black

---
 src/checks/level0/qcolor-from-literal.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/checks/level0/qcolor-from-literal.cpp b/src/checks/level0/qcolor-from-literal.cpp
index f82d866..6eaedce 100644
--- a/src/checks/level0/qcolor-from-literal.cpp
+++ b/src/checks/level0/qcolor-from-literal.cpp
@@ -111,9 +111,12 @@ public:
                 message = "The QColor ctor taking ints is cheaper than one taking string literals";
             } else {
                 fixit = "0x" + twoDigit(rColor) + twoDigit(gColor) + twoDigit(bColor);
+                if (rColor == "0" && gColor == "0" && bColor == "0") {
+                    fixit += 'u'; // A plain 0 could also be a null pointer, which would be ambiguous
+                }
                 message = "The QColor ctor taking RGB int value is cheaper than one taking string literals";
             }
-            if (isStaticFromString) {
+            if (isStaticFromString || (doubleDigitA && !isWrittenConstructorCall(result))) {
                 fixit = "QColor(" + fixit + ")";
             }
             m_check->emitWarning(replaceExpr->getBeginLoc(), message, {clang::FixItHint::CreateReplacement(replaceExpr->getSourceRange(), fixit)});
@@ -122,6 +125,19 @@ public:
             m_check->emitWarning(replaceExpr->getBeginLoc(), "The QColor ctor taking QRgba64 is cheaper than one taking string literals");
         }
     }
+    /// Returns whether the literal is between the parenthesis or braces of a QColor constructor call, and not implicitly converted
+    static bool isWrittenConstructorCall(const MatchFinder::MatchResult &result)
+    {
+        const auto *ctor = result.Nodes.getNodeAs<CXXConstructExpr>("ctor");
+        if (!ctor || isa<ParenExpr>(ctor->getArg(0)->IgnoreImpCasts())) {
+            return false;
+        }
+        const auto parents = result.Context->getParents(*ctor);
+        if (const auto *cast = parents.empty() ? nullptr : parents[0].get<ExplicitCastExpr>()) {
+            return isa<CXXFunctionalCastExpr>(cast);
+        }
+        return ctor->getParenOrBraceRange().isValid();
+    }
     inline std::string twoDigit(const std::string &in)
     {
         return in.length() == 1 ? in + in : in;
@@ -170,7 +186,7 @@ void QColorFromLiteral::VisitStmt(Stmt *stmt)
 void QColorFromLiteral::registerASTMatchers(MatchFinder &finder)
 {
     m_astMatcherCallBack = std::make_unique<QColorFromLiteral_Callback>(this);
-    finder.addMatcher(cxxConstructExpr(unless(isExpansionInSystemHeader()), hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))),
+    finder.addMatcher(cxxConstructExpr(unless(isExpansionInSystemHeader()), hasDeclaration(namedDecl(hasName("QColor"))), hasArgument(0, stringLiteral().bind("myLiteral"))).bind("ctor"),
                       m_astMatcherCallBack.get());
     finder.addMatcher(callExpr(unless(isExpansionInSystemHeader()), hasDeclaration(cxxMethodDecl(hasName("fromString"), hasParent(cxxRecordDecl(hasName("QColor")))))).bind("methodCall"),
                       m_astMatcherCallBack.get());
-- 
2.43.0


From 06aa70dd8e89ea3f9686b7bd49f21566bf504119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 46/83] fix: qlatin1string-non-ascii: a null character is ASCII

---
 src/checks/level1/qlatin1string-non-ascii.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/checks/level1/qlatin1string-non-ascii.cpp b/src/checks/level1/qlatin1string-non-ascii.cpp
index 1393968..4778f28 100644
--- a/src/checks/level1/qlatin1string-non-ascii.cpp
+++ b/src/checks/level1/qlatin1string-non-ascii.cpp
@@ -7,7 +7,6 @@
 
 #include "qlatin1string-non-ascii.h"
 #include "HierarchyUtils.h"
-#include "Utils.h"
 
 #include <clang/AST/DeclCXX.h>
 #include <clang/AST/Expr.h>
@@ -28,7 +27,7 @@ void QLatin1StringNonAscii::VisitStmt(clang::Stmt *stmt)
     }
 
     auto *lt = clazy::getFirstChildOfType2<StringLiteral>(stmt);
-    if (lt && !Utils::isAscii(lt)) {
+    if (lt && (!lt->isOrdinary() || lt->containsNonAscii())) { // A null character is fine
         emitWarning(stmt, "QLatin1String with non-ascii literal");
     }
 }
-- 
2.43.0


From fd5c5ae719768700fb25fa0abaefdc3187338335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 47/83] fix: jni-signatures: accept all valid names and arrays
 of arrays

---
 src/checks/manuallevel/jnisignatures.cpp | 89 +++++++++++++++++++-----
 src/checks/manuallevel/jnisignatures.h   |  5 +-
 2 files changed, 73 insertions(+), 21 deletions(-)

diff --git a/src/checks/manuallevel/jnisignatures.cpp b/src/checks/manuallevel/jnisignatures.cpp
index 358fbe5..6c77bc3 100644
--- a/src/checks/manuallevel/jnisignatures.cpp
+++ b/src/checks/manuallevel/jnisignatures.cpp
@@ -16,6 +16,7 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/AST/OperationKinds.h>
 #include <clang/AST/Stmt.h>
+#include <clang/Basic/CharInfo.h>
 #include <clang/Basic/LLVM.h>
 #include <clang/Basic/SourceLocation.h>
 #include <clang/Basic/SourceManager.h>
@@ -24,20 +25,72 @@
 
 using namespace clang;
 
-static const std::regex methodSignatureRegex("\\((\\[?([ZBCSIJFD]|L([a-zA-Z]+\\/)*[a-zA-Z]+;))*\\)\\[?([ZBCSIJFD]|L([a-zA-Z]+\\/)*[a-zA-Z]+;|V)");
+// The parts of a descriptor, as defined by the JVM. Each consume function removes what it accepts from the front of the string.
 
-static const std::regex classNameRegex("([a-zA-Z]+\\/)*[a-zA-Z]+");
+static bool isIdentifierChar(char c, bool first)
+{
+    // Java allows letters outside of ASCII too
+    return clang::isLetter(c) || c == '_' || c == '$' || static_cast<unsigned char>(c) >= 0x80 || (!first && clang::isDigit(c));
+}
+
+static bool consumeIdentifier(llvm::StringRef &str)
+{
+    size_t length = 0;
+    while (length < str.size() && isIdentifierChar(str[length], length == 0)) {
+        ++length;
+    }
+    str = str.drop_front(length);
+    return length > 0;
+}
+
+static bool consumeClassName(llvm::StringRef &str)
+{
+    do {
+        if (!consumeIdentifier(str)) {
+            return false;
+        }
+    } while (str.consume_front("/"));
+    return true;
+}
+
+static bool consumeType(llvm::StringRef &str)
+{
+    str = str.ltrim('[');
+    if (str.consume_front("L")) {
+        return consumeClassName(str) && str.consume_front(";");
+    }
+    if (str.empty() || !llvm::StringRef("ZBCSIJFD").contains(str.front())) {
+        return false;
+    }
+    str = str.drop_front();
+    return true;
+}
 
-static const std::regex methodNameRegex("[a-zA-Z]+");
+static bool isMethodSignature(llvm::StringRef str)
+{
+    if (!str.consume_front("(")) {
+        return false;
+    }
+    while (!str.consume_front(")")) {
+        if (!consumeType(str)) {
+            return false;
+        }
+    }
+    return str == "V" || (consumeType(str) && str.empty());
+}
 
-bool checkSignature(const std::string &signature, const std::regex &expr)
+static bool isClassName(llvm::StringRef str)
 {
-    std::smatch match;
-    return std::regex_match(signature, match, expr);
+    return consumeClassName(str) && str.empty();
+}
+
+static bool isMethodName(llvm::StringRef str)
+{
+    return consumeIdentifier(str) && str.empty();
 }
 
 template<typename T>
-void JniSignatures::checkArgAt(T *call, unsigned int index, const std::regex &expr, const std::string &errorMessage)
+void JniSignatures::checkArgAt(T *call, unsigned int index, bool (*isValid)(llvm::StringRef), const std::string &errorMessage)
 {
     if (call->getNumArgs() < index + 1) {
         return;
@@ -53,12 +106,10 @@ void JniSignatures::checkArgAt(T *call, unsigned int index, const std::regex &ex
         return;
     }
 
-    const std::string signature = stringLiteral->getString().str();
-
-    const bool valid = checkSignature(signature, expr);
+    const llvm::StringRef signature = stringLiteral->getString();
 
-    if (!valid) {
-        emitWarning(call, errorMessage + ": '" + signature + "'");
+    if (!isValid(signature)) {
+        emitWarning(call, errorMessage + ": '" + signature.str() + "'");
     }
 }
 
@@ -81,12 +132,12 @@ void JniSignatures::checkFunctionCall(Stmt *stm)
     const std::string name = clazy::name(funDecl).str();
 
     if (name == "callObjectMethod" || name == "callMethod") {
-        checkArgAt(callExpr, 0, methodNameRegex, "Invalid method name");
-        checkArgAt(callExpr, 1, methodSignatureRegex, "Invalid method signature");
+        checkArgAt(callExpr, 0, isMethodName, "Invalid method name");
+        checkArgAt(callExpr, 1, isMethodSignature, "Invalid method signature");
     } else if (name == "callStaticObjectMethod" || name == "callStaticMethod") {
-        checkArgAt(callExpr, 0, classNameRegex, "Invalid class name");
-        checkArgAt(callExpr, 1, methodNameRegex, "Invalid method name");
-        checkArgAt(callExpr, 2, methodSignatureRegex, "Invalid method signature");
+        checkArgAt(callExpr, 0, isClassName, "Invalid class name");
+        checkArgAt(callExpr, 1, isMethodName, "Invalid method name");
+        checkArgAt(callExpr, 2, isMethodSignature, "Invalid method signature");
     }
 }
 
@@ -103,8 +154,8 @@ void JniSignatures::checkConstructorCall(Stmt *stm)
         return;
     }
 
-    checkArgAt(constructExpr, 0, classNameRegex, "Invalid class name");
-    checkArgAt(constructExpr, 1, methodSignatureRegex, "Invalid constructor signature");
+    checkArgAt(constructExpr, 0, isClassName, "Invalid class name");
+    checkArgAt(constructExpr, 1, isMethodSignature, "Invalid constructor signature");
 }
 
 void JniSignatures::VisitStmt(Stmt *stm)
diff --git a/src/checks/manuallevel/jnisignatures.h b/src/checks/manuallevel/jnisignatures.h
index e8a481c..3cea32b 100644
--- a/src/checks/manuallevel/jnisignatures.h
+++ b/src/checks/manuallevel/jnisignatures.h
@@ -10,7 +10,8 @@
 
 #include "checkbase.h"
 
-#include <regex>
+#include <llvm/ADT/StringRef.h>
+
 #include <string>
 
 class JniSignatures : public CheckBase
@@ -21,7 +22,7 @@ public:
 
 private:
     template<typename T>
-    void checkArgAt(T *call, unsigned int index, const std::regex &expr, const std::string &errorMessage);
+    void checkArgAt(T *call, unsigned int index, bool (*isValid)(llvm::StringRef), const std::string &errorMessage);
     void checkConstructorCall(clang::Stmt *stm);
     void checkFunctionCall(clang::Stmt *stm);
 };
-- 
2.43.0


From 723926a1e52629eede3147b189c7400beeb1ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 48/83] fix: copyable-polymorphic: consider copy members that
 weren't implicitly declared yet

---
 src/checks/level2/copyable-polymorphic.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 52808ba..0860e04 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -22,10 +22,13 @@ using namespace clang;
 static bool hasPublicCopy(const CXXRecordDecl *record)
 {
     CXXConstructorDecl *copyCtor = Utils::copyCtor(record);
-    const bool hasCallableCopyCtor = copyCtor && !copyCtor->isDeleted() && copyCtor->getAccess() == clang::AS_public;
+    // Implicit members aren't declared before they are used, unless whether they'd be deleted isn't obvious
+    const bool hasCallableCopyCtor =
+        copyCtor ? !copyCtor->isDeleted() && copyCtor->getAccess() == clang::AS_public : record->hasDefinition() && record->hasSimpleCopyConstructor();
     if (!hasCallableCopyCtor) {
         CXXMethodDecl *copyAssign = Utils::copyAssign(record);
-        const bool hasCallableCopyAssign = copyAssign && !copyAssign->isDeleted() && copyAssign->getAccess() == clang::AS_public;
+        const bool hasCallableCopyAssign =
+            copyAssign ? !copyAssign->isDeleted() && copyAssign->getAccess() == clang::AS_public : record->hasDefinition() && record->hasSimpleCopyAssignment();
         if (!hasCallableCopyAssign) {
             return false;
         }
-- 
2.43.0


From 7fbed18b5fa34944dcc22195c23e7a7fcffaa99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 49/83] fix: rule-of-three: don't depend on whether an implicit
 copy constructor is used

---
 src/checks/level2/rule-of-three.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/rule-of-three.cpp b/src/checks/level2/rule-of-three.cpp
index 3f749c5..dee6190 100644
--- a/src/checks/level2/rule-of-three.cpp
+++ b/src/checks/level2/rule-of-three.cpp
@@ -75,7 +75,8 @@ void RuleOfThree::VisitDecl(clang::Decl *decl)
     if (!copyCtor || !copyAssign) {
         for (auto *f : record->fields()) {
             QualType qt = f->getType();
-            if (qt.isConstQualified() || qt->isRValueReferenceType()) {
+            // A const member only prevents assignment, the class still gets a copy-ctor. Don't depend on whether it was implicitly declared yet.
+            if ((qt.isConstQualified() && !copyAssign) || qt->isRValueReferenceType()) {
                 hasImplicitDeletedCopy = true;
                 break;
             }
-- 
2.43.0


From f50afa11c329dc9f5f3dbc21204bd1392efd04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:57 +0000
Subject: [PATCH 50/83] fix: virtual-call-ctor: look at the initializers too

---
 src/checks/level2/virtual-call-ctor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/checks/level2/virtual-call-ctor.cpp b/src/checks/level2/virtual-call-ctor.cpp
index f096d23..4d55aa6 100644
--- a/src/checks/level2/virtual-call-ctor.cpp
+++ b/src/checks/level2/virtual-call-ctor.cpp
@@ -63,6 +63,14 @@ void VirtualCallCtor::VisitDecl(Decl *decl)
 
     std::vector<Stmt *> processedStmts;
     SourceLocation loc = containsVirtualCall(classDecl, ctorOrDtorBody, processedStmts);
+    if (ctorDecl) {
+        // The initializers of the members and bases are run as well
+        for (auto *init : ctorDecl->inits()) {
+            if (loc.isInvalid()) {
+                loc = containsVirtualCall(classDecl, init->getInit(), processedStmts);
+            }
+        }
+    }
     if (loc.isValid()) {
         if (ctorDecl) {
             emitWarning(decl->getBeginLoc(), "Calling pure virtual function in CTOR");
-- 
2.43.0


From 29499ae7e9ce593341e1b5311be8d75159f37d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 51/83] fix: strict-iterators: don't crash on calls through a
 pointer to a member function

---
 src/checks/level0/strict-iterators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level0/strict-iterators.cpp b/src/checks/level0/strict-iterators.cpp
index f4d57bd..4fdd2c4 100644
--- a/src/checks/level0/strict-iterators.cpp
+++ b/src/checks/level0/strict-iterators.cpp
@@ -97,7 +97,7 @@ bool StrictIterators::handleImplicitCast(ImplicitCastExpr *implicitCast)
     if (implicitCast->getCastKind() == CK_ConstructorConversion) {
         if (auto *memberCall = dyn_cast_or_null<CXXMemberCallExpr>(m_context->parentMap->getParent(implicitCast))) {
             auto memberFunctionDecl = memberCall->getMethodDecl();
-            if (auto *parentClass = memberFunctionDecl->getParent()) {
+            if (auto *parentClass = memberFunctionDecl ? memberFunctionDecl->getParent() : nullptr) { // null for a pointer to a member function
                 static const std::vector<std::string> allow = {
                     "QMap<>::insert",
                     "QMap<>::erase",
-- 
2.43.0


From 8418640c70218f841e01fafa4458c78bffff64cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 52/83] fix: detaching-member: don't crash on iterators that
 aren't classes

---
 src/checks/manuallevel/detaching-member.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/checks/manuallevel/detaching-member.cpp b/src/checks/manuallevel/detaching-member.cpp
index ae7cdf2..7659031 100644
--- a/src/checks/manuallevel/detaching-member.cpp
+++ b/src/checks/manuallevel/detaching-member.cpp
@@ -130,9 +130,14 @@ void DetachingMember::VisitStmt(clang::Stmt *stm)
                         ParmVarDecl *param = parentFunc->getParamDecl(i);
 
                         // Check that the record declarations have the same type
-                        if (param->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()
-                            == memberCall->getType().getTypePtr()->getAsRecordDecl()->getNameAsString()) {
-                            return;
+                        const RecordDecl *paramRecord = param->getType()->getAsRecordDecl();
+                        const RecordDecl *iteratorRecord = memberCall->getType()->getAsRecordDecl();
+                        if (paramRecord && iteratorRecord) {
+                            if (paramRecord->getNameAsString() == iteratorRecord->getNameAsString()) {
+                                return;
+                            }
+                        } else if (astContext()->hasSameUnqualifiedType(param->getType(), memberCall->getType())) {
+                            return; // The iterators of Qt5's QVector are pointers
                         }
                         break;
                     }
-- 
2.43.0


From 2982514fa405e382e8f0fcc9443f4a47db54119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 53/83] fix: qstring-allocations: don't crash on calls without
 a direct callee

---
 src/StringUtils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StringUtils.h b/src/StringUtils.h
index 36a1366..0bf7836 100644
--- a/src/StringUtils.h
+++ b/src/StringUtils.h
@@ -292,6 +292,10 @@ inline std::string returnTypeName(clang::CallExpr *call, const clang::LangOption
 
 inline bool hasArgumentOfType(clang::FunctionDecl *func, llvm::StringRef typeName, const clang::LangOptions &lo)
 {
+    if (!func) { // e.g. a call through a pointer to member
+        return false;
+    }
+
     return std::ranges::any_of(Utils::functionParameters(func), [lo, typeName](clang::ParmVarDecl *param) {
         return clazy::simpleTypeName(param->getType(), lo) == typeName;
     });
-- 
2.43.0


From 2e1dc7da9e2c17dc0e3be2c85919b5bae86edf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 54/83] fix: modernize-list-initialization: don't crash on
 initializers without a type

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index d0bf806..e31bd81 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -23,7 +23,8 @@ void ModernizeListInitialization::VisitStmt(clang::Stmt *stmt)
                 continue;
             }
 
-            if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit())) {
+            // In templates a not yet instantiated initializer can be a ParenListExpr, which has no type
+            if (auto *initExpr = dyn_cast<ExprWithCleanups>(varDecl->getInit()); initExpr && !initExpr->getType().isNull()) {
                 const std::string name = initExpr->getType().getUnqualifiedType().getAsString();
                 if (name == "QStringList" || name.starts_with("QList")) {
                     if (auto constructExpr = dyn_cast<CXXConstructExpr>(initExpr->getSubExpr()); constructExpr && constructExpr->getNumArgs() > 0) {
-- 
2.43.0


From d2640f2e70ec01f77b00dbae4259245981276b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 55/83] fix: readlock-detaching: don't crash on calls through a
 pointer to a member function

---
 src/checks/level1/readlock-detaching.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 35bcd1a..86f75b8 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -91,6 +91,11 @@ public:
     }
     bool VisitCXXMemberCallExpr(CXXMemberCallExpr const *call)
     {
+        const CXXMethodDecl *methodDecl = call->getMethodDecl();
+        if (!methodDecl || !call->getRecordDecl()) { // A call through a pointer to a member function
+            return true;
+        }
+
         const auto recordName = call->getRecordDecl()->getNameAsString();
         // We only care about members for now
         const bool isLocker = recordName == "QReadLocker" || recordName == "QReadWriteLock" || recordName == "QBasicReadWriteLock";
@@ -99,7 +104,7 @@ public:
         }
 
         const auto &methods = clazy::detachingMethods();
-        const auto methodName = clazy::name(call->getMethodDecl());
+        const auto methodName = clazy::name(methodDecl);
         if (isLocker && methodName == "unlock") {
             lockRange.setEnd(call->getEndLoc());
             return true;
-- 
2.43.0


From 110f392fa42903e306d6a19d266e3fb29d34b125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 56/83] fix: readlock-detaching: ignore const methods, handle
 unlock before the lock

---
 src/checks/level1/readlock-detaching.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 86f75b8..3e35d36 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -71,6 +71,11 @@ public:
             return true;
         }
 
+        const auto *operatorMethod = dyn_cast_or_null<CXXMethodDecl>(call->getDirectCallee());
+        if (operatorMethod && operatorMethod->isConst()) { // Won't detach
+            return true;
+        }
+
         const auto methods = clazy::detachingMethods();
         const auto method = methods.find(className);
         if (method == methods.end()) {
@@ -106,7 +111,14 @@ public:
         const auto &methods = clazy::detachingMethods();
         const auto methodName = clazy::name(methodDecl);
         if (isLocker && methodName == "unlock") {
-            lockRange.setEnd(call->getEndLoc());
+            // Unlocking before we even lock ends some other read-lock
+            if (isWithinRange(call->getSourceRange(), lockRange, Context->getSourceManager())) {
+                lockRange.setEnd(call->getEndLoc());
+            }
+            return true;
+        }
+
+        if (methodDecl->isConst()) { // Won't detach
             return true;
         }
 
-- 
2.43.0


From e459d06894e234a3c670ef59a8ced1166786ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 57/83] fix: readlock-detaching: look at methods inherited from
 a base class too

---
 src/checks/level1/readlock-detaching.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/checks/level1/readlock-detaching.cpp b/src/checks/level1/readlock-detaching.cpp
index 3e35d36..4524072 100644
--- a/src/checks/level1/readlock-detaching.cpp
+++ b/src/checks/level1/readlock-detaching.cpp
@@ -56,28 +56,18 @@ public:
     bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr const *call)
     {
         // We only care about members for now
-        if (!llvm::isa<MemberExpr>(call->getArg(0))) {
-            return true;
-        }
-
-        std::string className = "";
-        if (const auto *memberExpr = dyn_cast<MemberExpr>(call->getArg(0))) {
-            QualType qt = memberExpr->getType(); // 'QMap<QString, QString>'
-            if (qt->isRecordType()) {
-                className = qt->getAs<RecordType>()->getDecl()->getNameAsString();
-            }
-        }
-        if (className.empty()) {
+        if (!llvm::isa<MemberExpr>(call->getArg(0)->IgnoreParenImpCasts())) {
             return true;
         }
 
         const auto *operatorMethod = dyn_cast_or_null<CXXMethodDecl>(call->getDirectCallee());
-        if (operatorMethod && operatorMethod->isConst()) { // Won't detach
+        if (!operatorMethod || operatorMethod->isConst()) { // Won't detach
             return true;
         }
 
+        // The class declaring the operator, which can be a base class of the member's type
         const auto methods = clazy::detachingMethods();
-        const auto method = methods.find(className);
+        const auto method = methods.find(operatorMethod->getParent()->getNameAsString());
         if (method == methods.end()) {
             return true;
         }
@@ -104,7 +94,7 @@ public:
         const auto recordName = call->getRecordDecl()->getNameAsString();
         // We only care about members for now
         const bool isLocker = recordName == "QReadLocker" || recordName == "QReadWriteLock" || recordName == "QBasicReadWriteLock";
-        if (!llvm::isa<MemberExpr>(call->getImplicitObjectArgument()) && !isLocker) {
+        if (!llvm::isa<MemberExpr>(call->getImplicitObjectArgument()->IgnoreParenImpCasts()) && !isLocker) {
             return true;
         }
 
-- 
2.43.0


From a1ed1ff5397bcd0587f9a4d8a58b51334414a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 58/83] fix: detaching-member: handle operators inherited from
 a base class

---
 src/Utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index ab192aa..91d25aa 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -231,6 +231,11 @@ ValueDecl *Utils::valueDeclForOperatorCall(CXXOperatorCallExpr *operatorCall)
         return nullptr;
     }
 
+    // There's an implicit cast if the operator comes from a base class
+    if (auto *expr = dyn_cast<Expr>(child2)) {
+        child2 = expr->IgnoreParenImpCasts();
+    }
+
     if (auto *memberExpr = dyn_cast<MemberExpr>(child2)) {
         return memberExpr->getMemberDecl();
     } else {
-- 
2.43.0


From 5ca62eb8d8e53f35d9bd787ea00aa09347e9e210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 59/83] fix: Add missing methods to the list of detaching
 methods

---
 src/QtUtils.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 402eb1b..672799f 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -137,9 +137,10 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
             {"upperBound", "upperBound"},
             {"keyValueBegin", "constKeyValueBegin"},
             {"keyValueEnd", "constKeyValueEnd"},
+            {"equal_range", "equal_range"}, // const overload exists, same name
         };
 
-        map.emplace("QList", seqApi);
+        map.emplace("QList", vecApi); // QVector is an alias of QList in Qt6, so it has data() too
         map.emplace("QVector", vecApi);
         map.emplace("QLinkedList", seqApi);
 
@@ -154,10 +155,20 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
         map.emplace("QMap", mapApi);
         map.emplace("QMultiMap", mapApi);
 
-        const Vec hashApi = {{"begin", "cbegin"}, {"end", "cend"}, {"find", "constFind"}, {"operator[]", "value"}};
+        const Vec hashApi = {
+            {"begin", "cbegin"},
+            {"end", "cend"},
+            {"find", "constFind"},
+            {"operator[]", "value"},
+            {"keyValueBegin", "constKeyValueBegin"},
+            {"keyValueEnd", "constKeyValueEnd"},
+            {"equal_range", "equal_range"}, // const overload exists, same name
+        };
         map.emplace("QHash", hashApi);
         map.emplace("QMultiHash", hashApi);
-        map.emplace("QSet", hashApi);
+
+        const Vec setApi = {{"begin", "cbegin"}, {"end", "cend"}, {"rbegin", "crbegin"}, {"rend", "crend"}, {"find", "constFind"}};
+        map.emplace("QSet", setApi);
 
         const Vec stringApi = {
             {"begin", "cbegin"},
@@ -166,6 +177,8 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
             {"rend", "crend"},
             {"data", "constData"},
             {"operator[]", "at"},
+            {"front", "front"}, // const overload exists, same name
+            {"back", "back"},
         };
         map.emplace("QString", stringApi);
         map.emplace("QByteArray", stringApi);
-- 
2.43.0


From f60c8bdd7fd7ed87cc2622b1817248cf02608dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:26 +0000
Subject: [PATCH 60/83] fix: range-loop-detach: parameters and copies can
 detach

---
 src/checks/level1/range-loop-detach.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/checks/level1/range-loop-detach.cpp b/src/checks/level1/range-loop-detach.cpp
index b55fed3..b4f0424 100644
--- a/src/checks/level1/range-loop-detach.cpp
+++ b/src/checks/level1/range-loop-detach.cpp
@@ -34,7 +34,8 @@ namespace clazy
  * Returns false otherwise, meaning that you can't conclude anything if false is returned.
  *
  * For true to be returned, all these conditions must verify:
- * - Container is a local variable
+ * - Container is a local variable, not a parameter
+ * - It's initialized empty or with a list of elements
  * - It's not passed to any function
  * - It's not assigned to another variable
  */
@@ -42,7 +43,7 @@ bool containerNeverDetaches(const clang::VarDecl *valDecl, StmtBodyRange bodyRan
 {
     // This helps for bug 367485
 
-    if (!valDecl) {
+    if (!valDecl || isa<ParmVarDecl>(valDecl) || valDecl->getType()->isReferenceType()) {
         return false;
     }
 
@@ -57,15 +58,20 @@ bool containerNeverDetaches(const clang::VarDecl *valDecl, StmtBodyRange bodyRan
     }
 
     if (valDecl->hasInit()) {
-        if (const auto *cleanupExpr = dyn_cast<clang::ExprWithCleanups>(valDecl->getInit())) {
-            if (const auto *ce = dyn_cast<clang::CXXConstructExpr>(cleanupExpr->getSubExpr())) {
-                if (!ce->isListInitialization() && !ce->isStdInitListInitialization()) {
-                    // When initing via copy or move ctor there's possible detachments.
-                    return false;
-                }
-            } else if (dyn_cast<clang::CXXBindTemporaryExpr>(cleanupExpr->getSubExpr())) {
+        const Expr *init = valDecl->getInit();
+        if (const auto *cleanupExpr = dyn_cast<clang::ExprWithCleanups>(init)) {
+            init = cleanupExpr->getSubExpr();
+        }
+        if (const auto *ce = dyn_cast<clang::CXXConstructExpr>(init)) {
+            if (ce->getConstructor()->isCopyOrMoveConstructor()) {
+                // When initing via copy or move ctor there's possible detachments.
+                return false;
+            }
+            if (isa<ExprWithCleanups>(valDecl->getInit()) && !ce->isListInitialization() && !ce->isStdInitListInitialization()) {
                 return false;
             }
+        } else if (isa<clang::CXXBindTemporaryExpr>(init)) {
+            return false;
         }
     }
 
-- 
2.43.0


From c40a69eef2eb911536ca2630f5f3874b37a66390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 61/83] fix: Export fixits inside macros like clang prints them

The exporter mapped positions inside macro expansions to the spelling location,
which produced edits of the macro definition, or of large parts of the file.
---
 src/FixItExporter.cpp | 106 ++++++++++++++++++++++++++++--------------
 src/FixItExporter.h   |   2 +-
 2 files changed, 73 insertions(+), 35 deletions(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index d78a903..61ed5f7 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -7,6 +7,9 @@
 #include "FixItExporter.h"
 
 #include <clang/Basic/SourceManager.h>
+#include <clang/Edit/Commit.h>
+#include <clang/Edit/EditedSource.h>
+#include <clang/Edit/EditsReceiver.h>
 #include <clang/Frontend/FrontendDiagnostic.h>
 #include <clang/Rewrite/Frontend/FixItRewriter.h>
 #include <clang/Tooling/DiagnosticsYaml.h>
@@ -103,28 +106,77 @@ tooling::Diagnostic FixItExporter::ConvertDiagnostic(const Diagnostic &Info)
     return ToolingDiag;
 }
 
-tooling::Replacement FixItExporter::ConvertFixIt(const FixItHint &Hint)
+namespace
 {
-    // TODO: Proper handling of macros
-    // https://stackoverflow.com/questions/24062989/clang-fails-replacing-a-statement-if-it-contains-a-macro
-    tooling::Replacement Replacement;
-    if (Hint.CodeToInsert.empty()) {
-        if (Hint.InsertFromRange.isValid()) {
-            clang::SourceLocation b(Hint.InsertFromRange.getBegin());
-            clang::SourceLocation _e(Hint.InsertFromRange.getEnd());
-            if (b.isMacroID()) {
-                b = SourceMgr.getSpellingLoc(b);
-            }
-            if (_e.isMacroID()) {
-                _e = SourceMgr.getSpellingLoc(_e);
+class ReplacementsCollector : public edit::EditsReceiver
+{
+public:
+    ReplacementsCollector(const SourceManager &sm, llvm::StringMap<tooling::Replacements> &fixes)
+        : m_sm(sm)
+        , m_fixes(fixes)
+    {
+    }
+
+    void insert(SourceLocation loc, StringRef text) override
+    {
+        add(CharSourceRange::getCharRange(loc, loc), text);
+    }
+
+    void replace(CharSourceRange range, StringRef text) override
+    {
+        add(range, text);
+    }
+
+    bool hasFailed() const
+    {
+        return m_failed;
+    }
+
+private:
+    void add(CharSourceRange range, StringRef text)
+    {
+        const tooling::Replacement replacement(m_sm, range, text);
+        if (llvm::Error error = m_fixes[replacement.getFilePath()].add(replacement)) {
+            llvm::consumeError(std::move(error));
+            m_failed = true;
+        }
+    }
+
+    const SourceManager &m_sm;
+    llvm::StringMap<tooling::Replacements> &m_fixes;
+    bool m_failed = false;
+};
+}
+
+// Like clang when it prints fixits: all hints of a diagnostic are one change, and it is dropped if a part of it can't be
+// expressed as an edit of the file, which is the case for code that comes from a macro definition.
+bool FixItExporter::ConvertFixIts(const Diagnostic &Info, llvm::StringMap<tooling::Replacements> &Fixes)
+{
+    edit::Commit commit(SourceMgr, LangOpts);
+    for (const FixItHint &Hint : Info.getFixItHints()) {
+        if (Hint.isNull()) {
+            continue;
+        }
+        if (Hint.CodeToInsert.empty()) {
+            if (Hint.InsertFromRange.isValid()) {
+                commit.insertFromRange(Hint.RemoveRange.getBegin(), Hint.InsertFromRange, /*afterToken=*/false, Hint.BeforePreviousInsertions);
+            } else {
+                commit.remove(Hint.RemoveRange);
             }
-            clang::SourceLocation e(clang::Lexer::getLocForEndOfToken(_e, 0, SourceMgr, LangOpts));
-            StringRef Text(SourceMgr.getCharacterData(b), SourceMgr.getCharacterData(e) - SourceMgr.getCharacterData(b));
-            return {SourceMgr, Hint.RemoveRange, Text};
+        } else if (Hint.RemoveRange.isTokenRange() || Hint.RemoveRange.getBegin() != Hint.RemoveRange.getEnd()) {
+            commit.replace(Hint.RemoveRange, Hint.CodeToInsert);
+        } else {
+            commit.insert(Hint.RemoveRange.getBegin(), Hint.CodeToInsert, /*afterToken=*/false, Hint.BeforePreviousInsertions);
         }
-        return {SourceMgr, Hint.RemoveRange, ""};
     }
-    return {SourceMgr, Hint.RemoveRange, Hint.CodeToInsert};
+
+    edit::EditedSource editor(SourceMgr, LangOpts);
+    if (!editor.commit(commit)) {
+        return true; // Nothing to export
+    }
+    ReplacementsCollector collector(SourceMgr, Fixes);
+    editor.applyRewrites(collector, /*adjustRemovals=*/false);
+    return !collector.hasFailed();
 }
 
 static bool isClazyDiagnostic(const Diagnostic &Info)
@@ -149,22 +201,8 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
     const bool isClazyError = DiagLevel == DiagnosticsEngine::Error && isClazyDiagnostic(Info);
     if (DiagLevel == DiagnosticsEngine::Warning || isClazyError) {
         auto ToolingDiag = ConvertDiagnostic(Info);
-        for (unsigned Idx = 0, Last = Info.getNumFixItHints(); Idx < Last; ++Idx) {
-            const FixItHint &Hint = Info.getFixItHint(Idx);
-            const auto replacement = ConvertFixIt(Hint);
-#ifdef DEBUG_FIX_IT_EXPORTER
-            const auto FileName = SourceMgr.getFilename(Info.getLocation());
-            llvm::errs() << "Handling Fixit #" << Idx << " for " << FileName.str() << "\n";
-            llvm::errs() << "F: " << Hint.RemoveRange.getBegin().printToString(SourceMgr) << ":" << Hint.RemoveRange.getEnd().printToString(SourceMgr) << " "
-                         << Hint.InsertFromRange.getBegin().printToString(SourceMgr) << ":" << Hint.InsertFromRange.getEnd().printToString(SourceMgr) << " "
-                         << Hint.BeforePreviousInsertions << " " << Hint.CodeToInsert << "\n";
-            llvm::errs() << "R: " << replacement.toString() << "\n";
-#endif
-            clang::tooling::Replacements &Replacements = ToolingDiag.Message.Fix[replacement.getFilePath()];
-            llvm::Error error = Replacements.add(ConvertFixIt(Hint));
-            if (error) {
-                Diag(Info.getLocation(), diag::note_fixit_failed);
-            }
+        if (!ConvertFixIts(Info, ToolingDiag.Message.Fix)) {
+            Diag(Info.getLocation(), diag::note_fixit_failed);
         }
         getTuDiag().Diagnostics.push_back(ToolingDiag);
         m_recordNotes = true;
diff --git a/src/FixItExporter.h b/src/FixItExporter.h
index f35787a..0751950 100644
--- a/src/FixItExporter.h
+++ b/src/FixItExporter.h
@@ -54,7 +54,7 @@ private:
     std::unique_ptr<DiagnosticConsumer> Owner;
     bool m_recordNotes = false;
     clang::tooling::Diagnostic ConvertDiagnostic(const clang::Diagnostic &Info);
-    clang::tooling::Replacement ConvertFixIt(const clang::FixItHint &Hint);
+    bool ConvertFixIts(const clang::Diagnostic &Info, llvm::StringMap<clang::tooling::Replacements> &Fixes);
 };
 
 #endif // CLAZY_FIX_IT_EXPORTER_H
-- 
2.43.0


From ebaff4b65607e2ed99ebfe657f208a5dceb50491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 62/83] fix: Don't leave the exported fixits of an earlier run
 behind

---
 src/FixItExporter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 61ed5f7..708b91d 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -14,6 +14,8 @@
 #include <clang/Rewrite/Frontend/FixItRewriter.h>
 #include <clang/Tooling/DiagnosticsYaml.h>
 
+#include <llvm/Support/FileSystem.h>
+
 // #define DEBUG_FIX_IT_EXPORTER
 
 using namespace clang;
@@ -223,7 +225,8 @@ void FixItExporter::HandleDiagnostic(DiagnosticsEngine::Level DiagLevel, const D
 
 bool FixItExporter::Export(const std::string &fileName)
 {
-    if (getTuDiag().Diagnostics.empty()) {
+    // Don't create a file for nothing, but don't leave the fixits of an earlier run behind either
+    if (getTuDiag().Diagnostics.empty() && !llvm::sys::fs::exists(fileName)) {
         return true;
     }
 
-- 
2.43.0


From c99ccdea03078fec11b90b7d91d69bbc4f93f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 63/83] fix: Initialize the tables of detaching methods
 thread-safely

---
 src/QtUtils.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index 672799f..b77b6f9 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -88,8 +88,9 @@ const std::vector<StringRef> &clazy::qtCOWContainers()
 
 std::unordered_map<std::string, std::vector<StringRef>> clazy::detachingMethods()
 {
-    static std::unordered_map<std::string, std::vector<StringRef>> map;
-    if (map.empty()) {
+    // Initialized at once, as several threads might get here via libclang
+    static const auto s_map = [] {
+        std::unordered_map<std::string, std::vector<StringRef>> map;
         const auto &withConst = detachingMethodsWithConstCounterParts();
         map.reserve(withConst.size());
         for (const auto &[qtClassname, methods] : withConst) {
@@ -100,16 +101,17 @@ std::unordered_map<std::string, std::vector<StringRef>> clazy::detachingMethods(
         }
 
         map["QVector"].emplace_back("fill");
-    }
+        return map;
+    }();
 
-    return map;
+    return s_map;
 }
 
 std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>> clazy::detachingMethodsWithConstCounterParts()
 {
-    static std::unordered_map<std::string, std::vector<std::pair<StringRef, StringRef>>> map;
+    static const auto s_map = [] {
+        std::unordered_map<std::string, std::vector<std::pair<StringRef, StringRef>>> map;
 
-    if (map.empty()) {
         using Vec = std::vector<clazy::MemberConstcounterpartPair>;
         const Vec seqApi = {
             {"first", "constFirst"},
@@ -186,9 +188,10 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
         map.emplace("QImage", Vec{{"bits", "constBits"}, {"scanLine", "constScanLine"}});
 
         map.emplace("QJsonObject", Vec{{"begin", "cbegin"}, {"end", "cend"}, {"operator[]", "value"}, {"find", "constFind"}});
-    }
+        return map;
+    }();
 
-    return map;
+    return s_map;
 }
 
 bool clazy::isQMetaMethod(CallExpr *Call, unsigned int argIndex, const std::string &qtNamespace)
-- 
2.43.0


From 4f7e283b28cb711bd17af376f100f13319d53928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 64/83] fix: Don't share the exported diagnostics between
 threads

---
 src/FixItExporter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FixItExporter.cpp b/src/FixItExporter.cpp
index 708b91d..bbc0aed 100644
--- a/src/FixItExporter.cpp
+++ b/src/FixItExporter.cpp
@@ -22,7 +22,8 @@ using namespace clang;
 
 static clang::tooling::TranslationUnitDiagnostics &getTuDiag()
 {
-    static clang::tooling::TranslationUnitDiagnostics s_tudiag;
+    // Per thread, several of which might be analysing a translation unit each via libclang
+    static thread_local clang::tooling::TranslationUnitDiagnostics s_tudiag;
     return s_tudiag;
 }
 
-- 
2.43.0


From 50bbda3a1d3f8f010b6560c7ad2da93cd101fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 65/83] fix: reserve-candidates: don't keep locations of
 earlier translation units

---
 src/checks/manuallevel/reserve-candidates.cpp | 12 +++++-------
 src/checks/manuallevel/reserve-candidates.h   |  2 ++
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/checks/manuallevel/reserve-candidates.cpp b/src/checks/manuallevel/reserve-candidates.cpp
index 7950c4e..ad9496c 100644
--- a/src/checks/manuallevel/reserve-candidates.cpp
+++ b/src/checks/manuallevel/reserve-candidates.cpp
@@ -298,13 +298,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     int forCount = 0;
     int foreachCount = 0;
 
-    static std::vector<unsigned int> nonComplexOnesCache;
-    static std::vector<unsigned int> complexOnesCache;
     auto rawLoc = s->getBeginLoc().getRawEncoding();
 
     // For some reason we generate two warnings on some foreaches, so cache the ones we processed
     // and return true so we don't trigger a warning
-    if (clazy::contains(nonComplexOnesCache, rawLoc) || clazy::contains(complexOnesCache, rawLoc)) {
+    if (clazy::contains(m_nonComplexOnesCache, rawLoc) || clazy::contains(m_complexOnesCache, rawLoc)) {
         return true;
     }
 
@@ -313,13 +311,13 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
     while ((parent = clazy::parent(m_context->parentMap, parent))) {
         const SourceLocation parentStart = parent->getBeginLoc();
         if (!isMemberVariable && sm().isBeforeInSLocAddrSpace(parentStart, declLocation)) {
-            nonComplexOnesCache.push_back(rawLoc);
+            m_nonComplexOnesCache.push_back(rawLoc);
             return false;
         }
 
         bool isLoop = false;
         if (loopIsComplex(parent, isLoop)) {
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
 
@@ -338,11 +336,11 @@ bool ReserveCandidates::isInComplexLoop(clang::Stmt *s, SourceLocation declLocat
         }
 
         if (foreachCount > 1 || forCount > 1) { // two foreaches are almost always a false-positve
-            complexOnesCache.push_back(rawLoc);
+            m_complexOnesCache.push_back(rawLoc);
             return true;
         }
     }
 
-    nonComplexOnesCache.push_back(rawLoc);
+    m_nonComplexOnesCache.push_back(rawLoc);
     return false;
 }
diff --git a/src/checks/manuallevel/reserve-candidates.h b/src/checks/manuallevel/reserve-candidates.h
index d693c7b..49516db 100644
--- a/src/checks/manuallevel/reserve-candidates.h
+++ b/src/checks/manuallevel/reserve-candidates.h
@@ -48,6 +48,8 @@ private:
     bool isCandidate(clang::CallExpr *oper);
 
     std::vector<clang::ValueDecl *> m_foundReserves;
+    mutable std::vector<unsigned int> m_nonComplexOnesCache;
+    mutable std::vector<unsigned int> m_complexOnesCache;
 };
 
 #endif
-- 
2.43.0


From 9bd87aa512d3c4a05a2b377c62572fbf60f76091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:15 +0000
Subject: [PATCH 66/83] fix: old-style-connect: don't use the receiver class of
 another connect

---
 src/checks/level2/old-style-connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/old-style-connect.cpp b/src/checks/level2/old-style-connect.cpp
index 7461a27..9210047 100644
--- a/src/checks/level2/old-style-connect.cpp
+++ b/src/checks/level2/old-style-connect.cpp
@@ -331,9 +331,9 @@ std::vector<FixItHint> OldStyleConnect::fixits(int classification, T *callOrCtor
     std::string implicitCallee;
     std::string macroName;
     CXXMethodDecl *senderMethod = nullptr;
+    const CXXRecordDecl *lastRecordDecl = nullptr;
     for (auto arg : callOrCtor->arguments()) {
         SourceLocation s = arg->getBeginLoc();
-        static const CXXRecordDecl *lastRecordDecl = nullptr;
         if (isSignalOrSlot(s, macroName)) {
             macroNum++;
             if (!lastRecordDecl && (classification & ConnectFlag_4ArgsConnect)) {
-- 
2.43.0


From 30a7a3d7b40f2b3441ffcc9894665bc3a38ab296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 67/83] fix: detaching checks: put the replacement of
 operator[] after the whole base, and offer none when the result is written to

---
 src/checks/detachingbase.cpp | 44 ++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/checks/detachingbase.cpp b/src/checks/detachingbase.cpp
index 9840940..9c7879b 100644
--- a/src/checks/detachingbase.cpp
+++ b/src/checks/detachingbase.cpp
@@ -9,6 +9,7 @@
 */
 
 #include "detachingbase.h"
+#include "HierarchyUtils.h"
 #include "QtUtils.h"
 #include "StringUtils.h"
 #include "clazy_stl.h"
@@ -25,6 +26,36 @@ DetachingBase::DetachingBase(const std::string &name, Options options)
 {
 }
 
+// Whether the reference or pointer which the call returns is used for reading only, so that the const counterpart would do
+static bool resultIsOnlyRead(ParentMap *parentMap, CallExpr *callExpr)
+{
+    const bool isPointer = callExpr->isPRValue() && callExpr->getType()->isPointerType();
+    if (callExpr->isPRValue() && !isPointer) {
+        return true;
+    }
+
+    Stmt *child = callExpr;
+    while (Stmt *parent = clazy::parent(parentMap, child)) {
+        if (auto *cast = dyn_cast<CastExpr>(parent)) {
+            const QualType type = cast->getType();
+            if (isPointer ? type->isPointerType() && type->getPointeeType().isConstQualified() : (cast->isPRValue() || type.isConstQualified())) {
+                return true;
+            }
+        } else if (!isa<ParenExpr>(parent) && !isa<FullExpr>(parent)) {
+            const auto *member = dyn_cast<MemberExpr>(parent);
+            const auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(parent);
+            const bool isPartOfResult = (member && !member->isArrow()) || (operatorCall && operatorCall->getOperator() == OO_Subscript && operatorCall->getArg(0) == child);
+            if (isPointer || !isPartOfResult) {
+                // An expression statement doesn't need the result at all
+                return !isa<Expr>(parent) && !isa<DeclStmt>(parent) && !isa<ReturnStmt>(parent) && !isa<CXXForRangeStmt>(parent);
+            }
+        }
+        child = parent;
+    }
+
+    return true;
+}
+
 std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringRef functionName, CallExpr *callExpr) const
 {
     std::vector<FixItHint> hints;
@@ -38,6 +69,8 @@ std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringR
         });
         if (it == functions.end() || it->first == it->second) {
             // No fixit possible
+        } else if (!resultIsOnlyRead(m_context->parentMap, callExpr)) {
+            // The const counterpart wouldn't compile
         } else if (auto *memberCall = dyn_cast<CXXMemberCallExpr>(callExpr)) {
             if (auto *callee = dyn_cast<MemberExpr>(memberCall->getCallee())) {
                 hints.emplace_back(FixItHint::CreateReplacement(callee->getMemberLoc(), it->second));
@@ -45,13 +78,10 @@ std::vector<FixItHint> DetachingBase::getFixitHints(StringRef className, StringR
         } else if (auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(callExpr); operatorCall && it->first == "operator[]") {
             StringRef argText = Lexer::getSourceText(CharSourceRange::getTokenRange(operatorCall->getArg(1)->getSourceRange()), sm(), lo());
             std::string operatorRepleacement = ("." + it->second + "(" + argText + ")").str();
-            SourceLocation left;
-            if (isa<MemberExpr>(operatorCall->getArg(0))) {
-                left = operatorCall->getArg(1)->getBeginLoc().getLocWithOffset(-1);
-            } else {
-                // Clang SourcRanges are very confusing. Get the location of the argument to the call and go one to the left. Works in macros too!
-                left = operatorCall->getArg(0)->getEndLoc().getLocWithOffset(1);
-            }
+            // The replacement starts directly after the last token of the container expression. Works in macros too!
+            const SourceLocation lastToken = operatorCall->getArg(0)->getEndLoc();
+            const unsigned int tokenLength = Lexer::MeasureTokenLength(sm().getSpellingLoc(lastToken), sm(), lo());
+            const SourceLocation left = lastToken.getLocWithOffset(static_cast<int>(tokenLength));
             SourceLocation right = operatorCall->getEndLoc();
             hints.emplace_back(FixItHint::CreateReplacement(SourceRange(left, right), operatorRepleacement));
         }
-- 
2.43.0


From 8d9e96a573686e5cc9c2a5345d2d46cba2215a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 68/83] fix: qdatetime-utc: keep the whole qualifier in the
 fixit

---
 src/FixItUtils.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/FixItUtils.cpp b/src/FixItUtils.cpp
index 390fb9f..562ad22 100644
--- a/src/FixItUtils.cpp
+++ b/src/FixItUtils.cpp
@@ -171,10 +171,16 @@ bool clazy::transformTwoCallsIntoOneV2(const ASTContext *context, CXXMemberCallE
         return false;
     }
 
-    SourceLocation start = implicitArgument->getBeginLoc();
-    start = clazy::locForEndOfToken(context, start, 0);
+    auto *call1 = dyn_cast<CallExpr>(implicitArgument->IgnoreImplicit());
+    auto *callee1 = call1 ? dyn_cast<DeclRefExpr>(call1->getCallee()->IgnoreImpCasts()) : nullptr;
+    if (!callee1 || !callee1->hasQualifier()) {
+        return false;
+    }
+
+    // The class name might be qualified too, it's all of it that's kept
+    const SourceLocation start = callee1->getQualifierLoc().getEndLoc();
     const SourceLocation end = call2->getEndLoc();
-    if (start.isInvalid() || end.isInvalid()) {
+    if (start.isInvalid() || start.isMacroID() || end.isInvalid()) {
         return false;
     }
 
-- 
2.43.0


From e94399707700b24d01ffbceab9f55be45b46cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 69/83] fix: function-args-by-ref: insert the & of unnamed
 parameters after the type

---
 src/checks/level2/function-args-by-ref.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/checks/level2/function-args-by-ref.cpp b/src/checks/level2/function-args-by-ref.cpp
index 4aa2b31..9074989 100644
--- a/src/checks/level2/function-args-by-ref.cpp
+++ b/src/checks/level2/function-args-by-ref.cpp
@@ -166,6 +166,9 @@ void FunctionArgsByRef::addFixits(std::vector<FixItHint> &fixits, FunctionDecl *
         }
 
         SourceLocation end = param->getLocation();
+        if (param->getDeclName().isEmpty() && param->getTypeSourceInfo()) {
+            end = clazy::locForEndOfToken(astContext(), param->getTypeSourceInfo()->getTypeLoc().getEndLoc());
+        }
         fixits.push_back(clazy::createInsertion(end, "&"));
     }
 }
-- 
2.43.0


From f0720ef1a491648615031801b6ed7795675fa482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 70/83] fix: missing-qobject-macro: fixits for structs and for
 members directly after the brace, no warning for local classes

---
 src/checks/level2/missing-qobject-macro.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/checks/level2/missing-qobject-macro.cpp b/src/checks/level2/missing-qobject-macro.cpp
index a311310..ae5c90c 100644
--- a/src/checks/level2/missing-qobject-macro.cpp
+++ b/src/checks/level2/missing-qobject-macro.cpp
@@ -12,6 +12,7 @@
 
 #include <clang/AST/DeclBase.h>
 #include <clang/AST/DeclCXX.h>
+#include <clang/Basic/CharInfo.h>
 #include <clang/Basic/IdentifierTable.h>
 #include <clang/Basic/LLVM.h>
 #include <clang/Basic/SourceManager.h>
@@ -45,6 +46,10 @@ void MissingQObjectMacro::VisitDecl(clang::Decl *decl)
         return;
     }
 
+    if (record->isLocalClass()) { // Neither in classes which are local to a function
+        return;
+    }
+
     if (m_context->usingPreCompiledHeaders()) {
         return;
     }
@@ -63,7 +68,12 @@ void MissingQObjectMacro::VisitDecl(clang::Decl *decl)
 
     std::vector<FixItHint> fixits;
     const SourceLocation pos = record->getBraceRange().getBegin().getLocWithOffset(1);
-    fixits.push_back(clazy::createInsertion(pos, "\n\tQ_OBJECT"));
+    // The macro ends with "private:"
+    std::string macroText = record->isStruct() ? "\n\tQ_OBJECT\npublic:" : "\n\tQ_OBJECT";
+    if (isAsciiIdentifierContinue(*sm().getCharacterData(pos))) {
+        macroText += '\n';
+    }
+    fixits.push_back(clazy::createInsertion(pos, macroText));
 
     const std::string fileName = sm().getFilename(startLoc).str();
     if (clazy::endsWith(fileName, ".cpp")) {
-- 
2.43.0


From 1eba812735b5fa4bb0f75fa05c554535cb6edf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 71/83] fix: isempty-vs-count: keep the parentheses and the
 operator of the base in fixits

---
 src/checks/manuallevel/isempty-vs-count.cpp | 25 +++++++++++++--------
 src/checks/manuallevel/isempty-vs-count.h   |  8 +++++++
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/checks/manuallevel/isempty-vs-count.cpp b/src/checks/manuallevel/isempty-vs-count.cpp
index 2ffb9a5..813b824 100644
--- a/src/checks/manuallevel/isempty-vs-count.cpp
+++ b/src/checks/manuallevel/isempty-vs-count.cpp
@@ -22,6 +22,16 @@
 
 using namespace clang;
 
+// For list.size() returns "list.", for ptr->size() "ptr->", and nothing for a plain size() inside of the class
+std::string IsEmptyVSCount::baseTextWithOperator(MemberExpr *memberExpr) const
+{
+    Expr *baseExpr = memberExpr->getBase()->IgnoreImpCasts();
+    if (baseExpr->isImplicitCXXThis()) {
+        return {};
+    }
+    return getSourceText(baseExpr).str() + (memberExpr->isArrow() ? "->" : ".");
+}
+
 void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
 {
     if (auto op = dyn_cast<ExprWithCleanups>(stmt)) {
@@ -48,19 +58,18 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
             if (!intliteral) {
                 return;
             }
-            auto *baseExpr = dyn_cast<MemberExpr>(method->getCallee())->getBase()->IgnoreParenImpCasts();
-            StringRef baseText = getSourceText(baseExpr);
+            const std::string baseText = baseTextWithOperator(dyn_cast<MemberExpr>(method->getCallee()));
 
             if ((isEqual && intliteral->getValue().isZero()) || (isSmaller && intliteral->getValue().isOne())) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), baseText + "isEmpty()")});
             }
 
             if (isGreater && intliteral->getValue().isZero()) {
                 emitWarning(stmt->getBeginLoc(),
                             "use isEmpty() instead",
-                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + baseText.str() + ".isEmpty()")});
+                            {FixItHint::CreateReplacement(binaryOpt->getSourceRange(), "!" + baseText + "isEmpty()")});
             }
         }
     }
@@ -84,11 +93,10 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         return;
     }
 
-    auto *baseExpr = memberExpr->getBase()->IgnoreParenImpCasts();
+    const std::string baseText = baseTextWithOperator(memberExpr);
     if (clazy::classIsOneOf(method->getParent(), {"QMultiHash", "QMultiMap"}) && memberCall->getNumArgs() == 2) {
-        StringRef baseText = getSourceText(baseExpr);
         StringRef argText = getSourceText(memberCall->getArg(0));
-        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), (baseText + ".contains(" + argText + ")").str());
+        const auto fixit = FixItHint::CreateReplacement(stmt->getSourceRange(), baseText + "contains(" + argText.str() + ")");
 
         emitWarning(stmt->getBeginLoc(), "use contains() instead", {fixit});
         return;
@@ -109,8 +117,7 @@ void IsEmptyVSCount::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    StringRef BaseText = getSourceText(baseExpr);
-    const auto fixit = FixItHint::CreateReplacement(fixitRange, (operatorPrefix + BaseText + ".isEmpty()").str());
+    const auto fixit = FixItHint::CreateReplacement(fixitRange, operatorPrefix + baseText + "isEmpty()");
 
     emitWarning(stmt->getBeginLoc(), "use isEmpty() instead", {fixit});
 }
diff --git a/src/checks/manuallevel/isempty-vs-count.h b/src/checks/manuallevel/isempty-vs-count.h
index 37b2fd6..824935a 100644
--- a/src/checks/manuallevel/isempty-vs-count.h
+++ b/src/checks/manuallevel/isempty-vs-count.h
@@ -11,6 +11,11 @@
 
 #include <string>
 
+namespace clang
+{
+class MemberExpr;
+}
+
 /**
  * Finds places where you're using Container::count() instead of Container::isEmpty()
  *
@@ -21,6 +26,9 @@ class IsEmptyVSCount : public CheckBase
 public:
     using CheckBase::CheckBase;
     void VisitStmt(clang::Stmt *stmt) override;
+
+private:
+    std::string baseTextWithOperator(clang::MemberExpr *memberExpr) const;
 };
 
 #endif
-- 
2.43.0


From 0d668053ef74dbf54093880e678144d14acf88bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 72/83] fix: modernize-list-initialization: don't lose the
 elements of the list appended to

---
 .../manuallevel/modernize-list-initialization.cpp      | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index e31bd81..e535521 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -94,7 +94,15 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
                 }
             }
         }
-        opCall = dyn_cast<CXXOperatorCallExpr>(opCall->getArg(0));
+
+        Expr *leftOperand = opCall->getArg(0)->IgnoreImplicit();
+        opCall = dyn_cast<CXXOperatorCallExpr>(leftOperand);
+        if (!opCall) {
+            const auto *constructExpr = dyn_cast<CXXConstructExpr>(leftOperand);
+            if (!constructExpr || (constructExpr->getNumArgs() > 0 && !constructExpr->getArg(0)->isDefaultArgument())) {
+                return; // Only an empty list can be left out, the elements of any other would be lost
+            }
+        }
     }
 
     if (replacementTexts.empty()) {
-- 
2.43.0


From 1b2402f4862923824ea910526d135170ca2fca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 73/83] fix: use-arrow-operator-instead-of-data: only warn
 about data()->, find the operator in the AST

---
 .../use-arrow-operator-instead-of-data.cpp    | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
index 2a27360..ed8e34b 100644
--- a/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
+++ b/src/checks/manuallevel/use-arrow-operator-instead-of-data.cpp
@@ -8,6 +8,7 @@
 */
 
 #include "use-arrow-operator-instead-of-data.h"
+#include "HierarchyUtils.h"
 #include "StringUtils.h"
 #include "Utils.h"
 #include "clazy_stl.h"
@@ -50,22 +51,24 @@ void UseArrowOperatorInsteadOfData::VisitStmt(clang::Stmt *stmt)
 
     std::vector<FixItHint> fixits;
 
+    // Only ptr.data()->foo can be written as ptr->foo, and not (ptr.data()->*foo)() or (*ptr.data()).foo()
+    auto *dataMember = dyn_cast<MemberExpr>(callExpr->getCallee());
+    auto *parentMember = dyn_cast_or_null<MemberExpr>(clazy::parent(m_context->parentMap, callExpr));
+    if (auto *cast = dyn_cast_or_null<ImplicitCastExpr>(clazy::parent(m_context->parentMap, callExpr))) {
+        parentMember = dyn_cast_or_null<MemberExpr>(clazy::parent(m_context->parentMap, cast));
+    }
+    if (!dataMember || !parentMember || !parentMember->isArrow()) {
+        return;
+    }
+
     constexpr int MinPossibleColonPos = sizeof("QPointer") - 1;
     const std::string ClassName = func.substr(0, func.find(':', MinPossibleColonPos));
 
-    auto begin = callExpr->getExprLoc();
-    const auto end = callExpr->getEndLoc();
-
-    // find '.' in ptr.data()
-    int dotOffset = 0;
-    const char *d = sm().getCharacterData(begin);
-    while (*d != '.') {
-        dotOffset--;
-        d--;
+    // A pointer to the smart pointer would need to be dereferenced, there's no fixit for that
+    if (!dataMember->isArrow()) {
+        // Remove from the '.' in ptr.data()
+        fixits.push_back(FixItHint::CreateRemoval(SourceRange{dataMember->getOperatorLoc(), callExpr->getEndLoc()}));
     }
-    begin = begin.getLocWithOffset(dotOffset);
-
-    fixits.push_back(FixItHint::CreateRemoval(SourceRange{begin, end}));
 
     emitWarning(callExpr->getBeginLoc(), "Use operator -> directly instead of " + ClassName + "::data()->", fixits);
 }
-- 
2.43.0


From 55b730ce541ef3c90895a55e6a8a57e2c9efcf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 74/83] fix: use-chrono-in-qtimer: no division by zero and no
 overflow in intervals

---
 src/checks/manuallevel/use-chrono-in-qtimer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/checks/manuallevel/use-chrono-in-qtimer.cpp b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
index 28b00f5..de5ac6b 100644
--- a/src/checks/manuallevel/use-chrono-in-qtimer.cpp
+++ b/src/checks/manuallevel/use-chrono-in-qtimer.cpp
@@ -32,10 +32,11 @@ static int unpackValue(clang::Expr *expr)
     }
 
     if (binaryOp->getOpcode() == BO_Mul) {
-        return left * right;
+        const auto product = static_cast<long long>(left) * right;
+        return product == static_cast<int>(product) ? static_cast<int>(product) : -1;
     }
 
-    if (binaryOp->getOpcode() == BO_Div) {
+    if (binaryOp->getOpcode() == BO_Div && right != 0) {
         return left / right;
     }
 
-- 
2.43.0


From 0a34b65301169de01223ce126559475b26e8ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:36 +0000
Subject: [PATCH 75/83] fix: detaching checks: QMap has no constFirst() and
 constLast()

---
 src/QtUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QtUtils.cpp b/src/QtUtils.cpp
index b77b6f9..4c9bdea 100644
--- a/src/QtUtils.cpp
+++ b/src/QtUtils.cpp
@@ -131,9 +131,9 @@ std::unordered_map<std::string, std::vector<clazy::MemberConstcounterpartPair>>
         const Vec mapApi = {
             {"begin", "cbegin"},
             {"end", "cend"},
-            {"first", "constFirst"},
+            {"first", "first"}, // const overload exists, same name
             {"find", "constFind"},
-            {"last", "constLast"},
+            {"last", "last"}, // const overload exists, same name
             {"operator[]", "value"},
             {"lowerBound", "lowerBound"}, // const overload exists, same name
             {"upperBound", "upperBound"},
-- 
2.43.0


From 1f7889ca4ec3a6e2f81d316d5959e23e81ce1d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:36 +0000
Subject: [PATCH 76/83] fix: qbytearray-conversion-to-c-style: parentheses
 around operands which bind weaker

---
 .../manuallevel/qbytearray-conversion-to-c-style.cpp       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
index 70645ad..42aeee5 100644
--- a/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
+++ b/src/checks/manuallevel/qbytearray-conversion-to-c-style.cpp
@@ -121,6 +121,11 @@ void QBytearrayConversionToCStyle::VisitStmt(clang::Stmt *stmt)
         }
     }
 
-    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, std::string{text} + ".constData()")};
+    const Expr *object = callee->getBase()->IgnoreImplicit();
+    const auto *operatorCall = dyn_cast<CXXOperatorCallExpr>(object);
+    const bool bindsWeaker = isa<UnaryOperator>(object) || isa<AbstractConditionalOperator>(object) || isa<BinaryOperator>(object)
+        || (operatorCall && operatorCall->getOperator() != OO_Subscript && operatorCall->getOperator() != OO_Call && operatorCall->getOperator() != OO_Arrow);
+    const std::string fixed = (bindsWeaker ? "(" + text + ")" : text).str() + ".constData()";
+    std::vector<FixItHint> fixits = {clazy::createReplacement(sr, fixed)};
     emitWarning(begin, msg, fixits);
 }
-- 
2.43.0


From 1e339a1132563f60d15879b870e748d90eb5d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:36 +0000
Subject: [PATCH 77/83] fix: copyable-polymorphic: don't redeclare a default
 constructor in the fixit

---
 src/checks/level2/copyable-polymorphic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/copyable-polymorphic.cpp b/src/checks/level2/copyable-polymorphic.cpp
index 0860e04..c0190d4 100644
--- a/src/checks/level2/copyable-polymorphic.cpp
+++ b/src/checks/level2/copyable-polymorphic.cpp
@@ -106,7 +106,7 @@ std::vector<clang::FixItHint> CopyablePolymorphic::fixits(clang::CXXRecordDecl *
     // as the disabled copy constructor removes it.
     // Add it in the public section if one exists, otherwise add a
     // public section at the top of the class declaration.
-    if (record->hasDefaultConstructor()) {
+    if (record->hasDefaultConstructor() && !record->hasUserDeclaredConstructor()) {
         pos = m_context->accessSpecifierManager->firstLocationOfSection(clang::AccessSpecifier::AS_public, record);
         if (pos.isInvalid()) {
             pos = record->getBraceRange().getBegin().getLocWithOffset(1);
-- 
2.43.0


From f7b000dcfa87d0cc8b645eeacd90a78bb14635be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:36 +0000
Subject: [PATCH 78/83] fix: missing-qobject-macro: don't include the .moc file
 a second time

---
 src/PreProcessorVisitor.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/PreProcessorVisitor.cpp b/src/PreProcessorVisitor.cpp
index 32bc1ec..e26b7c0 100644
--- a/src/PreProcessorVisitor.cpp
+++ b/src/PreProcessorVisitor.cpp
@@ -70,10 +70,13 @@ bool PreProcessorVisitor::hasInclude(const std::string &fileName, bool IsAngled)
 
 SourceLocation PreProcessorVisitor::endOfIncludeSection() const
 {
-    if (m_includeInfo.empty()) {
-        return {};
+    // The .moc files are usually included at the end of the file
+    for (auto it = m_includeInfo.rbegin(); it != m_includeInfo.rend(); ++it) {
+        if (!clazy::endsWith(it->fileName.str(), ".moc")) {
+            return it->filenameRange.getEnd();
+        }
     }
-    return m_includeInfo.back().filenameRange.getEnd();
+    return {};
 }
 
 std::string PreProcessorVisitor::getTokenSpelling(const MacroDefinition &def) const
@@ -185,7 +188,7 @@ void PreProcessorVisitor::InclusionDirective(clang::SourceLocation,
                                              bool,
                                              clang::SrcMgr::CharacteristicKind)
 {
-    if (m_pp.isInPrimaryFile() && !clazy::endsWith(FileName.str(), ".moc")) {
+    if (m_pp.isInPrimaryFile()) {
         m_includeInfo.push_back(IncludeInfo{FileName, IsAngled, FilenameRange});
     }
 }
-- 
2.43.0


From a912edf11a8bcae81872b56b1f715495983e2612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:16 +0000
Subject: [PATCH 79/83] fix: qstring-allocations: isEmpty() replaces up to the
 literal, not past it

---
 src/checks/level2/qstring-allocations.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/checks/level2/qstring-allocations.cpp b/src/checks/level2/qstring-allocations.cpp
index c54a1d3..18a1a79 100644
--- a/src/checks/level2/qstring-allocations.cpp
+++ b/src/checks/level2/qstring-allocations.cpp
@@ -525,6 +525,8 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
     }
 
     SourceLocation start = lt->getBeginLoc();
+    // A replacement covers the token its range ends with, so it has to end with the literal, not with what comes after it
+    const SourceLocation lastToken = lt->getStrTokenLoc(lt->getNumConcatenated() - 1);
     if (!start.isMacroID()) {
         if (Utils::literalContainsEscapedBytes(lt, sm(), lo())) {
             return {};
@@ -536,7 +538,7 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
             SourceLocation start = eatLeadingWhitespace(operatorCall->getBeginLoc(), operatorCall->getExprLoc(), sm(), lo());
-            fixits.push_back(clazy::createReplacement({start, range.getEnd()}, ".isEmpty()"));
+            fixits.push_back(clazy::createReplacement({start, lastToken}, ".isEmpty()"));
             return fixits;
         }
 
@@ -546,7 +548,7 @@ std::vector<FixItHint> QStringAllocations::fixItRawLiteral(StringLiteral *lt, co
             // SourceLocation start = operatorCall->getArg(0)->getEndLoc();
             // So instead, we have to start from the "==" sign and eat whitespace to the left
             SourceLocation start = eatLeadingWhitespace(operatorCall->getBeginLoc(), operatorCall->getExprLoc(), sm(), lo());
-            fixits.push_back(clazy::createReplacement({start, range.getEnd()}, ".isEmpty()"));
+            fixits.push_back(clazy::createReplacement({start, lastToken}, ".isEmpty()"));
             fixits.push_back(clazy::createInsertion(operatorCall->getBeginLoc(), "!"));
             return fixits;
         }
-- 
2.43.0


From 012baeea1dcdf70f44bbb9a4383667414d28d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:34 +0000
Subject: [PATCH 80/83] fix: qstring-allocations: look for escaped bytes in all
 tokens of a literal, in macros too

---
 src/Utils.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 91d25aa..0ca1e66 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -1020,16 +1020,17 @@ bool Utils::literalContainsEscapedBytes(StringLiteral *lt, const SourceManager &
         return false;
     }
 
-    // The AST doesn't have the info, we need to ask the Lexer
-    SourceRange sr = lt->getSourceRange();
-    CharSourceRange cr = Lexer::getAsCharRange(sr, sm, lo);
-    const StringRef str = Lexer::getSourceText(cr, sm, lo);
-
-    for (int i = 0, size = str.size(); i < size - 1; ++i) {
-        if (str[i] == '\\') {
-            auto next = str[i + 1];
-            if (next == 'U' || next == 'u' || next == 'x' || std::isdigit(next)) {
-                return true;
+    // The AST doesn't have the info, we need to ask the Lexer. The tokens might come from the definition of a macro.
+    for (unsigned int token = 0; token < lt->getNumConcatenated(); ++token) {
+        llvm::SmallString<64> buffer;
+        const StringRef str = Lexer::getSpelling(sm.getSpellingLoc(lt->getStrTokenLoc(token)), buffer, sm, lo);
+
+        for (int i = 0, size = str.size(); i < size - 1; ++i) {
+            if (str[i] == '\\') {
+                auto next = str[i + 1];
+                if (next == 'U' || next == 'u' || next == 'x' || std::isdigit(next)) {
+                    return true;
+                }
             }
         }
     }
-- 
2.43.0


From 70f8a0ce0425fe6d77a1922d25c3ff8b8788e8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:57 +0000
Subject: [PATCH 81/83] fix: function-args-by-value: the classes it leaves out,
 with Qt in a namespace too

---
 src/checks/level2/function-args-by-value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/function-args-by-value.cpp b/src/checks/level2/function-args-by-value.cpp
index cd79933..8caaa45 100644
--- a/src/checks/level2/function-args-by-value.cpp
+++ b/src/checks/level2/function-args-by-value.cpp
@@ -60,7 +60,7 @@ bool FunctionArgsByValue::shouldIgnoreClass(CXXRecordDecl *record)
         "QCharRef",
         "QString::Null",
     };
-    return clazy::contains(ignoreList, record->getQualifiedNameAsString());
+    return clazy::contains(ignoreList, trimQtNamespace(record->getQualifiedNameAsString()));
 }
 
 bool FunctionArgsByValue::shouldIgnoreOperator(FunctionDecl *function)
-- 
2.43.0


From 4d7273acd06e93e481f0b387db69a9c0596cf6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:10 +0000
Subject: [PATCH 82/83] fix: implicit-casts: leave QString::arg() out with Qt
 in a namespace too

---
 src/checks/level2/implicit-casts.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checks/level2/implicit-casts.cpp b/src/checks/level2/implicit-casts.cpp
index 020c669..daf4781 100644
--- a/src/checks/level2/implicit-casts.cpp
+++ b/src/checks/level2/implicit-casts.cpp
@@ -190,7 +190,7 @@ bool ImplicitCasts::isBoolToInt(FunctionDecl *func) const
     }
 
     static const std::vector<std::string> functions = {"QString::arg"};
-    return !clazy::contains(functions, func->getQualifiedNameAsString());
+    return !clazy::contains(functions, trimQtNamespace(func->getQualifiedNameAsString()));
 }
 
 bool ImplicitCasts::isMacroToIgnore(SourceLocation loc) const
-- 
2.43.0


From 1a93de26fc90376f791d1e20ee5d475c368fcf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:59 +0000
Subject: [PATCH 83/83] fix: modernize-list-initialization: report variables
 declared inside of macros at a place

---
 src/checks/manuallevel/modernize-list-initialization.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/checks/manuallevel/modernize-list-initialization.cpp b/src/checks/manuallevel/modernize-list-initialization.cpp
index e535521..ef82fd8 100644
--- a/src/checks/manuallevel/modernize-list-initialization.cpp
+++ b/src/checks/manuallevel/modernize-list-initialization.cpp
@@ -131,6 +131,11 @@ void ModernizeListInitialization::checkOperatorCallListInitialization(clang::Sou
         replacementText[replacementText.length() - 1] = '}';
     }
 
+    if (fixitSourceRange.getBegin().isInvalid()) { // The lexer has no location after the name of a variable inside of a macro
+        emitWarning(operatorCall->getBeginLoc(), "Use initializer-list syntax");
+        return;
+    }
+
     std::vector<FixItHint> fixes{FixItHint::CreateReplacement(fixitSourceRange, replacementText)};
     emitWarning(fixitSourceRange.getBegin(), "Use initializer-list syntax", fixes);
 }
-- 
2.43.0

