From 5ff1fe657d43b1f7f7daf50f8a96f6aab7cb75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 01/43] Guarded execution budget for verification builds
 (PSE_VERIF_BUDGET)

---
 src/nodes/eval/stringcat.cpp      |  2 ++
 src/nodes/functions/function.cpp  |  2 ++
 src/nodes/functions/procedure.cpp |  2 ++
 src/nodes/loop/for.cpp            |  2 ++
 src/nodes/loop/repeatUntil.cpp    |  2 ++
 src/nodes/loop/while.cpp          |  2 ++
 src/nodes/variable/array.cpp      |  3 ++
 src/psc/budget.h                  | 56 +++++++++++++++++++++++++++++++
 src/psc/scope/block.cpp           |  3 ++
 9 files changed, 74 insertions(+)
 create mode 100644 src/psc/budget.h

diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 6e3d971..624007c 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "nodes/eval/stringcat.h"
 
 std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx) {
@@ -14,6 +15,7 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto rightStr = static_cast<const PSC::Primitive*>(rightRes->data.get())->toString();
 
     auto res = (*leftStr) & (*rightStr);
+    PSE_BUDGET_STRING(token, ctx, res->value.size());
 
     return std::make_unique<NodeResult>(std::move(res), PSC::DataType::STRING);
 }
diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index 15ed111..a498be0 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "psc/scope/block.h"
 #include "nodes/variable/variable.h"
 #include "nodes/variable/array.h"
@@ -138,6 +139,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         functionCtx->addVariable(var);
     }
 
+    PSE_BUDGET_CALL(token, ctx);
     try {
         function->run(*functionCtx);
     } catch (ReturnErrSignal&) {}
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index e84dc65..c1833d2 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "psc/scope/block.h"
 #include "nodes/variable/variable.h"
 #include "nodes/variable/array.h"
@@ -130,6 +131,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         procedureCtx->addVariable(var);
     }
 
+    PSE_BUDGET_CALL(token, ctx);
     procedure->run(*procedureCtx);
     ctx.switchToken = nullptr;
 
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index 9cbc72f..bbaa382 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "nodes/loop/control.h"
 #include "nodes/loop/for.h"
 
@@ -59,6 +60,7 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
         (stepNegative && iteratorValue.value >= stopValue) || (!stepNegative && iteratorValue.value <= stopValue);
         iteratorValue.value += stepValue
     ) {
+        PSE_BUDGET_STEP(token, ctx);
         try {
             block->run(ctx);
         } catch (BreakErrSignal&) {
diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 7308ff0..9c647b4 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "nodes/loop/control.h"
 #include "nodes/loop/repeatUntil.h"
 
@@ -10,6 +11,7 @@ RepeatUntilNode::RepeatUntilNode(const Token &token, Node &condition, PSC::Block
 
 std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
     while (true) {
+        PSE_BUDGET_STEP(token, ctx);
         try {
             block.run(ctx);
         } catch (BreakErrSignal&) {
diff --git a/src/nodes/loop/while.cpp b/src/nodes/loop/while.cpp
index ed8dc39..a098926 100644
--- a/src/nodes/loop/while.cpp
+++ b/src/nodes/loop/while.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "nodes/loop/control.h"
 #include "nodes/loop/while.h"
 
@@ -10,6 +11,7 @@ WhileLoopNode::WhileLoopNode(const Token &token, Node &condition, PSC::Block &bl
 
 std::unique_ptr<NodeResult> WhileLoopNode::evaluate(PSC::Context &ctx) {
     while (true) {
+        PSE_BUDGET_STEP(token, ctx);
         auto conditionRes = node.evaluate(ctx);
 
         if (conditionRes->type != PSC::DataType::BOOLEAN)
diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 8a6cce5..786a182 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "nodes/variable/variable.h"
 #include "nodes/variable/array.h"
 
@@ -39,6 +40,8 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         dimensions.emplace_back((PSC::int_t) (i / 2), lower, upper);
     }
 
+    PSE_BUDGET_CELLS(token, ctx, dimensions, identifiers.size());
+
     for (auto identifier : identifiers) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType.type == PSC::DataType::NONE)
diff --git a/src/psc/budget.h b/src/psc/budget.h
new file mode 100644
index 0000000..41e66a5
--- /dev/null
+++ b/src/psc/budget.h
@@ -0,0 +1,56 @@
+#pragma once
+// Execution budget for verification builds, enabled with -DPSE_VERIF_BUDGET.
+// When a bound is exceeded an ordinary runtime error is raised, so that
+// non-termination and resource exhaustion can be observed without timeouts.
+#ifdef PSE_VERIF_BUDGET
+#include <cstddef>
+#include "psc/error.h"
+
+namespace PSC {
+    struct Budget {
+        static constexpr unsigned long maxSteps = 200000;
+        static constexpr unsigned long maxDepth = 300;
+        static constexpr unsigned long maxCells = 100000;
+        static constexpr size_t maxString = 1ul << 20;
+
+        static inline unsigned long steps = 0, depth = 0, cells = 0;
+
+        static void step(const Token &token, const Context &ctx) {
+            if (++steps > maxSteps) throw RuntimeError(token, ctx, "Execution budget exceeded");
+        }
+
+        static void addCells(const Token &token, const Context &ctx, const std::vector<ArrayDimension> &dimensions, size_t arrays) {
+            unsigned long n = arrays;
+            for (const auto &dim : dimensions) {
+                unsigned long size = (unsigned long) dim.upperBound - (unsigned long) dim.lowerBound;
+                if (size > maxCells || n > maxCells) n = maxCells + 1;
+                else n *= size + 1;
+            }
+            cells += n;
+            if (n > maxCells || cells > maxCells) throw RuntimeError(token, ctx, "Array budget exceeded");
+        }
+
+        static void checkString(const Token &token, const Context &ctx, size_t length) {
+            if (length > maxString) throw RuntimeError(token, ctx, "String budget exceeded");
+        }
+    };
+
+    struct CallBudget {
+        CallBudget(const Token &token, const Context &ctx) {
+            if (Budget::depth >= Budget::maxDepth) throw RuntimeError(token, ctx, "Call depth budget exceeded");
+            Budget::depth++;
+        }
+        ~CallBudget() { Budget::depth--; }
+    };
+}
+
+#define PSE_BUDGET_STEP(token, ctx) PSC::Budget::step(token, ctx)
+#define PSE_BUDGET_CELLS(token, ctx, dimensions, arrays) PSC::Budget::addCells(token, ctx, dimensions, arrays)
+#define PSE_BUDGET_STRING(token, ctx, length) PSC::Budget::checkString(token, ctx, length)
+#define PSE_BUDGET_CALL(token, ctx) PSC::CallBudget callBudget(token, ctx)
+#else
+#define PSE_BUDGET_STEP(token, ctx)
+#define PSE_BUDGET_CELLS(token, ctx, dimensions, arrays)
+#define PSE_BUDGET_STRING(token, ctx, length)
+#define PSE_BUDGET_CALL(token, ctx)
+#endif
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index a80ad80..1e65626 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -4,6 +4,7 @@
 #include "nodes/functions/function.h"
 #include "nodes/loop/control.h"
 #include "psc/error.h"
+#include "psc/budget.h"
 #include "psc/scope/block.h"
 
 using namespace PSC;
@@ -76,12 +77,14 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
 
 void Block::_run(PSC::Context &ctx) {
     for (Node *node : nodes) {
+        PSE_BUDGET_STEP(node->getToken(), ctx);
         node->evaluate(ctx);
     }
 }
 
 void Block::_runREPL(PSC::Context &ctx) {
     for (Node *node : nodes) {
+        PSE_BUDGET_STEP(node->getToken(), ctx);
         runNodeREPL(node, ctx);
     }
 }
-- 
2.43.0


From 96a06ddec498177e6a36761693712144278e33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 02/43] fix: allow blank lines inside TYPE ... ENDTYPE

---
 src/parser/userType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/userType.cpp b/src/parser/userType.cpp
index df62671..b4a3691 100644
--- a/src/parser/userType.cpp
+++ b/src/parser/userType.cpp
@@ -59,13 +59,14 @@ Node *Parser::parseComposite(const Token &token, const Token &identifier) {
     PSC::Block *block = new PSC::Block();
     blocks.emplace_back(block);
 
+    while (currentToken->type == TokenType::LINE_END) advance();
     while (currentToken->type == TokenType::DECLARE) {
         Node *declareNode = parseDeclareExpression();
         block->addNode(declareNode);
 
         if (currentToken->type != TokenType::LINE_END)
             throw PSC::ExpectedTokenError(*currentToken, "newline");
-        advance();
+        while (currentToken->type == TokenType::LINE_END) advance();
     }
 
     if (currentToken->type != TokenType::ENDTYPE)
-- 
2.43.0


From 3a96860c9b5fdf21087d32eb9b25167790582cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 03/43] fix: a comment no longer swallows the line break that
 ends it

---
 src/lexer/lexer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index e461e40..abafbbe 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -55,8 +55,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             if (idx >= expr->size() || currentChar != '/') {
                 tokens.emplace_back(new Token(TokenType::SLASH, line, column));
             } else {
-                int commentLine = line;
-                while (line == commentLine && idx < expr->size()) advance();
+                while (idx < expr->size() && currentChar != '\n') advance();
             }
             continue;
         } else if (currentChar == '(') {
-- 
2.43.0


From fc705f9eb2b709d227b6c962c734530d39387ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 04/43] fix: accept '(' separated from an I/O keyword by a tab

---
 src/lexer/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/lexer.cpp b/src/lexer/lexer.cpp
index abafbbe..fdcf968 100644
--- a/src/lexer/lexer.cpp
+++ b/src/lexer/lexer.cpp
@@ -59,7 +59,7 @@ const std::vector<Token*> Lexer::makeTokens() {
             }
             continue;
         } else if (currentChar == '(') {
-            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ') {
+            if (idx > 0 && tokens.size() > 0 && (*expr)[idx-1] != ' ' && (*expr)[idx-1] != '\t') {
                 TokenType t = tokens[tokens.size()-1]->type;
                 if (t == TokenType::INPUT) {
                     throw PSC::LexerError(line, column, "Unexpected '('\n'INTPUT' is statement(not a function) used as 'INPUT <var>' where <var> is a variable to store the input");
-- 
2.43.0


From c59fac40a4dd721540d982d474084ed4af066fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 05/43] fix: 'N//digit' is a number followed by a comment, not
 a date

---
 src/lexer/symbolLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index 7f1ad71..a89686f 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -186,7 +186,7 @@ void Lexer::makeNumber() {
     int i = 0;
     char c = getNextChar(i);
     while (isdigit(c = getNextChar(++i))) {}
-    if (c != '/' || !isdigit(c = getNextChar(++i))) return;
+    if (i == 1 || c != '/' || !isdigit(c = getNextChar(++i))) return;
 
     for (int j = 0; j < i; j++) advance();
     while (isdigit(currentChar) && idx < expr->size()) advance();
-- 
2.43.0


From 8da015b06b32d356a0dcbd77ad1154613b2686c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 06/43] fix: numeric literals out of range are syntax errors
 instead of uncaught exceptions

---
 src/nodes/eval/arithmetic.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 86f63e6..ddc1797 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -2,7 +2,8 @@
 #include "nodes/nodeResult.h"
 #include "pch.h"
 
-#include <chrono>
+#include <cmath>
+#include <cstdlib>
 #include <memory>
 #include "psc/error.h"
 #include "nodes/eval/arithmetic.h"
@@ -10,8 +11,16 @@
 #include "psc/types/type_definitions.h"
 #include "psc/types/types.h"
 
+inline PSC::int_t parseInteger(const Token &token) {
+    try {
+        return std::stol(token.value);
+    } catch (const std::out_of_range&) {
+        throw PSC::SyntaxError(token, "Integer literal is too large");
+    }
+}
+
 IntegerNode::IntegerNode(const Token &token)
-    : Node(token), valueInt(std::stol(token.value))
+    : Node(token), valueInt(parseInteger(token))
 {}
 
 std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
@@ -19,8 +28,15 @@ std::unique_ptr<NodeResult> IntegerNode::evaluate(PSC::Context&) {
 }
 
 
+inline PSC::real_t parseReal(const Token &token) {
+    PSC::real_t value = std::strtod(token.value.c_str(), nullptr);
+    if (!std::isfinite(value))
+        throw PSC::SyntaxError(token, "Real literal is too large");
+    return value;
+}
+
 RealNode::RealNode(const Token &token)
-    : Node(token), valueReal(std::stod(token.value))
+    : Node(token), valueReal(parseReal(token))
 {}
 
 std::unique_ptr<NodeResult> RealNode::evaluate(PSC::Context&) {
-- 
2.43.0


From ff4a83645997c2f10c6e489fb1f6e9d6f93341b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 07/43] fix: date components outside the calendar are rejected
 instead of wrapping around

---
 src/nodes/eval/arithmetic.cpp     | 14 +++++---------
 src/psc/builtinFunctions/date.cpp | 14 +++++++-------
 src/psc/types/date.cpp            | 27 +++++++++++++++++++--------
 src/psc/types/types.h             |  5 ++++-
 4 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index ddc1797..7302702 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -61,7 +61,8 @@ std::unique_ptr<NodeResult> StringNode::evaluate(PSC::Context&) {
 }
 
 inline PSC::Date makeDate(const std::string &dateStr) {
-    std::string dayStr, monthStr, yearStr;
+    const PSC::int_t limit = 1000000;
+    PSC::int_t components[3] = {0, 0, 0};
     int x = 0;
     for (char c : dateStr) {
         if (c == '/') {
@@ -69,16 +70,11 @@ inline PSC::Date makeDate(const std::string &dateStr) {
             continue;
         }
 
-        if (x == 0) dayStr += c;
-        else if (x == 1) monthStr += c;
-        else yearStr += c;
+        // digits past the limit cannot make the component valid again
+        if (components[x] < limit) components[x] = components[x] * 10 + (c - '0');
     }
 
-    std::chrono::day day(std::stoul(dayStr));
-    std::chrono::month month(std::stoul(monthStr));
-    std::chrono::year year(std::stoul(yearStr));
-
-    return PSC::Date(std::chrono::year_month_day(year, month, day));
+    return PSC::Date(components[0], components[1], components[2]);
 }
 
 DateNode::DateNode(const Token &token)
diff --git a/src/psc/builtinFunctions/date.cpp b/src/psc/builtinFunctions/date.cpp
index a24dc1b..ced178c 100644
--- a/src/psc/builtinFunctions/date.cpp
+++ b/src/psc/builtinFunctions/date.cpp
@@ -90,15 +90,15 @@ void PSC::BuiltinFnSETDATE::run(PSC::Context &ctx) {
     PSC::Variable *yearVar = ctx.getVariable("Year");
     if (yearVar == nullptr || yearVar->type != PSC::DataType::INTEGER) std::abort();
 
-    day day(dayVar->get<PSC::Integer>().value);
-    month month(monthVar->get<PSC::Integer>().value);
-    year year(yearVar->get<PSC::Integer>().value);
-
-    year_month_day ymd(year, month, day);
-    if (!ymd.ok())
+    PSC::Date date(
+        dayVar->get<PSC::Integer>().value,
+        monthVar->get<PSC::Integer>().value,
+        yearVar->get<PSC::Integer>().value
+    );
+    if (!date.date.ok())
         throw PSC::RuntimeError(PSC::errToken, ctx, "Invalid Date!");
 
-    auto ret = std::make_unique<PSC::Date>(ymd);
+    auto ret = std::make_unique<PSC::Date>(date);
 
     ctx.returnValue = std::make_unique<NodeResult>(std::move(ret), PSC::DataType::DATE);
 }
diff --git a/src/psc/types/date.cpp b/src/psc/types/date.cpp
index da4421e..97f2404 100644
--- a/src/psc/types/date.cpp
+++ b/src/psc/types/date.cpp
@@ -7,6 +7,18 @@ using namespace PSC;
 Date::Date(std::chrono::year_month_day date)
     : date(date) {}
 
+Date::Date(int_t day, int_t month, int_t year) {
+    // std::chrono stores the components in narrow integers
+    if (day < 1 || day > 31 || month < 1 || month > 12
+        || year < (int) std::chrono::year::min() || year > (int) std::chrono::year::max()) return;
+
+    date = std::chrono::year_month_day(
+        std::chrono::year((int) year),
+        std::chrono::month((unsigned int) month),
+        std::chrono::day((unsigned int) day)
+    );
+}
+
 std::unique_ptr<Integer> Date::toInteger() const {
     unsigned int day = static_cast<unsigned int>(date.day());
     unsigned int month = static_cast<unsigned int>(date.month());
@@ -43,20 +55,19 @@ bool Date::load(std::istream &in, Context&) {
     in >> s;
     if (s != "DATE") return false;
     
-    unsigned int day = 0;
-    unsigned int month = 0;
-    int year = 0;
+    int_t day = 0;
+    int_t month = 0;
+    int_t year = 0;
 
     in >> day;
     in >> month;
     in >> year;
     if (in.fail()) return false;
 
-    date = std::chrono::year_month_day(
-        std::chrono::year(year),
-        std::chrono::month(month),
-        std::chrono::day(day)
-    );
+    Date read(day, month, year);
+    // a variable that was never assigned holds the date 0/0/0
+    if (!read.date.ok() && (day != 0 || month != 0 || year != 0)) return false;
 
+    date = read.date;
     return true;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 0221de6..745041a 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -238,12 +238,15 @@ namespace PSC {
 
     class Date : public Primitive {
     public:
-        std::chrono::year_month_day date;
+        std::chrono::year_month_day date{};
 
         Date() = default;
 
         Date(std::chrono::year_month_day date);
 
+        // The result is not ok() if the components do not form a date
+        Date(int_t day, int_t month, int_t year);
+
         Date(const Date&) = default;
 
         Date &operator=(const Date &other) = default;
-- 
2.43.0


From 31751165adc24a016ba1315afae7ed2f73c405db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 08/43] fix: unsupported casts are diagnosed instead of
 aborting

---
 src/nodes/cast.cpp    | 4 +++-
 src/parser/parser.cpp | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nodes/cast.cpp b/src/nodes/cast.cpp
index ca1141f..d71aedd 100644
--- a/src/nodes/cast.cpp
+++ b/src/nodes/cast.cpp
@@ -10,9 +10,11 @@ CastNode::CastNode(const Token &token, Node &node, PSC::DataType target)
 std::unique_ptr<NodeResult> CastNode::evaluate(PSC::Context &ctx) {
     auto value = node.evaluate(ctx);
 
-    if (!value->data->isPrimitive())
+    if (value->data == nullptr || !value->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "Cast");
     if (value->type == target) return value;
+    if (value->type == PSC::DataType::DATE && target != PSC::DataType::INTEGER && target != PSC::DataType::STRING)
+        throw PSC::RuntimeError(token, ctx, "A DATE cannot be cast to this type");
 
     auto pvalue = static_cast<const PSC::Primitive*>(value->data.get());
 
diff --git a/src/parser/parser.cpp b/src/parser/parser.cpp
index 8446c90..88dce82 100644
--- a/src/parser/parser.cpp
+++ b/src/parser/parser.cpp
@@ -17,6 +17,8 @@ PSC::DataType Parser::getPSCType() {
         return PSC::DataType::CHAR;
     } else if (currentToken->value == "STRING") {
         return PSC::DataType::STRING;
+    } else if (currentToken->value == "DATE") {
+        return PSC::DataType::DATE;
     } else {
         std::abort();
     }
-- 
2.43.0


From 6c78da9268059044f7451c521d405a3d0b5337fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 09/43] fix: using a statement without a value as an operand is
 diagnosed

---
 src/nodes/eval/stringcat.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/nodes/eval/stringcat.cpp b/src/nodes/eval/stringcat.cpp
index 624007c..63cad5a 100644
--- a/src/nodes/eval/stringcat.cpp
+++ b/src/nodes/eval/stringcat.cpp
@@ -8,6 +8,8 @@ std::unique_ptr<NodeResult> StringConcatenationNode::evaluate(PSC::Context &ctx)
     auto leftRes = left.evaluate(ctx);
     auto rightRes = right.evaluate(ctx);
 
+    if (leftRes->data == nullptr || rightRes->data == nullptr)
+        throw PSC::RuntimeError(token, ctx, "Expected a value for '&' operator");
     if (!leftRes->data->isPrimitive() || !rightRes->data->isPrimitive())
         throw PSC::TypeOperationError(token, ctx, "'&'");
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index b287444..fabb01a 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -75,6 +75,9 @@ std::unique_ptr<NodeResult> AssignNode::evaluate(PSC::Context &ctx) {
         return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
     }
 
+    if (valueRes->type == PSC::DataType::NONE)
+        throw PSC::RuntimeError(node.getToken(), ctx, "Expected a value for assignment");
+
     PSC::Variable *var;
     try {
         PSC::DataHolder &holder = resolver->resolve(ctx);
-- 
2.43.0


From a5ea292b28027f8fe2bf64853db02a707886f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 10/43] fix: DIV and MOD of the smallest integer by -1 no
 longer raise SIGFPE

---
 src/psc/types/numeric.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/psc/types/numeric.cpp b/src/psc/types/numeric.cpp
index cc023a4..345fb01 100644
--- a/src/psc/types/numeric.cpp
+++ b/src/psc/types/numeric.cpp
@@ -118,7 +118,9 @@ real_t modReal(real_t x, real_t y) {
 std::unique_ptr<Number> Number::operator%(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value % (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // the smallest integer divided by -1 is not representable
+        int_t x = divisor == -1 ? 0 : ((Integer*) this)->value % divisor;
         return std::make_unique<Integer>(x);
     }
 
@@ -142,7 +144,9 @@ std::unique_ptr<Number> Number::operator%(const Number &other) const {
 std::unique_ptr<Number> Number::operator|(const Number &other) const {
     int type = mergeType(real, other.real);
     if (type == mergeType(false, false)) { // int, int
-        int_t x = ((Integer*) this)->value / (Integer&) other;
+        int_t divisor = (Integer&) other;
+        // the smallest integer divided by -1 is not representable
+        int_t x = divisor == -1 ? (int_t) (0ul - (unsigned long) ((Integer*) this)->value) : ((Integer*) this)->value / divisor;
         return std::make_unique<Integer>(x);
     }
     
-- 
2.43.0


From 321bbb250a7232d0d769e8b31b39412fa23e1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 11/43] fix: copying records and arrays copies array fields and
 happens in place

---
 src/nodes/variable/variable.cpp |  2 +-
 src/psc/array.cpp               | 22 +++++++++++++++++---
 src/psc/array.h                 |  4 ++--
 src/psc/scope/context.cpp       | 11 ++++++----
 src/psc/scope/context.h         |  2 +-
 src/psc/types/types.h           |  2 +-
 src/psc/types/userType.cpp      |  4 ++--
 src/psc/variable.cpp            | 36 ++++++++++++++++++++++++++++++++-
 src/psc/variable.h              |  3 +++
 9 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index fabb01a..4c488ac 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -186,7 +186,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
             data = new PSC::Pointer(var.get<PSC::Pointer>());
             break;
         case PSC::DataType::COMPOSITE:
-            data = new PSC::Composite(var.get<PSC::Composite>());
+            data = new PSC::Composite(var.get<PSC::Composite>(), &ctx);
             break;
         case PSC::DataType::NONE:
             std::abort();
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2cf834b..7cac272 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -26,15 +26,31 @@ Array::Array(const std::string &name, DataType type, const std::vector<ArrayDime
     : DataHolder(name), type(type), dimensions(dimensions)
 {}
 
-Array::Array(const Array &other)
+Array::Array(const Array &other, Context *ctx)
     : DataHolder(other.name),
     type(other.type),
     dimensions(Array::copyDimensions(other.dimensions))
-{}
+{
+    data.reserve(other.data.size());
+    for (const auto &element : other.data) {
+        data.emplace_back(std::make_unique<Variable>(*element, ctx));
+    }
+}
 
 void Array::copyData(const Array &other) {
+    // Array fields of two records of one type can differ if their bounds are not literals
+    if (dimensions != other.dimensions) {
+        Context *ctx = data[0]->parent;
+        data.clear();
+        for (const auto &element : other.data) {
+            data.emplace_back(std::make_unique<Variable>(*element, ctx));
+        }
+        dimensions = other.dimensions;
+        return;
+    }
+
     for (size_t i = 0; i < data.size(); i++) {
-        data[i] = std::make_unique<PSC::Variable>(*(other.data[i]), other.data[i]->parent);
+        data[i]->assign(other.data[i]->get<Value>());
     }
 }
 
diff --git a/src/psc/array.h b/src/psc/array.h
index 7e12b70..7fd35b7 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -30,11 +30,11 @@ namespace PSC {
 
     public:
         const DataType type;
-        const std::vector<ArrayDimension> dimensions;
+        std::vector<ArrayDimension> dimensions;
 
         Array(const std::string &name, DataType type, const std::vector<ArrayDimension> &dimensions);
 
-        Array(const Array &other);
+        Array(const Array &other, Context *ctx);
 
         void copyData(const Array &other);
 
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 6b64d51..3f8fbc5 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -27,22 +27,25 @@ void copyPtrVector(const std::vector<std::unique_ptr<T>> &source, std::vector<st
     }
 }
 
-Context::Context(const Context &other)
-    : parent(other.parent),
+Context::Context(const Context &other, Context *parent)
+    : parent(parent),
     name(other.name),
     isFunctionCtx(other.isFunctionCtx),
     isCompositeCtx(other.isCompositeCtx),
     returnType(other.returnType)
 {
     copyPtrVector(other.variables, variables, this);
-    copyPtrVector(other.arrays, arrays);
+    copyPtrVector(other.arrays, arrays, this);
     copyPtrVector(other.procedures, procedures);
     copyPtrVector(other.functions, functions);
 }
 
 void Context::copyVariableData(const Context &other) {
     for (size_t i = 0; i < variables.size(); i++) {
-        variables[i]->set(&other.variables[i]->get<Value>(), true);
+        variables[i]->assign(other.variables[i]->get<Value>());
+    }
+    for (size_t i = 0; i < arrays.size(); i++) {
+        arrays[i]->copyData(*other.arrays[i]);
     }
 }
 
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index deba644..c7dac64 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -43,7 +43,7 @@ namespace PSC {
         Context(Context *parent, const std::string &name, bool isCompositeCtx);
 
         // For copying composites
-        explicit Context(const Context &other);
+        Context(const Context &other, Context *parent);
 
         // Only for composites
         void copyVariableData(const Context &other);
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index 745041a..d5532e4 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -326,7 +326,7 @@ namespace PSC {
 
         Composite(const std::string &name, Context &parent);
 
-        Composite(const Composite &other);
+        Composite(const Composite &other, Context *parent);
 
         void operator=(const Composite &other);
 
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 993eecb..b067a2d 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -90,9 +90,9 @@ Composite::Composite(const std::string &name, Context &parent)
     getDefinition(*ctx).initBlock.run(*ctx);
 }
 
-Composite::Composite(const Composite &other)
+Composite::Composite(const Composite &other, Context *parent)
     : definitionName(other.definitionName),
-    ctx(std::make_unique<Context>(*other.ctx))
+    ctx(std::make_unique<Context>(*other.ctx, parent))
 {}
 
 void Composite::operator=(const Composite &other) {
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index 1619079..e690380 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -91,7 +91,41 @@ void Variable::set(Value *_data, bool copy) {
             data = new PSC::Pointer(*((const PSC::Pointer*) _data));
             break;
         case DataType::COMPOSITE:
-            data = new PSC::Composite(*((const PSC::Composite*) _data));
+            data = new PSC::Composite(*((const PSC::Composite*) _data), parent);
+            break;
+        case DataType::NONE:
+            std::abort();
+    }
+}
+
+void Variable::assign(const Value &value) {
+    switch (type.type) {
+        case DataType::INTEGER:
+            get<Integer>() = static_cast<const Integer&>(value);
+            break;
+        case DataType::REAL:
+            get<Real>() = static_cast<const Real&>(value);
+            break;
+        case DataType::BOOLEAN:
+            get<Boolean>() = static_cast<const Boolean&>(value);
+            break;
+        case DataType::CHAR:
+            get<Char>() = static_cast<const Char&>(value);
+            break;
+        case DataType::STRING:
+            get<String>() = static_cast<const String&>(value);
+            break;
+        case DataType::DATE:
+            get<Date>() = static_cast<const Date&>(value);
+            break;
+        case DataType::ENUM:
+            get<Enum>() = static_cast<const Enum&>(value);
+            break;
+        case DataType::POINTER:
+            get<Pointer>() = static_cast<const Pointer&>(value);
+            break;
+        case DataType::COMPOSITE:
+            get<Composite>() = static_cast<const Composite&>(value);
             break;
         case DataType::NONE:
             std::abort();
diff --git a/src/psc/variable.h b/src/psc/variable.h
index 7ce64d8..b73ca4a 100644
--- a/src/psc/variable.h
+++ b/src/psc/variable.h
@@ -43,6 +43,9 @@ namespace PSC {
 
         void set(Value *_data, bool copy = false);
 
+        // Overwrites the value in place, without replacing the object that holds it
+        void assign(const Value &value);
+
         template<std::derived_from<Value> T>
         T &get() { return *((T*) data); }
 
-- 
2.43.0


From 5891ed3d9cc5089d557c3763252ddf15f602800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 12/43] fix: record members and local record types are looked
 up in the right scope

---
 src/psc/types/userType.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index b067a2d..a761082 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -87,7 +87,8 @@ Composite::Composite(const std::string &name, Context &parent)
     : definitionName(name),
     ctx(std::make_unique<Context>(&parent, definitionName, true))
 {
-    getDefinition(*ctx).initBlock.run(*ctx);
+    // Definitions local to a procedure can only be found from the procedure's own context
+    getDefinition(parent).initBlock.run(*ctx);
 }
 
 Composite::Composite(const Composite &other, Context *parent)
@@ -101,10 +102,10 @@ void Composite::operator=(const Composite &other) {
 }
 
 DataHolder *Composite::getMember(const std::string &name) {
-    PSC::Variable *var = ctx->getVariable(name);
+    PSC::Variable *var = ctx->getVariable(name, false);
     if (var != nullptr) return var;
 
-    PSC::Array *arr = ctx->getArray(name);
+    PSC::Array *arr = ctx->getArray(name, false);
     return arr;
 }
 
-- 
2.43.0


From 0f3700a77103c43c1262db5a49a992f2bddfda2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:51 +0000
Subject: [PATCH 13/43] fix: array fields of stored records are separated from
 each other

---
 src/psc/types/userType.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index a761082..594d10d 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -126,7 +126,7 @@ void Composite::dump(std::ostream &out) const {
     if (arrays.size() > 0) out << " ";
     for (size_t i = 0; i < arrays.size(); i++) {
         arrays[i]->dump(out);
-        if (i < vars.size() - 1) out << " ";
+        if (i < arrays.size() - 1) out << " ";
     }
 }
 
-- 
2.43.0


From 0ecf7825fae2ce4888da4f251231dba21cb6965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 14/43] fix: errors inside a record definition are reported
 with a complete traceback

---
 src/nodes/functions/function.cpp  | 1 +
 src/nodes/functions/procedure.cpp | 1 +
 src/nodes/variable/array.cpp      | 3 +++
 src/nodes/variable/variable.cpp   | 3 +++
 src/psc/error.cpp                 | 4 +++-
 5 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index a498be0..e5c1274 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -77,6 +77,7 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
 
     auto functionCtx = std::make_unique<PSC::Context>(&ctx, functionName, true, function->returnType);
     ctx.switchToken = &token;
+    functionCtx->switchToken = &token; // for errors in the definition of a record type
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index c1833d2..64841f5 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -71,6 +71,7 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
 
     auto procedureCtx = std::make_unique<PSC::Context>(&ctx, procedureName);
     ctx.switchToken = &token;
+    procedureCtx->switchToken = &token; // for errors in the definition of a record type
 
     for (size_t i = 0; i < args.size(); i++) {
         auto &argRes = argResults[i];
diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 786a182..19770b9 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -48,7 +48,10 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
+        // Fields of records are declared in a context of their own
+        ctx.switchToken = &token;
         array->init(ctx);
+        ctx.switchToken = nullptr;
         ctx.addArray(std::move(array));
     }
 
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 4c488ac..137af60 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -21,7 +21,10 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
 
+        // Fields of records are declared in a context of their own
+        ctx.switchToken = &token;
         ctx.addVariable(new PSC::Variable(identifier->value, dataType, false, &ctx));
+        ctx.switchToken = nullptr;
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index acdb67d..8806b40 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -74,7 +74,9 @@ RuntimeError::RuntimeError(const Token &token, const Context &context, const std
 
     const Context *ctx = context.getParent();
     while (ctx != nullptr) {
-        os << "\n" << ctx->getName() << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
+        os << "\n" << ctx->getName();
+        if (ctx->switchToken != nullptr)
+            os << ", line " << ctx->switchToken->line << ", column " << ctx->switchToken->column;
         Context *parent = ctx->getParent();
         ctx = parent;
     }
-- 
2.43.0


From bee1cff795b3fe0d94b30aeec38c4add30678765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 15/43] fix: BYREF arguments are resolved only once

---
 src/nodes/functions/function.cpp  | 34 +++++++++++++++++++------------
 src/nodes/functions/procedure.cpp | 32 +++++++++++++++++++----------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/nodes/functions/function.cpp b/src/nodes/functions/function.cpp
index e5c1274..ef7280b 100644
--- a/src/nodes/functions/function.cpp
+++ b/src/nodes/functions/function.cpp
@@ -66,9 +66,25 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    // Variables bound to BYREF parameters, resolved only once
+    std::vector<PSC::Variable*> argVariables(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        bool byRef = i < function->parameters.size() && function->parameters[i].byRef;
+        AccessNode *accsNode = byRef ? dynamic_cast<AccessNode*>(args[i]) : nullptr;
+
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argVariables[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(argVariables[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
     size_t nArgs = function->parameters.size();
@@ -84,23 +100,15 @@ std::unique_ptr<NodeResult> FunctionCallNode::evaluate(PSC::Context &ctx) {
         const PSC::Parameter &parameter = function->parameters[i];
 
         if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type) {
+        if (parameter.type != (argRes ? argRes->type : argTypes[i]))
             throw PSC::InvalidArgsError(token, ctx, function->getTypes(), std::move(argTypes));
-        }
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode) {
+            if (argVariables[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables can be used as arguements when passing by reference");
-            }
-
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
 
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argVariables[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, functionCtx.get());
 
diff --git a/src/nodes/functions/procedure.cpp b/src/nodes/functions/procedure.cpp
index 64841f5..ff29d38 100644
--- a/src/nodes/functions/procedure.cpp
+++ b/src/nodes/functions/procedure.cpp
@@ -60,9 +60,25 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
     argResults.reserve(args.size());
     argTypes.reserve(args.size());
 
+    // Variables bound to BYREF parameters, resolved only once
+    std::vector<PSC::Variable*> argVariables(args.size(), nullptr);
+
     for (size_t i = 0; i < args.size(); i++) {
-        argResults.push_back(args[i]->evaluate(ctx));
-        argTypes.push_back(argResults[i]->type);
+        bool byRef = i < procedure->parameters.size() && procedure->parameters[i].byRef;
+        AccessNode *accsNode = byRef ? dynamic_cast<AccessNode*>(args[i]) : nullptr;
+
+        if (accsNode != nullptr) {
+            auto &holder = accsNode->getResolver().resolve(ctx);
+            if (holder.isArray())
+                throw PSC::ArrayDirectAccessError(token, ctx);
+
+            argVariables[i] = static_cast<PSC::Variable*>(&holder);
+            argResults.push_back(nullptr);
+            argTypes.push_back(argVariables[i]->type);
+        } else {
+            argResults.push_back(args[i]->evaluate(ctx));
+            argTypes.push_back(argResults[i]->type);
+        }
     }
 
     size_t nArgs = procedure->parameters.size();
@@ -78,21 +94,15 @@ std::unique_ptr<NodeResult> CallNode::evaluate(PSC::Context &ctx) {
         const PSC::Parameter &parameter = procedure->parameters[i];
 
         if (!parameter.byRef) argRes->implicitCast(parameter.type);
-        if (parameter.type != argRes->type)
+        if (parameter.type != (argRes ? argRes->type : argTypes[i]))
             throw PSC::InvalidArgsError(token, ctx, procedure->getTypes(), std::move(argTypes));
 
         PSC::Variable *var;
         if (parameter.byRef) {
-            AccessNode *accsNode = dynamic_cast<AccessNode*>(args[i]);
-            if (!accsNode)
+            if (argVariables[i] == nullptr)
                 throw PSC::RuntimeError(token, ctx, "Only variables and array elements can be used as arguements when passing by reference");
 
-            auto &holder = accsNode->getResolver().resolve(ctx);
-            if (holder.isArray())
-                throw PSC::ArrayDirectAccessError(token, ctx);
-
-            PSC::Variable &original = *static_cast<PSC::Variable*>(&holder);
-            var = original.createReference(parameter.name);
+            var = argVariables[i]->createReference(parameter.name);
         } else {
             var = new PSC::Variable(parameter.name, argRes->type, false, procedureCtx.get());
 
-- 
2.43.0


From 9c4b764c1ce09690ee3af3e87ac7e8c6bca46eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 16/43] fix: BREAK and CONTINUE never leave the procedure they
 are in

---
 src/psc/procedure.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/psc/procedure.cpp b/src/psc/procedure.cpp
index b5d43d4..2c5d162 100644
--- a/src/psc/procedure.cpp
+++ b/src/psc/procedure.cpp
@@ -1,5 +1,7 @@
 #include "pch.h"
 
+#include "nodes/loop/control.h"
+#include "psc/error.h"
 #include "psc/scope/block.h"
 #include "psc/scope/context.h"
 #include "procedure.h"
@@ -32,7 +34,13 @@ std::vector<PSC::DataType> Procedure::getTypes() const {
 }
 
 void Procedure::run(PSC::Context &ctx) {
-    block->run(ctx);
+    try {
+        block->run(ctx);
+    } catch (BreakErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'BREAK' statement");
+    } catch (ContinueErrSignal &e) {
+        throw PSC::InvalidUsageError(e.token, ctx, "'CONTINUE' statement");
+    }
 }
 
 Function::Function(
-- 
2.43.0


From a4e83e5eec2d57e0375d7f1c5df58cc367ec7aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 17/43] fix: CONTINUE in a REPEAT loop goes on with the UNTIL
 condition

---
 src/nodes/loop/repeatUntil.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/nodes/loop/repeatUntil.cpp b/src/nodes/loop/repeatUntil.cpp
index 9c647b4..b2ee11c 100644
--- a/src/nodes/loop/repeatUntil.cpp
+++ b/src/nodes/loop/repeatUntil.cpp
@@ -16,9 +16,7 @@ std::unique_ptr<NodeResult> RepeatUntilNode::evaluate(PSC::Context &ctx) {
             block.run(ctx);
         } catch (BreakErrSignal&) {
             break;
-        } catch (ContinueErrSignal&) {
-            continue;
-        }
+        } catch (ContinueErrSignal&) {}
 
         auto conditionRes = node.evaluate(ctx);
         
-- 
2.43.0


From d52432b924f9368acd9d693d49369484656c008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 18/43] fix: CASE ranges over INTEGER values are compared
 exactly

---
 src/nodes/selection/case.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/nodes/selection/case.cpp b/src/nodes/selection/case.cpp
index 941c025..962f248 100644
--- a/src/nodes/selection/case.cpp
+++ b/src/nodes/selection/case.cpp
@@ -53,26 +53,20 @@ RangeCaseComponent::RangeCaseComponent(PSC::Block &block, Node &lowerBound, Node
 {}
 
 bool RangeCaseComponent::match(const NodeResult &value, PSC::Context &ctx) {
-    PSC::real_t testValue;
-    if (value.type == PSC::DataType::INTEGER) testValue = value.get<PSC::Integer>().value;
-    else if (value.type == PSC::DataType::REAL) testValue = value.get<PSC::Real>().value;
-    else return false;
+    if (value.type != PSC::DataType::INTEGER && value.type != PSC::DataType::REAL) return false;
 
-    PSC::real_t lowerVal;
     auto lower = lowerBound.evaluate(ctx);
 
-    if (lower->type == PSC::DataType::INTEGER) lowerVal = lower->get<PSC::Integer>().value;
-    else if (lower->type == PSC::DataType::REAL) lowerVal = lower->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
+    if (lower->type != PSC::DataType::INTEGER && lower->type != PSC::DataType::REAL)
+        throw PSC::RuntimeError(lowerBound.getToken(), ctx, "Lower bound must be of type INTEGER or REAL");
 
-    PSC::real_t upperVal;
     auto upper = upperBound.evaluate(ctx);
 
-    if (upper->type == PSC::DataType::INTEGER) upperVal = upper->get<PSC::Integer>().value;
-    else if (upper->type == PSC::DataType::REAL) upperVal = upper->get<PSC::Real>().value;
-    else throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
+    if (upper->type != PSC::DataType::INTEGER && upper->type != PSC::DataType::REAL)
+        throw PSC::RuntimeError(upperBound.getToken(), ctx, "Upper bound must be of type INTEGER or REAL");
 
-    return (lowerVal <= testValue) && (testValue <= upperVal);
+    const PSC::Number &testValue = value.get<PSC::Number>();
+    return *(lower->get<PSC::Number>() <= testValue) && *(testValue <= upper->get<PSC::Number>());
 }
 
 
-- 
2.43.0


From 2918b2151b49b20f3bf4b964f9076e12f52add14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 19/43] fix: FOR, INPUT, READFILE and GETRECORD cannot change a
 constant

---
 src/nodes/io/file.cpp  | 5 +++++
 src/nodes/io/io.cpp    | 3 +++
 src/nodes/loop/for.cpp | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index cb67719..f83b3d4 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -41,6 +41,8 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
     }
     if (var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, identifier.value);
 
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
@@ -182,6 +184,9 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         || (array != nullptr && array->type == PSC::DataType::POINTER))
         throw PSC::RuntimeError(token, ctx, "Pointers cannot be stored in random files");
 
+    if (variable != nullptr && variable->isConstant)
+        throw PSC::ConstAssignError(token, ctx, identifier.value);
+
     if (variable != nullptr) {
         if (!file->getRecord(*variable, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index e9e2202..0fd0d29 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -82,6 +82,9 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(var);
     }
 
+    if (var->isConstant)
+        throw PSC::ConstAssignError(token, ctx, var->name);
+
     PSC::String inputStr;
     getLine(inputStr.value, "");
 
diff --git a/src/nodes/loop/for.cpp b/src/nodes/loop/for.cpp
index bbaa382..e3396b9 100644
--- a/src/nodes/loop/for.cpp
+++ b/src/nodes/loop/for.cpp
@@ -21,6 +21,9 @@ std::unique_ptr<NodeResult> ForLoopNode::evaluate(PSC::Context &ctx) {
         ctx.addVariable(iterator);
     }
 
+    if (iterator->isConstant)
+        throw PSC::ConstAssignError(token, ctx, identifier.value);
+
     if (iterator->type != PSC::DataType::INTEGER)
         throw PSC::RuntimeError(token, ctx, "Iterator variable must be of type INTEGER");
 
-- 
2.43.0


From 440e430796d350b996d888286f59564daec3fb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 20/43] fix: a local declaration hides a global variable or
 array of the same name at once

---
 src/nodes/variable/resolver.cpp | 21 ++++++++++++---------
 src/psc/scope/context.cpp       |  7 +++++++
 src/psc/scope/context.h         |  2 ++
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 6b4db88..9c86c76 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -158,16 +158,19 @@ PSC::DataHolder &SimpleVariableSource::resolve(PSC::Context &ctx) {
     PSC::DataHolder *cached = cache.get(ctx);
     if (cached != nullptr) return *cached;
 
-    PSC::Variable *var = ctx.getVariable(token.value);
-    if (var != nullptr) {
-        cache.set(var, ctx);
-        return *var;
-    }
+    // Everything local comes before anything global
+    for (bool global : {false, true}) {
+        PSC::Variable *var = ctx.getVariable(token.value, global);
+        if (var != nullptr) {
+            cache.set(var, ctx);
+            return *var;
+        }
 
-    PSC::Array *arr = ctx.getArray(token.value);
-    if (arr != nullptr) {
-        cache.set(arr, ctx);
-        return *arr;
+        PSC::Array *arr = ctx.getArray(token.value, global);
+        if (arr != nullptr) {
+            cache.set(arr, ctx);
+            return *arr;
+        }
     }
 
     throw PSC::NotDefinedError(token, ctx, "Identifier '" + token.value + "'");
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 3f8fbc5..f66be74 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -50,9 +50,14 @@ void Context::copyVariableData(const Context &other) {
 }
 
 Context::~Context() {
+    clearCache();
+}
+
+void Context::clearCache() {
     for (ResolverCache *c : cache) {
         c->clear();
     }
+    cache.clear();
 }
 
 std::unique_ptr<Context> Context::createGlobalContext() {
@@ -126,6 +131,7 @@ const std::string &Context::getName() const {
 
 void Context::addVariable(Variable *variable) {
     variables.emplace_back(variable);
+    clearCache(); // the name may have denoted a global variable until now
 }
 
 Variable *Context::getVariable(const std::string &varName, bool global) {
@@ -179,6 +185,7 @@ Function *Context::getFunction(const std::string &functionName) {
 
 void Context::addArray(std::unique_ptr<Array> &&array) {
     arrays.emplace_back(std::move(array));
+    clearCache();
 }
 
 Array *Context::getArray(const std::string &arrayName, bool global) {
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index c7dac64..602f91c 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -27,6 +27,8 @@ namespace PSC {
 
         std::vector<ResolverCache*> cache;
 
+        void clearCache();
+
     public:
         const Token *switchToken = nullptr;
 
-- 
2.43.0


From cbdac1fcd2363a48b7c94159c6d3d5585076f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:36 +0000
Subject: [PATCH 21/43] fix: a pointer to a returned activation is not mistaken
 for one to a new activation

---
 src/nodes/variable/resolver.cpp |  3 +--
 src/psc/scope/block.cpp         |  3 +--
 src/psc/scope/context.h         |  5 +++++
 src/psc/types/types.h           |  5 +++--
 src/psc/types/userType.cpp      | 11 ++++++-----
 5 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 9c86c76..3afd32c 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -51,9 +51,8 @@ PSC::DataHolder &PointerDereferencer::resolve(PSC::Context &ctx) {
     }
 
     PSC::Pointer &ptr = ptrVar->get<PSC::Pointer>();
-    const PSC::Context *ptrCtx = ptr.getCtx();
     PSC::Context *tempCtx = &ctx;
-    while (tempCtx != ptrCtx) {
+    while (tempCtx->id != ptr.getCtxId()) {
         tempCtx = tempCtx->getParent();
         if (tempCtx == nullptr)
             throw PSC::RuntimeError(token, ctx, "Attempting to access deleted object from pointer '" + ptrVar->name + "'");
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index 1e65626..e871153 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -49,10 +49,9 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
 
-            const PSC::Context *ptrCtx = resPtr.getCtx();
             PSC::Context *tempCtx = &ctx;
             bool valid = true;
-            while (valid && tempCtx != ptrCtx) {
+            while (valid && tempCtx->id != resPtr.getCtxId()) {
                 tempCtx = tempCtx->getParent();
                 if (tempCtx == nullptr) valid = false;
             }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 602f91c..456b9fa 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -14,6 +14,8 @@ class ResolverCache;
 namespace PSC {
     class Context {
     private:
+        static inline unsigned long nextId = 1;
+
         Context *parent;
         std::string name;
         std::vector<std::unique_ptr<Variable>> variables;
@@ -30,6 +32,9 @@ namespace PSC {
         void clearCache();
 
     public:
+        // Never used again by another context, unlike the address
+        const unsigned long id = nextId++;
+
         const Token *switchToken = nullptr;
 
         const bool isFunctionCtx, isCompositeCtx;
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index d5532e4..d4ed1c1 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -295,7 +295,7 @@ namespace PSC {
     class Pointer : public Custom {
     private:
         Variable *ptr = nullptr;
-        Context *varCtx = nullptr;
+        unsigned long ctxId = 0;
 
     public:
         const std::string definitionName;
@@ -310,7 +310,8 @@ namespace PSC {
 
         Variable *getValue() const;
 
-        const Context *getCtx() const;
+        // Identifies the context that owns the variable pointed to
+        unsigned long getCtxId() const;
 
         const PointerTypeDefinition &getDefinition(Context &ctx) const;
     
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 594d10d..860f53c 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -47,29 +47,30 @@ Pointer::Pointer(const std::string &name)
     : definitionName(name) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), varCtx(other.varCtx), definitionName(other.definitionName)
+    : ptr(other.ptr), ctxId(other.ctxId), definitionName(other.definitionName)
 {}
 
 void Pointer::setValue(Variable *value) {
     ptr = value;
-    varCtx = value->parent;
+    const Context *varCtx = value->parent;
     while (varCtx->isCompositeCtx) {
         varCtx = varCtx->getParent();
     }
+    ctxId = varCtx->id;
 }
 
 void Pointer::operator=(const Pointer &other) {
     if (definitionName != other.definitionName) std::abort();
     ptr = other.ptr;
-    varCtx = other.varCtx;
+    ctxId = other.ctxId;
 }
 
 Variable *Pointer::getValue() const {
     return ptr;
 }
 
-const Context *Pointer::getCtx() const {
-    return varCtx;
+unsigned long Pointer::getCtxId() const {
+    return ctxId;
 }
 
 const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-- 
2.43.0


From 99fc4788f1431a6ab22d320034087ff395e8f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 22/43] fix: enumerated values keep their type through
 arithmetic and in procedures with types of their own

---
 src/nodes/eval/arithmetic.cpp   | 13 +++++++------
 src/nodes/io/io.cpp             |  2 +-
 src/nodes/variable/enum.cpp     |  3 ++-
 src/nodes/variable/pointer.cpp  |  2 +-
 src/nodes/variable/variable.cpp |  2 +-
 src/psc/scope/block.cpp         |  2 +-
 src/psc/scope/context.cpp       |  9 +++++----
 src/psc/types/datatypes.h       |  2 +-
 src/psc/types/types.cpp         |  4 ++--
 src/psc/types/types.h           | 14 +++++++++-----
 src/psc/types/userType.cpp      | 30 ++++++++++++++----------------
 src/psc/variable.cpp            |  5 +++--
 12 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/src/nodes/eval/arithmetic.cpp b/src/nodes/eval/arithmetic.cpp
index 7302702..a17732a 100644
--- a/src/nodes/eval/arithmetic.cpp
+++ b/src/nodes/eval/arithmetic.cpp
@@ -142,13 +142,16 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
         const PSC::Enum &enumVal = leftRes->get<PSC::Enum>();
         const PSC::Integer &integer = rightRes->get<PSC::Integer>();
 
+        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition();
+        PSC::int_t enumSize = definition.values.size();
+
         PSC::int_t left, right;
         if (enumSwap) {
-            left = integer.value;
+            left = integer.value % enumSize;
             right = enumVal.idx;
         } else {
             left = enumVal.idx;
-            right = integer.value;
+            right = integer.value % enumSize;
         }
 
         PSC::int_t res;
@@ -158,14 +161,12 @@ std::unique_ptr<NodeResult> ArithmeticOperationNode::evaluate(PSC::Context &ctx)
             res = left - right;
         }
 
-        const PSC::EnumTypeDefinition &definition = enumVal.getDefinition(ctx);
-        std::size_t enumSize = definition.values.size();
         res %= enumSize;
         if (res < 0) res += enumSize;
 
-        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition.name);
+        std::unique_ptr<PSC::Enum> resEnum = std::make_unique<PSC::Enum>(definition);
         resEnum->idx = res;
-        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType::ENUM);
+        return std::make_unique<NodeResult>(std::move(resEnum), PSC::DataType(PSC::DataType::ENUM, &definition.name));
     }
 
     if ((leftRes->type != PSC::DataType::INTEGER && leftRes->type != PSC::DataType::REAL)
diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 0fd0d29..18c7e58 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -41,7 +41,7 @@ std::unique_ptr<NodeResult> OutputNode::evaluate(PSC::Context &ctx) {
                 std::cout << str->value;
                 break;
             } case PSC::DataType::ENUM:
-                std::cout << result->get<PSC::Enum>().getString(ctx);
+                std::cout << result->get<PSC::Enum>().getString();
                 break;
             case PSC::DataType::POINTER:
                 std::cout << result->get<PSC::Pointer>().definitionName << " object";
diff --git a/src/nodes/variable/enum.cpp b/src/nodes/variable/enum.cpp
index 6b26955..dde0e64 100644
--- a/src/nodes/variable/enum.cpp
+++ b/src/nodes/variable/enum.cpp
@@ -11,7 +11,8 @@ std::unique_ptr<NodeResult> EnumDefineNode::evaluate(PSC::Context &ctx) {
     if (ctx.isIdentifierType(name, false))
         throw PSC::RedefinitionError(token, ctx, name.value);
 
-    PSC::EnumTypeDefinition definition(name.value, std::move(values));
+    // The statement can be executed again, by another call
+    PSC::EnumTypeDefinition definition(name.value, std::vector<std::string>(values));
     ctx.createEnumDefinition(std::move(definition));
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/nodes/variable/pointer.cpp b/src/nodes/variable/pointer.cpp
index 10a1694..d198241 100644
--- a/src/nodes/variable/pointer.cpp
+++ b/src/nodes/variable/pointer.cpp
@@ -45,7 +45,7 @@ std::unique_ptr<NodeResult> PointerAssignNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Cannot assign pointer to variable not of type pointer");
 
     auto &pointer = pointerVar.get<PSC::Pointer>();
-    auto &pointerType = pointer.getDefinition(ctx).type;
+    auto &pointerType = pointer.getDefinition().type;
     if (pointerType != value.type)
         throw PSC::RuntimeError(token, ctx, "Assignment Error: Incompatible data types");
     
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 137af60..da0cd8b 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -153,7 +153,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     } catch (PSC::NotDefinedError &e) {
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
-            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->definitionName));
+            return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->getDefinition().name));
         throw e;
     }
 
diff --git a/src/psc/scope/block.cpp b/src/psc/scope/block.cpp
index e871153..c29ac11 100644
--- a/src/psc/scope/block.cpp
+++ b/src/psc/scope/block.cpp
@@ -44,7 +44,7 @@ void Block::runNodeREPL(Node *node, PSC::Context &ctx) {
             break;
         } case PSC::DataType::ENUM: {
             auto &resEnum = result->get<PSC::Enum>();
-            std::cout << resEnum.definitionName << ": " << resEnum.getString(ctx);
+            std::cout << resEnum.definitionName << ": " << resEnum.getString();
             break;
         } case PSC::DataType::POINTER: {
             auto &resPtr = result->get<PSC::Pointer>();
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index f66be74..4599a26 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -209,18 +209,19 @@ PSC::DataType Context::getType(const Token &token, bool global) {
         else if (token.value == "DATE") return PSC::DataType(PSC::DataType::DATE);
         else std::abort();
     } else if (token.type == TokenType::IDENTIFIER) {
-        auto *enumDefinition = getEnumDefinition(token.value, global);
+        auto *enumDefinition = getEnumDefinition(token.value, false);
         if (enumDefinition != nullptr)
             return PSC::DataType(PSC::DataType::ENUM, &enumDefinition->name);
         
-        auto *pointerDefinition = getPointerDefinition(token.value, global);
+        auto *pointerDefinition = getPointerDefinition(token.value, false);
         if (pointerDefinition != nullptr)
             return PSC::DataType(PSC::DataType::POINTER, &pointerDefinition->name);
         
-        auto *compositeDefinition = getCompositeDefinition(token.value, global);
+        auto *compositeDefinition = getCompositeDefinition(token.value, false);
         if (compositeDefinition != nullptr)
             return PSC::DataType(PSC::DataType::COMPOSITE, &compositeDefinition->name);
         
+        if (global && parent != nullptr) return getGlobalContext()->getType(token);
         return PSC::DataType(PSC::DataType::NONE);
     }
     std::abort();
@@ -242,7 +243,7 @@ Enum *Context::getEnumElement(const std::string &value, bool global) {
     for (auto &definition : enums) {
         for (size_t i = 0; i < definition->values.size(); i++) {
             if (definition->values[i] == value) {
-                auto ptr = new Enum(definition->name);
+                auto ptr = new Enum(*definition);
                 ptr->idx = i;
                 return ptr;
             }
diff --git a/src/psc/types/datatypes.h b/src/psc/types/datatypes.h
index 97787ee..bcd4e8f 100644
--- a/src/psc/types/datatypes.h
+++ b/src/psc/types/datatypes.h
@@ -8,7 +8,7 @@ namespace PSC {
         };
 
         using enum Type;
-        const std::string *name;
+        const std::string *name; // of the definition, which it identifies
         Type type;
 
         DataType();
diff --git a/src/psc/types/types.cpp b/src/psc/types/types.cpp
index 0d831f0..aa85c80 100644
--- a/src/psc/types/types.cpp
+++ b/src/psc/types/types.cpp
@@ -4,7 +4,7 @@
 
 using namespace PSC;
 
-DataType::DataType() : type(PSC::DataType::NONE) {}
+DataType::DataType() : name(nullptr), type(PSC::DataType::NONE) {}
 
 DataType::DataType(Type type, const std::string *name)
     : name(name), type(type) {}
@@ -15,5 +15,5 @@ bool DataType::operator==(Type other) const {
 
 bool DataType::operator==(const DataType &other) const {
     if (name == nullptr || other.name == nullptr) return operator==(other.type);
-    return type == other.type && *name == *other.name;
+    return type == other.type && name == other.name;
 }
diff --git a/src/psc/types/types.h b/src/psc/types/types.h
index d4ed1c1..c9fafa7 100644
--- a/src/psc/types/types.h
+++ b/src/psc/types/types.h
@@ -273,19 +273,22 @@ namespace PSC {
     };
 
     class Enum : public Custom {
+    private:
+        const EnumTypeDefinition &definition;
+
     public:
         const std::string definitionName;
         std::size_t idx = 0;
 
-        Enum(const std::string &name);
+        Enum(const EnumTypeDefinition &definition);
 
         Enum(const Enum &other) = default;
 
         void operator=(const Enum &other);
 
-        const EnumTypeDefinition &getDefinition(Context &ctx) const;
+        const EnumTypeDefinition &getDefinition() const;
 
-        std::string getString(Context &ctx) const;
+        std::string getString() const;
 
         virtual void dump(std::ostream &out) const override;
 
@@ -296,11 +299,12 @@ namespace PSC {
     private:
         Variable *ptr = nullptr;
         unsigned long ctxId = 0;
+        const PointerTypeDefinition &definition;
 
     public:
         const std::string definitionName;
 
-        Pointer(const std::string &name);
+        Pointer(const PointerTypeDefinition &definition);
 
         Pointer(const Pointer &other);
 
@@ -313,7 +317,7 @@ namespace PSC {
         // Identifies the context that owns the variable pointed to
         unsigned long getCtxId() const;
 
-        const PointerTypeDefinition &getDefinition(Context &ctx) const;
+        const PointerTypeDefinition &getDefinition() const;
     
         virtual void dump(std::ostream&) const override;
 
diff --git a/src/psc/types/userType.cpp b/src/psc/types/userType.cpp
index 860f53c..3f06b5c 100644
--- a/src/psc/types/userType.cpp
+++ b/src/psc/types/userType.cpp
@@ -6,19 +6,19 @@
 
 using namespace PSC;
 
-Enum::Enum(const std::string &name) : definitionName(name) {}
+Enum::Enum(const EnumTypeDefinition &definition)
+    : definition(definition), definitionName(definition.name) {}
 
 void Enum::operator=(const Enum &other) {
     if (definitionName != other.definitionName) std::abort();
     idx = other.idx;
 }
 
-const EnumTypeDefinition &Enum::getDefinition(Context &ctx) const {
-    return *ctx.getEnumDefinition(definitionName);
+const EnumTypeDefinition &Enum::getDefinition() const {
+    return definition;
 }
 
-std::string Enum::getString(Context &ctx) const {
-    const EnumTypeDefinition &definition = getDefinition(ctx);
+std::string Enum::getString() const {
     return definition.values[idx];
 }
 
@@ -26,28 +26,27 @@ void Enum::dump(std::ostream &out) const {
     out << "ENUM " << definitionName << " " << idx;
 }
 
-bool Enum::load(std::istream &in, Context &ctx) {
+bool Enum::load(std::istream &in, Context&) {
     std::string s;
     in >> s;
     if (s != "ENUM") return false;
 
     in >> s;
-    const EnumTypeDefinition *def = ctx.getEnumDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
 
     size_t idx1;
     in >> idx1;
-    if (in.fail() || idx1 >= def->values.size()) return false;
+    if (in.fail() || idx1 >= definition.values.size()) return false;
 
     idx = idx1;
     return true;
 }
 
-Pointer::Pointer(const std::string &name)
-    : definitionName(name) {}
+Pointer::Pointer(const PointerTypeDefinition &definition)
+    : definition(definition), definitionName(definition.name) {}
 
 Pointer::Pointer(const Pointer &other)
-    : ptr(other.ptr), ctxId(other.ctxId), definitionName(other.definitionName)
+    : ptr(other.ptr), ctxId(other.ctxId), definition(other.definition), definitionName(other.definitionName)
 {}
 
 void Pointer::setValue(Variable *value) {
@@ -73,8 +72,8 @@ unsigned long Pointer::getCtxId() const {
     return ctxId;
 }
 
-const PointerTypeDefinition &Pointer::getDefinition(Context &ctx) const {
-    return *ctx.getPointerDefinition(definitionName);
+const PointerTypeDefinition &Pointer::getDefinition() const {
+    return definition;
 }
 
 void Pointer::dump(std::ostream&) const {}
@@ -137,8 +136,7 @@ bool Composite::load(std::istream &in, Context &ctx) {
     if (s != "COMPOSITE") return false;
 
     in >> s;
-    const CompositeTypeDefinition *def = ctx.getCompositeDefinition(s);
-    if (def == nullptr || (def->name != definitionName)) return false;
+    if (s != definitionName) return false;
 
     for (const auto &var : this->ctx->getVariables()) {
         if (!var->load(in, ctx)) return false;
diff --git a/src/psc/variable.cpp b/src/psc/variable.cpp
index e690380..ff59882 100644
--- a/src/psc/variable.cpp
+++ b/src/psc/variable.cpp
@@ -1,6 +1,7 @@
 #include "pch.h"
 
 #include "psc/variable.h"
+#include "psc/scope/context.h"
 
 using namespace PSC;
 
@@ -37,10 +38,10 @@ Variable::Variable(const std::string &name, DataType type, bool isConstant, Cont
             data = new PSC::Date();
             break;
         case DataType::ENUM:
-            data = new PSC::Enum(*type.name);
+            data = new PSC::Enum(*ctx->getEnumDefinition(*type.name));
             break;
         case DataType::POINTER:
-            data = new PSC::Pointer(*type.name);
+            data = new PSC::Pointer(*ctx->getPointerDefinition(*type.name));
             break;
         case DataType::COMPOSITE:
             data = new PSC::Composite(*type.name, *ctx);
-- 
2.43.0


From 192b0be4a76e4bcd0c813368bbe8f5e2da68a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:14 +0000
Subject: [PATCH 23/43] fix: a record type that contains itself is diagnosed
 instead of recursing without end

---
 src/nodes/variable/array.cpp    | 2 ++
 src/nodes/variable/variable.cpp | 2 ++
 src/psc/scope/context.cpp       | 6 ++++++
 src/psc/scope/context.h         | 5 +++++
 4 files changed, 15 insertions(+)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 19770b9..44f471c 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -46,6 +46,8 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType.type == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (dataType.type == PSC::DataType::COMPOSITE && ctx.getCompositeDepth() >= PSC::Context::maxCompositeDepth)
+            throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' contains itself or is nested too deeply");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
         // Fields of records are declared in a context of their own
diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index da0cd8b..c31a1c1 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -20,6 +20,8 @@ std::unique_ptr<NodeResult> DeclareNode::evaluate(PSC::Context &ctx) {
         PSC::DataType dataType = ctx.getType(type);
         if (dataType == PSC::DataType::NONE)
             throw PSC::TypeNotDefinedError(token, ctx, type.value);
+        if (dataType.type == PSC::DataType::COMPOSITE && ctx.getCompositeDepth() >= PSC::Context::maxCompositeDepth)
+            throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' contains itself or is nested too deeply");
 
         // Fields of records are declared in a context of their own
         ctx.switchToken = &token;
diff --git a/src/psc/scope/context.cpp b/src/psc/scope/context.cpp
index 4599a26..c71d422 100644
--- a/src/psc/scope/context.cpp
+++ b/src/psc/scope/context.cpp
@@ -125,6 +125,12 @@ Context *Context::getGlobalContext() {
     return ctx;
 }
 
+size_t Context::getCompositeDepth() const {
+    size_t depth = 0;
+    for (const Context *ctx = this; ctx != nullptr && ctx->isCompositeCtx; ctx = ctx->parent) depth++;
+    return depth;
+}
+
 const std::string &Context::getName() const {
     return name;
 }
diff --git a/src/psc/scope/context.h b/src/psc/scope/context.h
index 456b9fa..3618892 100644
--- a/src/psc/scope/context.h
+++ b/src/psc/scope/context.h
@@ -63,6 +63,11 @@ namespace PSC {
 
         Context *getGlobalContext();
 
+        // Number of records this context is nested in
+        size_t getCompositeDepth() const;
+
+        static constexpr size_t maxCompositeDepth = 200;
+
         const std::string &getName() const;
 
         void addVariable(Variable *variable);
-- 
2.43.0


From ba1860834d661ab1f395138c2b8fface1fd165e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 24/43] fix: array sizes that cannot be represented are
 diagnosed

---
 src/nodes/variable/array.cpp | 13 +++++++++++++
 src/psc/array.cpp            | 18 ++++++++++++++++++
 src/psc/array.h              |  3 +++
 3 files changed, 34 insertions(+)

diff --git a/src/nodes/variable/array.cpp b/src/nodes/variable/array.cpp
index 44f471c..a715a77 100644
--- a/src/nodes/variable/array.cpp
+++ b/src/nodes/variable/array.cpp
@@ -40,6 +40,16 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
         dimensions.emplace_back((PSC::int_t) (i / 2), lower, upper);
     }
 
+    // Elements are addressed by a single non-negative number
+    PSC::int_t size = 1;
+    for (const auto &dim : dimensions) {
+        PSC::int_t dimSize;
+        if (__builtin_sub_overflow(dim.upperBound, dim.lowerBound, &dimSize)
+            || __builtin_add_overflow(dimSize, 1, &dimSize)
+            || __builtin_mul_overflow(size, dimSize, &size)
+        ) throw PSC::RuntimeError(token, ctx, "Array is too large");
+    }
+
     PSE_BUDGET_CELLS(token, ctx, dimensions, identifiers.size());
 
     for (auto identifier : identifiers) {
@@ -50,6 +60,9 @@ std::unique_ptr<NodeResult> ArrayDeclareNode::evaluate(PSC::Context &ctx) {
             throw PSC::RuntimeError(token, ctx, "Type '" + type.value + "' contains itself or is nested too deeply");
 
         auto array = std::make_unique<PSC::Array>(identifier->value, dataType, dimensions);
+        if (!array->reserve())
+            throw PSC::RuntimeError(token, ctx, "Array is too large");
+
         // Fields of records are declared in a context of their own
         ctx.switchToken = &token;
         array->init(ctx);
diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 7cac272..2d08fcf 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -1,4 +1,6 @@
 #include "pch.h"
+#include <new>
+#include <stdexcept>
 
 #include "psc/types/types.h"
 #include "psc/array.h"
@@ -64,6 +66,22 @@ const std::vector<ArrayDimension> Array::copyDimensions(const std::vector<ArrayD
     return copy;
 }
 
+bool Array::reserve() {
+    size_t size = 1;
+    for (auto &dim : dimensions) {
+        size *= dim.getSize();
+    }
+
+    try {
+        data.reserve(size);
+    } catch (const std::bad_alloc&) {
+        return false;
+    } catch (const std::length_error&) {
+        return false;
+    }
+    return true;
+}
+
 void Array::init(Context &ctx) {
     unsigned long size = 1;
     for (auto &dim : dimensions) {
diff --git a/src/psc/array.h b/src/psc/array.h
index 7fd35b7..6f085bd 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -40,6 +40,9 @@ namespace PSC {
 
         constexpr bool isArray() const override {return true;}
 
+        // Allocates memory for the references to the elements, returns false if there is not enough
+        bool reserve();
+
         // Allocates memory for elements
         void init(Context &ctx);
 
-- 
2.43.0


From 005c23ac2ff3881cb76a5ed4471817bcdd3fee98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 25/43] fix: numerals followed by a NUL character and huge MID
 lengths

---
 src/psc/builtinFunctions/string.cpp | 2 +-
 src/psc/types/character.cpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psc/builtinFunctions/string.cpp b/src/psc/builtinFunctions/string.cpp
index 1e14823..f8548a8 100644
--- a/src/psc/builtinFunctions/string.cpp
+++ b/src/psc/builtinFunctions/string.cpp
@@ -92,7 +92,7 @@ void PSC::BuiltinFnMid::run(PSC::Context &ctx) {
     int_t yVal = y->get<PSC::Integer>().value;
     if (yVal < 0)
         throw PSC::RuntimeError(PSC::errToken, ctx, "Length for 'MID' function cannot be negative");
-    if (static_cast<size_t>(yVal + xVal) > strLen)
+    if (static_cast<size_t>(yVal) > strLen - static_cast<size_t>(xVal))
         throw PSC::RuntimeError(PSC::errToken, ctx, "Substring length in 'MID' function cannot exceed string length");
 
     ret->value = strVal.substr(xVal, yVal);
diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index e3f4c79..14f1545 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -78,7 +78,7 @@ std::unique_ptr<Integer> String::toInteger() const {
     char *end;
 
     int_t x = std::strtol(cStr, &end, 10);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || cStr[0] == '\0') {
         x = 0;
     }
 
@@ -90,7 +90,7 @@ std::unique_ptr<Real> String::toReal() const {
     char *end;
 
     real_t x = std::strtod(cStr, &end);
-    if (end[0] != '\0' || cStr[0] == '\0') {
+    if (end != cStr + value.size() || cStr[0] == '\0') {
         x = 0.0;
     }
 
-- 
2.43.0


From 4f6ddd517f675e20cb864e2c872ea0fc36b79bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:33 +0000
Subject: [PATCH 26/43] fix: input into a CHAR has to be exactly one character

---
 src/nodes/io/io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nodes/io/io.cpp b/src/nodes/io/io.cpp
index 18c7e58..8b4b1b5 100644
--- a/src/nodes/io/io.cpp
+++ b/src/nodes/io/io.cpp
@@ -99,6 +99,8 @@ std::unique_ptr<NodeResult> InputNode::evaluate(PSC::Context &ctx) {
             var->get<PSC::Boolean>() = (inputStr.value == "TRUE");
             break;
         case PSC::DataType::CHAR:
+            if (inputStr.value.size() != 1)
+                throw PSC::RuntimeError(token, ctx, "Expected a single character as input");
             var->get<PSC::Char>() = inputStr.value.front();
             break;
         case PSC::DataType::STRING:
-- 
2.43.0


From e54476a391abc1b83d3482584ed7efe6d0a51658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 27/43] fix: REPL commands and multi-line constructs are
 recognised by their whole first word

---
 src/launch/repl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index 6ebc747..eeb85c6 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -19,6 +19,15 @@ static const std::string multilineKeywords[] = {
     "TYPE"
 };
 
+// Whether the first word of the line is the given keyword
+static bool startsWithWord(const std::string &line, const std::string &word) {
+    size_t start = line.find_first_not_of(" \t");
+    if (start == std::string::npos || line.compare(start, word.size(), word) != 0) return false;
+
+    size_t end = start + word.size();
+    return end >= line.size() || !(isalnum((unsigned char) line[end]) || line[end] == '_');
+}
+
 bool startREPL() {
     std::cout << "PseudoEngine2 v" << PseudoEngine2_VERSION_MAJOR << '.' << PseudoEngine2_VERSION_MINOR << '.' << PseudoEngine2_VERSION_PATCH << " REPL\nEnter '?' for help, 'EXIT' to quit\n";
 
@@ -37,7 +46,7 @@ bool startREPL() {
             continue;
         } else if (code == "EXIT") {
             break;
-        } else if (code.starts_with("RUNFILE")) {
+        } else if (code.starts_with("RUNFILE") && startsWithWord(code, "RUNFILE")) {
             if (size < 9) {
                 std::cerr << "Expected filename" << std::endl;
                 continue;
@@ -59,8 +68,8 @@ bool startREPL() {
         }
 
         for (const std::string &keyword : multilineKeywords) {
-            if (code.starts_with(keyword)) {
-                if (keyword == "TYPE" && code.find("=") != std::string::npos) break;
+            if (startsWithWord(code, keyword)) {
+                if (keyword == "TYPE" && code.substr(0, code.find("//")).find("=") != std::string::npos) break;
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-- 
2.43.0


From 43281c659233bca2bf53269283d104e3d8273888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 28/43] fix: random file records are read back exactly or not
 at all

---
 src/nodes/io/file.cpp       |  8 ++++++--
 src/psc/file.cpp            |  7 +++++--
 src/psc/types/character.cpp | 24 +++++++++++++-----------
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index f83b3d4..0ed6ab3 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -188,11 +188,15 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
         throw PSC::ConstAssignError(token, ctx, identifier.value);
 
     if (variable != nullptr) {
-        if (!file->getRecord(*variable, ctx))
+        PSC::Variable record(*variable, variable->parent);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        variable->assign(record.get<PSC::Value>());
     } else {
-        if (!file->getRecord(*array, ctx))
+        PSC::Array record(*array, &ctx);
+        if (!file->getRecord(record, ctx))
             throw PSC::RuntimeError(token, ctx, "Failed to read data from random file");
+        array->copyData(record);
     }
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index f794751..e0095ea 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -27,7 +27,7 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             if (ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
-                    if (line.starts_with('#') && records.size() > 1) {
+                    if (line.starts_with('#') && records.size() > 0) {
                         records[records.size()-1] += '\n';
                         records[records.size()-1] += line;
                         continue;
@@ -100,7 +100,10 @@ bool File::getRecord(DataHolder &data, Context &ctx) {
     if (ptr == records.size()) return false;
     const std::string &line = records[ptr];
     std::istringstream ss(line);
-    return data.load(ss, ctx);
+    if (!data.load(ss, ctx)) return false;
+
+    // Anything left belongs to a value of a different type
+    return (ss >> std::ws).eof();
 }
 
 void File::putRecord(DataHolder &data) {
diff --git a/src/psc/types/character.cpp b/src/psc/types/character.cpp
index 14f1545..f7bf473 100644
--- a/src/psc/types/character.cpp
+++ b/src/psc/types/character.cpp
@@ -52,8 +52,10 @@ bool Char::load(std::istream &in, Context&) {
 
     in.ignore(1); // whitespace
     value = in.get();
+    if (in.fail()) return false;
+    if (value == '\n') in.ignore(1); // '#' that follows a line break
 
-    return !in.fail();
+    return true;
 }
 
 
@@ -124,20 +126,20 @@ bool String::load(std::istream &in, Context&) {
     in >> s;
     if (s != "STRING") return false;
 
-    in >> s;
-    if (in.fail()) return false;
-    size_t length = std::stoul(s, nullptr);
+    int_t length;
+    in >> length;
+    if (in.fail() || length < 0) return false;
 
-    char *buf = new char[length];
     in.ignore(1); // whitespace
-    in.read(buf, length);
     value.clear();
-    value.reserve(length);
-    for (size_t i = 0; i < length; i++) {
-        if (i > 0 && buf[i] == '#' && buf[i-1] == '\n') continue;
-        value += buf[i];
+    char previous = 0;
+    for (int_t i = 0; i < length; i++) {
+        char c = in.get();
+        if (in.fail()) return false;
+
+        if (c != '#' || previous != '\n') value += c;
+        previous = c;
     }
-    delete[] buf;
 
     return true;
 }
-- 
2.43.0


From 681d89e8a719eb0d30cd3164ee71b2cc40f0a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 29/43] fix: READFILE checks the mode of the file and changes
 nothing when it fails

---
 src/nodes/io/file.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index 0ed6ab3..d987f2c 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -35,13 +35,9 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
 
     PSC::Variable *var = ctx.getVariable(identifier.value);
-    if (var == nullptr) {
-        var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
-        ctx.addVariable(var);
-    }
-    if (var->type != PSC::DataType::STRING)
+    if (var != nullptr && var->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Variable of type STRING expected");
-    if (var->isConstant)
+    if (var != nullptr && var->isConstant)
         throw PSC::ConstAssignError(token, ctx, identifier.value);
 
     auto &filename = filenameRes->get<PSC::String>();
@@ -50,10 +46,14 @@ std::unique_ptr<NodeResult> ReadFileNode::evaluate(PSC::Context &ctx) {
         throw PSC::FileNotOpenError(token, ctx, filename.value);
     if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'READFILE' on random file. Use 'GETRECORD' instead.");
-    
-    PSC::String *data = new PSC::String;
-    *data = file->read();
-    var->set(data);
+    if (file->getMode() != PSC::FileMode::READ)
+        throw PSC::RuntimeError(token, ctx, "File '" + filename.value + "' is not opened for reading");
+
+    if (var == nullptr) {
+        var = new PSC::Variable(identifier.value, PSC::DataType::STRING, false, &ctx);
+        ctx.addVariable(var);
+    }
+    var->get<PSC::String>() = file->read();
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
-- 
2.43.0


From 4d13ccf5ec89d78700dcb3c6e7d1d8319e63d5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 30/43] fix: GETRECORD and PUTRECORD use a local array before a
 global variable

---
 src/nodes/io/file.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index d987f2c..b93cb76 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -161,6 +161,15 @@ std::unique_ptr<NodeResult> SeekFileNode::evaluate(PSC::Context &ctx) {
 }
 
 
+// Finds the variable or array with the given name; a local one comes before a global one
+static void findRecord(PSC::Context &ctx, const std::string &name, PSC::Variable *&variable, PSC::Array *&array) {
+    for (bool global : {false, true}) {
+        variable = ctx.getVariable(name, global);
+        array = ctx.getArray(name, global);
+        if (variable != nullptr || array != nullptr) return;
+    }
+}
+
 GetRecordNode::GetRecordNode(const Token &token, Node &filename, const Token &identifier)
     : Node(token), filename(filename), identifier(identifier) {}
 
@@ -176,8 +185,9 @@ std::unique_ptr<NodeResult> GetRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'GETRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
+    PSC::Variable *variable;
+    PSC::Array *array;
+    findRecord(ctx, identifier.value, variable, array);
     if (variable == nullptr && array == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
@@ -218,8 +228,9 @@ std::unique_ptr<NodeResult> PutRecordNode::evaluate(PSC::Context &ctx) {
     if (file->getMode() != PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "'PUTRECORD' can only be used for random files");
 
-    PSC::Variable *variable = ctx.getVariable(identifier.value);
-    PSC::Array *array = ctx.getArray(identifier.value);
+    PSC::Variable *variable;
+    PSC::Array *array;
+    findRecord(ctx, identifier.value, variable, array);
     if (variable == nullptr && array == nullptr)
         throw PSC::NotDefinedError(identifier, ctx, identifier.value);
     if ((variable != nullptr && variable->type == PSC::DataType::POINTER)
-- 
2.43.0


From 4fda661ff3263f8ebc4002bbfadcb408d1f416cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:19 +0000
Subject: [PATCH 31/43] fix: EOF is TRUE as soon as no line is left, also for
 an empty file

---
 src/psc/file.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index e0095ea..d2ce3a8 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -53,7 +53,8 @@ FileMode File::getMode() {
 
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
-    return ifile->eof();
+    // True as soon as nothing is left to read, not only after reading past the end
+    return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
 void File::close() {
-- 
2.43.0


From d6ce91d0729b30171ac133e9ade1ada59c91081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 32/43] fix: appended lines do not continue an unterminated
 last line

---
 src/psc/file.cpp | 10 ++++++++++
 src/psc/file.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index d2ce3a8..9d818dc 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -17,6 +17,14 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
             ofile->open(name.value);
             break;
         case FileMode::APPEND:
+            ifile = std::make_unique<std::ifstream>();
+            ifile->open(name.value, std::ios::ate);
+            if (ifile->tellg() > 0) {
+                ifile->seekg(-1, std::ios::end);
+                lineMissing = ifile->get() != '\n';
+            }
+            ifile->close();
+
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
             break;
@@ -87,6 +95,8 @@ String File::read() {
 }
 
 void File::write(const String &data) {
+    if (lineMissing) *ofile << "\n";
+    lineMissing = false;
     *ofile << data.value << "\n";
 }
 
diff --git a/src/psc/file.h b/src/psc/file.h
index 517bd89..b2698de 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -20,6 +20,7 @@ namespace PSC {
         std::vector<std::string> records;
         size_t ptr = 0;
         bool open = true;
+        bool lineMissing = false; // the existing content does not end with a line break
         bool modified = false;
 
     public:
-- 
2.43.0


From 6ddc2e5724e9d175ac1fab03a5e3ceee95393b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 33/43] fix: files that cannot be opened or written are
 reported

---
 src/launch/repl.cpp    |  4 ++--
 src/launch/runFile.cpp | 12 ++++++++--
 src/nodes/io/file.cpp  |  6 +++--
 src/psc/file.cpp       | 52 +++++++++++++++++++++++++++++++++++-------
 src/psc/file.h         | 13 ++++++++---
 5 files changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/launch/repl.cpp b/src/launch/repl.cpp
index eeb85c6..ff79a2f 100644
--- a/src/launch/repl.cpp
+++ b/src/launch/repl.cpp
@@ -73,7 +73,7 @@ bool startREPL() {
                 std::string line = " ";
                 while (line.size() > 0) {
                     code += "\n";
-                    if (!getLine(line, ". ")) return true;
+                    if (!getLine(line, ". ")) return globalCtx->getFileManager().closeAll();
                     code += line;
                 }
                 break;
@@ -93,5 +93,5 @@ bool startREPL() {
             e.print();
         }
     }
-    return true;
+    return globalCtx->getFileManager().closeAll();
 }
diff --git a/src/launch/runFile.cpp b/src/launch/runFile.cpp
index ba56bd9..f4c7178 100644
--- a/src/launch/runFile.cpp
+++ b/src/launch/runFile.cpp
@@ -22,6 +22,7 @@ bool runFile() {
     }
     file.close();
 
+    bool success = true;
     Lexer lexer(&fData);
     try {
         const std::vector<Token*> &tokens = lexer.makeTokens();
@@ -30,11 +31,18 @@ bool runFile() {
         std::cout.precision(10);
 
         auto globalCtx = PSC::Context::createGlobalContext();
-        block->run(*globalCtx);
+        try {
+            block->run(*globalCtx);
+        } catch (const PSC::Error &e) {
+            std::cout << "\n";
+            e.print();
+            success = false;
+        }
+        if (!globalCtx->getFileManager().closeAll()) success = false;
     } catch (const PSC::Error &e) {
         std::cout << "\n";
         e.print();
         return false;
     }
-    return true;
+    return success;
 }
diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index b93cb76..d6933d0 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -106,7 +106,8 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
             throw PSC::TypeOperationError(token, ctx, "Write");
     }
 
-    file->write(*data);
+    if (!file->write(*data))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
@@ -125,7 +126,8 @@ std::unique_ptr<NodeResult> CloseFileNode::evaluate(PSC::Context &ctx) {
     if (file == nullptr)
         throw PSC::FileNotOpenError(token, ctx, filename.value);
 
-    ctx.getFileManager().closeFile(filename);
+    if (!ctx.getFileManager().closeFile(filename))
+        throw PSC::RuntimeError(token, ctx, "Failed to write to file '" + filename.value + "'");
 
     return std::make_unique<NodeResult>(nullptr, PSC::DataType::NONE);
 }
diff --git a/src/psc/file.cpp b/src/psc/file.cpp
index 9d818dc..c82d322 100644
--- a/src/psc/file.cpp
+++ b/src/psc/file.cpp
@@ -11,10 +11,12 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
         case FileMode::READ:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             break;
         case FileMode::WRITE:
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value);
+            open = ofile->is_open();
             break;
         case FileMode::APPEND:
             ifile = std::make_unique<std::ifstream>();
@@ -27,12 +29,14 @@ File::File(const String &name, FileMode mode) : mode(mode), name(name) {
 
             ofile = std::make_unique<std::ofstream>();
             ofile->open(name.value, std::ios::app);
+            open = ofile->is_open();
             break;
         case FileMode::RANDOM:
             ifile = std::make_unique<std::ifstream>();
             ifile->open(name.value);
+            open = ifile->is_open();
             std::string line;
-            if (ifile->peek() != std::ifstream::traits_type::eof()) {
+            if (open && ifile->peek() != std::ifstream::traits_type::eof()) {
                 while (!ifile->eof()) {
                     std::getline(*ifile, line);
                     if (line.starts_with('#') && records.size() > 0) {
@@ -59,20 +63,27 @@ FileMode File::getMode() {
     return mode;
 }
 
+bool File::isOpen() const {
+    return open;
+}
+
 bool File::eof() {
     if (mode != FileMode::READ) std::abort();
     // True as soon as nothing is left to read, not only after reading past the end
     return ifile->peek() == std::ifstream::traits_type::eof();
 }
 
-void File::close() {
+bool File::close() {
+    bool success = true;
     switch (mode) {
         case FileMode::READ:
             ifile->close();
             break;
         case FileMode::WRITE:
         case FileMode::APPEND:
+            success = ofile->fail(); // already reported by write()
             ofile->close();
+            success = success || !ofile->fail();
             break;
         case FileMode::RANDOM:
             if (modified) {
@@ -82,10 +93,12 @@ void File::close() {
                     *ofile << line << "\n";
                 }
                 ofile->close();
+                if (ofile->fail()) return false;
             }
             break;
     }
     open = false;
+    return success;
 }
 
 String File::read() {
@@ -94,10 +107,12 @@ String File::read() {
     return line;
 }
 
-void File::write(const String &data) {
+bool File::write(const String &data) {
     if (lineMissing) *ofile << "\n";
     lineMissing = false;
     *ofile << data.value << "\n";
+    ofile->flush();
+    return !ofile->fail();
 }
 
 bool File::seek(const Integer &address) {
@@ -130,7 +145,13 @@ void File::putRecord(DataHolder &data) {
 
 bool FileManager::createFile(const String &name, FileMode mode) {
     namespace fs = std::filesystem;
-    if (!fs::exists(fs::path(name.value))) {
+    if (name.value.find('\0') != std::string::npos) return false;
+
+    std::error_code ec;
+    fs::file_status status = fs::status(fs::path(name.value), ec);
+    if (status.type() == fs::file_type::directory) return false;
+
+    if (!fs::exists(status)) {
         if (mode == FileMode::RANDOM) {
             std::ofstream f(name.value, std::ios::out);
             f.close();
@@ -139,7 +160,10 @@ bool FileManager::createFile(const String &name, FileMode mode) {
             return false;
         }
     }
-    files.emplace_back(std::make_unique<File>(name, mode));
+    auto file = std::make_unique<File>(name, mode);
+    if (!file->isOpen()) return false;
+
+    files.push_back(std::move(file));
     return true;
 }
 
@@ -150,13 +174,25 @@ File *FileManager::getFile(const String &name) {
     return nullptr;
 }
 
-void FileManager::closeFile(const String &name) {
+bool FileManager::closeFile(const String &name) {
     for (std::size_t i = 0; i < files.size(); i++) {
         auto &file = files[i];
         if (file->name.value == name.value) {
-            file->close();
+            if (!file->close()) return false;
             files.erase(files.begin() + i);
-            return;
+            return true;
         }
     }
+    return false;
+}
+
+bool FileManager::closeAll() {
+    bool success = true;
+    for (auto &file : files) {
+        if (file->close()) continue;
+        std::cerr << "Runtime Error:\nFailed to write to file '" << file->name.value << "'" << std::endl;
+        success = false;
+    }
+    files.clear();
+    return success;
 }
diff --git a/src/psc/file.h b/src/psc/file.h
index b2698de..0e0b382 100644
--- a/src/psc/file.h
+++ b/src/psc/file.h
@@ -32,13 +32,17 @@ namespace PSC {
 
         FileMode getMode();
 
+        // False if the file could not be opened
+        bool isOpen() const;
+
         bool eof();
 
-        void close();
+        // False if data could not be written. Records that were not written are kept, with the file open
+        bool close();
 
         String read();
 
-        void write(const String &data);
+        bool write(const String &data);
 
         bool seek(const Integer &address);
 
@@ -56,6 +60,9 @@ namespace PSC {
 
         File *getFile(const String &name);
 
-        void closeFile(const String &name);
+        bool closeFile(const String &name);
+
+        // Reports and returns false if data could not be written
+        bool closeAll();
     };
 }
-- 
2.43.0


From 8d5ae0888f269b794ae76024f9f3fc31fe707f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 34/43] fix: a '.' has to be followed by the name of a member

---
 src/parser/variableExprParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/variableExprParser.cpp b/src/parser/variableExprParser.cpp
index f2b330d..8b8bce7 100644
--- a/src/parser/variableExprParser.cpp
+++ b/src/parser/variableExprParser.cpp
@@ -84,6 +84,8 @@ std::unique_ptr<AbstractVariableResolver> Parser::parseIdentifierExpression() {
                 const Token &token = *currentToken;
                 advance();
 
+                if (currentToken->type != TokenType::IDENTIFIER)
+                    throw PSC::ExpectedTokenError(*currentToken, "identifier");
                 resolver = std::make_unique<CompositeResolver>(token, std::move(resolver), *currentToken);
                 advance();
                 break;
-- 
2.43.0


From 8f894d1e407262f7c99586873a22d536accdcab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:30 +0000
Subject: [PATCH 35/43] fix: a literal that contains line breaks is positioned
 where it begins

---
 src/lexer/symbolLexer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lexer/symbolLexer.cpp b/src/lexer/symbolLexer.cpp
index a89686f..5acffb0 100644
--- a/src/lexer/symbolLexer.cpp
+++ b/src/lexer/symbolLexer.cpp
@@ -215,6 +215,7 @@ void Lexer::makeChar() {
     if (idx + 2 >= expr->size()) 
         throw PSC::LexerError(line, column, "Char must contain at least one character");
 
+    int startLine = line;
     int startColumn = column;
     advance();
     char c;
@@ -236,10 +237,11 @@ void Lexer::makeChar() {
 
     std::string str;
     str += c;
-    tokens.emplace_back(new Token(TokenType::CHAR, line, startColumn, str));
+    tokens.emplace_back(new Token(TokenType::CHAR, startLine, startColumn, str));
 }
 
 void Lexer::makeString() {
+    int startLine = line;
     int startColumn = column;
     advance();
 
@@ -260,5 +262,5 @@ void Lexer::makeString() {
         throw PSC::ExpectedQuotesError(line, column, true);
     advance();
 
-    tokens.emplace_back(new Token(TokenType::STRING, line, startColumn, str));
+    tokens.emplace_back(new Token(TokenType::STRING, startLine, startColumn, str));
 }
-- 
2.43.0


From aa5e6b319979a7296df6d2d9b377bb02d525d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 36/43] Verification budget: call depth up to 1000

---
 src/psc/budget.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psc/budget.h b/src/psc/budget.h
index 41e66a5..0c80e26 100644
--- a/src/psc/budget.h
+++ b/src/psc/budget.h
@@ -9,7 +9,7 @@
 namespace PSC {
     struct Budget {
         static constexpr unsigned long maxSteps = 200000;
-        static constexpr unsigned long maxDepth = 300;
+        static constexpr unsigned long maxDepth = 1000;
         static constexpr unsigned long maxCells = 100000;
         static constexpr size_t maxString = 1ul << 20;
 
-- 
2.43.0


From b143934e438ab8d35a1fcd80144fa245f18909ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 37/43] fix: assigning a record with other array bounds does
 not free the elements pointers refer to

---
 src/psc/array.cpp | 16 ++++++++++++----
 src/psc/array.h   |  3 +++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/psc/array.cpp b/src/psc/array.cpp
index 2d08fcf..73de46c 100644
--- a/src/psc/array.cpp
+++ b/src/psc/array.cpp
@@ -42,13 +42,21 @@ Array::Array(const Array &other, Context *ctx)
 void Array::copyData(const Array &other) {
     // Array fields of two records of one type can differ if their bounds are not literals
     if (dimensions != other.dimensions) {
+        // Pointers and BYREF parameters may refer to the elements, so none of them is destroyed
         Context *ctx = data[0]->parent;
-        data.clear();
-        for (const auto &element : other.data) {
-            data.emplace_back(std::make_unique<Variable>(*element, ctx));
+        while (data.size() > other.data.size()) {
+            removed.emplace_back(std::move(data.back()));
+            data.pop_back();
+        }
+        while (data.size() < other.data.size()) {
+            if (removed.empty()) {
+                data.emplace_back(std::make_unique<Variable>(*other.data[data.size()], ctx));
+            } else {
+                data.emplace_back(std::move(removed.back()));
+                removed.pop_back();
+            }
         }
         dimensions = other.dimensions;
-        return;
     }
 
     for (size_t i = 0; i < data.size(); i++) {
diff --git a/src/psc/array.h b/src/psc/array.h
index 6f085bd..950f8ef 100644
--- a/src/psc/array.h
+++ b/src/psc/array.h
@@ -26,6 +26,9 @@ namespace PSC {
     private:
         std::vector<std::unique_ptr<Variable>> data;
 
+        // Elements that are no longer part of the array
+        std::vector<std::unique_ptr<Variable>> removed;
+
         static const std::vector<ArrayDimension> copyDimensions(const std::vector<ArrayDimension> &source);
 
     public:
-- 
2.43.0


From cd21cdb25e765489461b6c43d510180e93f3e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 38/43] fix: the source of a whole array assignment is
 evaluated only once

---
 src/nodes/variable/variable.cpp | 10 +++++-----
 src/psc/error.cpp               |  4 ++--
 src/psc/error.h                 |  7 ++++++-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index c31a1c1..2ede1b1 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -54,10 +54,10 @@ AssignNode::AssignNode(const Token &token, Node &node, std::unique_ptr<AbstractV
 {}
 
 void AssignNode::assignArray(PSC::Context &ctx, const PSC::ArrayDirectAccessError &e) {
-    AccessNode *accsNode = dynamic_cast<AccessNode*>(&node);
-    if (accsNode == nullptr) throw e;
-    auto array = static_cast<PSC::Array*>(&accsNode->resolver->resolve(ctx));
-    
+    // The array has to be the whole value and not, say, an index in it
+    PSC::Array *array = e.array;
+    if (array == nullptr || &e.token != &node.getToken()) throw e;
+
     PSC::DataHolder &holder = resolver->resolve(ctx);
     if (!holder.isArray()) throw e;
     
@@ -160,7 +160,7 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     }
 
     if (holder->isArray())
-        throw PSC::ArrayDirectAccessError(token, ctx);
+        throw PSC::ArrayDirectAccessError(token, ctx, static_cast<PSC::Array*>(holder));
     
     PSC::Variable &var = *static_cast<PSC::Variable*>(holder);
 
diff --git a/src/psc/error.cpp b/src/psc/error.cpp
index 8806b40..fadd6fa 100644
--- a/src/psc/error.cpp
+++ b/src/psc/error.cpp
@@ -134,8 +134,8 @@ TypeNotDefinedError::TypeNotDefinedError(const Token &token, const Context &cont
     : NotDefinedError(token, context, "Type '" + type + "'", getTypeHint(type))
 {}
 
-ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context &context)
-    : RuntimeError(token, context, "Attempting to access array without indices")
+ArrayDirectAccessError::ArrayDirectAccessError(const Token &token, const Context &context, Array *array)
+    : RuntimeError(token, context, "Attempting to access array without indices"), array(array)
 {}
 
 inline std::string conditionTypeErrorMessage(TokenType type) {
diff --git a/src/psc/error.h b/src/psc/error.h
index 115c821..1ae1775 100644
--- a/src/psc/error.h
+++ b/src/psc/error.h
@@ -107,7 +107,12 @@ namespace PSC {
 
     class ArrayDirectAccessError : public RuntimeError {
     public:
-        ArrayDirectAccessError(const Token &token, const Context &context);
+        using Error::token;
+
+        // The accessed array, for assigning it as a whole
+        Array *const array;
+
+        ArrayDirectAccessError(const Token &token, const Context &context, Array *array = nullptr);
     };
 
     class ConditionTypeError : public RuntimeError {
-- 
2.43.0


From 872ed3ed11796126a1f325f60a34ec0a645a36ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 39/43] fix: only a plain name denotes an enumerated value

---
 src/nodes/variable/variable.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nodes/variable/variable.cpp b/src/nodes/variable/variable.cpp
index 2ede1b1..001f966 100644
--- a/src/nodes/variable/variable.cpp
+++ b/src/nodes/variable/variable.cpp
@@ -153,6 +153,9 @@ std::unique_ptr<NodeResult> AccessNode::evaluate(PSC::Context &ctx) {
     try {
         holder = &resolver->resolve(ctx);
     } catch (PSC::NotDefinedError &e) {
+        // Only the name itself denotes an element of an enum
+        if (dynamic_cast<const SimpleVariableSource*>(resolver.get()) == nullptr) throw e;
+
         auto def = ctx.getEnumElement(token.value);
         if (def != nullptr)
             return std::make_unique<NodeResult>(def, PSC::DataType(PSC::DataType::ENUM, &def->getDefinition().name));
-- 
2.43.0


From a2a2e771efe5278c7c33dcf596a6d5f6061a6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 40/43] fix: WRITEFILE looks the file up after evaluating the
 line

---
 src/nodes/io/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nodes/io/file.cpp b/src/nodes/io/file.cpp
index d6933d0..6981c5e 100644
--- a/src/nodes/io/file.cpp
+++ b/src/nodes/io/file.cpp
@@ -67,6 +67,9 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     if (filenameRes->type != PSC::DataType::STRING)
         throw PSC::RuntimeError(token, ctx, "Expected string for file name");
     
+    // Before the file is looked up, because it may call a function that closes the file
+    auto nodeRes = data.evaluate(ctx);
+
     auto &filename = filenameRes->get<PSC::String>();
     PSC::File *file = ctx.getFileManager().getFile(filename);
     if (file == nullptr)
@@ -76,7 +79,6 @@ std::unique_ptr<NodeResult> WriteFileNode::evaluate(PSC::Context &ctx) {
     else if (file->getMode() == PSC::FileMode::RANDOM)
         throw PSC::RuntimeError(token, ctx, "Attempting to use 'WRITEFILE' on random file. Use 'PUTRECORD' instead.");
 
-    auto nodeRes = data.evaluate(ctx);
     std::unique_ptr<PSC::String> data;
     switch (nodeRes->type.type) {
         case PSC::DataType::INTEGER:
-- 
2.43.0


From e29687404864a5eb628bef46d95e854732628653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 41/43] fix: array bounds that change while the indices are
 evaluated are respected

---
 src/nodes/variable/resolver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nodes/variable/resolver.cpp b/src/nodes/variable/resolver.cpp
index 3afd32c..ccd647e 100644
--- a/src/nodes/variable/resolver.cpp
+++ b/src/nodes/variable/resolver.cpp
@@ -143,6 +143,12 @@ PSC::DataHolder &ArrayElementResolver::resolve(PSC::Context &ctx) {
         evaluatedIndices.push_back(x);
     }
 
+    // Evaluating a later index may have given the array, a field of a record, other bounds
+    for (size_t i = 0; i < indices.size(); i++) {
+        if (!arr->dimensions[i].isValidIndex(evaluatedIndices[i]))
+            throw PSC::RuntimeError(indices[i]->getToken(), ctx, "Index out of bounds");
+    }
+
     PSC::Variable &var = arr->getElement(evaluatedIndices);
     return var;
 }
-- 
2.43.0


From b31b722da7810f8b09ba080e4a1f9a7bd1dc6933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 42/43] verif budget: bound on array cells from the environment

---
 src/psc/budget.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psc/budget.h b/src/psc/budget.h
index 0c80e26..6ab155e 100644
--- a/src/psc/budget.h
+++ b/src/psc/budget.h
@@ -4,13 +4,13 @@
 // non-termination and resource exhaustion can be observed without timeouts.
 #ifdef PSE_VERIF_BUDGET
 #include <cstddef>
+#include <cstdlib>
 #include "psc/error.h"
 
 namespace PSC {
     struct Budget {
         static constexpr unsigned long maxSteps = 200000;
         static constexpr unsigned long maxDepth = 1000;
-        static constexpr unsigned long maxCells = 100000;
         static constexpr size_t maxString = 1ul << 20;
 
         static inline unsigned long steps = 0, depth = 0, cells = 0;
@@ -20,6 +20,8 @@ namespace PSC {
         }
 
         static void addCells(const Token &token, const Context &ctx, const std::vector<ArrayDimension> &dimensions, size_t arrays) {
+            // PSE_VERIF_CELLS in the environment sets another bound
+            static const unsigned long maxCells = std::getenv("PSE_VERIF_CELLS") ? std::strtoul(std::getenv("PSE_VERIF_CELLS"), nullptr, 10) : 100000;
             unsigned long n = arrays;
             for (const auto &dim : dimensions) {
                 unsigned long size = (unsigned long) dim.upperBound - (unsigned long) dim.lowerBound;
-- 
2.43.0


From 22d69903c9d3f56ec70b1d54ee19d59c352c2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:15 +0000
Subject: [PATCH 43/43] verif hook: the step budget can be set by
 PSE_VERIF_STEPS (only with PSE_VERIF_BUDGET)

---
 src/psc/budget.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psc/budget.h b/src/psc/budget.h
index 6ab155e..72fb67b 100644
--- a/src/psc/budget.h
+++ b/src/psc/budget.h
@@ -16,7 +16,9 @@ namespace PSC {
         static inline unsigned long steps = 0, depth = 0, cells = 0;
 
         static void step(const Token &token, const Context &ctx) {
-            if (++steps > maxSteps) throw RuntimeError(token, ctx, "Execution budget exceeded");
+            // PSE_VERIF_STEPS in the environment sets another bound
+            static const unsigned long limit = std::getenv("PSE_VERIF_STEPS") ? std::strtoul(std::getenv("PSE_VERIF_STEPS"), nullptr, 10) : maxSteps;
+            if (++steps > limit) throw RuntimeError(token, ctx, "Execution budget exceeded");
         }
 
         static void addCells(const Token &token, const Context &ctx, const std::vector<ArrayDimension> &dimensions, size_t arrays) {
-- 
2.43.0

