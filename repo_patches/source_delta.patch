From c1e36b0b0b5787d9aef95fddf1b982c0584a12b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 01/88] fix: parse division with the precedence of
 multiplication

`tok_op_div` fell through to the row of `++`, so `a / b / c` was parsed as
`a / (b / c)` and `a / b * c` as `(a / b) * c` only by accident.
---
 libnixf/src/Parse/ParseOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 58a19b0..cab54d1 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -57,8 +57,8 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   case tok_op_negate:
     return {14, 15};
   case tok_op_mul: // %left * /
-    return {16, 17};
   case tok_op_div:
+    return {16, 17};
   case tok_op_concat: // %right ++
     return {19, 18};
   // % op_negate
-- 
2.43.0


From 261081d69ae5ca6983788a1880709f87c89ac80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 02/88] fix: bind `!` tighter than `//`

`!a // b` is `(!a) // b` in Nix: NOT has a higher precedence than UPDATE.
---
 libnixf/src/Parse/ParseOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index cab54d1..ea1d0c5 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -70,7 +70,7 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
   case tok_op_not:
-    return 11;
+    return 13;
   case tok_op_negate:
     return 100;
   default:
-- 
2.43.0


From 07bdee8f3ab3c075767a9007c7f51bd74c19495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 03/88] fix: negate the operand before testing it for an
 attribute

`-a ? b` is `(-a) ? b` in Nix: NEGATE has a higher precedence than '?'.
---
 libnixf/src/Parse/ParseOp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index ea1d0c5..734611b 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -67,6 +67,9 @@ std::pair<unsigned, unsigned> getBP(TokenKind Kind) {
   }
 }
 
+/// %nonassoc '?', binds tighter than "++", but not than NEGATE.
+constexpr unsigned HasAttrBP = 20;
+
 unsigned getUnaryBP(TokenKind Kind) {
   switch (Kind) {
   case tok_op_not:
@@ -140,6 +143,8 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       }
     case tok_question: {
       // expr_op '?' attrpath
+      if (LeftRBP > HasAttrBP)
+        return Prefix;
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 4a751ddffccac262cabe498eac366c385e9117f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 04/88] fix: do not crash on paths with adjacent interpolations
 or `~/`

`./${a}${b}` and `./a~/b` failed the assertion "should be path_end or ${".
The fragment after an interpolation was taken without looking at its kind.
---
 libnixf/src/Parse/ParseStrings.cpp | 35 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1ee5ddf..539701f 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -33,21 +33,30 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
   LexerCursor End;
   /* with(PS_Path) */ {
     auto PathState = withState(PS_Path);
-    do {
-      Token Current = peek();
-      Fragments.emplace_back(std::string(Current.view()));
-      consume();
-      End = Current.rCur();
-      Token Next = peek();
-      if (Next.kind() == tok_path_end)
+    // The first token is always a fragment. It might be followed by any number
+    // of interpolations and fragments, anything else is not part of the path.
+    for (bool InPath = true; InPath;) {
+      switch (Token Current = peek(); Current.kind()) {
+      case tok_path_fragment:
+        // "~/" does not continue a path, it starts another one.
+        if (!Fragments.empty() && Current.view().starts_with('~')) {
+          InPath = false;
+          break;
+        }
+        Fragments.emplace_back(std::string(Current.view()));
+        consume();
+        End = Current.rCur();
         break;
-      if (Next.kind() == tok_dollar_curly) {
-        if (auto Expr = parseInterpolation())
-          Fragments.emplace_back(std::move(Expr));
-        continue;
+      case tok_dollar_curly:
+        if (auto Interp = parseInterpolation()) {
+          End = Interp->rCur();
+          Fragments.emplace_back(std::move(Interp));
+        }
+        break;
+      default:
+        InPath = false;
       }
-      assert(false && "should be path_end or ${");
-    } while (true);
+    }
   }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
-- 
2.43.0


From b2ac3f6ce5293454fd9cd45d0859a4acd5199e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 05/88] fix: do not read past the end of a string escape at end
 of file

`"\\` and `''''\\` at the end of the file consumed a character that is not
there.
---
 libnixf/src/Parse/Lexer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 3de974f..70524d6 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -397,7 +397,9 @@ Token Lexer::lexString() {
     // Consume two characters, for escaping
     // NOTE: we may not want to break out Unicode wchar here, but libexpr does
     // such ignoring
-    consume(2);
+    consume();
+    if (!eof())
+      consume();
     Tok = tok_string_escape;
     break;
   case '$':
@@ -440,7 +442,8 @@ Token Lexer::lexIndString() {
       Tok = tok_string_escape;
     } else if (consumePrefix("\\")) {
       // ''\ escapes any character
-      consume();
+      if (!eof())
+        consume();
       Tok = tok_string_escape;
     } else {
       Tok = tok_quote2;
-- 
2.43.0


From 7432fdff697bf4e96bac0a9743bfdb9929de4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 06/88] fix: lex `$$` in strings as a pair

`"$$$${a}"` has an interpolation: the first two `$` are literal.
---
 libnixf/src/Parse/Lexer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 70524d6..bb40458 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -418,9 +418,10 @@ Token Lexer::lexString() {
         break;
       if (peekUnwrap() == '"')
         break;
-      // double-$, or \$, escapes ${.
+      // double-$, or \$, escapes ${.  "$$" is taken as a pair, so "$$$${" has no
+      // interpolation, while "$$${" has one.
       // We will handle escaping on Sema
-      if (consumePrefix("$${"))
+      if (consumePrefix("$$"))
         continue;
       // Encountered a string interpolation, stop here
       if (peekPrefix("${"))
@@ -462,7 +463,7 @@ Token Lexer::lexIndString() {
       break;
     // double-$, or \$, escapes ${.
     // We will handle escaping on Sema
-    if (consumePrefix("$${"))
+    if (consumePrefix("$$"))
       continue;
     // Encountered a string interpolation, stop here
     if (peekPrefix("${"))
-- 
2.43.0


From 45d80eb18ee82cb4cba2caab26d4770d6b5bb722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 07/88] fix: decode the escapes of indented strings

`'''`, `''$` and `''\\n` were all decoded as a single quote.
---
 libnixf/src/Parse/ParseStrings.cpp | 42 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 539701f..1969b77 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -85,22 +85,32 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
       // The token view contains the full escape sequence (e.g., "\\n", "\\\"")
       std::string_view EscapeSeq = Tok.view();
       std::string Unescaped;
-      if (EscapeSeq.size() >= 2) {
-        char Escaped = EscapeSeq[1];
-        switch (Escaped) {
-        case 'n':
-          Unescaped = "\n";
-          break;
-        case 'r':
-          Unescaped = "\r";
-          break;
-        case 't':
-          Unescaped = "\t";
-          break;
-        default:
-          // For \\, \", \$, and any other escape, just use the character itself
-          Unescaped = Escaped;
-          break;
+      // Indented strings escape with "''" instead of "\\".
+      if (EscapeSeq == "'''") {
+        Unescaped = "''";
+      } else if (EscapeSeq == "''$") {
+        Unescaped = "$";
+      } else {
+        if (EscapeSeq.starts_with("''"))
+          EscapeSeq.remove_prefix(2);
+        if (EscapeSeq.size() >= 2) {
+          char Escaped = EscapeSeq[1];
+          switch (Escaped) {
+          case 'n':
+            Unescaped = "\n";
+            break;
+          case 'r':
+            Unescaped = "\r";
+            break;
+          case 't':
+            Unescaped = "\t";
+            break;
+          default:
+            // For \\, \", \$, and any other escape, just use the character
+            // itself
+            Unescaped = Escaped;
+            break;
+          }
         }
       }
       if (!Unescaped.empty())
-- 
2.43.0


From 3cbd1441def5d8b8c424de25c554efa96653cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 08/88] fix: decode floats in double precision

---
 libnixf/src/Parse/ParseSimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index c5ceebf..a7fbf57 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -147,7 +147,7 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
   case tok_float: {
     consume();
     // libc++ doesn't support std::from_chars for floating point numbers.
-    NixFloat N = std::strtof(std::string(Tok.view()).c_str(), nullptr);
+    NixFloat N = std::strtod(std::string(Tok.view()).c_str(), nullptr);
     return std::make_shared<ExprFloat>(Tok.range(), N);
   }
   case tok_spath: {
-- 
2.43.0


From 606eae9ad947dcddf2576eb1f7b331602e479800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 09/88] fix: lex floats that start with the dot

---
 libnixf/src/Parse/Lexer.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index bb40458..e232aed 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -508,6 +508,16 @@ Token Lexer::lex() {
     return finishToken();
   }
 
+  // A float may omit the digits before the dot, e.g. ".5"
+  if (*Ch == '.' && Cur.offset() + 1 < Src.size() &&
+      std::isdigit(Src[Cur.offset() + 1])) {
+    Tok = tok_float;
+    consume();
+    consumeManyDigits();
+    lexFloatExp();
+    return finishToken();
+  }
+
   if (std::isalpha(*Ch) || *Ch == '_') {
 
     // So, this is not a path/URI, it should be an identifier.
-- 
2.43.0


From 05b8030d92f74a94efee1bc3e4ee417a71301c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 10/88] fix: do not crash on quoted or dynamic names in inherit

---
 libnixf/src/Sema/SemaActions.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 589012d..ea0c49f 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -337,9 +337,15 @@ std::pair<std::shared_ptr<Expr>, Attribute::AttributeKind>
 Sema::desugarInheritExpr(std::shared_ptr<AttrName> Name,
                          std::shared_ptr<Expr> E) {
   auto Range = Name->range();
-  if (!E)
-    return {std::make_shared<ExprVar>(Range, Name->id()),
+  if (!E) {
+    // The name might be quoted, e.g. inherit "foo";
+    auto ID = Name->kind() == AttrName::ANK_ID
+                  ? Name->id()
+                  : std::make_shared<Identifier>(
+                        Range, Name->isStatic() ? Name->staticName() : "");
+    return {std::make_shared<ExprVar>(Range, std::move(ID)),
             Attribute::AttributeKind::Inherit};
+  }
 
   auto Path = std::make_shared<AttrPath>(
       Range, std::vector<std::shared_ptr<AttrName>>{std::move(Name)},
-- 
2.43.0


From e6b2ac7d9dd450efe6f5a66abbf0b7336569f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 11/88] fix: keep the value of an assertion without condition

---
 libnixf/src/Parse/ParseExpr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 88062b1..74ed61e 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -225,7 +225,7 @@ std::shared_ptr<ExprAssert> Parser::parseExprAssert() {
     D.fix("remove `assert` keyword")
         .edit(TextEdit::mkRemoval(TokAssert.range()));
 
-    if (peek().kind() != tok_colon)
+    if (peek().kind() != tok_semi_colon)
       return std::make_shared<ExprAssert>(
           LexerCursorRange{LCur, LastToken->rCur()}, std::move(Cond),
           /*Value=*/nullptr);
-- 
2.43.0


From c1044232a79688b36a54a379ff0d938c80025ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 12/88] fix: remove the @, not the identifier, of an incomplete
 lambda argument

---
 libnixf/src/Parse/ParseLambda.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libnixf/src/Parse/ParseLambda.cpp b/libnixf/src/Parse/ParseLambda.cpp
index 59947ab..3b3fb09 100644
--- a/libnixf/src/Parse/ParseLambda.cpp
+++ b/libnixf/src/Parse/ParseLambda.cpp
@@ -88,7 +88,8 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
     assert(LastToken && "LastToken should be set after consume()");
     auto ID =
         std::make_shared<Identifier>(TokID.range(), std::string(TokID.view()));
-    if (peek().kind() != tok_at)
+    Token TokAt = peek();
+    if (TokAt.kind() != tok_at)
       return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                              std::move(ID), nullptr);
 
@@ -97,10 +98,10 @@ std::shared_ptr<LambdaArg> Parser::parseLambdaArg() {
     if (!Formals) {
       // extra "@", consider remove it.
       Diagnostic &D =
-          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokID.range());
-      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokID.range()));
+          Diags.emplace_back(Diagnostic::DK_LambdaArgExtraAt, TokAt.range());
+      D.fix("remove extra @").edit(TextEdit::mkRemoval(TokAt.range()));
       D.fix("insert dummy formals")
-          .edit(TextEdit::mkInsertion(TokID.rCur(), R"({})"));
+          .edit(TextEdit::mkInsertion(TokAt.rCur(), R"({})"));
     }
     return Act.onLambdaArg(LexerCursorRange{LCur, LastToken->rCur()},
                            std::move(ID), std::move(Formals));
-- 
2.43.0


From 0f3f283b809ecf560a0f97eeecca66d76f9eb4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 13/88] fix: report paths with a trailing slash

---
 libnixf/src/Parse/ParseStrings.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index 1969b77..e961e56 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -58,6 +58,18 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
       }
     }
   }
+  if (!Fragments.empty() &&
+      Fragments.back().kind() == InterpolablePart::SPK_Escaped &&
+      Fragments.back().escaped().ends_with('/')) {
+    Diagnostic &D =
+        Diags.emplace_back(Diagnostic::DK_PathTrailingSlash,
+                           LexerCursorRange{Begin.lCur(), End});
+    D.fix("remove the trailing slash")
+        .edit(TextEdit::mkRemoval(LexerCursorRange{
+            LexerCursor::unsafeCreate(End.line(), End.column() - 1,
+                                      End.offset() - 1),
+            End}));
+  }
   auto Parts = std::make_shared<InterpolatedParts>(
       LexerCursorRange{Begin.lCur(), End}, std::move(Fragments));
   return std::make_shared<ExprPath>(LexerCursorRange{Begin.lCur(), End},
-- 
2.43.0


From 7e29dca136f749d1f21125b39eadfdf82849f2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 14/88] fix: report dynamic attributes in let

---
 libnixf/src/Parse/ParseExpr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index 74ed61e..e3840a7 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -270,6 +270,11 @@ std::shared_ptr<ExprLet> Parser::parseExprLet() {
   auto Binds = parseBinds();
   auto Attrs = Binds ? Act.onExprAttrs(Binds->range(), Binds, Let) : nullptr;
 
+  // Dynamic attributes are not allowed in "let".
+  if (Attrs)
+    for (const Attribute &Attr : Attrs->sema().dynamicAttrs())
+      Diags.emplace_back(Diagnostic::DK_LetDynamic, Attr.key().range());
+
   ExpectResult ExpKwIn = expect(tok_kw_in);
 
   if (!ExpKwIn.ok()) {
-- 
2.43.0


From 07dfc65abccee77c776d93e0f67985219c68ac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 15/88] fix: report chained has-attribute operators

---
 libnixf/src/Parse/ParseOp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnixf/src/Parse/ParseOp.cpp b/libnixf/src/Parse/ParseOp.cpp
index 734611b..0795bf4 100644
--- a/libnixf/src/Parse/ParseOp.cpp
+++ b/libnixf/src/Parse/ParseOp.cpp
@@ -145,6 +145,10 @@ std::shared_ptr<Expr> Parser::parseExprOpBP(unsigned LeftRBP) {
       // expr_op '?' attrpath
       if (LeftRBP > HasAttrBP)
         return Prefix;
+      if (Prefix->kind() == Node::NK_ExprOpHasAttr) {
+        // Report error, a ? b ? c
+        Diags.emplace_back(Diagnostic::DK_OperatorNotAssociative, Tok.range());
+      }
       consume();
       assert(LastToken && "consume() should have set LastToken");
       auto O = std::make_shared<Op>(Tok.range(), Tok.kind());
-- 
2.43.0


From 369762768f7ac8dd03a9d04f8c60ba14cdf371e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 16/88] fix: treat the empty string as a static attribute name

---
 libnixf/src/Basic/Nodes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/libnixf/src/Basic/Nodes.cpp b/libnixf/src/Basic/Nodes.cpp
index b316261..59dd3ff 100644
--- a/libnixf/src/Basic/Nodes.cpp
+++ b/libnixf/src/Basic/Nodes.cpp
@@ -6,9 +6,6 @@ namespace {
 
 std::vector<InterpolablePart>
 mergeFragments(std::vector<InterpolablePart> Fragments) {
-  if (Fragments.empty())
-    return Fragments;
-
   // Check if the fragment forms a string literal (i.e. no interpolation)
   for (const InterpolablePart &Frag : Fragments) {
     if (Frag.kind() == InterpolablePart::SPK_Interpolation)
-- 
2.43.0


From 148cc1ec16658c28ff4c82a52abed19caa9b9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 17/88] fix: do not suggest to remove the `let` of a legacy let

---
 libnixf/src/Sema/VariableLookup.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 792d706..aa7dd19 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -399,8 +399,13 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
 
 void VariableLookupAnalysis::dfs(const ExprLegacyLet &LegacyLet,
                                  const std::shared_ptr<EnvNode> &Env) {
-  if (LegacyLet.attrs())
-    dfs(*LegacyLet.attrs(), Env);
+  // The attrset is recursive by definition here, there is no `rec` keyword that
+  // could be removed.
+  if (!LegacyLet.attrs())
+    return;
+  Envs.insert({LegacyLet.attrs(), Env});
+  dfsAttrs(LegacyLet.attrs()->sema(), Env, LegacyLet.attrs(),
+           Definition::DS_Rec);
 }
 
 void VariableLookupAnalysis::trivialDispatch(
-- 
2.43.0


From 2f8c56b8ea2c946eea1d9104e8dd881d2e0e2a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 18/88] fix: do not crash on the names of internal primops

---
 libnixf/src/Sema/VariableLookup.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index aa7dd19..57419bf 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -210,9 +210,6 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
   } else {
     // Check if this is a primop.
     switch (lookupGlobalPrimOpInfo(Name)) {
-    case PrimopLookupResult::Found:
-      assert(false && "primop name should be defined");
-      break;
     case PrimopLookupResult::PrefixedFound: {
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_PrimOpNeedsPrefix, Var.range());
@@ -222,6 +219,7 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
           {&Var, LookupResult{LookupResultKind::Undefined, nullptr}});
       break;
     }
+    case PrimopLookupResult::Found: // Internal primop, not in scope.
     case PrimopLookupResult::NotFound:
       // Otherwise, this variable is undefined.
       Results.insert(
-- 
2.43.0


From 14c399b1bfb3f408579ffbabc03a8d8b810e938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 19/88] fix: visit the expression of `inherit (expr)` only once

---
 libnixf/src/Sema/VariableLookup.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 57419bf..89f8940 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -512,7 +512,10 @@ void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
 
 void VariableLookupAnalysis::dfs(const Node &Root,
                                  const std::shared_ptr<EnvNode> &Env) {
-  Envs.insert({&Root, Env});
+  // The expression of `inherit (expr) a b` is shared by all inherited names.
+  // Visit it only once.
+  if (!Envs.insert({&Root, Env}).second)
+    return;
   switch (Root.kind()) {
   case Node::NK_ExprVar: {
     const auto &Var = static_cast<const ExprVar &>(Root);
-- 
2.43.0


From 7f8e4490de568942153772a25722ee59afd8d804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 20/88] fix: do not rewrite `builtins.` when names are shadowed

---
 libnixf/include/nixf/Sema/VariableLookup.h |  6 ++--
 libnixf/src/Sema/VariableLookup.cpp        | 34 ++++++++++++++++++----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index e592a14..756c350 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -140,9 +140,11 @@ private:
 
   void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
 
-  void checkBuiltins(const ExprSelect &Sel);
+  void checkBuiltins(const ExprSelect &Sel,
+                     const std::shared_ptr<EnvNode> &Env);
 
-  void checkLetInheritBuiltins(const SemaAttrs &SA);
+  void checkLetInheritBuiltins(const SemaAttrs &SA,
+                               const std::shared_ptr<EnvNode> &Env);
 
   std::shared_ptr<EnvNode> dfsAttrs(const SemaAttrs &SA,
                                     const std::shared_ptr<EnvNode> &Env,
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 89f8940..42c9515 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -85,6 +85,15 @@ bool checkInheritedFromBuiltin(const Attribute &Attr) {
   return false;
 }
 
+/// Whether the name refers to a builtin in \p Env, i.e. it is not shadowed.
+bool refersToBuiltin(const std::string &Name, const EnvNode *Env) {
+  for (; Env; Env = Env->parent()) {
+    if (auto It = Env->defs().find(Name); It != Env->defs().end())
+      return It->second->isBuiltin();
+  }
+  return false;
+}
+
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
@@ -384,7 +393,7 @@ void VariableLookupAnalysis::dfs(const ExprLet &Let,
     // If there are some attributes actually, create a new env.
     const SemaAttrs &SA = Let.attrs()->sema();
     assert(SA.isRecursive() && "let ... in ... attrset must be recursive");
-    checkLetInheritBuiltins(SA);
+    checkLetInheritBuiltins(SA, Env);
     return dfsAttrs(SA, Env, &Let, Definition::DS_Let);
   };
 
@@ -443,7 +452,8 @@ void VariableLookupAnalysis::dfs(const ExprWith &With,
   }
 }
 
-void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
+void VariableLookupAnalysis::checkBuiltins(
+    const ExprSelect &Sel, const std::shared_ptr<EnvNode> &Env) {
   if (!Sel.path())
     return;
 
@@ -458,6 +468,10 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
   if (Builtins.id().name() != "builtins")
     return;
 
+  // "builtins" might be redefined by the user.
+  if (!refersToBuiltin("builtins", Env.get()))
+    return;
+
   const auto &AP = *Sel.path();
 
   if (AP.names().size() != 1)
@@ -471,6 +485,9 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
 
   switch (lookupGlobalPrimOpInfo(Name)) {
   case PrimopLookupResult::Found: {
+    // The prefix is required if the name is shadowed, or not in the prelude.
+    if (!refersToBuiltin(Name, Env.get()))
+      return;
     Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                        Builtins.range());
     Fix &F =
@@ -495,13 +512,20 @@ void VariableLookupAnalysis::checkBuiltins(const ExprSelect &Sel) {
   }
 }
 
-void VariableLookupAnalysis::checkLetInheritBuiltins(const SemaAttrs &SA) {
+void VariableLookupAnalysis::checkLetInheritBuiltins(
+    const SemaAttrs &SA, const std::shared_ptr<EnvNode> &Env) {
+  // "builtins" might be redefined by the user.
+  if (SA.staticAttrs().contains("builtins") ||
+      !refersToBuiltin("builtins", Env.get()))
+    return;
+
   for (const auto &[Name, Attr] : SA.staticAttrs()) {
     if (!checkInheritedFromBuiltin(Attr))
       continue;
 
     // Check if the inherited name is a prelude builtin
-    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found) {
+    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found &&
+        refersToBuiltin(Name, Env.get())) {
       Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                          Attr.key().range());
       D.fix("remove unnecessary inherit")
@@ -550,7 +574,7 @@ void VariableLookupAnalysis::dfs(const Node &Root,
   case Node::NK_ExprSelect: {
     trivialDispatch(Root, Env);
     const auto &Sel = static_cast<const ExprSelect &>(Root);
-    checkBuiltins(Sel);
+    checkBuiltins(Sel, Env);
     break;
   }
   default:
-- 
2.43.0


From 39535ce5eb2212beee7c470439def2e21be49c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 21/88] fix: do not suggest to insert a prefix in inherit

---
 libnixf/include/nixf/Sema/VariableLookup.h |  5 ++++-
 libnixf/src/Sema/VariableLookup.cpp        | 23 +++++++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/libnixf/include/nixf/Sema/VariableLookup.h b/libnixf/include/nixf/Sema/VariableLookup.h
index 756c350..22544bd 100644
--- a/libnixf/include/nixf/Sema/VariableLookup.h
+++ b/libnixf/include/nixf/Sema/VariableLookup.h
@@ -138,7 +138,10 @@ private:
   // name lookup, for later references like code completions.
   EnvMap Envs;
 
-  void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env);
+  void lookupVar(const ExprVar &Var, const std::shared_ptr<EnvNode> &Env,
+                 bool Inherited = false);
+
+  void dfsInherit(const Expr &E, const std::shared_ptr<EnvNode> &Env);
 
   void checkBuiltins(const ExprSelect &Sel,
                      const std::shared_ptr<EnvNode> &Env);
diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 42c9515..4411af3 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -178,7 +178,8 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
 }
 
 void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
-                                       const std::shared_ptr<EnvNode> &Env) {
+                                       const std::shared_ptr<EnvNode> &Env,
+                                       bool Inherited) {
   const auto &Name = Var.id().name();
   const auto *CurEnv = Env.get();
   std::shared_ptr<Definition> Def;
@@ -222,8 +223,10 @@ void VariableLookupAnalysis::lookupVar(const ExprVar &Var,
     case PrimopLookupResult::PrefixedFound: {
       Diagnostic &D =
           Diags.emplace_back(Diagnostic::DK_PrimOpNeedsPrefix, Var.range());
-      D.fix("use `builtins.` prefix")
-          .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
+      // Only names are allowed in `inherit`, they cannot have a prefix.
+      if (!Inherited)
+        D.fix("use `builtins.` prefix")
+            .edit(TextEdit::mkInsertion(Var.range().lCur(), "builtins."));
       Results.insert(
           {&Var, LookupResult{LookupResultKind::Undefined, nullptr}});
       break;
@@ -341,7 +344,7 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
         dfs(*Attr.value(), NewEnv);
       } else {
         assert(Attr.kind() == Attribute::AttributeKind::Inherit);
-        dfs(*Attr.value(), Env);
+        dfsInherit(*Attr.value(), Env);
       }
     }
 
@@ -353,13 +356,23 @@ std::shared_ptr<EnvNode> VariableLookupAnalysis::dfsAttrs(
   for (const auto &[_, Attr] : SA.staticAttrs()) {
     if (!Attr.value())
       continue;
-    dfs(*Attr.value(), Env);
+    if (Attr.kind() == Attribute::AttributeKind::Inherit)
+      dfsInherit(*Attr.value(), Env);
+    else
+      dfs(*Attr.value(), Env);
   }
 
   dfsDynamicAttrs(SA.dynamicAttrs(), Env);
   return Env;
 };
 
+void VariableLookupAnalysis::dfsInherit(const Expr &E,
+                                        const std::shared_ptr<EnvNode> &Env) {
+  assert(E.kind() == Node::NK_ExprVar && "inherited names are variables");
+  Envs.insert({&E, Env});
+  lookupVar(static_cast<const ExprVar &>(E), Env, /*Inherited=*/true);
+}
+
 void VariableLookupAnalysis::dfs(const ExprAttrs &Attrs,
                                  const std::shared_ptr<EnvNode> &Env) {
   const SemaAttrs &SA = Attrs.sema();
-- 
2.43.0


From 1eff715e16828218e0b263a1c0ba0b4179fd9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 22/88] fix: parse legacy let as a simple expression

---
 libnixf/src/Parse/ParseExpr.cpp   | 2 +-
 libnixf/src/Parse/ParseSimple.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index e3840a7..c7298e0 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -133,7 +133,7 @@ std::shared_ptr<Expr> Parser::parseExpr() {
   case tok_kw_let:
     if (peek(1).kind() != tok_l_curly)
       return parseExprLet();
-    return parseExprLegacyLet();
+    break; // let { ... } is a simple expression
   case tok_kw_with:
     return parseExprWith();
   default:
diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index a7fbf57..d9775f3 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -168,6 +168,10 @@ std::shared_ptr<Expr> Parser::parseExprSimple() {
     return parseExprAttrs();
   case tok_l_bracket:
     return parseExprList();
+  case tok_kw_let: // let { ... }
+    if (peek(1).kind() == tok_l_curly)
+      return parseExprLegacyLet();
+    return nullptr;
   default:
     return nullptr;
   }
-- 
2.43.0


From 3028d3826d32d407537022a20c7e9390d0abe200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 23/88] fix: report a comma before the first formal

---
 libnixf/src/Sema/SemaActions.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index ea0c49f..35a6209 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -227,6 +227,16 @@ void Sema::checkFormalSep(const FormalVector &FV) {
 }
 
 void Sema::checkFormalEmpty(const FormalVector &FV) {
+  // There is nothing before the comma of the first formal.
+  // { , a }
+  //   ^
+  if (!FV.empty() && FV.front()->comma() &&
+      (FV.front()->id() || FV.front()->isEllipsis())) {
+    LexerCursorRange Comma = FV.front()->comma()->range();
+    Diagnostic &D = Diags.emplace_back(Diagnostic::DK_EmptyFormal, Comma);
+    D.fix("remove empty formal").edit(TextEdit::mkRemoval(Comma));
+    D.tag(DiagnosticTag::Faded);
+  }
   for (auto It = FV.cbegin(); It != FV.cend(); It++) {
     // Special case, ignore the last one.
     // Because the nix formatting guide explicitly place a "comma" at the
-- 
2.43.0


From 875a4e7fec092695b6cdd6259d571b343e01063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 24/88] fix: report formals that are only a comma

---
 libnixf/src/Sema/SemaActions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 35a6209..85e3713 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -240,8 +240,8 @@ void Sema::checkFormalEmpty(const FormalVector &FV) {
   for (auto It = FV.cbegin(); It != FV.cend(); It++) {
     // Special case, ignore the last one.
     // Because the nix formatting guide explicitly place a "comma" at the
-    // trailing of formals.
-    if (It + 1 == FV.cend())
+    // trailing of formals. The comma must trail something, though.
+    if (It + 1 == FV.cend() && It != FV.cbegin())
       break;
 
     const std::shared_ptr<Formal> &FPtr = *It;
-- 
2.43.0


From 5c63e5aff76fa7378877e49a95c7d8a7d79a3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 25/88] fix: do not lex `|||>` as one token

---
 libnixf/src/Parse/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index e232aed..df8edcc 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -573,7 +573,7 @@ Token Lexer::lex() {
   case '|':
     if (consumePrefix("||"))
       Tok = tok_op_or;
-    if (consumePrefix("|>"))
+    else if (consumePrefix("|>"))
       Tok = tok_op_pipe_into;
     break;
   case '!':
-- 
2.43.0


From d331ea77ca38f3c6be8d6dc1c9109a6bf3e2bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 26/88] fix: do not lex `<foo/>` as a search path

---
 libnixf/src/Parse/Lexer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index df8edcc..5942ca7 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -306,6 +306,9 @@ bool Lexer::consumeSPath() {
             consume();
           continue;
         }
+        // A slash must be followed by a path char.
+        Cur = Saved;
+        return false;
       }
       break;
     }
-- 
2.43.0


From a246a01852178efec9b84f7407470f1a727d566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 27/88] fix: remove the expression of an empty inherit too

---
 libnixf/src/Parse/ParseAttrs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libnixf/src/Parse/ParseAttrs.cpp b/libnixf/src/Parse/ParseAttrs.cpp
index 3eab21c..db7f7c4 100644
--- a/libnixf/src/Parse/ParseAttrs.cpp
+++ b/libnixf/src/Parse/ParseAttrs.cpp
@@ -117,6 +117,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
   assert(LastToken && "LastToken should be set after consume()");
   std::vector<std::shared_ptr<AttrName>> AttrNames;
   std::shared_ptr<Expr> Expr = nullptr;
+  std::optional<LexerCursorRange> FromRange; // The range of "(expr)"
   if (Token Tok = peek(); Tok.kind() == tok_l_paren) {
     consume();
     Expr = parseExpr();
@@ -127,6 +128,7 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
     else
       ER.diag().note(Note::NK_ToMachThis, Tok.range())
           << std::string(tok::spelling(tok_l_paren));
+    FromRange = LexerCursorRange{Tok.lCur(), LastToken->rCur()};
   }
   while (true) {
     if (auto AttrName = parseAttrName()) {
@@ -149,6 +151,9 @@ std::shared_ptr<Inherit> Parser::parseInherit() {
     D.tag(DiagnosticTag::Faded);
     Fix &F = D.fix("remove `inherit` keyword");
     F.edit(TextEdit::mkRemoval(TokInherit.range()));
+    // Names cannot be inherited from nowhere, remove "(expr)" also.
+    if (FromRange)
+      F.edit(TextEdit::mkRemoval(*FromRange));
     if (ER.ok()) {
       // Remove ";" also.
       F.edit(TextEdit::mkRemoval(ER.tok().range()));
-- 
2.43.0


From 6a9326d41e667e873da48aa71b75d63b9067dd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 28/88] fix: keep the meaning when converting a legacy let

---
 libnixf/src/Parse/ParseExpr.cpp | 61 +++++++++++++++++++++++++++++----
 libnixf/src/Parse/Parser.h      |  3 ++
 2 files changed, 58 insertions(+), 6 deletions(-)

diff --git a/libnixf/src/Parse/ParseExpr.cpp b/libnixf/src/Parse/ParseExpr.cpp
index c7298e0..7fd33f8 100644
--- a/libnixf/src/Parse/ParseExpr.cpp
+++ b/libnixf/src/Parse/ParseExpr.cpp
@@ -3,6 +3,27 @@
 using namespace nixf;
 using namespace nixf::detail;
 
+namespace {
+
+/// Whether the variable \p Name is mentioned somewhere in \p N.
+bool mentionsName(const Node &N, std::string_view Name) {
+  if (N.kind() == Node::NK_ExprVar)
+    return static_cast<const ExprVar &>(N).id().name() == Name;
+  if (N.kind() == Node::NK_Inherit) {
+    const auto &I = static_cast<const Inherit &>(N);
+    if (!I.expr())
+      for (const auto &Attr : I.names())
+        if (Attr && Attr->isStatic() && Attr->staticName() == Name)
+          return true;
+  }
+  for (const Node *Ch : N.children())
+    if (Ch && mentionsName(*Ch, Name))
+      return true;
+  return false;
+}
+
+} // namespace
+
 std::shared_ptr<Expr> Parser::parseExprSelect() {
   std::shared_ptr<Expr> Expr = parseExprSimple();
   if (!Expr)
@@ -133,7 +154,9 @@ std::shared_ptr<Expr> Parser::parseExpr() {
   case tok_kw_let:
     if (peek(1).kind() != tok_l_curly)
       return parseExprLet();
-    break; // let { ... } is a simple expression
+    // let { ... } is a simple expression
+    ExprBeginLet = peek().lCur();
+    break;
   case tok_kw_with:
     return parseExprWith();
   default:
@@ -341,6 +364,7 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
   Token TokLet = peek();
   assert(TokLet.kind() == tok_kw_let &&
          "parseExprLegacyLet should start with `let`");
+  bool BeginsExpr = ExprBeginLet == TokLet.lCur();
   auto KwLet = std::make_shared<Misc>(TokLet.range());
   consume(); // 'let'
 
@@ -371,15 +395,33 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
 
   bool HasBody = Attrs && Attrs->sema().staticAttrs().contains("body");
 
+  // `let ... in ...` extends as far as possible, parenthesize it unless it is
+  // the whole expression.
+  auto IsExprEnd = [this]() {
+    switch (peek().kind()) {
+    case tok_semi_colon:
+    case tok_r_paren:
+    case tok_r_curly:
+    case tok_eof:
+      return true;
+    default:
+      return false;
+    }
+  };
+  bool NeedParen = !BeginsExpr || !IsExprEnd();
+
   Diagnostic &DWarn =
       Diags.emplace_back(Diagnostic::DK_DeprecatedLet, FullRange);
 
-  if (HasBody && Attrs->binds()) {
+  // There are no dynamic attributes in `let ... in ...`. Besides, the binding
+  // of `body` cannot be removed if it is referred to.
+  if (HasBody && Attrs->binds() && Attrs->sema().dynamicAttrs().empty() &&
+      !mentionsName(*Attrs, "body")) {
     for (const auto &BindNode : Attrs->binds()->bindings()) {
       if (BindNode->kind() != Node::NK_Binding)
         continue;
       const auto &Bind = static_cast<const Binding &>(*BindNode);
-      if (Bind.path().names().empty() || !Bind.path().names()[0])
+      if (Bind.path().names().size() != 1 || !Bind.path().names()[0])
         continue;
       const auto &Name = *Bind.path().names()[0];
       if (!Name.isStatic() || Name.staticName() != "body")
@@ -387,10 +429,17 @@ std::shared_ptr<ExprLegacyLet> Parser::parseExprLegacyLet() {
       if (!Bind.value())
         break;
       Fix &F = DWarn.fix("convert to `let ... in ...`");
-      F.edit(TextEdit::mkRemoval(LCurlyRange));
+      // Keep `let` and the first binding apart.
+      if (TokLet.rCur() == LCurlyRange.lCur())
+        F.edit(TextEdit(LCurlyRange, " "));
+      else
+        F.edit(TextEdit::mkRemoval(LCurlyRange));
       F.edit(TextEdit::mkRemoval(Bind.range()));
-      F.edit(
-          TextEdit(RCurlyRange, "in " + std::string(Bind.value()->src(Src))));
+      F.edit(TextEdit(RCurlyRange, "in " +
+                                       std::string(Bind.value()->src(Src)) +
+                                       (NeedParen ? ")" : "")));
+      if (NeedParen)
+        F.edit(TextEdit::mkInsertion(TokLet.lCur(), "("));
       break;
     }
   }
diff --git a/libnixf/src/Parse/Parser.h b/libnixf/src/Parse/Parser.h
index 96ac52d..83a8496 100644
--- a/libnixf/src/Parse/Parser.h
+++ b/libnixf/src/Parse/Parser.h
@@ -45,6 +45,9 @@ private:
 
   std::deque<Token> LookAheadBuf;
   std::optional<Token> LastToken;
+
+  /// Where an expression begins with `let {`, set while parsing it.
+  std::optional<LexerCursor> ExprBeginLet;
   std::stack<ParserState> State;
 
   /// \brief Sync tokens for error recovery.
-- 
2.43.0


From 7f9b082d30d81797954deb165ce999d20ace7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 29/88] fix: do not join tokens when removing parentheses

---
 libnixf/src/Parse/ParseSimple.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/libnixf/src/Parse/ParseSimple.cpp b/libnixf/src/Parse/ParseSimple.cpp
index d9775f3..4183b28 100644
--- a/libnixf/src/Parse/ParseSimple.cpp
+++ b/libnixf/src/Parse/ParseSimple.cpp
@@ -35,6 +35,24 @@ bool mayProducedBySimple(const Expr *E) {
   return mayProducedBySimple(E->kind());
 }
 
+/// Whether \p C never belongs to the same token as an adjacent character.
+bool isTokenBoundary(char C) {
+  return std::string_view(" \t\r\n()[]{};").find(C) != std::string_view::npos;
+}
+
+/// \brief Remove a parenthesis, leave a space if the tokens around it would
+/// be joined otherwise. e.g. "f(a)" -> "f a"
+TextEdit removeParen(std::string_view Src, LexerCursorRange Paren) {
+  std::size_t B = Paren.lCur().offset();
+  std::size_t E = Paren.rCur().offset();
+  // Paths continue after the "}" of an interpolation.
+  if (B == 0 || E >= Src.size() ||
+      (isTokenBoundary(Src[B - 1]) && Src[B - 1] != '}') ||
+      isTokenBoundary(Src[E]))
+    return TextEdit::mkRemoval(Paren);
+  return TextEdit{Paren, " "};
+}
+
 } // namespace
 
 std::shared_ptr<ExprParen> Parser::parseExprParen() {
@@ -55,8 +73,8 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove ( and )");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
-      F.edit(TextEdit::mkRemoval(RParen->range()));
+      F.edit(removeParen(Src, LParen->range()));
+      F.edit(removeParen(Src, RParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), ER.tok().rCur()}, std::move(Expr),
@@ -69,7 +87,7 @@ std::shared_ptr<ExprParen> Parser::parseExprParen() {
           Diags.emplace_back(Diagnostic::DK_RedundantParen, LParen->range());
       D.tag(DiagnosticTag::Faded);
       Fix &F = D.fix("remove (");
-      F.edit(TextEdit::mkRemoval(LParen->range()));
+      F.edit(removeParen(Src, LParen->range()));
     }
     return std::make_shared<ExprParen>(
         LexerCursorRange{L.lCur(), LastToken->rCur()}, std::move(Expr),
-- 
2.43.0


From 6c552d0f85b978271f22b96a2dda2634f6442f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 30/88] fix: do not join tokens when removing bindings or with

---
 libnixf/src/Sema/VariableLookup.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 4411af3..998440f 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -165,8 +165,13 @@ void VariableLookupAnalysis::emitEnvLivenessWarning(
               // range
               if (D.range().lCur() == FirstName->range().lCur() &&
                   D.range().rCur() == FirstName->range().rCur()) {
-                D.fix("remove unused binding")
-                    .edit(TextEdit::mkRemoval(Bind.range()));
+                Fix &F = D.fix("remove unused binding");
+                // let"a" = 1;inherit (b) c; in ...
+                //    ^ Do not join the tokens around the binding.
+                if (Let.let().rCur() == Bind.lCur())
+                  F.edit(TextEdit(Bind.range(), " "));
+                else
+                  F.edit(TextEdit::mkRemoval(Bind.range()));
                 break;
               }
             }
@@ -456,8 +461,13 @@ void VariableLookupAnalysis::dfs(const ExprWith &With,
   if (WithDefs.at(&With)->uses().empty()) {
     Diagnostic &D =
         Diags.emplace_back(Diagnostic::DK_ExtraWith, With.kwWith().range());
-    Fix &F = D.fix("remove `with` expression")
-                 .edit(TextEdit::mkRemoval(With.kwWith().range()));
+    Fix &F = D.fix("remove `with` expression");
+    // a:with(b);c
+    //       ^ Do not join the tokens around the `with`.
+    if (With.with() && With.kwWith().rCur() == With.with()->lCur())
+      F.edit(TextEdit(With.kwWith().range(), " "));
+    else
+      F.edit(TextEdit::mkRemoval(With.kwWith().range()));
     if (With.tokSemi())
       F.edit(TextEdit::mkRemoval(With.tokSemi()->range()));
     if (With.with())
-- 
2.43.0


From 40ace4b48334862951f3496af895729f6aae3459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 31/88] fix: allow unknown builtins with a default value

---
 libnixf/src/Sema/VariableLookup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 998440f..1d186c8 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -484,6 +484,10 @@ void VariableLookupAnalysis::checkBuiltins(
   if (Sel.desugaredFrom())
     return;
 
+  // builtins.foo or default, the builtin is not required to exist.
+  if (Sel.defaultExpr())
+    return;
+
   if (Sel.expr().kind() != Node::NK_ExprVar)
     return;
 
-- 
2.43.0


From 10c9c8ec336e62e20f0f5cc4ecedb7e11316cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 32/88] fix: unquote the name when removing the builtins prefix

---
 libnixf/src/Sema/VariableLookup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 1d186c8..8653a97 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -525,6 +525,9 @@ void VariableLookupAnalysis::checkBuiltins(
       // remove the dot also.
       F.edit(TextEdit::mkRemoval(Sel.dot()->range()));
     }
+    // builtins."map", a variable is not quoted.
+    if (First.kind() != AttrName::ANK_ID)
+      F.edit(TextEdit(First.range(), Name + " "));
     return;
   }
   case PrimopLookupResult::PrefixedFound:
-- 
2.43.0


From 7b760b9550ef0745b1972a3f4f3c39178565fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 33/88] fix: names in builtins have no __ prefix

---
 libnixf/src/Sema/VariableLookup.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 8653a97..063b4c1 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -94,6 +94,14 @@ bool refersToBuiltin(const std::string &Name, const EnvNode *Env) {
   return false;
 }
 
+/// Look up an attribute of `builtins`. The internal "__" prefix is not a part
+/// of the names there, e.g. `__length` is `builtins.length`.
+PrimopLookupResult lookupBuiltinsAttr(const std::string &Name) {
+  if (Name.starts_with("__"))
+    return PrimopLookupResult::NotFound;
+  return lookupGlobalPrimOpInfo(Name);
+}
+
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
@@ -510,7 +518,7 @@ void VariableLookupAnalysis::checkBuiltins(
 
   const auto &Name = First.staticName();
 
-  switch (lookupGlobalPrimOpInfo(Name)) {
+  switch (lookupBuiltinsAttr(Name)) {
   case PrimopLookupResult::Found: {
     // The prefix is required if the name is shadowed, or not in the prelude.
     if (!refersToBuiltin(Name, Env.get()))
@@ -554,7 +562,7 @@ void VariableLookupAnalysis::checkLetInheritBuiltins(
       continue;
 
     // Check if the inherited name is a prelude builtin
-    if (lookupGlobalPrimOpInfo(Name) == PrimopLookupResult::Found &&
+    if (lookupBuiltinsAttr(Name) == PrimopLookupResult::Found &&
         refersToBuiltin(Name, Env.get())) {
       Diagnostic &D = Diags.emplace_back(Diagnostic::DK_PrimOpRemovablePrefix,
                                          Attr.key().range());
-- 
2.43.0


From 348ade0fc4653e1b617c6abb9677e1b82bb46d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 34/88] fix: merge parenthesized attribute sets

---
 libnixf/src/Sema/SemaActions.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/libnixf/src/Sema/SemaActions.cpp b/libnixf/src/Sema/SemaActions.cpp
index 85e3713..6b72074 100644
--- a/libnixf/src/Sema/SemaActions.cpp
+++ b/libnixf/src/Sema/SemaActions.cpp
@@ -12,6 +12,19 @@
 
 namespace nixf {
 
+namespace {
+
+/// The attribute set \p E denotes, parentheses do not matter.
+ExprAttrs *asAttrs(Expr *E) {
+  while (E && E->kind() == Node::NK_ExprParen)
+    E = const_cast<Expr *>(static_cast<ExprParen *>(E)->expr());
+  if (!E || E->kind() != Node::NK_ExprAttrs)
+    return nullptr;
+  return static_cast<ExprAttrs *>(E);
+}
+
+} // namespace
+
 void Sema::dupAttr(std::string Name, LexerCursorRange Range,
                    LexerCursorRange Prev) {
   auto &Diag = Diags.emplace_back(Diagnostic::DK_DuplicatedAttrName, Range);
@@ -83,11 +96,10 @@ void Sema::insertAttr(SemaAttrs &SA, std::shared_ptr<AttrName> Name,
   std::string StaticName = Name->staticName();
   if (auto Nested = Attrs.find(StaticName); Nested != Attrs.end()) {
     const auto &[K, V] = *Nested;
-    if (V.value() && V.value()->kind() == Node::NK_ExprAttrs && E &&
-        E->kind() == Node::NK_ExprAttrs) {
+    auto *XAttrSet = asAttrs(V.value());
+    auto *YAttrSet = asAttrs(E.get());
+    if (XAttrSet && YAttrSet) {
       // If this is also an attrset, we want to merge them.
-      auto *XAttrSet = static_cast<ExprAttrs *>(V.value());
-      auto *YAttrSet = static_cast<ExprAttrs *>(E.get());
       checkAttrRecursiveForMerge(*XAttrSet, *YAttrSet);
       mergeAttrSets(XAttrSet->SA, YAttrSet->SA);
       return;
@@ -121,12 +133,12 @@ Sema::selectOrCreate(SemaAttrs &SA,
           Nested != StaticAttrs.end()) {
         // Find another attr, with the same name.
         const auto &[K, V] = *Nested;
-        if (V.fromInherit() || !V.value() ||
-            V.value()->kind() != Node::NK_ExprAttrs) {
+        ExprAttrs *XAttrSet = asAttrs(V.value());
+        if (V.fromInherit() || !XAttrSet) {
           dupAttr(StaticName, Name->range(), V.key().range());
           return nullptr;
         }
-        Inner = &static_cast<ExprAttrs *>(V.value())->SA;
+        Inner = &XAttrSet->SA;
       } else {
         // There is no existing one, let's create a new attribute.
         // These attributes are implicitly created, and to match default ctor
-- 
2.43.0


From 4e8540c3f6f814dfad4314d098e80e7c61e34248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:33 +0000
Subject: [PATCH 35/88] fix: treat `${"name"}` as a static attribute name

---
 libnixf/include/nixf/Basic/Nodes/Attrs.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Attrs.h b/libnixf/include/nixf/Basic/Nodes/Attrs.h
index 4a39b01..b2675cf 100644
--- a/libnixf/include/nixf/Basic/Nodes/Attrs.h
+++ b/libnixf/include/nixf/Basic/Nodes/Attrs.h
@@ -17,6 +17,23 @@ private:
   const std::shared_ptr<ExprString> String;
   const std::shared_ptr<Interpolation> Interp;
 
+  /// \brief The string of `${"foo"}`, which is the same as `foo`.
+  [[nodiscard]] const ExprString *interpolatedLiteral() const {
+    const Expr *E = Interp->expr();
+    while (E && E->kind() == NK_ExprParen)
+      E = static_cast<const ExprParen *>(E)->expr();
+    if (!E || E->kind() != NK_ExprString)
+      return nullptr;
+    const auto *S = static_cast<const ExprString *>(E);
+    if (!S->isLiteral())
+      return nullptr;
+    // The value of indented strings may depend on their indentation.
+    const std::string &Text = S->literal();
+    if (Text.starts_with(' ') || Text.find('\n') != std::string::npos)
+      return nullptr;
+    return S;
+  }
+
 public:
   [[nodiscard]] AttrNameKind kind() const { return Kind; }
 
@@ -41,7 +58,7 @@ public:
     if (Kind == ANK_ID)
       return true;
     if (Kind == ANK_Interpolation)
-      return false;
+      return interpolatedLiteral() != nullptr;
 
     assert(Kind == ANK_String);
     return string().isLiteral();
@@ -51,6 +68,8 @@ public:
     assert(isStatic() && "must be static");
     if (Kind == ANK_ID)
       return id()->name();
+    if (Kind == ANK_Interpolation)
+      return interpolatedLiteral()->literal();
     assert(Kind == ANK_String);
     return string().literal();
   }
-- 
2.43.0


From 630860295f8aa0c015065704835028fa271e8437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 36/88] fix: builtins has itself as an attribute

---
 libnixf/src/Sema/VariableLookup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libnixf/src/Sema/VariableLookup.cpp b/libnixf/src/Sema/VariableLookup.cpp
index 063b4c1..972b01d 100644
--- a/libnixf/src/Sema/VariableLookup.cpp
+++ b/libnixf/src/Sema/VariableLookup.cpp
@@ -105,6 +105,9 @@ PrimopLookupResult lookupBuiltinsAttr(const std::string &Name) {
 bool isBuiltinConstant(const std::string &Name) {
   if (Name.starts_with("_"))
     return false;
+  // builtins.builtins is the set itself.
+  if (Name == "builtins")
+    return true;
   return Constants.contains(Name) || Constants.contains("__" + Name);
 }
 
-- 
2.43.0


From eab6e1e607acde7e70c11338330415f190e2b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:38 +0000
Subject: [PATCH 37/88] fix: carry when counting a document version up

---
 nixd/lspserver/src/DraftStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/DraftStore.cpp b/nixd/lspserver/src/DraftStore.cpp
index 0170971..53e37e7 100644
--- a/nixd/lspserver/src/DraftStore.cpp
+++ b/nixd/lspserver/src/DraftStore.cpp
@@ -54,7 +54,7 @@ static void increment(std::string &S) {
       ++*I;
       break;
     }
-    *I = '0'; // and keep incrementing to the left.
+    *I++ = '0'; // and keep incrementing to the left.
   }
 }
 
-- 
2.43.0


From 9f7edbba01d4296bd6c6f8bba417b34d8430578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:19 +0000
Subject: [PATCH 38/88] fix: resolve file URIs of paths with a drive-like name
 or a backslash

---
 nixd/lspserver/src/URI.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/URI.cpp b/nixd/lspserver/src/URI.cpp
index 8fee314..b095eb9 100644
--- a/nixd/lspserver/src/URI.cpp
+++ b/nixd/lspserver/src/URI.cpp
@@ -18,6 +18,9 @@ LLVM_INSTANTIATE_REGISTRY(lspserver::URISchemeRegistry)
 namespace lspserver {
 namespace {
 
+constexpr bool OnWindows =
+    llvm::sys::path::is_style_windows(llvm::sys::path::Style::native);
+
 bool isWindowsPath(llvm::StringRef Path) {
   return Path.size() > 1 && llvm::isAlpha(Path[0]) && Path[1] == ':';
 }
@@ -44,12 +47,14 @@ public:
     if (!Authority.empty()) {
       // Windows UNC paths e.g. file://server/share => \\server\share
       ("//" + Authority).toVector(Path);
-    } else if (isWindowsPath(Body.substr(1))) {
+    } else if (OnWindows && isWindowsPath(Body.substr(1))) {
       // Windows paths e.g. file:///X:/path => X:\path
       Body.consume_front("/");
     }
     Path.append(Body);
-    llvm::sys::path::native(Path);
+    // Elsewhere, a backslash is an ordinary character of a file name.
+    if (OnWindows)
+      llvm::sys::path::native(Path);
     return std::string(Path);
   }
 
-- 
2.43.0


From 012a748ea683cfbd2a581a8e50f3bdb393b93660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 39/88] fix: read the messages left after the writer hangs up

---
 nixd/lspserver/src/Connection.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 9d6ffd2..0001d5f 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -174,14 +174,19 @@ bool readLine(int fd, const std::atomic<bool> &Close,
     char Ch;
     // FIXME: inefficient
     int Poll = poll(FDs.data(), FDs.size(), 1000);
-    if (Poll < 0)
+    if (Poll < 0) {
+      if (errno == EINTR)
+        continue;
       return false;
+    }
     if (Close)
       return false;
 
     // POLLHUB: hang up from the writer side
     // POLLNVAL: invalid request (fd not open)
-    if (FDs[0].revents & (POLLHUP | POLLNVAL)) {
+    // The writer may hang up while there is still data to read.
+    if (!(FDs[0].revents & POLLIN) &&
+        (FDs[0].revents & (POLLHUP | POLLNVAL))) {
       return false;
     }
 
-- 
2.43.0


From 37afcafbaef6c92aca537e738e2d8a9ebbf16c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 40/88] fix: retry an interrupted read of a message body

---
 nixd/lspserver/src/Connection.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index 0001d5f..bdeb3e2 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -234,11 +234,14 @@ InboundPort::readStandardMessage(std::string &Buffer) {
   }
 
   Buffer.resize(ContentLength);
-  for (size_t Pos = 0, Read; Pos < ContentLength; Pos += Read) {
+  for (size_t Pos = 0; Pos < ContentLength;) {
 
-    Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
-
-    if (Read == 0) {
+    ssize_t Read = read(In, Buffer.data() + Pos, ContentLength - Pos);
+    if (Read > 0) {
+      Pos += Read;
+      continue;
+    }
+    if (Read == 0 || errno != EINTR) {
       elog("Input was aborted. Read only {0} bytes of expected {1}.", Pos,
            ContentLength);
       return llvm::make_error<ReadEOF>();
-- 
2.43.0


From 373e1dba856407a4c2647ffde73ef15dd3dd485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 41/88] fix: Content-Length is a decimal number

---
 nixd/lspserver/src/Connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index bdeb3e2..c250cef 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -223,7 +223,7 @@ InboundPort::readStandardMessage(std::string &Buffer) {
 
     // Content-Length is a mandatory header, and the only one we handle.
     if (LineRef.consume_front("Content-Length: ")) {
-      llvm::getAsUnsignedInteger(LineRef.trim(), 0, ContentLength);
+      llvm::getAsUnsignedInteger(LineRef.trim(), 10, ContentLength);
       continue;
     }
     // An empty line indicates the end of headers.
-- 
2.43.0


From 3885689212b75e5270f5e530c0d3325a23f2e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 42/88] fix: refuse a message too long to be held

---
 nixd/lspserver/src/Connection.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nixd/lspserver/src/Connection.cpp b/nixd/lspserver/src/Connection.cpp
index c250cef..a6a4f5e 100644
--- a/nixd/lspserver/src/Connection.cpp
+++ b/nixd/lspserver/src/Connection.cpp
@@ -233,6 +233,14 @@ InboundPort::readStandardMessage(std::string &Buffer) {
     // It's another header, ignore it.
   }
 
+  // Guard against large messages. This is usually a bug in the client code
+  // and we don't want to crash.
+  if (ContentLength > 1 << 30) { // 1024M
+    elog("Refusing to read message with long Content-Length: {0}.",
+         ContentLength);
+    return llvm::make_error<ReadEOF>();
+  }
+
   Buffer.resize(ContentLength);
   for (size_t Pos = 0; Pos < ContentLength;) {
 
-- 
2.43.0


From e1ada378b6c084c36c8fd009b58d412a8dce9f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 43/88] fix: answer an unknown request with an error

---
 nixd/lspserver/src/LSPServer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index abb8177..ee3a57e 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -46,7 +46,9 @@ bool LSPServer::onCall(llvm::StringRef Method, llvm::json::Value Params,
                       }
                     });
   else
-    return false;
+    Out->reply(std::move(ID),
+               llvm::make_error<LSPError>("method not found: " + Method.str(),
+                                          ErrorCode::MethodNotFound));
   return true;
 }
 
-- 
2.43.0


From bf0a36698a80073aa26235d83981443da0c38c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:19 +0000
Subject: [PATCH 44/88] fix: ignore a reply whose id belongs to no call

---
 nixd/lspserver/src/LSPServer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index ee3a57e..fdb63ab 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -57,21 +57,20 @@ bool LSPServer::onReply(llvm::json::Value ID,
   log("<-- reply({0})", ID);
   std::optional<Callback<llvm::json::Value>> CB;
 
-  if (auto OptI = ID.getAsInteger()) {
-    if (LLVM_UNLIKELY(*OptI > INT_MAX))
-      throw std::logic_error("jsonrpc: id is too large (> INT_MAX)");
+  // Our IDs are positive "int"s, other IDs do not belong to any call.
+  if (auto OptI = ID.getAsInteger(); OptI && *OptI > 0 && *OptI <= INT_MAX) {
     std::lock_guard<std::mutex> Guard(PendingCallsLock);
     auto I = static_cast<int>(*OptI);
     if (PendingCalls.contains(I)) {
       CB = std::move(PendingCalls[I]);
       PendingCalls.erase(I);
     }
-  } else {
-    throw std::logic_error("jsonrpc: not an integer message ID");
   }
   if (LLVM_UNLIKELY(!CB)) {
     elog("received a reply with ID {0}, but there was no such call", ID);
     // Ignore this error
+    if (!Result)
+      llvm::consumeError(Result.takeError());
     return true;
   }
   // Invoke the callback outside of the critical zone, because we just do not
-- 
2.43.0


From 06838071ee1485db2da4a9472200c9ba314d217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 45/88] fix: call back outside of the lock for pending calls

---
 nixd/lspserver/src/LSPServer.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index fdb63ab..074f02d 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -80,20 +80,28 @@ bool LSPServer::onReply(llvm::json::Value ID,
 }
 
 int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
-  std::lock_guard<std::mutex> _(PendingCallsLock);
-  int Ret = TopID++;
-  PendingCalls[Ret] = std::move(CB);
+  int Ret;
+  int OldestID = 0;
+  std::optional<Callback<llvm::json::Value>> OldestCallback;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Ret = TopID++;
+    PendingCalls[Ret] = std::move(CB);
 
-  // Check the limit
-  if (PendingCalls.size() > MaxPendingCalls) {
-    auto Begin = PendingCalls.begin();
-    auto [ID, OldestCallback] =
-        std::tuple{Begin->first, std::move(Begin->second)};
-    OldestCallback(
-        error("failed to receive a client reply for request ({0})", ID));
+    // Check the limit
+    if (PendingCalls.size() > MaxPendingCalls) {
+      auto Begin = PendingCalls.begin();
+      OldestID = Begin->first;
+      OldestCallback = std::move(Begin->second);
+      PendingCalls.erase(Begin);
+    }
+  }
+  // Invoke the callback outside of the critical zone, it may call again.
+  if (OldestCallback) {
+    (*OldestCallback)(
+        error("failed to receive a client reply for request ({0})", OldestID));
     elog("more than {0} outstanding LSP calls, forgetting about {1}",
-         MaxPendingCalls, ID);
-    PendingCalls.erase(Begin);
+         MaxPendingCalls, OldestID);
   }
   return Ret;
 }
-- 
2.43.0


From b5aebf7a74f802d0c653ec3c7122d298274ceccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 46/88] fix: read the URIs of create, rename and delete changes

---
 nixd/lspserver/src/Protocol.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6ba5110..6b99da4 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -315,11 +315,20 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
   if (!O)
     return false;
 
+  auto MapURI = [&](llvm::StringLiteral Field, URIForFile &U) {
+    const auto *V = O->get(Field);
+    if (!V) {
+      P.field(Field).report("missing value");
+      return false;
+    }
+    return fromJSON(*V, U, P.field(Field));
+  };
+
   // Check for "kind" field to distinguish resource operations
   if (auto Kind = O->getString("kind")) {
     if (*Kind == "create") {
       CreateFile CF;
-      if (!fromJSON(Params, CF.uri, P.field("uri")))
+      if (!MapURI("uri", CF.uri))
         return false;
       // Options are optional, parse if present
       if (const auto *OptsObj = O->getObject("options")) {
@@ -336,8 +345,7 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "rename") {
       RenameFile RF;
-      if (!fromJSON(Params, RF.oldUri, P.field("oldUri")) ||
-          !fromJSON(Params, RF.newUri, P.field("newUri")))
+      if (!MapURI("oldUri", RF.oldUri) || !MapURI("newUri", RF.newUri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         RF.options = RenameFileOptions{};
@@ -353,7 +361,7 @@ bool fromJSON(const llvm::json::Value &Params, DocumentChange &DC,
     }
     if (*Kind == "delete") {
       DeleteFile DF;
-      if (!fromJSON(Params, DF.uri, P.field("uri")))
+      if (!MapURI("uri", DF.uri))
         return false;
       if (const auto *OptsObj = O->getObject("options")) {
         DF.options = DeleteFileOptions{};
-- 
2.43.0


From 326832658e43102af3e3d82cf1048f7dd455ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 47/88] fix: reject malformed markup instead of aborting

---
 nixd/lspserver/src/Protocol.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 6b99da4..efce3b1 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1082,14 +1082,6 @@ static llvm::StringRef toTextKind(MarkupKind Kind) {
   llvm_unreachable("Invalid MarkupKind");
 }
 
-static MarkupKind fromTextKind(llvm::StringRef Kind) {
-  if (Kind == "plaintext")
-    return MarkupKind::PlainText;
-  if (Kind == "markdown")
-    return MarkupKind::Markdown;
-  llvm_unreachable("Invalid MarkupKind");
-}
-
 bool fromJSON(const llvm::json::Value &V, MarkupKind &K, llvm::json::Path P) {
   auto Str = V.getAsString();
   if (!Str) {
@@ -1123,11 +1115,14 @@ llvm::json::Value toJSON(const MarkupContent &MC) {
 
 bool fromJSON(const llvm::json::Value &Params, MarkupContent &R,
               llvm::json::Path P) {
+  // Documentation may be a single string.
+  if (auto Str = Params.getAsString()) {
+    R.kind = MarkupKind::PlainText;
+    R.value = Str->str();
+    return true;
+  }
   llvm::json::ObjectMapper O(Params, P);
-  std::string MarkupKind;
-  O.map("kind", MarkupKind);
-  R.kind = fromTextKind(MarkupKind);
-  return O.mapOptional("value", R.value);
+  return O && O.map("kind", R.kind) && O.mapOptional("value", R.value);
 }
 
 llvm::json::Value toJSON(const Hover &H) {
-- 
2.43.0


From bb648e54f1fef30b9c8348489c001579342a3138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 48/88] fix: completion items without a kind

---
 nixd/lspserver/src/Protocol.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index efce3b1..3584653 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1212,16 +1212,19 @@ llvm::json::Value toJSON(const CompletionItem &CI) {
 bool fromJSON(const llvm::json::Value &Params, CompletionItem &R,
               llvm::json::Path P) {
   llvm::json::ObjectMapper O(Params, P);
-  int Kind;
+  if (!O)
+    return false;
+
+  int Kind = static_cast<int>(CompletionItemKind::Missing);
   if (!O.mapOptional("kind", Kind))
     return false;
   R.kind = static_cast<CompletionItemKind>(Kind);
 
+  Kind = static_cast<int>(InsertTextFormat::Missing);
   if (!O.mapOptional("insertTextFormat", Kind))
     return false;
   R.insertTextFormat = static_cast<InsertTextFormat>(Kind);
-  return O                                                              //
-         && O.map("label", R.label)                                     //
+  return O.map("label", R.label)                                     //
          && O.mapOptional("detail", R.detail)                           //
          && O.mapOptional("documentation", R.documentation)             //
          && O.mapOptional("sortText", R.sortText)                       //
-- 
2.43.0


From 1fd3bb2f23f96143fbc353c46a91bc28197ab086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:39 +0000
Subject: [PATCH 49/88] fix: accept diagnostics with a numeric code

---
 nixd/lspserver/src/Protocol.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index 3584653..f846515 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -800,10 +800,14 @@ bool fromJSON(const llvm::json::Value &Params, Diagnostic &R,
     return false;
   if (auto *Data = Params.getAsObject()->getObject("data"))
     R.data = *Data;
+  // The code is a string or an integer, diagnostics may come from other tools.
+  if (auto Code = Params.getAsObject()->getInteger("code"))
+    R.code = std::to_string(*Code);
+  else if (!mapOptOrNull(Params, "code", R.code, P))
+    return false;
   return O.map("range", R.range) && O.map("message", R.message) &&
          mapOptOrNull(Params, "severity", R.severity, P) &&
          mapOptOrNull(Params, "category", R.category, P) &&
-         mapOptOrNull(Params, "code", R.code, P) &&
          mapOptOrNull(Params, "source", R.source, P);
 }
 
-- 
2.43.0


From e0d2215512dcaa7e4db934dd7ffe9ffc4ccfb7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 50/88] fix: keep the title of a code action's command

---
 nixd/lspserver/include/lspserver/Protocol.h | 1 +
 nixd/lspserver/src/Protocol.cpp             | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/nixd/lspserver/include/lspserver/Protocol.h b/nixd/lspserver/include/lspserver/Protocol.h
index c84a4ed..4198bbf 100644
--- a/nixd/lspserver/include/lspserver/Protocol.h
+++ b/nixd/lspserver/include/lspserver/Protocol.h
@@ -1112,6 +1112,7 @@ bool fromJSON(const llvm::json::Value &, ExecuteCommandParams &,
 struct Command : public ExecuteCommandParams {
   std::string title;
 };
+bool fromJSON(const llvm::json::Value &, Command &, llvm::json::Path);
 llvm::json::Value toJSON(const Command &C);
 
 /// A code action represents a change that can be performed in code, e.g. to fix
diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index f846515..e8cd92a 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -916,6 +916,13 @@ bool fromJSON(const llvm::json::Value &Params, WorkspaceSymbolParams &R,
          mapOptOrNull(Params, "limit", R.limit, P);
 }
 
+bool fromJSON(const llvm::json::Value &Params, Command &R,
+              llvm::json::Path P) {
+  llvm::json::ObjectMapper O(Params, P);
+  return O && O.map("title", R.title) &&
+         fromJSON(Params, static_cast<ExecuteCommandParams &>(R), P);
+}
+
 llvm::json::Value toJSON(const Command &C) {
   auto Cmd = llvm::json::Object{{"title", C.title}, {"command", C.command}};
   if (!C.argument.getAsNull())
-- 
2.43.0


From 2349710845a4a619e7f4b31f42602d576b7c9920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 51/88] fix: accept an empty answer to workspace/configuration

---
 nixd/lib/Controller/Configuration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nixd/lib/Controller/Configuration.cpp b/nixd/lib/Controller/Configuration.cpp
index 3bb28e8..da59a80 100644
--- a/nixd/lib/Controller/Configuration.cpp
+++ b/nixd/lib/Controller/Configuration.cpp
@@ -101,6 +101,10 @@ void Controller::fetchConfig() {
                       *Resp);
       return;
     }
+    if (Resp->getAsArray()->empty()) {
+      lspserver::elog("workspace/configuration response is empty");
+      return;
+    }
     const Value &FirstConfig = Resp->getAsArray()->front();
 
     // Run this job in the thread pool. Don't block input thread.
-- 
2.43.0


From 21cb1f1de1d93d54cacb5cbc864eabef2f66816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 52/88] fix: do not crash on duplicated names in inherit

---
 nixd/lib/Controller/Definition.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 5982195..a5ced0a 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -85,8 +85,14 @@ const ExprVar *findInheritVar(const Node &N, const ParentMapAnalysis &PMA,
       return nullptr;
 
     const SemaAttrs &SA = static_cast<const ExprAttrs &>(*Up).sema();
-    const Node *Var = SA.staticAttrs().at(AN.staticName()).value();
-    assert(Var->kind() == Node::NK_ExprVar);
+    // The name may be missing, or stand for some other attribute, if it is
+    // duplicated.
+    auto It = SA.staticAttrs().find(AN.staticName());
+    if (It == SA.staticAttrs().end())
+      return nullptr;
+    const Node *Var = It->second.value();
+    if (!Var || Var->kind() != Node::NK_ExprVar)
+      return nullptr;
     return static_cast<const ExprVar *>(Var);
   }
   return nullptr;
-- 
2.43.0


From 14c5246fed7bda00738b944df6b49acf0c3b859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 53/88] fix: do not crash on completing config

---
 nixd/lib/Controller/AST.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index baf0937..b733f1b 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -337,7 +337,9 @@ nixd::findAttrPathForOptions(const nixf::Node &N,
   if (R == FindAttrPathResult::OK) {
     // FIXME: Only do this in NixOS module files and in flakes only in module
     // functions passed to nixpkgs.lib.nixosSystem.
-    if (!Path.empty() && Path[0] == "config") {
+    //
+    // The last name may be just a prefix of some other name.
+    if (Path.size() > 1 && Path[0] == "config") {
       Path.erase(Path.begin());
     }
   }
-- 
2.43.0


From 2cf1ce71a3bc7dc9bb1576da5f2cc87bd51c37a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 54/88] fix: do not crash on the definition of a selection from
 an unknown name

---
 nixd/lib/Controller/Definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index a5ced0a..bb61368 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -305,7 +305,7 @@ Locations defineSelect(const ExprSelect &Sel, const VariableLookupAnalysis &VLA,
   // Maybe more data-flow analysis will be added though.
   try {
     return defineNixpkgsSelector(mkSelector(Sel, VLA, PM), NixpkgsClient);
-  } catch (IdiomSelectorException &E) {
+  } catch (std::exception &E) {
     elog("defintion/idiom/selector: {0}", E.what());
   }
   return {};
-- 
2.43.0


From 798c8f017080ddfb155e8c71d547c9df6259f996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 55/88] fix: do not crash on attribute sets in inherit or in
 dynamic names

---
 nixd/lib/Controller/AST.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index b733f1b..d285141 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -81,8 +81,9 @@ void getValueAttrPath(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
       return;
     }
   }
-  assert(false && "must have corresbonding value");
-  __builtin_unreachable();
+  // Not a value of some binding, e.g. it is in the expression of "inherit", or
+  // in a dynamic name. It is not nested in these attributes.
+  Path.clear();
 }
 
 void getNestedAttrPath(const nixf::AttrName &N,
-- 
2.43.0


From 6edb2c4ad2fe264a598addad3cf0a3dfacae73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 56/88] fix: do not hang or die with a dead worker

---
 nixd/include/nixd/Controller/Controller.h    |  7 ++++++-
 nixd/include/nixd/Support/StreamProc.h       |  3 +++
 nixd/lspserver/include/lspserver/LSPServer.h |  3 +++
 nixd/lspserver/src/LSPServer.cpp             | 19 ++++++++++++++++---
 nixd/tools/nixd.cpp                          |  5 +++++
 5 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index f49fac5..8a744d0 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -254,7 +254,12 @@ public:
   Controller(std::unique_ptr<lspserver::InboundPort> In,
              std::unique_ptr<lspserver::OutboundPort> Out);
 
-  ~Controller() override { Pool.join(); }
+  ~Controller() override {
+    Pool.join();
+    // The workers call back to the controller, so stop them at first.
+    Options.clear();
+    NixpkgsEval.reset();
+  }
 
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
diff --git a/nixd/include/nixd/Support/StreamProc.h b/nixd/include/nixd/Support/StreamProc.h
index bfba46b..82a13b3 100644
--- a/nixd/include/nixd/Support/StreamProc.h
+++ b/nixd/include/nixd/Support/StreamProc.h
@@ -19,6 +19,9 @@ public:
   /// value.
   StreamProc(const std::function<int()> &Action);
 
+  /// The process may be dead, it is fine if it does not get everything.
+  ~StreamProc() { Stream->clear_error(); }
+
   [[nodiscard]] llvm::raw_fd_ostream &stream() const {
     assert(Stream);
     return *Stream;
diff --git a/nixd/lspserver/include/lspserver/LSPServer.h b/nixd/lspserver/include/lspserver/LSPServer.h
index 14a946a..04537bd 100644
--- a/nixd/lspserver/include/lspserver/LSPServer.h
+++ b/nixd/lspserver/include/lspserver/LSPServer.h
@@ -41,6 +41,9 @@ private:
 
   int TopID = 1;
 
+  /// No more messages will be received, so calls get no replies.
+  bool Closed = false; // GUARDED_BY(PendingCallsLock)
+
   /// Allocate an "ID" (as returned value) for this callback.
   int bindReply(Callback<llvm::json::Value>);
 
diff --git a/nixd/lspserver/src/LSPServer.cpp b/nixd/lspserver/src/LSPServer.cpp
index 074f02d..3886a8d 100644
--- a/nixd/lspserver/src/LSPServer.cpp
+++ b/nixd/lspserver/src/LSPServer.cpp
@@ -12,7 +12,19 @@
 
 namespace lspserver {
 
-void LSPServer::run() { In->loop(*this); }
+void LSPServer::run() {
+  In->loop(*this);
+
+  // There will be no more replies, do not let the callers wait for them.
+  std::map<int, Callback<llvm::json::Value>> Calls;
+  {
+    std::lock_guard<std::mutex> _(PendingCallsLock);
+    Closed = true;
+    Calls.swap(PendingCalls);
+  }
+  for (auto &[ID, CB] : Calls)
+    CB(error("connection closed, no reply for request ({0})", ID));
+}
 
 bool LSPServer::onNotify(llvm::StringRef Method, llvm::json::Value Params) {
   log("<-- {0}", Method);
@@ -89,7 +101,7 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
     PendingCalls[Ret] = std::move(CB);
 
     // Check the limit
-    if (PendingCalls.size() > MaxPendingCalls) {
+    if (PendingCalls.size() > MaxPendingCalls || Closed) {
       auto Begin = PendingCalls.begin();
       OldestID = Begin->first;
       OldestCallback = std::move(Begin->second);
@@ -100,7 +112,8 @@ int LSPServer::bindReply(Callback<llvm::json::Value> CB) {
   if (OldestCallback) {
     (*OldestCallback)(
         error("failed to receive a client reply for request ({0})", OldestID));
-    elog("more than {0} outstanding LSP calls, forgetting about {1}",
+    elog("more than {0} outstanding LSP calls, or the connection is closed, "
+         "forgetting about {1}",
          MaxPendingCalls, OldestID);
   }
   return Ret;
diff --git a/nixd/tools/nixd.cpp b/nixd/tools/nixd.cpp
index 9417cf4..29fd9cf 100644
--- a/nixd/tools/nixd.cpp
+++ b/nixd/tools/nixd.cpp
@@ -9,6 +9,8 @@
 #include <llvm/ADT/ArrayRef.h>
 #include <llvm/Support/CommandLine.h>
 
+#include <csignal>
+
 using namespace lspserver;
 using namespace nixd;
 
@@ -67,6 +69,9 @@ int main(int argc, char *argv[]) {
     PrettyPrint = true;
   }
 
+  // Writing to a dead worker should not kill the server.
+  std::signal(SIGPIPE, SIG_IGN);
+
   StreamLogger Logger(llvm::errs(), LogLevel);
   LoggingSession Session(Logger);
 
-- 
2.43.0


From 69a2ae31d1bc2b956759b793f4e371d4b6254ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 57/88] fix: convert UTF-16 positions of requests to columns in
 bytes

---
 nixd/lib/Controller/CodeAction.cpp        |  2 +-
 nixd/lib/Controller/Completion.cpp        |  3 ++-
 nixd/lib/Controller/Convert.cpp           | 19 +++++++++++++++----
 nixd/lib/Controller/Convert.h             |  7 +++++--
 nixd/lib/Controller/Definition.cpp        |  3 ++-
 nixd/lib/Controller/DocumentHighlight.cpp |  3 ++-
 nixd/lib/Controller/FindReferences.cpp    |  3 ++-
 nixd/lib/Controller/Hover.cpp             |  2 +-
 nixd/lib/Controller/InlayHints.cpp        |  2 +-
 nixd/lib/Controller/Rename.cpp            |  6 ++++--
 10 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/nixd/lib/Controller/CodeAction.cpp b/nixd/lib/Controller/CodeAction.cpp
index 6e73711..4b1e69d 100644
--- a/nixd/lib/Controller/CodeAction.cpp
+++ b/nixd/lib/Controller/CodeAction.cpp
@@ -82,7 +82,7 @@ void Controller::onCodeAction(const lspserver::CodeActionParams &Params,
 
       // Add refactoring code actions based on cursor position
       if (TU->ast() && TU->parentMap()) {
-        nixf::PositionRange NixfRange = toNixfRange(Range);
+        nixf::PositionRange NixfRange = toNixfRange(TU->src(), Range);
         if (const nixf::Node *N = TU->ast()->descend(NixfRange)) {
           addAttrNameActions(*N, *TU->parentMap(), FileURI, TU->src(), Actions);
           addConvertToInheritAction(*N, *TU->parentMap(), FileURI, TU->src(),
diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index ffd3e5f..f0b7898 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -465,11 +465,12 @@ void Controller::onCompletion(const CompletionParams &Params,
                               Callback<CompletionList> Reply) {
   using CheckTy = CompletionList;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply([&]() -> llvm::Expected<CompletionList> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto *Desc = AST->descend({Pos, Pos});
       CheckDefault(Desc && canCompleteAt(*Desc));
diff --git a/nixd/lib/Controller/Convert.cpp b/nixd/lib/Controller/Convert.cpp
index 8d969f2..3d52205 100644
--- a/nixd/lib/Controller/Convert.cpp
+++ b/nixd/lib/Controller/Convert.cpp
@@ -29,12 +29,23 @@ lspserver::Position nixd::toLSPPosition(llvm::StringRef Code,
   return lspserver::offsetToPosition(Code, P.offset());
 }
 
-nixf::Position nixd::toNixfPosition(const lspserver::Position &P) {
-  return {P.line, P.character};
+nixf::Position nixd::toNixfPosition(llvm::StringRef Code,
+                                    const lspserver::Position &P) {
+  auto Offset = positionToOffset(Code, P);
+  if (!Offset) {
+    // Not in the text, there is nothing to be converted.
+    llvm::consumeError(Offset.takeError());
+    return {P.line, P.character};
+  }
+  // Columns are counted in bytes.
+  std::size_t NewLine = Code.take_front(*Offset).rfind('\n');
+  std::size_t StartOfLine = NewLine == llvm::StringRef::npos ? 0 : NewLine + 1;
+  return {P.line, static_cast<int64_t>(*Offset - StartOfLine)};
 }
 
-nixf::PositionRange nixd::toNixfRange(const lspserver::Range &P) {
-  return {toNixfPosition(P.start), toNixfPosition(P.end)};
+nixf::PositionRange nixd::toNixfRange(llvm::StringRef Code,
+                                      const lspserver::Range &P) {
+  return {toNixfPosition(Code, P.start), toNixfPosition(Code, P.end)};
 }
 
 lspserver::Range nixd::toLSPRange(llvm::StringRef Code,
diff --git a/nixd/lib/Controller/Convert.h b/nixd/lib/Controller/Convert.h
index d203b01..c41b817 100644
--- a/nixd/lib/Controller/Convert.h
+++ b/nixd/lib/Controller/Convert.h
@@ -13,9 +13,12 @@ namespace nixd {
 lspserver::Position toLSPPosition(llvm::StringRef Code,
                                   const nixf::LexerCursor &P);
 
-nixf::Position toNixfPosition(const lspserver::Position &P);
+/// \brief Convert LSP (UTF-16) position to nixf (byte) position in \p Code.
+nixf::Position toNixfPosition(llvm::StringRef Code,
+                              const lspserver::Position &P);
 
-nixf::PositionRange toNixfRange(const lspserver::Range &P);
+nixf::PositionRange toNixfRange(llvm::StringRef Code,
+                                const lspserver::Range &P);
 
 lspserver::Range toLSPRange(llvm::StringRef Code,
                             const nixf::LexerCursorRange &R);
diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index bb61368..634e3f2 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -386,11 +386,12 @@ void Controller::onDefinition(const TextDocumentPositionParams &Params,
                               Callback<llvm::json::Value> Reply) {
   using CheckTy = Locations;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file().str();
     return Reply(squash([&]() -> llvm::Expected<Locations> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &VLA = *TU->variableLookup();
       const auto &PM = *TU->parentMap();
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
diff --git a/nixd/lib/Controller/DocumentHighlight.cpp b/nixd/lib/Controller/DocumentHighlight.cpp
index e7fcdb9..3379364 100644
--- a/nixd/lib/Controller/DocumentHighlight.cpp
+++ b/nixd/lib/Controller/DocumentHighlight.cpp
@@ -58,11 +58,12 @@ void Controller::onDocumentHighlight(
     Callback<std::vector<DocumentHighlight>> Reply) {
   using CheckTy = std::vector<DocumentHighlight>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
       try {
diff --git a/nixd/lib/Controller/FindReferences.cpp b/nixd/lib/Controller/FindReferences.cpp
index 041388b..5e4251e 100644
--- a/nixd/lib/Controller/FindReferences.cpp
+++ b/nixd/lib/Controller/FindReferences.cpp
@@ -51,11 +51,12 @@ void Controller::onReferences(const TextDocumentPositionParams &Params,
                               Callback<std::vector<Location>> Reply) {
   using CheckTy = std::vector<Location>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     std::string File(URI.file());
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = CheckDefault(AST->descend({Pos, Pos}));
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
diff --git a/nixd/lib/Controller/Hover.cpp b/nixd/lib/Controller/Hover.cpp
index 556a2f9..286292a 100644
--- a/nixd/lib/Controller/Hover.cpp
+++ b/nixd/lib/Controller/Hover.cpp
@@ -213,7 +213,7 @@ void Controller::onHover(const TextDocumentPositionParams &Params,
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
-      const auto Pos = nixf::Position{RawPos.line, RawPos.character};
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &N = *CheckDefault(AST->descend({Pos, Pos}));
 
       const auto Name = std::string(N.name());
diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 2938e0a..4e505fd 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -65,7 +65,7 @@ public:
       : NixpkgsProvider(NixpkgsProvider), VLA(VLA), PMA(PMA), Hints(Hints),
         Src(Src) {
     if (Range)
-      this->Range = toNixfRange(*Range);
+      this->Range = toNixfRange(Src, *Range);
   }
 
   void dfs(const Node *N) {
diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index 973c9e7..d36475f 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -73,12 +73,13 @@ void Controller::onRename(const RenameParams &Params,
                           Callback<WorkspaceEdit> Reply) {
   using CheckTy = WorkspaceEdit;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position),
+                 RawPos = Params.position,
                  NewText = Params.newName, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<WorkspaceEdit> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
       const auto &Desc = *CheckReturn(
           AST->descend({Pos, Pos}),
           error("cannot find corresponding node on given position"));
@@ -100,11 +101,12 @@ void Controller::onPrepareRename(
     Callback<std::optional<lspserver::Range>> Reply) {
   using CheckTy = std::optional<lspserver::Range>;
   auto Action = [Reply = std::move(Reply), URI = Params.textDocument.uri,
-                 Pos = toNixfPosition(Params.position), this]() mutable {
+                 RawPos = Params.position, this]() mutable {
     const auto File = URI.file();
     return Reply([&]() -> llvm::Expected<CheckTy> {
       const auto TU = CheckDefault(getTU(File));
       const auto AST = CheckDefault(getAST(*TU));
+      const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto &Desc = *CheckDefault(AST->descend({Pos, Pos}));
 
-- 
2.43.0


From cae8975bf20f7a3937d4e3990a2a904388d0afc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 58/88] fix: find definitions at quoted names

---
 nixd/lib/Controller/Definition.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/Definition.cpp b/nixd/lib/Controller/Definition.cpp
index 634e3f2..92df505 100644
--- a/nixd/lib/Controller/Definition.cpp
+++ b/nixd/lib/Controller/Definition.cpp
@@ -49,9 +49,10 @@ const Definition *findSelfDefinition(const Node &N,
     return Def;
 
   // If N is inside an attrset, it maybe an "AttrName", let's look for it.
-  const Node *Parent = PMA.query(N);
-  if (Parent && Parent->kind() == Node::NK_AttrName)
-    return VLA.toDef(*Parent);
+  // Names may be quoted, so it is not always the direct parent.
+  const Node *Name = PMA.upTo(N, Node::NK_AttrName);
+  if (Name && static_cast<const AttrName &>(*Name).isStatic())
+    return VLA.toDef(*Name);
 
   return nullptr;
 }
-- 
2.43.0


From f574c4a49110a20b3d54eeab271e1680d234f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 59/88] fix: find names next to punctuation at the cursor

---
 libnixf/include/nixf/Basic/Nodes/Basic.h | 30 ++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/libnixf/include/nixf/Basic/Nodes/Basic.h b/libnixf/include/nixf/Basic/Nodes/Basic.h
index 23988d4..91ddc6e 100644
--- a/libnixf/include/nixf/Basic/Nodes/Basic.h
+++ b/libnixf/include/nixf/Basic/Nodes/Basic.h
@@ -30,6 +30,24 @@ protected:
   explicit Node(NodeKind Kind, LexerCursorRange Range)
       : Kind(Kind), Range(Range) {}
 
+  /// \brief Does \p Range only touch some punctuation of this node?
+  /// \p Desc is the descendant found for it.
+  [[nodiscard]] bool touchesPunctuation(const Node &Desc,
+                                        const PositionRange &Range) const {
+    if (!(positionRange().begin() == Range.end()) &&
+        !(positionRange().end() == Range.begin()))
+      return false;
+    switch (Desc.Kind) {
+    case NK_Misc:
+    case NK_Op:
+    case NK_Binding: // the semicolon
+    case NK_Inherit:
+      return true;
+    default:
+      return false;
+    }
+  }
+
 public:
   [[nodiscard]] NodeKind kind() const { return Kind; }
   [[nodiscard]] LexerCursorRange range() const { return Range; }
@@ -46,18 +64,26 @@ public:
   virtual ~Node() = default;
 
   /// \brief Descendant node that contains the given range.
+  ///
+  /// A cursor between two tokens touches both of them. In that case names and
+  /// literals are preferred to punctuation.
   [[nodiscard]] const Node *descend(PositionRange Range) const {
     if (!positionRange().contains(Range)) {
       return nullptr;
     }
+    const Node *Punctuation = nullptr;
     for (const auto &Child : children()) {
       if (!Child)
         continue;
       if (Child->positionRange().contains(Range)) {
-        return Child->descend(Range);
+        const Node *Desc = Child->descend(Range);
+        if (!Child->touchesPunctuation(*Desc, Range))
+          return Desc;
+        if (!Punctuation)
+          Punctuation = Desc;
       }
     }
-    return this;
+    return Punctuation ? Punctuation : this;
   }
 
   [[nodiscard]] std::string_view src(std::string_view Src) const {
-- 
2.43.0


From 133e18e99dc1fd38e4a5f42b5b6acf100125a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 60/88] fix: rename quoted, merged and inherited names
 correctly

---
 nixd/lib/Controller/Rename.cpp | 142 +++++++++++++++++++++++++++++++--
 1 file changed, 134 insertions(+), 8 deletions(-)

diff --git a/nixd/lib/Controller/Rename.cpp b/nixd/lib/Controller/Rename.cpp
index d36475f..ccb1d67 100644
--- a/nixd/lib/Controller/Rename.cpp
+++ b/nixd/lib/Controller/Rename.cpp
@@ -35,8 +35,117 @@ struct RenameBuiltinException : RenameException {
   }
 };
 
-WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
-                     const ParentMapAnalysis &PMA,
+struct RenameInheritedException : RenameException {
+  [[nodiscard]] const char *what() const noexcept override {
+    return "cannot rename this inherited variable";
+  }
+};
+
+/// \brief Get the AttrName, if \p N is (in) some name of `inherit`.
+const AttrName *findInheritedName(const Node *N, const ParentMapAnalysis &PMA) {
+  const Node *Name = N ? PMA.upTo(*N, Node::NK_AttrName) : nullptr;
+  const Node *Up = Name ? PMA.query(*Name) : nullptr;
+  if (!Up || Up->kind() != Node::NK_Inherit)
+    return nullptr;
+  return static_cast<const AttrName *>(Name);
+}
+
+/// \brief Take the name out of `inherit`, and add the binding instead.
+///
+/// Inherited names are definitions, and uses of the outer scope at the same
+/// time. After renaming just one of them there should be an explicit binding.
+void replaceInherited(const AttrName &Name, const ParentMapAnalysis &PMA,
+                      const std::string &Binding, llvm::StringRef Src,
+                      std::vector<lspserver::TextEdit> &Edits) {
+  const auto &Inh = static_cast<const Inherit &>(*PMA.query(Name));
+  if (Inh.names().size() == 1) {
+    Edits.emplace_back(lspserver::TextEdit{
+        .range = toLSPRange(Src, Inh.range()),
+        .newText = Binding,
+    });
+    return;
+  }
+  Edits.emplace_back(lspserver::TextEdit{
+      .range = toLSPRange(Src, Name.range()),
+      .newText = " ",
+  });
+  Edits.emplace_back(lspserver::TextEdit{
+      .range = toLSPRange(Src, {Inh.rCur(), Inh.rCur()}),
+      .newText = " " + Binding,
+  });
+}
+
+/// \brief Rename the inherited definition.
+///
+///    inherit x;           ~>  NewText = x;
+///    inherit (expr) x;    ~>  NewText = (expr).x;
+void renameInherited(const Definition &Def, const AttrName &Name,
+                     const std::string &NewText, const ParentMapAnalysis &PMA,
+                     llvm::StringRef Src,
+                     std::vector<lspserver::TextEdit> &Edits) {
+  const auto &Inh = static_cast<const Inherit &>(*PMA.query(Name));
+  std::string Value;
+  if (const auto &E = Inh.expr()) {
+    for (const auto *Use : Def.uses())
+      if (E->positionRange().contains(Use->positionRange()))
+        throw RenameInheritedException();
+    Value = "(" + std::string(E->src(Src)) + ")." + std::string(Name.src(Src));
+  } else {
+    // Quoted names are not valid variables.
+    if (Name.kind() != AttrName::ANK_ID)
+      throw RenameInheritedException();
+    Value = Name.staticName();
+  }
+  replaceInherited(Name, PMA, NewText + " = " + Value + ";", Src, Edits);
+}
+
+/// \brief Spell the new name at \p Syntax, attribute names stay quoted.
+std::string spellName(const Node &Syntax, const std::string &NewText) {
+  if (Syntax.kind() == Node::NK_AttrName) {
+    switch (static_cast<const AttrName &>(Syntax).kind()) {
+    case AttrName::ANK_ID:
+      break;
+    case AttrName::ANK_String:
+      return "\"" + NewText + "\"";
+    case AttrName::ANK_Interpolation:
+      return "${\"" + NewText + "\"}";
+    }
+  }
+  return NewText;
+}
+
+/// \brief Rename other bindings of the same attribute.
+///
+///    let a.b = 1; a.c = 2; in a
+///        ^        ^
+void renameMerged(const Node &Syntax, const std::string &NewText,
+                  const ParentMapAnalysis &PMA, llvm::StringRef Src,
+                  std::vector<lspserver::TextEdit> &Edits) {
+  if (Syntax.kind() != Node::NK_AttrName)
+    return;
+  const auto &Name = static_cast<const AttrName &>(Syntax);
+  const Node *Path = PMA.query(Syntax);
+  const Node *Up = PMA.upTo(Syntax, Node::NK_Binds);
+  if (!Up || !Name.isStatic() || !Path || Path->kind() != Node::NK_AttrPath ||
+      static_cast<const AttrPath *>(Path)->names().front().get() != &Name)
+    return;
+  for (const auto &Bind : static_cast<const Binds &>(*Up).bindings()) {
+    if (Bind->kind() != Node::NK_Binding)
+      continue;
+    const auto &First =
+        *static_cast<const Binding &>(*Bind).path().names().front();
+    if (&First == &Name || !First.isStatic() ||
+        First.staticName() != Name.staticName())
+      continue;
+    Edits.emplace_back(lspserver::TextEdit{
+        .range = toLSPRange(Src, First.range()),
+        .newText = spellName(First, NewText),
+    });
+  }
+}
+
+WorkspaceEdit rename(const nixf::Node &Root, const nixf::Node &Desc,
+                     const std::string &NewText, const ParentMapAnalysis &PMA,
                      const VariableLookupAnalysis &VLA, const URIForFile &URI,
                      llvm::StringRef Src) {
   using lspserver::TextEdit;
@@ -52,16 +161,33 @@ WorkspaceEdit rename(const nixf::Node &Desc, const std::string &NewText,
   std::vector<TextEdit> Edits;
 
   for (const auto *Use : Def.uses()) {
+    // Inherited variables are desugared, they do not exist in the AST.
+    if (!PMA.query(*Use)) {
+      if (const auto *Name =
+              findInheritedName(Root.descend(Use->positionRange()), PMA)) {
+        // inherit x;    ~>    x = NewText;
+        replaceInherited(*Name, PMA,
+                         std::string(Name->src(Src)) + " = " + NewText + ";",
+                         Src, Edits);
+        continue;
+      }
+    }
     Edits.emplace_back(TextEdit{
         .range = toLSPRange(Src, Use->range()),
         .newText = NewText,
     });
   }
 
-  Edits.emplace_back(TextEdit{
-      .range = toLSPRange(Src, Def.syntax()->range()),
-      .newText = NewText,
-  });
+  const Node &Syntax = *Def.syntax();
+  if (const auto *Name = findInheritedName(&Syntax, PMA)) {
+    renameInherited(Def, *Name, NewText, PMA, Src, Edits);
+  } else {
+    Edits.emplace_back(TextEdit{
+        .range = toLSPRange(Src, Syntax.range()),
+        .newText = spellName(Syntax, NewText),
+    });
+    renameMerged(Syntax, NewText, PMA, Src, Edits);
+  }
   WorkspaceEdit WE;
   WE.changes = std::map<std::string, std::vector<TextEdit>>{
       {URI.uri(), std::move(Edits)}};
@@ -87,7 +213,7 @@ void Controller::onRename(const RenameParams &Params,
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        return rename(Desc, NewText, PM, VLA, URI, TU->src());
+        return rename(*AST, Desc, NewText, PM, VLA, URI, TU->src());
       } catch (std::exception &E) {
         return error(E.what());
       }
@@ -113,7 +239,7 @@ void Controller::onPrepareRename(
       const auto &PM = *TU->parentMap();
       const auto &VLA = *TU->variableLookup();
       try {
-        WorkspaceEdit WE = rename(Desc, "", PM, VLA, URI, TU->src());
+        WorkspaceEdit WE = rename(*AST, Desc, "", PM, VLA, URI, TU->src());
         return toLSPRange(TU->src(), Desc.range());
       } catch (std::exception &E) {
         return error(E.what());
-- 
2.43.0


From 3e8b9bb719285ee70629aa58945a3bc91b24bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 61/88] fix: count the length of semantic tokens in UTF-16
 units

---
 nixd/lib/Controller/SemanticTokens.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/SemanticTokens.cpp b/nixd/lib/Controller/SemanticTokens.cpp
index 42716d9..d9a933f 100644
--- a/nixd/lib/Controller/SemanticTokens.cpp
+++ b/nixd/lib/Controller/SemanticTokens.cpp
@@ -86,8 +86,10 @@ public:
     return N.range().lCur().line() != N.range().rCur().line();
   }
 
-  static unsigned len(const Node &N) {
-    return N.range().rCur().offset() - N.range().lCur().offset();
+  /// Length of a single-line node, in UTF-16 code units.
+  unsigned len(const Node &N) const {
+    auto R = toLSPRange(Src, N.range());
+    return R.end.character - R.start.character;
   }
 
   void dfs(const ExprString &Str) {
-- 
2.43.0


From 4c4fc2a76d78017ae72d5110bfe62a378b82c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 62/88] fix: no blank names in document symbols

---
 nixd/lib/Controller/DocumentSymbol.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nixd/lib/Controller/DocumentSymbol.cpp b/nixd/lib/Controller/DocumentSymbol.cpp
index da23f25..4bed287 100644
--- a/nixd/lib/Controller/DocumentSymbol.cpp
+++ b/nixd/lib/Controller/DocumentSymbol.cpp
@@ -42,6 +42,13 @@ lspserver::Range getLambdaSelectionRage(llvm::StringRef Src,
   return toLSPRange(Src, Lambda.arg()->id()->range());
 }
 
+/// Names of symbols must not be empty, nor consist of white spaces only.
+std::string symbolName(const std::string &Name) {
+  if (llvm::StringRef(Name).trim().empty())
+    return '"' + Name + '"';
+  return Name;
+}
+
 lspserver::Range getAttrRange(llvm::StringRef Src, const Attribute &Attr) {
   auto LCur = toLSPPosition(Src, Attr.key().lCur());
   if (Attr.value())
@@ -89,7 +96,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_ExprString: {
     const auto &Str = static_cast<const ExprString &>(*AST);
     DocumentSymbol Sym{
-        .name = Str.isLiteral() ? Str.literal() : "(dynamic string)",
+        .name = Str.isLiteral() ? symbolName(Str.literal()) : "(dynamic string)",
         .detail = "string",
         .kind = SymbolKind::String,
         .deprecated = false,
@@ -131,7 +138,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
   case Node::NK_AttrName: {
     const auto &AN = static_cast<const AttrName &>(*AST);
     DocumentSymbol Sym{
-        .name = AN.isStatic() ? AN.staticName() : "(dynamic attribute name)",
+        .name = AN.isStatic() ? symbolName(AN.staticName()) : "(dynamic attribute name)",
         .detail = "attribute name",
         .kind = SymbolKind::Property,
         .deprecated = false,
@@ -199,7 +206,7 @@ void collect(const Node *AST, std::vector<DocumentSymbol> &Symbols,
       std::vector<DocumentSymbol> Children;
       collect(Attr.value(), Children, VLA, Src);
       DocumentSymbol Sym{
-          .name = Name,
+          .name = symbolName(Name),
           .detail = "attribute",
           .kind = SymbolKind::Field,
           .deprecated = false,
-- 
2.43.0


From 3dcf97f41ca08eb31d42009fc21f1a79cd844c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 63/88] fix: no inlay hints at local names

---
 nixd/lib/Controller/InlayHints.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/InlayHints.cpp b/nixd/lib/Controller/InlayHints.cpp
index 4e505fd..1ac5338 100644
--- a/nixd/lib/Controller/InlayHints.cpp
+++ b/nixd/lib/Controller/InlayHints.cpp
@@ -72,7 +72,11 @@ public:
     if (!N)
       return;
     if (N->kind() == Node::NK_ExprVar) {
-      if (havePackageScope(*N, VLA, PMA)) {
+      // Only names that may come from the "with", not local ones.
+      using ResultKind = VariableLookupAnalysis::LookupResultKind;
+      if (VLA.query(static_cast<const ExprVar &>(*N)).Kind ==
+              ResultKind::FromWith &&
+          havePackageScope(*N, VLA, PMA)) {
         if (!rangeOK(N->positionRange()))
           return;
         // Ask nixpkgs eval to provide it's information.
-- 
2.43.0


From 22e0b04a14f62174e3b3876e523e4bc9399b2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:18 +0000
Subject: [PATCH 64/88] fix: extract to a file beside a document with a special
 name

---
 .../Controller/CodeActions/ExtractToFile.cpp  | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
index 9d3fd9b..95698a1 100644
--- a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
+++ b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
@@ -6,6 +6,8 @@
 
 #include "../Convert.h"
 
+#include "lspserver/URI.h"
+
 #include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Expr.h>
 #include <nixf/Basic/Nodes/Lambda.h>
@@ -189,16 +191,6 @@ std::string generateImportStatement(const std::string &Filename,
   return Import;
 }
 
-/// \brief Strip the "file://" scheme prefix from a URI if present.
-///
-/// LSP URIs typically have the form "file:///path/to/file", but
-/// URIForFile::canonicalize expects a filesystem path without the scheme.
-std::string stripFileScheme(llvm::StringRef URI) {
-  if (URI.starts_with("file://"))
-    return URI.drop_front(7).str();
-  return URI.str();
-}
-
 /// \brief Generate a unique filename by appending a numeric suffix if needed.
 ///
 /// If the file already exists, tries filename-1.nix, filename-2.nix, etc.
@@ -343,7 +335,12 @@ void addExtractToFileAction(const nixf::Node &N,
   std::string BaseFilename = generateFilename(*ExprNode, PM);
 
   // Build the directory path for the new file (same directory as source)
-  std::string SourceFilePath = stripFileScheme(FileURI);
+  auto SourcePath = lspserver::URI::resolve(FileURI);
+  if (!SourcePath) {
+    llvm::consumeError(SourcePath.takeError());
+    return;
+  }
+  std::string SourceFilePath = std::move(*SourcePath);
   llvm::SmallString<256> Directory(SourceFilePath);
   llvm::sys::path::remove_filename(Directory);
 
-- 
2.43.0


From aada035aaa42cb3de4b47eb9f1a12fb0b14976db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:49 +0000
Subject: [PATCH 65/88] fix: do not publish stale diagnostics when the
 configuration changes

---
 nixd/lib/Controller/Support.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index d9c1670..1ef04e9 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -44,10 +44,11 @@ void Controller::actOnDocumentAdd(PathRef File,
     auto VLA = std::make_unique<nixf::VariableLookupAnalysis>(Diagnostics);
     VLA->runOnAST(*AST);
 
-    publishDiagnostics(File, Version, *Src, Diagnostics);
-
     {
+      // Publish under the lock: otherwise a change of the configuration may
+      // publish the diagnostics of the previous text after these.
       std::lock_guard G(TUsLock);
+      publishDiagnostics(File, Version, *Src, Diagnostics);
       TUs.insert_or_assign(
           File, std::make_shared<NixTU>(std::move(Diagnostics), std::move(AST),
                                         std::nullopt, std::move(VLA), Src));
-- 
2.43.0


From 0da5a341066ee7633cfc0baef97c5e24cd5661b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 66/88] fix: names under several with come from the innermost
 one

---
 nixd/lib/Controller/AST.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/nixd/lib/Controller/AST.cpp b/nixd/lib/Controller/AST.cpp
index d285141..c3cc689 100644
--- a/nixd/lib/Controller/AST.cpp
+++ b/nixd/lib/Controller/AST.cpp
@@ -209,11 +209,6 @@ nixd::idioms::mkVarSelector(const nixf::ExprVar &Var,
   case ResultKind::Defined:
     return varSelector(Var);
   case ResultKind::FromWith: {
-    assert(Result.Def && "FromWith variables should contains definition");
-    const nixf::Definition &Def = *Result.Def;
-    if (!Def.syntax())
-      throw NotAnIdiomException();
-
     // The syntax
     //
     //    with pkgs; with lib; [ ]
@@ -222,12 +217,9 @@ nixd::idioms::mkVarSelector(const nixf::ExprVar &Var,
     //
     // However, in current implementation we will only consider nested "with".
     // That is, only "lib" variables will be considered.
-    const nixf::Node &Syntax = *Def.syntax();
-    const nixf::Node *With = PM.query(Syntax);
-    assert(With && "parent of kwWith should be the with expression");
-    assert(With->kind() == nixf::Node::NK_ExprWith);
-    Selector WithSelector =
-        withSelector(static_cast<const nixf::ExprWith &>(*With), VLA, PM);
+    const auto WithScopes = VLA.getWithScopes(Var);
+    assert(!WithScopes.empty() && "FromWith variables should be under `with`");
+    Selector WithSelector = withSelector(*WithScopes.front(), VLA, PM);
 
     // Append variable name after "with" expression selector.
     // e.g.
-- 
2.43.0


From 3668a2c7d6f6f8df7ae2a9b653f35fb4bf9d4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:52 +0000
Subject: [PATCH 67/88] fix: complete names as they have to be written at the
 cursor

---
 nixd/lib/Controller/Completion.cpp | 113 +++++++++++++++++++++--------
 1 file changed, 82 insertions(+), 31 deletions(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index f0b7898..5f6846f 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -5,6 +5,7 @@
 
 #include "AST.h"
 #include "CheckReturn.h"
+#include "CodeActions/Utils.h"
 #include "Convert.h"
 
 #include "lspserver/Protocol.h"
@@ -62,6 +63,23 @@ bool canCompleteAt(const Node &N) {
   return N.kind() == Node::NK_Binds || N.kind() == Node::NK_ExprAttrs;
 }
 
+/// The dot just before \p Pos, if no name of the selection follows it.
+/// e.g. `lib.|`
+const Dot *getTrailingDot(const Node &N, nixf::Position Pos) {
+  if (N.kind() != Node::NK_ExprSelect)
+    return nullptr;
+  const auto &Select = static_cast<const ExprSelect &>(N);
+  if (Select.path() || !Select.dot())
+    return nullptr;
+  return Select.dot()->rCur().position() == Pos ? Select.dot() : nullptr;
+}
+
+/// Check whether variables may refer to the name, i.e. it needs no quotes.
+bool canBeVariable(const std::string &Name) {
+  return isValidNixIdentifier(Name) || Name == "true" || Name == "false" ||
+         Name == "null";
+}
+
 class VLACompletionProvider {
   const VariableLookupAnalysis &VLA;
 
@@ -73,15 +91,25 @@ class VLACompletionProvider {
   }
 
   /// Collect definition on some env, and also it's ancestors.
+  /// \param Shadowed Names already defined in inner scopes.
   void collectDef(std::vector<CompletionItem> &Items, const EnvNode *Env,
-                  const std::string &Prefix) {
+                  const std::string &Prefix,
+                  const std::set<std::string> &Shadowed = {}) {
     if (!Env)
       return;
-    collectDef(Items, Env->parent(), Prefix);
+    std::set<std::string> Inner = Shadowed;
+    for (const auto &[Name, _] : Env->defs())
+      Inner.insert(Name);
+    collectDef(Items, Env->parent(), Prefix, Inner);
     for (const auto &[Name, Def] : Env->defs()) {
       if (Name.starts_with(
               "__")) // These names are nix internal implementation, skip.
         continue;
+      if (Shadowed.contains(Name))
+        continue;
+      // The name has to be quoted, variables cannot refer to it.
+      if (!canBeVariable(Name))
+        continue;
       assert(Def);
       if (Name.starts_with(Prefix)) {
         addItem(Items, CompletionItem{
@@ -141,8 +169,9 @@ public:
   }
 
   /// \brief Ask nixpkgs provider, give us a list of names. (thunks)
+  /// \param IsVariable The name is a variable, it cannot be quoted.
   void completePackages(const lspserver::Range EditRange,
-                        const AttrPathCompleteParams &Params,
+                        const AttrPathCompleteParams &Params, bool IsVariable,
                         std::vector<CompletionItem> &Items) {
     std::binary_semaphore Ready(0);
     std::vector<std::string> Names;
@@ -161,15 +190,19 @@ public:
     Ready.acquire();
     // Now we have "Names", use these to fill "Items".
     for (const auto &Name : Names) {
-      if (Name.starts_with(Params.Prefix)) {
-        addItem(Items, CompletionItem{
-                           .label = Name,
-                           .kind = CompletionItemKind::Field,
-                           .textEdit = lspserver::TextEdit{.range = EditRange,
-                                                           .newText = Name},
-                           .data = llvm::formatv("{0}", toJSON(Params)),
-                       });
-      }
+      if (!Name.starts_with(Params.Prefix))
+        continue;
+      if (IsVariable && !canBeVariable(Name))
+        continue;
+      addItem(
+          Items,
+          CompletionItem{
+              .label = Name,
+              .kind = CompletionItemKind::Field,
+              .textEdit = lspserver::TextEdit{.range = EditRange,
+                                              .newText = quoteNixAttrKey(Name)},
+              .data = llvm::formatv("{0}", toJSON(Params)),
+          });
     }
   }
 };
@@ -204,13 +237,13 @@ class OptionCompletionProvider {
                       const std::string &Value) const {
     if (!ClientSupportSnippet) {
       Item.insertTextFormat = InsertTextFormat::PlainText;
-      Item.insertText = Name + " = " + Value + ";";
+      Item.insertText = quoteNixAttrKey(Name) + " = " + Value + ";";
       return;
     }
     Item.insertTextFormat = InsertTextFormat::Snippet;
-    Item.insertText = Name + " = " +
-                      "${1:" + escapeCharacters({'\\', '$', '}'}, Value) + "}" +
-                      ";";
+    Item.insertText =
+        escapeCharacters({'\\', '$', '}'}, quoteNixAttrKey(Name)) + " = " +
+        "${1:" + escapeCharacters({'\\', '$', '}'}, Value) + "}" + ";";
   }
 
 public:
@@ -252,12 +285,16 @@ public:
     };
     for (const nixd::OptionField &Field : Names) {
       if (!Field.Description) {
-        addItem(Items, CompletionItem{
-                           .label = Field.Name,
-                           .kind = OptionAttrKind,
-                           .detail = ModuleOrigin,
-                           .textEdit = MkTextEdit(Field.Name),
-                       });
+        const std::string Quoted = quoteNixAttrKey(Field.Name);
+        CompletionItem Item{
+            .label = Field.Name,
+            .kind = OptionAttrKind,
+            .detail = ModuleOrigin,
+            .textEdit = MkTextEdit(Quoted),
+        };
+        if (Quoted != Field.Name)
+          Item.insertText = Quoted;
+        addItem(Items, std::move(Item));
         continue;
       }
 
@@ -408,7 +445,8 @@ void completeVarName(const lspserver::Range EditRange,
     // Invoke nixpkgs provider to get the completion list.
     NixpkgsCompletionProvider NCP(Client);
     // Variable names are always incomplete.
-    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false), List);
+    NCP.completePackages(EditRange, mkParams(Sel, /*IsComplete=*/false),
+                         /*IsVariable=*/true, List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
@@ -420,12 +458,13 @@ void completeVarName(const lspserver::Range EditRange,
 }
 
 /// \brief Complete a "select" expression.
+/// \param N The name, or the dot to be completed. Names after it do not matter.
 /// \param IsComplete Whether or not the last element of the selector is
 /// effectively incomplete.
 /// e.g.
 ///      - incomplete: `lib.gen|`
 ///      - complete:   `lib.attrset.|`
-void completeSelect(const lspserver::Range EditRange,
+void completeSelect(const lspserver::Range EditRange, const nixf::Node &N,
                     const nixf::ExprSelect &Select, AttrSetClient &Client,
                     const nixf::VariableLookupAnalysis &VLA,
                     const nixf::ParentMapAnalysis &PM, bool IsComplete,
@@ -446,9 +485,19 @@ void completeSelect(const lspserver::Range EditRange,
   NixpkgsCompletionProvider NCP(Client);
 
   try {
-    Selector Sel =
-        idioms::mkSelector(Select, idioms::mkVarSelector(Var, VLA, PM));
-    NCP.completePackages(EditRange, mkParams(Sel, IsComplete), List);
+    Selector Sel = idioms::mkVarSelector(Var, VLA, PM);
+    if (Select.path()) {
+      const auto &Path = static_cast<const nixf::AttrPath &>(*Select.path());
+      for (const auto &Name : Path.names()) {
+        if (Name->lCur().offset() >= N.rCur().offset())
+          break;
+        if (!Name->isStatic())
+          throw idioms::DynamicNameException();
+        Sel.emplace_back(Name->staticName());
+      }
+    }
+    NCP.completePackages(EditRange, mkParams(Sel, IsComplete),
+                         /*IsVariable=*/false, List);
   } catch (ExceedSizeError &) {
     // Let "onCompletion" catch this exception to set "inComplete" field.
     throw;
@@ -473,11 +522,13 @@ void Controller::onCompletion(const CompletionParams &Params,
       const auto Pos = toNixfPosition(TU->src(), RawPos);
 
       const auto *Desc = AST->descend({Pos, Pos});
-      CheckDefault(Desc && canCompleteAt(*Desc));
+      CheckDefault(Desc);
+      const Dot *TrailingDot = getTrailingDot(*Desc, Pos);
+      CheckDefault(TrailingDot || canCompleteAt(*Desc));
 
-      const auto &N = *Desc;
+      const Node &N = TrailingDot ? *TrailingDot : *Desc;
       const auto &PM = *TU->parentMap();
-      const auto &UpExpr = *CheckDefault(PM.upExpr(N));
+      const auto &UpExpr = *CheckDefault(PM.upExpr(*Desc));
 
       lspserver::Range EditRange = toLSPRange(TU->src(), N.range());
       if (N.kind() == Node::NK_Dot) {
@@ -503,7 +554,7 @@ void Controller::onCompletion(const CompletionParams &Params,
           // foo.a.bar|
           case Node::NK_ExprSelect: {
             const auto &Select = static_cast<const nixf::ExprSelect &>(UpExpr);
-            completeSelect(EditRange, Select, *nixpkgsClient(), VLA, PM,
+            completeSelect(EditRange, N, Select, *nixpkgsClient(), VLA, PM,
                            N.kind() == Node::NK_Dot, List.items);
             return List;
           }
-- 
2.43.0


From 7ecb60d4196a36e84c8943a9ca5fe49d2e289381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 68/88] fix: unquoting a name does not join it with its
 neighbours

---
 nixd/lib/Controller/CodeActions/AttrName.cpp | 38 +++++++++++++++++---
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AttrName.cpp b/nixd/lib/Controller/CodeActions/AttrName.cpp
index fa76862..2349eb0 100644
--- a/nixd/lib/Controller/CodeActions/AttrName.cpp
+++ b/nixd/lib/Controller/CodeActions/AttrName.cpp
@@ -8,8 +8,38 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
+#include <llvm/ADT/StringExtras.h>
+
 namespace nixd {
 
+namespace {
+
+/// Characters of identifiers.
+bool isIdentifierChar(char C) {
+  return llvm::isAlnum(C) || C == '_' || C == '\'' || C == '-';
+}
+
+/// \brief Unquote \p Name, without joining it with the tokens around.
+std::string unquoted(const std::string &Name, llvm::StringRef Src,
+                     const nixf::AttrName &AN) {
+  llvm::StringRef Before = Src.take_front(AN.lCur().offset());
+  llvm::StringRef After = Src.drop_front(AN.rCur().offset());
+  std::string Result = Name;
+  if (!Before.empty() && isIdentifierChar(Before.back()))
+    Result = " " + Result;
+  if (After.empty())
+    return Result;
+  // e.g. `a."b"or c`, or `a."b"/c`, they are paths without quotes.
+  llvm::StringRef Rest = After.drop_while([](char C) {
+    return llvm::isAlnum(C) || llvm::StringRef("._-+").contains(C);
+  });
+  if (isIdentifierChar(After.front()) || Rest.starts_with("/"))
+    Result += " ";
+  return Result;
+}
+
+} // namespace
+
 void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
                         const std::string &FileURI, llvm::StringRef Src,
                         std::vector<lspserver::CodeAction> &Actions) {
@@ -30,10 +60,10 @@ void addAttrNameActions(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     // Offer to unquote if valid identifier: "foo" -> foo
     const std::string &Name = AN.staticName();
     if (isValidNixIdentifier(Name)) {
-      Actions.emplace_back(
-          createSingleEditAction("Unquote attribute name",
-                                 lspserver::CodeAction::REFACTOR_REWRITE_KIND,
-                                 FileURI, toLSPRange(Src, AN.range()), Name));
+      Actions.emplace_back(createSingleEditAction(
+          "Unquote attribute name",
+          lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
+          toLSPRange(Src, AN.range()), unquoted(Name, Src, AN)));
     }
   }
 }
-- 
2.43.0


From 7968bf02120c368e1af3cd1283e4242fc731c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 69/88] fix: convert to inherit keeps the source expression as
 written

---
 .../CodeActions/ConvertToInherit.cpp          | 25 +++++++++----------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp b/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
index 80a21c2..3b9e9aa 100644
--- a/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
+++ b/nixd/lib/Controller/CodeActions/ConvertToInherit.cpp
@@ -79,22 +79,21 @@ void addConvertToInheritAction(const nixf::Node &N,
     if (LastSegment->staticName() != AttrName)
       return;
 
-    // Build the source expression text:
-    // - Start with the base expression (e.g., "lib" from lib.nested.x)
-    // - Add any intermediate path segments (e.g., ".nested")
-    const nixf::Expr &BaseExpr = Sel.expr();
-    std::string SourceText =
-        Src.slice(BaseExpr.lCur().offset(), BaseExpr.rCur().offset()).str();
-
-    // Add intermediate path segments (all except the last one)
-    for (size_t I = 0; I + 1 < SelPath.size(); ++I) {
-      const auto &Segment = SelPath[I];
+    // Bail out if any intermediate segment is dynamic
+    for (const auto &Segment : SelPath) {
       if (!Segment || !Segment->isStatic())
-        return; // Bail out if any intermediate segment is dynamic
-      SourceText += ".";
-      SourceText += quoteNixAttrKey(Segment->staticName());
+        return;
     }
 
+    // Take the source expression text, all except the last segment
+    // (e.g., "lib.nested" from lib.nested.x), as it is written. Joining the
+    // parts may have another meaning (e.g., "1 .a" is not "1.a").
+    const nixf::LexerCursor SourceEnd =
+        SelPath.size() > 1 ? SelPath[SelPath.size() - 2]->rCur()
+                           : Sel.expr().rCur();
+    std::string SourceText =
+        Src.slice(Sel.expr().lCur().offset(), SourceEnd.offset()).str();
+
     std::string NewText =
         "inherit (" + SourceText + ") " + quoteNixAttrKey(AttrName) + ";";
     Actions.emplace_back(createSingleEditAction(
-- 
2.43.0


From 3923be76c84a15616831b7da52857e91f3caf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 70/88] fix: inherit to binding keeps the meaning

---
 .../CodeActions/InheritToBinding.cpp          | 37 ++++++++++++++++++-
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
index faa5fbe..6effa34 100644
--- a/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
+++ b/nixd/lib/Controller/CodeActions/InheritToBinding.cpp
@@ -7,11 +7,34 @@
 #include "../Convert.h"
 
 #include <nixf/Basic/Nodes/Attrs.h>
+#include <nixf/Basic/Nodes/Expr.h>
 
 #include <sstream>
 
 namespace nixd {
 
+namespace {
+
+/// \brief Whether attributes can be selected from \p E without parentheses.
+bool isSelectable(const nixf::Expr &E) {
+  switch (E.kind()) {
+  case nixf::Node::NK_ExprVar:
+  case nixf::Node::NK_ExprParen:
+  case nixf::Node::NK_ExprAttrs:
+  case nixf::Node::NK_ExprList:
+  case nixf::Node::NK_ExprString:
+    return true;
+  case nixf::Node::NK_ExprSelect: {
+    const auto &Select = static_cast<const nixf::ExprSelect &>(E);
+    return Select.path() && !Select.defaultExpr();
+  }
+  default:
+    return false;
+  }
+}
+
+} // namespace
+
 void addInheritToBindingAction(const nixf::Node &N,
                                const nixf::ParentMapAnalysis &PM,
                                const std::string &FileURI, llvm::StringRef Src,
@@ -45,13 +68,23 @@ void addInheritToBindingAction(const nixf::Node &N,
 
   // Build the replacement text
   std::ostringstream NewText;
-  NewText << AttrName << " = ";
+  NewText << quoteNixAttrKey(AttrName) << " = ";
 
   if (Inherit.expr()) {
     // inherit (expr) name; -> name = expr.name;
-    NewText << Inherit.expr()->src(Src) << "." << AttrName;
+    const bool Selectable = isSelectable(*Inherit.expr());
+    NewText << (Selectable ? "" : "(") << Inherit.expr()->src(Src)
+            << (Selectable ? "." : ").") << quoteNixAttrKey(AttrName);
   } else {
     // inherit name; -> name = name;
+    // In recursive sets, the value would be the attribute itself.
+    const nixf::Node *Attrs = PM.upTo(Inherit, nixf::Node::NK_ExprAttrs);
+    if (Attrs && static_cast<const nixf::ExprAttrs &>(*Attrs).isRecursive())
+      return;
+    // There is no such variable, names of variables cannot be quoted.
+    if (!isValidNixIdentifier(AttrName) && AttrName != "true" &&
+        AttrName != "false" && AttrName != "null")
+      return;
     NewText << AttrName;
   }
   NewText << ";";
-- 
2.43.0


From f4d7385cad0afa64320023d49bcb16840bcab10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:58 +0000
Subject: [PATCH 71/88] fix: packing attributes keeps all bindings and values

---
 nixd/lib/Controller/CodeActions/PackAttrs.cpp | 375 +++++++++++++-----
 1 file changed, 267 insertions(+), 108 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/PackAttrs.cpp b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
index 2aec25f..44b29be 100644
--- a/nixd/lib/Controller/CodeActions/PackAttrs.cpp
+++ b/nixd/lib/Controller/CodeActions/PackAttrs.cpp
@@ -8,6 +8,8 @@
 
 #include <nixf/Basic/Nodes/Attrs.h>
 
+#include <map>
+#include <memory>
 #include <optional>
 
 namespace nixd {
@@ -50,48 +52,181 @@ size_t getSiblingCount(const nixf::Binding &Bind,
   return NestedSA.staticAttrs().size();
 }
 
-/// \brief Recursively generate nested attribute set text from SemaAttrs.
-/// This produces the fully packed/nested form of attributes.
-/// \param Depth Current recursion depth (for safety limit)
-void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
-                        std::string &Out, size_t Depth = 0) {
-  // Safety check: prevent stack overflow from deeply nested structures
-  if (Depth > MaxNestedDepth) {
-    Out += "{ /* max depth exceeded */ }";
-    return;
+/// \brief The packed form of bindings.
+struct PackedAttrs {
+  /// Either the source text of a value, or nested attributes.
+  struct Entry {
+    std::string Text;
+    std::unique_ptr<PackedAttrs> Nested;
+  };
+  std::map<std::string, Entry> Entries;
+  /// Inherits, in the order of source.
+  std::vector<std::string> Inherits;
+
+  /// \brief Insert the binding, without first \p Skip names.
+  /// \return false if it cannot be packed with others.
+  bool insert(const nixf::Binding &Bind, size_t Skip, llvm::StringRef Src,
+              size_t Depth) {
+    const auto &Names = Bind.path().names();
+    // Prevent stack overflow from deeply nested structures.
+    if (Depth + Names.size() > MaxNestedDepth || !Bind.value())
+      return false;
+    PackedAttrs *Into = this;
+    for (size_t I = Skip; I < Names.size(); ++I) {
+      if (!Names[I]->isStatic())
+        return false;
+      if (I + 1 == Names.size())
+        return Into->insertValue(Names[I]->staticName(), *Bind.value(), Src,
+                                 Depth + I);
+      auto [It, New] = Into->Entries.try_emplace(Names[I]->staticName());
+      if (New)
+        It->second.Nested = std::make_unique<PackedAttrs>();
+      if (!It->second.Nested)
+        return false;
+      Into = It->second.Nested.get();
+    }
+    // All names are skipped, e.g. "foo = { ... }".
+    return Into->insertAll(*Bind.value(), Src, Depth + 1);
   }
 
-  Out += "{ ";
-  bool First = true;
-  for (const auto &[Key, Attr] : SA.staticAttrs()) {
-    if (!First)
-      Out += " ";
-    First = false;
+  /// \brief Insert all bindings of the attribute set.
+  bool insertAll(const nixf::Expr &Value, llvm::StringRef Src, size_t Depth) {
+    if (!isPackable(Value))
+      return false;
+    for (const auto &Child :
+         static_cast<const nixf::ExprAttrs &>(Value).binds()->bindings()) {
+      if (Child->kind() == nixf::Node::NK_Inherit) {
+        Inherits.emplace_back(Child->src(Src));
+        continue;
+      }
+      if (!insert(static_cast<const nixf::Binding &>(*Child), /*Skip=*/0, Src,
+                  Depth))
+        return false;
+    }
+    return true;
+  }
 
-    // Output the key, quoting if necessary
-    Out += quoteNixAttrKey(Key);
-    Out += " = ";
-
-    // Check if value is a nested ExprAttrs that needs recursive generation
-    if (Attr.value() && Attr.value()->kind() == nixf::Node::NK_ExprAttrs) {
-      const auto &NestedAttrs =
-          static_cast<const nixf::ExprAttrs &>(*Attr.value());
-      const nixf::SemaAttrs &NestedSA = NestedAttrs.sema();
-
-      // If all nested attrs come from dotted paths (no inherit, no dynamic),
-      // we can generate recursively
-      if (NestedSA.dynamicAttrs().empty() && !Attr.fromInherit()) {
-        generateNestedText(NestedSA, Src, Out, Depth + 1);
-      } else {
-        // Use original source text
-        Out += Attr.value()->src(Src);
+  void print(std::string &Out) const {
+    Out += "{ ";
+    bool First = true;
+    for (const auto &[Key, Entry] : Entries) {
+      if (!First)
+        Out += " ";
+      First = false;
+      Out += quoteNixAttrKey(Key);
+      Out += " = ";
+      if (Entry.Nested)
+        Entry.Nested->print(Out);
+      else
+        Out += Entry.Text;
+      Out += ";";
+    }
+    for (const std::string &Inherit : Inherits) {
+      if (!First)
+        Out += " ";
+      First = false;
+      Out += Inherit;
+    }
+    Out += " }";
+  }
+
+private:
+  /// \brief Bindings of this value could be written in another set.
+  static bool isPackable(const nixf::Expr &Value) {
+    if (Value.kind() != nixf::Node::NK_ExprAttrs)
+      return false;
+    const auto &Attrs = static_cast<const nixf::ExprAttrs &>(Value);
+    if (Attrs.isRecursive() || !Attrs.binds())
+      return false;
+    for (const auto &Child : Attrs.binds()->bindings()) {
+      if (Child->kind() != nixf::Node::NK_Binding)
+        continue;
+      const auto &Bind = static_cast<const nixf::Binding &>(*Child);
+      if (!Bind.value())
+        return false;
+      for (const auto &Name : Bind.path().names()) {
+        if (!Name->isStatic())
+          return false;
       }
-    } else if (Attr.value()) {
-      Out += Attr.value()->src(Src);
     }
-    Out += ";";
+    return true;
+  }
+
+  bool insertValue(const std::string &Name, const nixf::Expr &Value,
+                   llvm::StringRef Src, size_t Depth) {
+    auto [It, New] = Entries.try_emplace(Name);
+    if (New && !isPackable(Value)) {
+      It->second.Text = Value.src(Src);
+      return true;
+    }
+    if (New)
+      It->second.Nested = std::make_unique<PackedAttrs>();
+    if (!It->second.Nested)
+      return false;
+    return It->second.Nested->insertAll(Value, Src, Depth + 1);
+  }
+};
+
+/// \brief Whether the binding starts with the segment.
+bool isSibling(const nixf::Node &Child, const std::string &FirstSeg) {
+  if (Child.kind() != nixf::Node::NK_Binding)
+    return false;
+  const auto &Names = static_cast<const nixf::Binding &>(Child).path().names();
+  return !Names.empty() && Names[0]->isStatic() &&
+         Names[0]->staticName() == FirstSeg;
+}
+
+/// \brief Whether \p Bind is the only one that defines its first two names.
+/// Otherwise packing it alone defines the second name twice.
+bool isSecondUnique(const nixf::Binding &Bind, const nixf::Binds &Binds) {
+  const auto &Names = Bind.path().names();
+  const std::string &Second = Names[1]->staticName();
+  auto Defines = [](const nixf::Node &N, const std::string &Name) {
+    if (N.kind() != nixf::Node::NK_Inherit)
+      return isSibling(N, Name);
+    for (const auto &Inherited : static_cast<const nixf::Inherit &>(N).names())
+      if (Inherited->isStatic() && Inherited->staticName() == Name)
+        return true;
+    return false;
+  };
+  for (const auto &Child : Binds.bindings()) {
+    if (Child.get() == &Bind || !isSibling(*Child, Names[0]->staticName()))
+      continue;
+    const auto &Sibling = static_cast<const nixf::Binding &>(*Child);
+    const auto &SibNames = Sibling.path().names();
+    if (SibNames.size() > 1) {
+      if (SibNames[1]->isStatic() && SibNames[1]->staticName() == Second)
+        return false;
+      continue;
+    }
+    if (!Sibling.value() || Sibling.value()->kind() != nixf::Node::NK_ExprAttrs)
+      continue;
+    const auto &Value = static_cast<const nixf::ExprAttrs &>(*Sibling.value());
+    if (!Value.binds())
+      continue;
+    for (const auto &Inner : Value.binds()->bindings())
+      if (Defines(*Inner, Second))
+        return false;
   }
-  Out += " }";
+  return true;
+}
+
+/// \brief Generate fully nested attribute set text, from original bindings.
+/// \return nullopt if some bindings cannot be merged.
+std::optional<std::string> generateNestedText(const nixf::Binds &Binds,
+                                              const std::string &FirstSeg,
+                                              llvm::StringRef Src) {
+  PackedAttrs Packed;
+  for (const auto &Child : Binds.bindings()) {
+    if (!isSibling(*Child, FirstSeg))
+      continue;
+    if (!Packed.insert(static_cast<const nixf::Binding &>(*Child), /*Skip=*/1,
+                       Src, /*Depth=*/0))
+      return std::nullopt;
+  }
+  std::string Out;
+  Packed.print(Out);
+  return Out;
 }
 
 /// \brief Generate shallow nested attribute set text from original bindings.
@@ -100,56 +235,98 @@ void generateNestedText(const nixf::SemaAttrs &SA, llvm::StringRef Src,
 /// \param Binds The original Binds node containing all bindings
 /// \param FirstSeg The first path segment to match (e.g., "foo" for "foo.bar")
 /// \param Src The source text
-/// \param Out Output string to append to
-void generateShallowNestedText(const nixf::Binds &Binds,
-                               const std::string &FirstSeg, llvm::StringRef Src,
-                               std::string &Out) {
-  Out += "{ ";
+/// \return nullopt if some bindings cannot be merged.
+std::optional<std::string>
+generateShallowNestedText(const nixf::Binds &Binds, const std::string &FirstSeg,
+                          llvm::StringRef Src) {
+  std::string Out = "{ ";
   bool First = true;
+  auto Append = [&](std::string_view Text) {
+    if (!First)
+      Out += " ";
+    First = false;
+    Out += Text;
+  };
 
   for (const auto &Child : Binds.bindings()) {
-    if (Child->kind() != nixf::Node::NK_Binding)
+    // Only process bindings that match the first segment
+    if (!isSibling(*Child, FirstSeg))
       continue;
-
     const auto &SibBind = static_cast<const nixf::Binding &>(*Child);
     const auto &Names = SibBind.path().names();
+    if (!SibBind.value())
+      return std::nullopt;
 
-    // Only process bindings that match the first segment
-    if (Names.empty() || !Names[0]->isStatic() ||
-        Names[0]->staticName() != FirstSeg)
+    if (Names.size() == 1) {
+      // Single segment path (e.g., just "foo"), take bindings of the value.
+      if (SibBind.value()->kind() != nixf::Node::NK_ExprAttrs)
+        return std::nullopt;
+      const auto &Attrs =
+          static_cast<const nixf::ExprAttrs &>(*SibBind.value());
+      if (Attrs.isRecursive())
+        return std::nullopt;
+      if (!Attrs.binds())
+        continue;
+      for (const auto &Inner : Attrs.binds()->bindings())
+        Append(Inner->src(Src));
       continue;
+    }
 
-    if (!First)
-      Out += " ";
-    First = false;
+    // Multi-segment path - extract rest of path from source
+    // e.g., "foo.bar.x = 1" -> "bar.x = 1"
+    const nixf::LexerCursor RestStart = Names[1]->range().lCur();
+    const nixf::LexerCursor PathEnd = SibBind.path().range().rCur();
+    if (PathEnd.offset() < RestStart.offset())
+      return std::nullopt;
+    std::string Text(
+        Src.substr(RestStart.offset(), PathEnd.offset() - RestStart.offset()));
+    Text += " = ";
+    Text += SibBind.value()->src(Src);
+    Text += ";";
+    Append(Text);
+  }
+  return Out + " }";
+}
 
-    if (Names.size() == 1) {
-      // Single segment path (e.g., just "foo") - shouldn't happen in bulk pack
-      // but handle it gracefully by using value directly
-      Out += quoteNixAttrKey(Names[0]->staticName());
-      Out += " = ";
-      if (SibBind.value()) {
-        Out += SibBind.value()->src(Src);
-      }
-    } else {
-      // Multi-segment path - extract rest of path from source
-      // e.g., "foo.bar.x = 1" -> "bar.x = 1"
-      const nixf::LexerCursor RestStart = Names[1]->range().lCur();
-      const nixf::LexerCursor PathEnd = SibBind.path().range().rCur();
-
-      if (PathEnd.offset() >= RestStart.offset()) {
-        std::string_view RestPath = Src.substr(
-            RestStart.offset(), PathEnd.offset() - RestStart.offset());
-        Out += RestPath;
-        Out += " = ";
-        if (SibBind.value()) {
-          Out += SibBind.value()->src(Src);
-        }
-      }
-    }
-    Out += ";";
+/// \brief Whether the range has bindings that do not start with the segment.
+bool hasOthers(const nixf::Binds &Binds, const std::string &FirstSeg,
+               const nixf::LexerCursorRange &Range) {
+  for (const auto &Child : Binds.bindings()) {
+    if (!isSibling(*Child, FirstSeg) &&
+        Child->lCur().offset() >= Range.lCur().offset() &&
+        Child->rCur().offset() <= Range.rCur().offset())
+      return true;
   }
-  Out += " }";
+  return false;
+}
+
+/// \brief Replace all sibling bindings with \p NewText, keeping the others.
+lspserver::CodeAction
+createBulkAction(const std::string &Title, const std::string &FileURI,
+                 llvm::StringRef Src, const nixf::Binds &Binds,
+                 const std::string &FirstSeg,
+                 const nixf::LexerCursorRange &Range, std::string NewText) {
+  if (!hasOthers(Binds, FirstSeg, Range))
+    return createSingleEditAction(
+        Title, lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
+        toLSPRange(Src, Range), std::move(NewText));
+
+  // Write the set at the first binding, and remove the rest.
+  std::vector<lspserver::TextEdit> Edits;
+  for (const auto &Child : Binds.bindings()) {
+    if (!isSibling(*Child, FirstSeg))
+      continue;
+    Edits.emplace_back(
+        lspserver::TextEdit{.range = toLSPRange(Src, Child->range()),
+                            .newText = Edits.empty() ? NewText : ""});
+  }
+  using Changes = std::map<std::string, std::vector<lspserver::TextEdit>>;
+  return lspserver::CodeAction{
+      .title = Title,
+      .kind = std::string(lspserver::CodeAction::REFACTOR_REWRITE_KIND),
+      .edit = lspserver::WorkspaceEdit{.changes = Changes{{FileURI,
+                                                           std::move(Edits)}}},
+  };
 }
 
 /// \brief Find all sibling bindings that share the same first path segment.
@@ -224,9 +401,14 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (SiblingCount == 0)
     return; // Can't pack (dynamic attrs or other conflicts)
 
+  const auto &ParentBinds = static_cast<const nixf::Binds &>(*BindsNode);
+
   // Helper lambda to generate Pack One action text
   auto GeneratePackOneText = [&]() -> std::string {
     std::string NewText;
+    if (!isSecondUnique(Bind, ParentBinds))
+      return NewText;
+
     const std::string_view FirstName = Names[0]->src(Src);
 
     size_t ValueSize = Bind.value() ? Bind.value()->src(Src).size() : 0;
@@ -267,20 +449,7 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
         toLSPRange(Src, Bind.range()), std::move(NewText)));
   } else {
     // Multiple siblings share the prefix - offer Pack One and bulk pack actions
-    const nixf::SemaAttrs &SA = ParentAttrs.sema();
-    auto It = SA.staticAttrs().find(FirstSeg);
-    if (It == SA.staticAttrs().end())
-      return;
-
-    const nixf::Attribute &Attr = It->second;
-    if (!Attr.value() || Attr.value()->kind() != nixf::Node::NK_ExprAttrs)
-      return;
-
-    const auto &NestedAttrs =
-        static_cast<const nixf::ExprAttrs &>(*Attr.value());
-
     // Find the range covering all sibling bindings (needed for bulk actions)
-    const auto &ParentBinds = static_cast<const nixf::Binds &>(*BindsNode);
     auto BulkRange = findSiblingBindingsRange(Bind, ParentBinds, FirstSeg);
     if (!BulkRange)
       return;
@@ -294,29 +463,19 @@ void addPackAttrsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
           toLSPRange(Src, Bind.range()), std::move(PackOneText)));
     }
 
-    // Action 2: Shallow Pack All - pack all siblings but only one level deep
-    std::string ShallowText;
-    ShallowText += quoteNixAttrKey(FirstSeg);
-    ShallowText += " = ";
-    generateShallowNestedText(ParentBinds, FirstSeg, Src, ShallowText);
-    ShallowText += ";";
+    const std::string Head = quoteNixAttrKey(FirstSeg) + " = ";
 
-    Actions.emplace_back(createSingleEditAction(
-        "Pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(ShallowText)));
+    // Action 2: Shallow Pack All - pack all siblings but only one level deep
+    if (auto Text = generateShallowNestedText(ParentBinds, FirstSeg, Src))
+      Actions.emplace_back(createBulkAction(
+          "Pack all '" + FirstSeg + "' bindings to nested set", FileURI, Src,
+          ParentBinds, FirstSeg, *BulkRange, Head + *Text + ";"));
 
     // Action 3: Recursive Pack All - fully nest all sibling bindings
-    std::string RecursiveText;
-    RecursiveText += quoteNixAttrKey(FirstSeg);
-    RecursiveText += " = ";
-    generateNestedText(NestedAttrs.sema(), Src, RecursiveText);
-    RecursiveText += ";";
-
-    Actions.emplace_back(createSingleEditAction(
-        "Recursively pack all '" + FirstSeg + "' bindings to nested set",
-        lspserver::CodeAction::REFACTOR_REWRITE_KIND, FileURI,
-        toLSPRange(Src, *BulkRange), std::move(RecursiveText)));
+    if (auto Text = generateNestedText(ParentBinds, FirstSeg, Src))
+      Actions.emplace_back(createBulkAction(
+          "Recursively pack all '" + FirstSeg + "' bindings to nested set",
+          FileURI, Src, ParentBinds, FirstSeg, *BulkRange, Head + *Text + ";"));
   }
 }
 
-- 
2.43.0


From 5fe2fad09db29f73f1e5fb110f2e34f679118f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 72/88] fix: read line ends in strings as LF

---
 libnixf/src/Parse/ParseStrings.cpp | 27 ++++++++++++++++++++++++---
 libnixf/src/Parse/Parser.h         |  2 +-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/libnixf/src/Parse/ParseStrings.cpp b/libnixf/src/Parse/ParseStrings.cpp
index e961e56..ab8eb73 100644
--- a/libnixf/src/Parse/ParseStrings.cpp
+++ b/libnixf/src/Parse/ParseStrings.cpp
@@ -3,6 +3,26 @@
 using namespace nixf;
 using namespace nixf::detail;
 
+namespace {
+
+/// CR and CRLF in double quoted strings are read as LF.
+std::string normalizeNewLines(std::string_view Str) {
+  std::string Result;
+  Result.reserve(Str.size());
+  for (size_t I = 0; I < Str.size(); ++I) {
+    if (Str[I] != '\r') {
+      Result += Str[I];
+      continue;
+    }
+    Result += '\n';
+    if (I + 1 < Str.size() && Str[I + 1] == '\n')
+      ++I;
+  }
+  return Result;
+}
+
+} // namespace
+
 std::shared_ptr<Interpolation> Parser::parseInterpolation() {
   Token TokDollarCurly = peek();
   assert(TokDollarCurly.kind() == tok_dollar_curly);
@@ -76,7 +96,7 @@ std::shared_ptr<Expr> Parser::parseExprPath() {
                                     std::move(Parts));
 }
 
-std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
+std::shared_ptr<InterpolatedParts> Parser::parseStringParts(bool IsIndented) {
   std::vector<InterpolablePart> Parts;
   LexerCursor PartsBegin = peek().lCur();
   while (true) {
@@ -88,7 +108,8 @@ std::shared_ptr<InterpolatedParts> Parser::parseStringParts() {
     }
     case tok_string_part: {
       // If this is a part of string, just push it.
-      Parts.emplace_back(std::string(Tok.view()));
+      Parts.emplace_back(IsIndented ? std::string(Tok.view())
+                                    : normalizeNewLines(Tok.view()));
       consume();
       continue;
     }
@@ -150,7 +171,7 @@ std::shared_ptr<ExprString> Parser::parseString(bool IsIndented) {
   assert(LastToken && "LastToken should be set after consume()");
   /* with(PS_String / PS_IndString) */ {
     auto StringState = withState(IsIndented ? PS_IndString : PS_String);
-    std::shared_ptr<InterpolatedParts> Parts = parseStringParts();
+    std::shared_ptr<InterpolatedParts> Parts = parseStringParts(IsIndented);
     if (ExpectResult ER = expect(QuoteKind); ER.ok()) {
       consume();
       return std::make_shared<ExprString>(
diff --git a/libnixf/src/Parse/Parser.h b/libnixf/src/Parse/Parser.h
index 83a8496..93cc1f6 100644
--- a/libnixf/src/Parse/Parser.h
+++ b/libnixf/src/Parse/Parser.h
@@ -182,7 +182,7 @@ public:
   ///             | STRING_PART
   ///             | STRING_ESCAPE
   /// \endcode
-  std::shared_ptr<InterpolatedParts> parseStringParts();
+  std::shared_ptr<InterpolatedParts> parseStringParts(bool IsIndented);
 
   /// \code
   /// string : " string_part* "
-- 
2.43.0


From 14eafe24c53bcbbc1a00c8c4470359b47ca586af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:11 +0000
Subject: [PATCH 73/88] fix: convert strings without changing their value

---
 .../Controller/CodeActions/RewriteString.cpp  | 271 ++++++++++++++++--
 1 file changed, 243 insertions(+), 28 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 5b199b0..497ecd8 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -8,6 +8,10 @@
 
 #include <nixf/Basic/Nodes/Simple.h>
 
+#include <llvm/ADT/StringExtras.h>
+
+#include <algorithm>
+
 namespace nixd {
 
 namespace {
@@ -23,78 +27,279 @@ bool isIndentedString(llvm::StringRef Src,
   return Src[Offset] == '\'' && Src[Offset + 1] == '\'';
 }
 
+/// \brief A part of string literals.
+struct Part {
+  /// The text, after unescaping.
+  std::string Text;
+  /// Leading spaces in lines are indentation, i.e. the text is not escaped.
+  bool HasIndentation = false;
+  /// Not null iff this is an interpolation.
+  const nixf::Interpolation *Interp = nullptr;
+};
+
+/// \brief Split the literal text of indented strings into parts.
+void splitIndentedText(llvm::StringRef S, std::vector<Part> &Parts) {
+  bool InText = false;
+  auto Text = [&](llvm::StringRef T) {
+    if (!InText)
+      Parts.emplace_back(Part{.Text = "", .HasIndentation = true});
+    Parts.back().Text += T;
+    InText = true;
+  };
+  auto Escaped = [&](std::string T) {
+    Parts.emplace_back(Part{.Text = std::move(T)});
+    InText = false;
+  };
+  while (!S.empty()) {
+    size_t Len = 1;
+    if (S.starts_with("'''")) {
+      Escaped("''");
+      Len = 3;
+    } else if (S.starts_with("''$")) {
+      Escaped("$");
+      Len = 3;
+    } else if (S.starts_with("''\\") && S.size() > 3) {
+      char C = S[3];
+      Escaped(std::string(1, C == 'n'   ? '\n'
+                             : C == 'r' ? '\r'
+                             : C == 't' ? '\t'
+                                        : C));
+      Len = 4;
+    } else if (S.front() == '\'' || S.front() == '$') {
+      // A quote, or dollar, takes an ordinary character next to it.
+      bool IsQuote = S.front() == '\'';
+      if (S.size() > 1 && S[1] != '\'' && !(IsQuote && S[1] == '$')) {
+        Text(S.take_front(2));
+        Len = 2;
+      } else {
+        Escaped(S.take_front(1).str());
+      }
+    } else {
+      Text(S.take_front(1));
+    }
+    S = S.drop_front(Len);
+  }
+}
+
+/// \brief Parts of the string literal, as they are written.
+std::vector<Part> getParts(const nixf::ExprString &Str, bool IsIndented,
+                           llvm::StringRef Src) {
+  std::vector<Part> Parts;
+  if (!IsIndented) {
+    for (const auto &Frag : Str.parts().fragments()) {
+      if (Frag.kind() == nixf::InterpolablePart::SPK_Interpolation)
+        Parts.emplace_back(Part{.Text = "", .Interp = &Frag.interpolation()});
+      else if (!Parts.empty() && !Parts.back().Interp)
+        Parts.back().Text += Frag.escaped();
+      else
+        Parts.emplace_back(Part{.Text = Frag.escaped()});
+    }
+    return Parts;
+  }
+
+  // Look at the source, whether spaces are escaped is significant.
+  constexpr size_t QuoteSize = 2;
+  size_t Begin = Str.lCur().offset() + QuoteSize;
+  for (const auto &Frag : Str.parts().fragments()) {
+    if (Frag.kind() != nixf::InterpolablePart::SPK_Interpolation)
+      continue;
+    const nixf::Interpolation &Interp = Frag.interpolation();
+    splitIndentedText(Src.slice(Begin, Interp.lCur().offset()), Parts);
+    Parts.emplace_back(Part{.Text = "", .Interp = &Interp});
+    Begin = Interp.rCur().offset();
+  }
+  splitIndentedText(Src.slice(Begin, Str.rCur().offset() - QuoteSize), Parts);
+  return Parts;
+}
+
+/// \brief Strip indentation, as Nix evaluates indented strings.
+void stripIndentation(std::vector<Part> &Parts) {
+  // The opening line is ignored, if it is blank.
+  if (!Parts.empty() && Parts.front().HasIndentation) {
+    llvm::StringRef Rest = llvm::StringRef(Parts.front().Text).ltrim(' ');
+    if (Rest.consume_front("\n"))
+      Parts.front().Text = Rest.str();
+    if (Parts.front().Text.empty())
+      Parts.erase(Parts.begin());
+  }
+
+  // Find the minimal indentation of lines, blank lines do not count.
+  constexpr size_t MaxIndent = 1000000;
+  size_t MinIndent = MaxIndent;
+  size_t Indent = 0;
+  bool AtStartOfLine = true;
+  for (const Part &P : Parts) {
+    if (!P.HasIndentation) {
+      if (AtStartOfLine)
+        MinIndent = std::min(MinIndent, Indent);
+      AtStartOfLine = false;
+      continue;
+    }
+    for (char C : P.Text) {
+      if (C == '\n') {
+        AtStartOfLine = true;
+        Indent = 0;
+      } else if (AtStartOfLine && C == ' ') {
+        ++Indent;
+      } else if (AtStartOfLine) {
+        AtStartOfLine = false;
+        MinIndent = std::min(MinIndent, Indent);
+      }
+    }
+  }
+
+  // And drop it.
+  AtStartOfLine = true;
+  size_t Dropped = 0;
+  for (Part &P : Parts) {
+    if (P.Interp) {
+      AtStartOfLine = false;
+      Dropped = 0;
+      continue;
+    }
+    std::string Text;
+    for (char C : P.Text) {
+      if (AtStartOfLine && C == ' ') {
+        if (Dropped++ >= MinIndent)
+          Text += C;
+        continue;
+      }
+      Dropped = 0;
+      AtStartOfLine = C == '\n';
+      Text += C;
+    }
+    P.Text = std::move(Text);
+  }
+
+  // Spaces before the closing quotes are ignored.
+  if (!Parts.empty() && !Parts.back().Interp) {
+    std::string &Text = Parts.back().Text;
+    size_t LineEnd = Text.rfind('\n');
+    if (LineEnd != std::string::npos &&
+        Text.find_first_not_of(' ', LineEnd + 1) == std::string::npos)
+      Text.resize(LineEnd + 1);
+  }
+}
+
 /// \brief Escape a string for indented string literal syntax.
 ///
 /// Escapes:
 /// - '' -> ''' (two single quotes become three)
 /// - ${ -> ''${ (prevent interpolation)
-std::string escapeForIndentedString(llvm::StringRef S) {
+/// - quotes and dollars that would be escapes with the text next to them
+/// - CR, and spaces that would be stripped
+/// \param IsFirst Whether the string starts with the text.
+/// \param IsLast Whether the string ends with the text.
+std::string escapeForIndentedString(llvm::StringRef S, bool IsFirst,
+                                    bool IsLast) {
   std::string Result;
   Result.reserve(S.size() + S.size() / 8);
 
+  // The last space of a blank line before the closing quotes.
+  size_t LastSpace = llvm::StringRef::npos;
+  if (IsLast && S.ends_with(" ") && S.rtrim(' ').ends_with("\n"))
+    LastSpace = S.size() - 1;
+
   for (size_t I = 0; I < S.size(); ++I) {
     char C = S[I];
+    char Next = I + 1 < S.size() ? S[I + 1] : '\0';
+    bool IsEnd = I + 1 == S.size();
 
     // Check for '' sequence that needs escaping
-    if (C == '\'' && I + 1 < S.size() && S[I + 1] == '\'') {
+    if (C == '\'' && Next == '\'') {
       Result += "'''";
       ++I; // Skip the second quote
       continue;
     }
 
+    // Quotes at the end join with the closing quotes, or with an escape.
+    if (C == '\'' && (IsEnd || Next == '$' || Next == '\r')) {
+      Result += "''\\'";
+      continue;
+    }
+
     // Check for ${ that needs escaping
-    if (C == '$' && I + 1 < S.size() && S[I + 1] == '{') {
+    if (C == '$' && Next == '{') {
       Result += "''${";
       ++I; // Skip the '{'
       continue;
     }
 
+    // Dollars at the end hide the interpolation.
+    if (C == '$' && IsEnd && !IsLast) {
+      Result += "''$";
+      continue;
+    }
+
+    if (C == '\r') {
+      Result += "''\\r";
+      continue;
+    }
+
+    // Escaped text is not indentation.
+    if (I == 0 && IsFirst && (C == ' ' || C == '\n')) {
+      Result += C == ' ' ? "''\\ " : "''\\n";
+      continue;
+    }
+    if (I == LastSpace) {
+      Result += "''\\ ";
+      continue;
+    }
+
     Result += C;
   }
 
   return Result;
 }
 
-/// \brief Build a double-quoted string from InterpolatedParts.
+/// \brief Build a double-quoted string.
 ///
-/// Iterates through fragments, escaping text parts and preserving
+/// Iterates through parts, escaping text parts and preserving
 /// interpolations from source.
-std::string buildDoubleQuotedString(const nixf::InterpolatedParts &Parts,
+std::string buildDoubleQuotedString(const std::vector<Part> &Parts,
                                     llvm::StringRef Src) {
   std::string Result = "\"";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for double-quoted string
-      Result += escapeNixString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
+  std::string Text;
+  for (const Part &P : Parts) {
+    if (!P.Interp) {
+      Text += P.Text;
+      continue;
     }
+    // Escape the unescaped content for double-quoted string
+    bool EndsWithDollar = !Text.empty() && Text.back() == '$';
+    if (EndsWithDollar)
+      Text.pop_back();
+    Result += escapeNixString(Text);
+    if (EndsWithDollar)
+      Result += "\\$";
+    Text.clear();
+    // Preserve source text of interpolations exactly
+    Result += P.Interp->src(Src);
   }
 
+  Result += escapeNixString(Text);
   Result += "\"";
   return Result;
 }
 
-/// \brief Build an indented string from InterpolatedParts.
+/// \brief Build an indented string.
 ///
-/// Iterates through fragments, escaping text parts and preserving
+/// Iterates through parts, escaping text parts and preserving
 /// interpolations from source.
-std::string buildIndentedString(const nixf::InterpolatedParts &Parts,
+std::string buildIndentedString(const std::vector<Part> &Parts,
                                 llvm::StringRef Src) {
   std::string Result = "''";
 
-  for (const auto &Frag : Parts.fragments()) {
-    if (Frag.kind() == nixf::InterpolablePart::SPK_Escaped) {
-      // Escape the unescaped content for indented string
-      Result += escapeForIndentedString(Frag.escaped());
-    } else {
-      // SPK_Interpolation: preserve source text exactly
-      const nixf::Interpolation &Interp = Frag.interpolation();
-      Result += Interp.src(Src);
+  for (size_t I = 0; I < Parts.size(); ++I) {
+    if (Parts[I].Interp) {
+      // Preserve source text of interpolations exactly
+      Result += Parts[I].Interp->src(Src);
+      continue;
     }
+    // Escape the unescaped content for indented string
+    Result += escapeForIndentedString(Parts[I].Text, /*IsFirst=*/I == 0,
+                                      /*IsLast=*/I + 1 == Parts.size());
   }
 
   Result += "''";
@@ -114,7 +319,8 @@ void addRewriteStringAction(const nixf::Node &N,
 
   // Skip if this string is used as an attribute name (handled by AttrName
   // actions)
-  if (PM.upTo(*StringNode, nixf::Node::NK_AttrName))
+  const nixf::Node *Parent = PM.query(*StringNode);
+  if (!Parent || Parent->kind() == nixf::Node::NK_AttrName)
     return;
 
   const auto &Str = static_cast<const nixf::ExprString &>(*StringNode);
@@ -123,16 +329,25 @@ void addRewriteStringAction(const nixf::Node &N,
   bool IsIndented = isIndentedString(Src, Str.range());
 
   // Build the converted string
+  std::vector<Part> Parts = getParts(Str, IsIndented, Src);
   std::string NewText;
   std::string Title;
 
   if (IsIndented) {
     // Convert indented -> double-quoted
-    NewText = buildDoubleQuotedString(Str.parts(), Src);
+    stripIndentation(Parts);
+    NewText = buildDoubleQuotedString(Parts, Src);
     Title = "Convert to double-quoted string";
   } else {
     // Convert double-quoted -> indented
-    NewText = buildIndentedString(Str.parts(), Src);
+    NewText = buildIndentedString(Parts, Src);
+    // Do not join the quotes with identifiers or strings around.
+    llvm::StringRef Before = Src.take_front(Str.lCur().offset());
+    if (!Before.empty() && (llvm::isAlnum(Before.back()) ||
+                            llvm::StringRef("_-'").contains(Before.back())))
+      NewText = " " + NewText;
+    if (Src.drop_front(Str.rCur().offset()).starts_with("'"))
+      NewText += " ";
     Title = "Convert to indented string";
   }
 
-- 
2.43.0


From 3c21bae3454e9ec1616759ac4a21aa922ae72eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 74/88] fix: convert with to let only if the source keeps its
 names

---
 nixd/lib/Controller/CodeActions/WithToLet.cpp | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/nixd/lib/Controller/CodeActions/WithToLet.cpp b/nixd/lib/Controller/CodeActions/WithToLet.cpp
index 6487101..f623b69 100644
--- a/nixd/lib/Controller/CodeActions/WithToLet.cpp
+++ b/nixd/lib/Controller/CodeActions/WithToLet.cpp
@@ -6,6 +6,7 @@
 
 #include "../Convert.h"
 
+#include <nixf/Basic/Nodes/Attrs.h>
 #include <nixf/Basic/Nodes/Expr.h>
 #include <nixf/Basic/Nodes/Simple.h>
 
@@ -87,6 +88,27 @@ collectWithVariables(const nixf::ExprWith &With,
   return VarNames;
 }
 
+/// \brief Check if the expression uses some of the variables.
+///
+/// They become recursive in the source of `let inherit (source) ...; in`.
+bool usesVariables(const nixf::Node &N, const std::set<std::string> &VarNames) {
+  if (N.kind() == nixf::Node::NK_ExprVar)
+    return VarNames.contains(static_cast<const nixf::ExprVar &>(N).id().name());
+  if (N.kind() == nixf::Node::NK_Inherit) {
+    const auto &Inherit = static_cast<const nixf::Inherit &>(N);
+    for (const auto &Name : Inherit.names()) {
+      if (!Inherit.expr() && Name->isStatic() &&
+          VarNames.contains(Name->staticName()))
+        return true;
+    }
+  }
+  for (const auto &Child : N.children()) {
+    if (Child && usesVariables(*Child, VarNames))
+      return true;
+  }
+  return false;
+}
+
 /// \brief Generate the let/inherit replacement text.
 /// Format: let inherit (source) var1 var2 ...; in body
 std::string generateLetInherit(const nixf::ExprWith &With,
@@ -162,6 +184,10 @@ void addWithToLetAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
   if (VarNames.empty())
     return;
 
+  // Skip if the source would refer to the variables of `let`
+  if (With.with() && usesVariables(*With.with(), VarNames))
+    return;
+
   // Generate the replacement text
   std::string NewText = generateLetInherit(With, VarNames, Src);
   if (NewText.empty())
-- 
2.43.0


From ae6b3c32ede24fc44e289de7a14e50437578b629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 75/88] fix: add formals before trailing commas and after URIs

---
 .../Controller/CodeActions/AddToFormals.cpp   | 48 ++++++++++++++-----
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/AddToFormals.cpp b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
index 62eb297..5783680 100644
--- a/nixd/lib/Controller/CodeActions/AddToFormals.cpp
+++ b/nixd/lib/Controller/CodeActions/AddToFormals.cpp
@@ -17,6 +17,24 @@
 
 namespace nixd {
 
+namespace {
+
+/// \brief Text to insert the variable at \p Offset, after another formal.
+std::string afterFormal(const std::string &VarName, size_t Offset,
+                        llvm::StringRef Src) {
+  std::string Text = ", " + quoteNixAttrKey(VarName);
+  // Commas right after URIs (e.g. `{ a ? b:c }`) are characters of them.
+  constexpr llvm::StringLiteral URIChars =
+      "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
+      "%/?:@&=+$,-_.!~*'";
+  llvm::StringRef Before = Src.take_front(Offset);
+  if (Before.substr(Before.find_last_not_of(URIChars) + 1).contains(':'))
+    Text = " " + Text;
+  return Text;
+}
+
+} // namespace
+
 void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
                         const nixf::VariableLookupAnalysis &VLA,
                         const std::string &FileURI, llvm::StringRef Src,
@@ -74,9 +92,22 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
     InsertRange = lspserver::Range{InsertPos, InsertPos};
     NewText = " " + quoteNixAttrKey(VarName) + " ";
   } else {
+    // Find the last formal, and the last one that is not an ellipsis. There
+    // might be a trailing comma after them.
+    const nixf::Formal *LastMember = nullptr;
+    const nixf::Formal *LastNonEllipsis = nullptr;
+    for (const auto &Member : Members) {
+      if (!Member || !(Member->isEllipsis() || Member->id()))
+        continue;
+      LastMember = Member.get();
+      if (!Member->isEllipsis())
+        LastNonEllipsis = Member.get();
+    }
+    if (!LastMember)
+      return;
+
     // Check if the last member is an ellipsis
-    const nixf::Formal *LastMember = Members.back().get();
-    bool HasEllipsis = LastMember && LastMember->isEllipsis();
+    bool HasEllipsis = LastMember->isEllipsis();
 
     if (HasEllipsis) {
       if (Members.size() == 1) {
@@ -88,28 +119,19 @@ void addToFormalsAction(const nixf::Node &N, const nixf::ParentMapAnalysis &PM,
       } else {
         // Case 4: With ellipsis `{ a, ... }:`
         // Insert `, varName` after the last non-ellipsis formal
-        // Find the last non-ellipsis formal
-        const nixf::Formal *LastNonEllipsis = nullptr;
-        for (auto It = Members.rbegin(); It != Members.rend(); ++It) {
-          if ((*It) && !(*It)->isEllipsis()) {
-            LastNonEllipsis = (*It).get();
-            break;
-          }
-        }
-
         if (!LastNonEllipsis)
           return;
 
         auto InsertPos = toLSPPosition(Src, LastNonEllipsis->rCur());
         InsertRange = lspserver::Range{InsertPos, InsertPos};
-        NewText = ", " + quoteNixAttrKey(VarName);
+        NewText = afterFormal(VarName, LastNonEllipsis->rCur().offset(), Src);
       }
     } else {
       // Case 2: Normal `{ a }:` without ellipsis
       // Insert `, varName` after the last formal
       auto InsertPos = toLSPPosition(Src, LastMember->rCur());
       InsertRange = lspserver::Range{InsertPos, InsertPos};
-      NewText = ", " + quoteNixAttrKey(VarName);
+      NewText = afterFormal(VarName, LastMember->rCur().offset(), Src);
     }
   }
 
-- 
2.43.0


From 3f9ab5028859e8cd2f8bf8a29e173429a218969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 76/88] fix: extract to file keeps the meaning

---
 .../Controller/CodeActions/ExtractToFile.cpp  | 226 ++++++++++++++++--
 1 file changed, 204 insertions(+), 22 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
index 95698a1..7f9712c 100644
--- a/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
+++ b/nixd/lib/Controller/CodeActions/ExtractToFile.cpp
@@ -27,6 +27,9 @@ namespace {
 struct FreeVariableResult {
   std::set<std::string> FreeVars;
   bool HasWithVars; ///< True if any variables come from 'with' scope
+  /// True if some variables cannot be passed to the new file, e.g. they come
+  /// from either a 'with' inside the expression, or another outside.
+  bool HasAmbiguousVars;
 };
 
 /// \brief Collect all free variables used within an expression subtree.
@@ -39,33 +42,62 @@ class FreeVariableCollector {
   const nixf::Node &Root;
   std::set<std::string> FreeVars;
   bool HasWithVars = false;
+  bool HasAmbiguousVars = false;
 
-  void collect(const nixf::Node &N) {
-    // If this is a variable reference, check if it's free
-    if (N.kind() == nixf::Node::NK_ExprVar) {
-      const auto &Var = static_cast<const nixf::ExprVar &>(N);
-      auto Result = VLA.query(Var);
-
+  void collectVar(const nixf::ExprVar &Var) {
+    using ResultKind = nixf::VariableLookupAnalysis::LookupResultKind;
+    auto Result = VLA.query(Var);
+    switch (Result.Kind) {
+    case ResultKind::Defined: {
       // Variable is free if:
       // - It's defined (not undefined/error)
       // - Its definition is outside our extraction root
       // - It's not a builtin
-      if (Result.Kind ==
-              nixf::VariableLookupAnalysis::LookupResultKind::Defined &&
-          Result.Def && !Result.Def->isBuiltin()) {
-        const nixf::Node *DefSyntax = Result.Def->syntax();
-        if (DefSyntax && !isInsideNode(DefSyntax, Root)) {
-          // This variable is defined outside our subtree - it's free
-          FreeVars.insert(std::string(Var.id().name()));
-        }
+      if (!Result.Def || Result.Def->isBuiltin())
+        return;
+      const nixf::Node *DefSyntax = Result.Def->syntax();
+      if (DefSyntax && !isInsideNode(DefSyntax, Root)) {
+        // This variable is defined outside our subtree - it's free
+        FreeVars.insert(std::string(Var.id().name()));
       }
-      // Variables from 'with' are implicitly free since they depend on scope
+      return;
+    }
+    case ResultKind::FromWith: {
+      // Variables from 'with' are implicitly free since they depend on scope,
+      // unless the 'with' is extracted too.
       // Note: These may not work correctly after extraction since the 'with'
       // context is lost. We track this to warn the user.
-      else if (Result.Kind ==
-               nixf::VariableLookupAnalysis::LookupResultKind::FromWith) {
+      bool HasInside = false;
+      bool HasOutside = false;
+      for (const nixf::ExprWith *With : VLA.getWithScopes(Var))
+        (isInsideNode(With, Root) ? HasInside : HasOutside) = true;
+      if (HasOutside) {
         FreeVars.insert(std::string(Var.id().name()));
         HasWithVars = true;
+        HasAmbiguousVars |= HasInside;
+      }
+      return;
+    }
+    case ResultKind::NoSuchVar:
+      HasAmbiguousVars = true;
+      return;
+    case ResultKind::Undefined:
+      return;
+    }
+  }
+
+  void collect(const nixf::Node &N) {
+    // If this is a variable reference, check if it's free
+    if (N.kind() == nixf::Node::NK_ExprVar)
+      collectVar(static_cast<const nixf::ExprVar &>(N));
+
+    // Names of `inherit a b;` are references too
+    if (N.kind() == nixf::Node::NK_ExprAttrs) {
+      const auto &Attrs = static_cast<const nixf::ExprAttrs &>(N);
+      for (const auto &[_, Attr] : Attrs.sema().staticAttrs()) {
+        if (Attr.fromInherit() && Attr.value() &&
+            Attr.value()->kind() == nixf::Node::NK_ExprVar)
+          collectVar(static_cast<const nixf::ExprVar &>(*Attr.value()));
       }
     }
 
@@ -95,11 +127,143 @@ public:
   FreeVariableResult collect() {
     FreeVars.clear();
     HasWithVars = false;
+    HasAmbiguousVars = false;
     collect(Root);
-    return {FreeVars, HasWithVars};
+    return {FreeVars, HasWithVars, HasAmbiguousVars};
   }
 };
 
+/// \brief Check if the name is bound by the program at the node.
+bool isShadowed(const nixf::Node &N, const std::string &Name,
+                const nixf::ParentMapAnalysis &PM,
+                const nixf::VariableLookupAnalysis &VLA) {
+  const nixf::Node *Up = &N;
+  const nixf::EnvNode *Env = VLA.env(Up);
+  while (!Env && !PM.isRoot(*Up)) {
+    Up = PM.query(*Up);
+    if (!Up)
+      break;
+    Env = VLA.env(Up);
+  }
+  for (; Env; Env = Env->parent()) {
+    auto It = Env->defs().find(Name);
+    if (!Env->isWith() && It != Env->defs().end())
+      return !It->second->isBuiltin();
+  }
+  return false;
+}
+
+using Names = std::vector<std::string>;
+
+/// \brief Names of the path, before dynamic ones.
+Names staticPrefix(const nixf::AttrPath &Path) {
+  Names Result;
+  for (const auto &Name : Path.names()) {
+    if (!Name->isStatic())
+      break;
+    Result.emplace_back(Name->staticName());
+  }
+  return Result;
+}
+
+/// \brief The attribute set, without parentheses around it.
+const nixf::ExprAttrs *asAttrs(const nixf::Node *N) {
+  while (N && N->kind() == nixf::Node::NK_ExprParen)
+    N = static_cast<const nixf::ExprParen *>(N)->expr();
+  if (!N || N->kind() != nixf::Node::NK_ExprAttrs)
+    return nullptr;
+  return static_cast<const nixf::ExprAttrs *>(N);
+}
+
+/// \brief Check if the value at the \p Path is defined by the binding, too.
+bool definesPath(const nixf::Binding &Bind, llvm::ArrayRef<std::string> Path) {
+  Names Other = staticPrefix(Bind.path());
+  if (Other.empty())
+    return false;
+  size_t Common = std::min(Path.size(), Other.size());
+  if (!std::equal(Other.begin(), Other.begin() + Common, Path.begin()))
+    return false;
+  const nixf::ExprAttrs *Value = asAttrs(Bind.value().get());
+  if (Other.size() >= Path.size() || !Value)
+    return true;
+  if (!Value->binds())
+    return false;
+  for (const auto &Child : Value->binds()->bindings()) {
+    if (Child->kind() == nixf::Node::NK_Binding &&
+        definesPath(static_cast<const nixf::Binding &>(*Child),
+                    Path.drop_front(Common)))
+      return true;
+  }
+  return false;
+}
+
+/// \brief Check if the attribute set is merged with other bindings.
+///
+/// For example: { a = { b = 1; }; a.c = 2; }
+///                    ^~~~~~~~~~ must be spelled here, not an expression.
+bool isMergedAttrs(const nixf::Node &N, const nixf::ParentMapAnalysis &PM) {
+  Names Path;
+  const nixf::Node *Value = &N;
+  while (asAttrs(Value)) {
+    const nixf::Node *BindNode = PM.query(*Value);
+    while (BindNode && BindNode != Value &&
+           BindNode->kind() == nixf::Node::NK_ExprParen) {
+      Value = BindNode;
+      BindNode = PM.query(*Value);
+    }
+    if (!BindNode || BindNode->kind() != nixf::Node::NK_Binding)
+      return false;
+    const auto &Bind = static_cast<const nixf::Binding &>(*BindNode);
+    Names Prefix = staticPrefix(Bind.path());
+    if (Prefix.size() != Bind.path().names().size())
+      return false;
+    Path.insert(Path.begin(), Prefix.begin(), Prefix.end());
+
+    const nixf::Node *BindsNode = PM.query(Bind);
+    if (!BindsNode || BindsNode->kind() != nixf::Node::NK_Binds)
+      return false;
+    const auto &Binds = static_cast<const nixf::Binds &>(*BindsNode);
+    for (const auto &Child : Binds.bindings()) {
+      if (Child.get() != &Bind && Child->kind() == nixf::Node::NK_Binding &&
+          definesPath(static_cast<const nixf::Binding &>(*Child), Path))
+        return true;
+    }
+    Value = PM.query(Binds);
+  }
+  return false;
+}
+
+/// \brief Check if a function call in place of the node needs parentheses.
+bool needsParen(const nixf::Node &N, const nixf::ParentMapAnalysis &PM) {
+  const nixf::Node *Parent = PM.query(N);
+  if (!Parent || Parent == &N)
+    return false;
+  switch (Parent->kind()) {
+  case nixf::Node::NK_ExprLegacyLet: // the same text as its attributes
+    return needsParen(*Parent, PM);
+  case nixf::Node::NK_ExprList:
+  case nixf::Node::NK_ExprCall:
+  case nixf::Node::NK_ExprSelect:
+    return true;
+  default:
+    return false;
+  }
+}
+
+/// \brief Separate the text from the tokens around, that it may join with.
+std::string separate(std::string Text, const nixf::Node &N,
+                     llvm::StringRef Src) {
+  llvm::StringRef Before = Src.take_front(N.lCur().offset());
+  llvm::StringRef After = Src.drop_front(N.rCur().offset());
+  if (!Before.empty() &&
+      !llvm::StringRef(" \t\r\n([{=;,").contains(Before.back()))
+    Text = " " + Text;
+  if (!After.empty() &&
+      !llvm::StringRef(" \t\r\n)]};,").contains(After.front()))
+    Text += " ";
+  return Text;
+}
+
 /// \brief Generate a filename from the expression context.
 ///
 /// Tries to derive a meaningful name from:
@@ -195,12 +359,17 @@ std::string generateImportStatement(const std::string &Filename,
 ///
 /// If the file already exists, tries filename-1.nix, filename-2.nix, etc.
 /// Returns the original filename if no conflict exists.
+/// The file \p SourcePath exists, even if it is not saved.
 std::string makeUniqueFilename(llvm::StringRef Directory,
-                               llvm::StringRef BaseFilename) {
+                               llvm::StringRef BaseFilename,
+                               llvm::StringRef SourcePath) {
+  auto Exists = [&](llvm::StringRef Path) {
+    return Path == SourcePath || llvm::sys::fs::exists(Path);
+  };
   llvm::SmallString<256> TestPath(Directory);
   llvm::sys::path::append(TestPath, BaseFilename);
 
-  if (!llvm::sys::fs::exists(TestPath))
+  if (!Exists(TestPath))
     return std::string(BaseFilename);
 
   // Extract stem and extension
@@ -213,7 +382,7 @@ std::string makeUniqueFilename(llvm::StringRef Directory,
     std::string Candidate = (Stem + "-" + std::to_string(I) + Ext).str();
     TestPath = Directory;
     llvm::sys::path::append(TestPath, Candidate);
-    if (!llvm::sys::fs::exists(TestPath))
+    if (!Exists(TestPath))
       return Candidate;
   }
 
@@ -326,10 +495,19 @@ void addExtractToFileAction(const nixf::Node &N,
   if (ExprSrc.empty())
     return;
 
+  // These expressions cannot be replaced with a call of `import`
+  if (isMergedAttrs(*ExprNode, PM) || isShadowed(*ExprNode, "import", PM, VLA))
+    return;
+  const nixf::Node *Name = PM.upTo(*ExprNode, nixf::Node::NK_AttrName);
+  if (Name && static_cast<const nixf::AttrName &>(*Name).isStatic())
+    return;
+
   // Collect free variables
   FreeVariableCollector Collector(VLA, *ExprNode);
   FreeVariableResult FreeVarResult = Collector.collect();
   const std::set<std::string> &FreeVars = FreeVarResult.FreeVars;
+  if (FreeVarResult.HasAmbiguousVars)
+    return;
 
   // Generate filename from context
   std::string BaseFilename = generateFilename(*ExprNode, PM);
@@ -345,13 +523,17 @@ void addExtractToFileAction(const nixf::Node &N,
   llvm::sys::path::remove_filename(Directory);
 
   // Make filename unique if a file with the same name already exists
-  std::string Filename = makeUniqueFilename(Directory, BaseFilename);
+  std::string Filename =
+      makeUniqueFilename(Directory, BaseFilename, SourceFilePath);
 
   // Generate the new file content
   std::string NewFileContent = generateExtractedContent(ExprSrc, FreeVars);
 
   // Generate the import statement
   std::string ImportStmt = generateImportStatement(Filename, FreeVars);
+  if (needsParen(*ExprNode, PM))
+    ImportStmt = "(" + ImportStmt + ")";
+  ImportStmt = separate(std::move(ImportStmt), *ExprNode, Src);
 
   // Build the full file path
   llvm::SmallString<256> NewFilePath(Directory);
-- 
2.43.0


From 7794cf23b511c042630df35130adedaacd82ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 77/88] fix: converted JSON has the same value and is valid Nix

---
 nixd/lib/Controller/CodeActions/JsonToNix.cpp | 72 +++++++++++++++++--
 1 file changed, 67 insertions(+), 5 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/JsonToNix.cpp b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
index 71ad4e3..fabe13e 100644
--- a/nixd/lib/Controller/CodeActions/JsonToNix.cpp
+++ b/nixd/lib/Controller/CodeActions/JsonToNix.cpp
@@ -7,13 +7,49 @@
 #include <llvm/Support/JSON.h>
 #include <lspserver/SourceCode.h>
 
+#include <algorithm>
+#include <cmath>
+#include <cstdint>
 #include <iomanip>
+#include <limits>
+#include <optional>
 #include <sstream>
 
 namespace nixd {
 
 namespace {
 
+/// \brief The integer, if the number can be written as an integer literal.
+std::optional<int64_t> asNixInteger(const llvm::json::Value &V) {
+  constexpr int64_t Max = std::numeric_limits<int64_t>::max();
+  // 2^63 as a double is not an integer in range
+  if (auto D = V.getAsNumber(); !D || *D >= static_cast<double>(Max)) {
+    auto U = V.getAsUINT64();
+    if (U && *U <= static_cast<uint64_t>(Max))
+      return static_cast<int64_t>(*U);
+    return std::nullopt;
+  }
+  auto I = V.getAsInteger();
+  // The smallest integer is the negation of a literal that is too large
+  if (I && *I == std::numeric_limits<int64_t>::min())
+    return std::nullopt;
+  return I;
+}
+
+/// \brief Convert a number to Nix syntax, or empty string if it is infinite.
+std::string floatToNix(double D) {
+  if (!std::isfinite(D))
+    return "";
+  // Format floating point with enough precision
+  std::ostringstream SS;
+  SS << std::setprecision(17) << D;
+  std::string Out = SS.str();
+  // Floating point literals have a decimal point, e.g. 1e+20 is an addition
+  if (Out.find('.') == std::string::npos)
+    Out.insert(std::min(Out.find('e'), Out.size()), ".0");
+  return Out;
+}
+
 /// \brief Convert a JSON value to Nix expression syntax.
 /// \param V The JSON value to convert
 /// \param Indent Current indentation level (for pretty-printing)
@@ -32,14 +68,13 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
     Out = "null";
   } else if (auto B = V.getAsBoolean()) {
     Out = *B ? "true" : "false";
-  } else if (auto I = V.getAsInteger()) {
+  } else if (auto I = asNixInteger(V)) {
     Out = std::to_string(*I);
   } else if (auto D = V.getAsNumber()) {
-    // Format floating point with enough precision
-    std::ostringstream SS;
-    SS << std::setprecision(17) << *D;
-    Out = SS.str();
+    Out = floatToNix(*D);
   } else if (auto S = V.getAsString()) {
+    if (S->contains('\0'))
+      return ""; // Not possible in Nix strings
     Out = "\"" + escapeNixString(*S) + "\"";
   } else if (const auto *A = V.getAsArray()) {
     if (A->size() > MaxJsonWidth)
@@ -57,6 +92,9 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
         std::string Elem = jsonToNix((*A)[I], Indent + 1, Depth + 1);
         if (Elem.empty())
           return ""; // Propagate error
+        // Negations in lists need parentheses
+        if (Elem.front() == '-')
+          Elem = "(" + Elem + ")";
         Out += NextIndent + Elem;
         if (I + 1 < A->size())
           Out += "\n";
@@ -78,6 +116,8 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
       size_t I = 0;
       for (const auto &KV : *O) {
         std::string Key = quoteNixAttrKey(KV.first.str());
+        if (llvm::StringRef(KV.first).contains('\0'))
+          return ""; // Not possible in Nix strings
         std::string Val = jsonToNix(KV.second, Indent + 1, Depth + 1);
         if (Val.empty())
           return ""; // Propagate error
@@ -92,6 +132,25 @@ std::string jsonToNix(const llvm::json::Value &V, size_t Indent = 0,
   return Out;
 }
 
+/// \brief Check if brackets are nested too deeply, the JSON parser is
+/// recursive.
+bool isTooDeep(llvm::StringRef Src) {
+  size_t Depth = 0;
+  bool InString = false;
+  for (size_t I = 0; I < Src.size(); ++I) {
+    char C = Src[I];
+    if (C == '"')
+      InString = !InString;
+    else if (InString && C == '\\')
+      ++I; // Skip the escaped character
+    else if (!InString && (C == '[' || C == '{') && ++Depth > MaxJsonDepth + 1)
+      return true;
+    else if (!InString && (C == ']' || C == '}') && Depth > 0)
+      --Depth;
+  }
+  return false;
+}
+
 } // namespace
 
 void addJsonToNixAction(llvm::StringRef Src, const lspserver::Range &Range,
@@ -128,6 +187,9 @@ void addJsonToNixAction(llvm::StringRef Src, const lspserver::Range &Range,
   if (First != '{' && First != '[')
     return;
 
+  if (isTooDeep(SelectedText))
+    return;
+
   // Try to parse as JSON
   llvm::Expected<llvm::json::Value> JsonVal = llvm::json::parse(SelectedText);
   if (!JsonVal) {
-- 
2.43.0


From 02287a83631b40186143efbead4425c6036c23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 78/88] fix: strings that do not end are not converted

---
 .../Controller/CodeActions/RewriteString.cpp  | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/nixd/lib/Controller/CodeActions/RewriteString.cpp b/nixd/lib/Controller/CodeActions/RewriteString.cpp
index 497ecd8..29a9818 100644
--- a/nixd/lib/Controller/CodeActions/RewriteString.cpp
+++ b/nixd/lib/Controller/CodeActions/RewriteString.cpp
@@ -11,6 +11,7 @@
 #include <llvm/ADT/StringExtras.h>
 
 #include <algorithm>
+#include <optional>
 
 namespace nixd {
 
@@ -38,7 +39,8 @@ struct Part {
 };
 
 /// \brief Split the literal text of indented strings into parts.
-void splitIndentedText(llvm::StringRef S, std::vector<Part> &Parts) {
+/// \returns whether the text ends with closing quotes, which are not a part.
+bool splitIndentedText(llvm::StringRef S, std::vector<Part> &Parts) {
   bool InText = false;
   auto Text = [&](llvm::StringRef T) {
     if (!InText)
@@ -65,6 +67,8 @@ void splitIndentedText(llvm::StringRef S, std::vector<Part> &Parts) {
                              : C == 't' ? '\t'
                                         : C));
       Len = 4;
+    } else if (S.starts_with("''")) {
+      return true;
     } else if (S.front() == '\'' || S.front() == '$') {
       // A quote, or dollar, takes an ordinary character next to it.
       bool IsQuote = S.front() == '\'';
@@ -79,11 +83,13 @@ void splitIndentedText(llvm::StringRef S, std::vector<Part> &Parts) {
     }
     S = S.drop_front(Len);
   }
+  return false;
 }
 
 /// \brief Parts of the string literal, as they are written.
-std::vector<Part> getParts(const nixf::ExprString &Str, bool IsIndented,
-                           llvm::StringRef Src) {
+/// \returns std::nullopt if there are no closing quotes.
+std::optional<std::vector<Part>>
+getParts(const nixf::ExprString &Str, bool IsIndented, llvm::StringRef Src) {
   std::vector<Part> Parts;
   if (!IsIndented) {
     for (const auto &Frag : Str.parts().fragments()) {
@@ -108,7 +114,8 @@ std::vector<Part> getParts(const nixf::ExprString &Str, bool IsIndented,
     Parts.emplace_back(Part{.Text = "", .Interp = &Interp});
     Begin = Interp.rCur().offset();
   }
-  splitIndentedText(Src.slice(Begin, Str.rCur().offset() - QuoteSize), Parts);
+  if (!splitIndentedText(Src.slice(Begin, Str.rCur().offset()), Parts))
+    return std::nullopt;
   return Parts;
 }
 
@@ -329,18 +336,20 @@ void addRewriteStringAction(const nixf::Node &N,
   bool IsIndented = isIndentedString(Src, Str.range());
 
   // Build the converted string
-  std::vector<Part> Parts = getParts(Str, IsIndented, Src);
+  auto Parts = getParts(Str, IsIndented, Src);
+  if (!Parts)
+    return;
   std::string NewText;
   std::string Title;
 
   if (IsIndented) {
     // Convert indented -> double-quoted
-    stripIndentation(Parts);
-    NewText = buildDoubleQuotedString(Parts, Src);
+    stripIndentation(*Parts);
+    NewText = buildDoubleQuotedString(*Parts, Src);
     Title = "Convert to double-quoted string";
   } else {
     // Convert double-quoted -> indented
-    NewText = buildIndentedString(Parts, Src);
+    NewText = buildIndentedString(*Parts, Src);
     // Do not join the quotes with identifiers or strings around.
     llvm::StringRef Before = Src.take_front(Str.lCur().offset());
     if (!Before.empty() && (llvm::isAlnum(Before.back()) ||
-- 
2.43.0


From 500da68264e3d8d26a60b1297513780a54a55b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 79/88] fix: documentation links are encoded

---
 nixd/lib/Controller/CodeActions/NoogleDoc.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/CodeActions/NoogleDoc.cpp b/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
index 2669d42..7362c6a 100644
--- a/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
+++ b/nixd/lib/Controller/CodeActions/NoogleDoc.cpp
@@ -5,12 +5,26 @@
 
 #include <nixf/Basic/Nodes/Expr.h>
 
+#include <llvm/ADT/StringExtras.h>
 #include <llvm/Support/JSON.h>
 
 namespace nixd {
 
 namespace {
 
+/// \brief Append a segment of the URL, percent-encoded.
+void appendSegment(std::string &Url, llvm::StringRef Segment) {
+  for (char C : Segment) {
+    // Primes are common in names, and valid in URLs.
+    if (llvm::isAlnum(C) || llvm::StringRef("-._~'").contains(C)) {
+      Url += C;
+      continue;
+    }
+    Url += '%';
+    Url += llvm::toHex(llvm::StringRef(&C, 1));
+  }
+}
+
 /// \brief Construct noogle.dev URL for a lib.* function path.
 /// Examples:
 ///   - {"lib", "optionalString"} -> "https://noogle.dev/f/lib/optionalString"
@@ -20,7 +34,7 @@ std::string buildNoogleUrl(const std::vector<std::string> &Path) {
   std::string Url = "https://noogle.dev/f";
   for (const auto &Segment : Path) {
     Url += "/";
-    Url += Segment;
+    appendSegment(Url, Segment);
   }
   return Url;
 }
-- 
2.43.0


From ac21c60a97ffe8edcfd532a7da5f0f909508ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 80/88] fix: the configuration of the command line is applied

---
 nixd/lib/Controller/LifeTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 0aac76d..66f01fd 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -189,7 +189,7 @@ void Controller::
                            "nixos options");
   }
   try {
-    Config = parseCLIConfig();
+    updateConfig(parseCLIConfig());
   } catch (LLVMErrorException &Err) {
     lspserver::elog("parse CLI config error: {0}, {1}", Err.what(),
                     Err.takeError());
-- 
2.43.0


From f405bb2d401458ee86c9107a92f98eb138adb645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 81/88] fix: paths lead to the files that Nix reads

---
 nixd/lib/Controller/DocumentLink.cpp |  3 ++-
 nixd/lib/Controller/PathResolve.h    | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/nixd/lib/Controller/DocumentLink.cpp b/nixd/lib/Controller/DocumentLink.cpp
index afd80df..9f69ecf 100644
--- a/nixd/lib/Controller/DocumentLink.cpp
+++ b/nixd/lib/Controller/DocumentLink.cpp
@@ -45,8 +45,9 @@ void dfs(const Node *N, const std::string &BasePath,
             DocumentLink{.range = toLSPRange(Src, N->range()),
                          .target = URIForFile::canonicalize(*Link, *Link)});
       }
+      return;
     }
-    return;
+    break;
   }
   default:
     break;
diff --git a/nixd/lib/Controller/PathResolve.h b/nixd/lib/Controller/PathResolve.h
index 56d3f16..4c6091b 100644
--- a/nixd/lib/Controller/PathResolve.h
+++ b/nixd/lib/Controller/PathResolve.h
@@ -40,6 +40,10 @@ inline std::optional<std::string> resolveExprPath(const std::string &BasePath,
     return std::nullopt;
   }
 
+  // FIXME: support home path.
+  if (ExprPath.front() == '~')
+    return std::nullopt;
+
   try {
     // Get the base directory from the file path
     std::error_code EC;
@@ -58,12 +62,17 @@ inline std::optional<std::string> resolveExprPath(const std::string &BasePath,
     }
 
     // Resolve the user-provided path relative to base directory
+    // Nix removes ".." from path literals by their text, so it does not follow
+    // symlinks before that.
+    fs::path LexicalPath = (BaseDirCanonical / ExprPath).lexically_normal();
+    if (!LexicalPath.has_filename())
+      LexicalPath = LexicalPath.parent_path(); // Trailing slash
+
     // Use weakly_canonical to handle non-existent intermediate components
-    fs::path ResolvedPath =
-        fs::weakly_canonical(BaseDirCanonical / ExprPath, EC);
+    fs::path ResolvedPath = fs::weakly_canonical(LexicalPath, EC);
     if (EC) {
       lspserver::elog("path-resolve: weakly_canonical failed for {0}: {1}",
-                      (BaseDirCanonical / ExprPath).string(), EC.message());
+                      LexicalPath.string(), EC.message());
       return std::nullopt;
     }
 
-- 
2.43.0


From 1ed799b80d4a4534e9e3b52ae485d64a8b1e29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:45 +0000
Subject: [PATCH 82/88] fix: formatting neither hangs nor leaks, whatever the
 formatter does

---
 nixd/lib/Controller/Format.cpp | 218 ++++++++++++++++++++++-----------
 nixd/lib/Support/ForkPiped.cpp |  29 ++++-
 2 files changed, 174 insertions(+), 73 deletions(-)

diff --git a/nixd/lib/Controller/Format.cpp b/nixd/lib/Controller/Format.cpp
index 7368e42..1e3eeb2 100644
--- a/nixd/lib/Controller/Format.cpp
+++ b/nixd/lib/Controller/Format.cpp
@@ -7,95 +7,175 @@
 /// external command and then let that process do formatting.
 
 #include "nixd/Controller/Controller.h"
+#include "nixd/Support/AutoCloseFD.h"
 #include "nixd/Support/ForkPiped.h"
 
 #include <boost/asio/post.hpp>
+
+#include <cerrno>
+#include <csignal>
+#include <system_error>
+
+#include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
+#include <unistd.h>
 
 using namespace nixd;
 using namespace lspserver;
 
-void Controller::onFormat(const DocumentFormattingParams &Params,
-                          Callback<std::vector<TextEdit>> Reply) {
-  auto Action = [this, Params, Reply = std::move(Reply)]() mutable {
-    lspserver::PathRef File = Params.textDocument.uri.file();
-    const std::string &Code = *Store.getDraft(File)->Contents;
-    // Invokes another process and then read it's stdout.
-    std::vector<std::string> FormatCommand;
-    {
-      // Read from config, get format options.
-      std::lock_guard G(ConfigLock);
-      FormatCommand = Config.formatting.command;
-    }
+namespace {
 
-    if (FormatCommand.empty()) {
-      Reply(error("formating command is empty, please set external formatter"));
-      return;
-    }
+llvm::Error sysError(llvm::StringRef What) {
+  return error("{0}: {1}", What, std::generic_category().message(errno));
+}
 
-    // Convert vectors to syscall form. This should be cheap.
-    std::vector<char *> Syscall;
-    Syscall.reserve(FormatCommand.size());
-    for (const auto &Str : FormatCommand) {
-      // For compatibility with existing C code.
-      Syscall.emplace_back(const_cast<char *>(Str.c_str()));
+/// \brief Write \p Input, and read what is printed at the same time.
+///
+/// The process may print before it reads everything, or end without reading.
+llvm::Error communicate(std::unique_ptr<util::AutoCloseFD> In, int Out, int Err,
+                        llvm::StringRef Input, std::string &Output,
+                        std::string &Log) {
+  fcntl(In->get(), F_SETFL, fcntl(In->get(), F_GETFL) | O_NONBLOCK);
+  pollfd FDs[] = {
+      {.fd = In->get(), .events = POLLOUT, .revents = 0},
+      {.fd = Out, .events = POLLIN, .revents = 0},
+      {.fd = Err, .events = POLLIN, .revents = 0},
+  };
+  auto CloseInput = [&]() {
+    In.reset();
+    FDs[0].fd = -1;
+  };
+  if (Input.empty())
+    CloseInput();
+  while (FDs[1].fd != -1 || FDs[2].fd != -1) {
+    if (poll(FDs, 3, -1) == -1) {
+      if (errno == EINTR)
+        continue;
+      return sysError("poll");
+    }
+    if (FDs[0].revents) {
+      ssize_t Written = write(FDs[0].fd, Input.data(), Input.size());
+      if (Written != -1)
+        Input = Input.drop_front(Written);
+      else if (errno == EPIPE)
+        Input = ""; // The process does not want more.
+      else if (errno != EINTR && errno != EAGAIN)
+        return sysError("write");
+      if (Input.empty())
+        CloseInput();
+    }
+    for (pollfd &FD : llvm::MutableArrayRef(FDs).drop_front()) {
+      if (!FD.revents)
+        continue;
+      char Buf[4096];
+      ssize_t Read = read(FD.fd, Buf, sizeof(Buf));
+      if (Read > 0)
+        (FD.fd == Out ? Output : Log).append(Buf, Read);
+      else if (Read == 0)
+        FD.fd = -1;
+      else if (errno != EINTR)
+        return sysError("read");
     }
+  }
+  return llvm::Error::success();
+}
 
-    // Null terminator.
-    Syscall.emplace_back(nullptr);
+/// \brief Invoke the command, and get what it prints for the \p Input.
+llvm::Expected<std::string> runCommand(const std::vector<std::string> &Command,
+                                       llvm::StringRef Input) {
+  // Convert vectors to syscall form. This should be cheap.
+  std::vector<char *> Syscall;
+  Syscall.reserve(Command.size() + 1);
+  for (const auto &Str : Command) {
+    // For compatibility with existing C code.
+    Syscall.emplace_back(const_cast<char *>(Str.c_str()));
+  }
 
-    int In;
-    int Out;
-    int Err;
+  // Null terminator.
+  Syscall.emplace_back(nullptr);
 
-    pid_t Child = forkPiped(In, Out, Err);
-    if (Child == 0) {
-      execvp(Syscall[0], Syscall.data());
-      exit(-1);
-    }
-    // Firstly, send the document to the process stdin.
-    // Invoke POSIX write(2) to do such thing.
-    const char *Start = Code.c_str();
-    const char *End = Code.c_str() + Code.size();
-    while (Start != End) {
-      if (long Writen = write(In, Start, End - Start); Writen != -1) {
-        Start += Writen;
-      } else {
-        throw std::system_error(errno, std::generic_category());
+  int In;
+  int Out;
+  int Err;
+
+  pid_t Child;
+  try {
+    Child = forkPiped(In, Out, Err);
+  } catch (const std::system_error &E) {
+    return error("cannot start {0}: {1}", Command.front(), E.what());
+  }
+  if (Child == 0) {
+    std::signal(SIGPIPE, SIG_DFL);
+    execvp(Syscall[0], Syscall.data());
+    // Do not run destructors of the server.
+    _exit(127);
+  }
+
+  auto InFD = std::make_unique<util::AutoCloseFD>(In);
+  std::string Output;
+  std::string Log;
+  llvm::Error E = [&]() {
+    util::AutoCloseFD OutFD(Out);
+    util::AutoCloseFD ErrFD(Err);
+    return communicate(std::move(InFD), Out, Err, Input, Output, Log);
+  }();
+
+  // And, wait for the process.
+  int Exit = 0;
+  while (waitpid(Child, &Exit, 0) == -1 && errno == EINTR)
+    ;
+
+  if (E)
+    return E;
+
+  if (!Log.empty())
+    vlog("formatting {0} command: {1}", Command.front(), Log);
+
+  if (Exit != 0)
+    return error("formatting {0} command exited with {1}", Command.front(),
+                 Exit);
+
+  return Output;
+}
+
+} // namespace
+
+void Controller::onFormat(const DocumentFormattingParams &Params,
+                          Callback<std::vector<TextEdit>> Reply) {
+  using CheckTy = std::vector<TextEdit>;
+  auto Action = [this, Params, Reply = std::move(Reply)]() mutable {
+    return Reply([&]() -> llvm::Expected<CheckTy> {
+      auto Draft = Store.getDraft(Params.textDocument.uri.file());
+      if (!Draft)
+        return error("the document is not opened, cannot format it");
+      const std::string &Code = *Draft->Contents;
+
+      std::vector<std::string> FormatCommand;
+      {
+        // Read from config, get format options.
+        std::lock_guard G(ConfigLock);
+        FormatCommand = Config.formatting.command;
       }
-    }
-    close(In);
 
-    // And, wait for the process.
-    int Exit = 0;
-    waitpid(Child, &Exit, 0);
+      if (FormatCommand.empty())
+        return error(
+            "formating command is empty, please set external formatter");
 
-    if (Exit != 0) {
-      Reply(error("formatting {0} command exited with {1}", FormatCommand[0],
-                  Exit));
-      return;
-    }
+      // Invokes another process and then read it's stdout.
+      auto Response = runCommand(FormatCommand, Code);
+      if (!Response)
+        return Response.takeError();
 
-    // Okay, read stdout from it.
-    std::string Response;
-    while (true) {
-      char Buf[1024];
-      auto Read = read(Out, Buf, sizeof(Buf));
-      if (Read == 0)
-        break;
-      if (Read < 0)
-        throw std::system_error(errno, std::generic_category());
-      // Otherwise, append it to "response"
-      Response.append(Buf, Read);
-    }
+      if (*Response == Code)
+        return CheckTy{};
 
-    if (Response == Code) {
-      Reply(std::vector<TextEdit>{});
-      return;
-    }
+      if (!llvm::json::isUTF8(*Response))
+        return error("formatting {0} command did not print UTF-8",
+                     FormatCommand.front());
 
-    TextEdit E{{{0, 0}, {INT_MAX, INT_MAX}}, Response};
-    Reply(std::vector{E});
+      return CheckTy{{{{0, 0}, {INT_MAX, INT_MAX}}, std::move(*Response)}};
+    }());
   };
 
   boost::asio::post(Pool, std::move(Action));
diff --git a/nixd/lib/Support/ForkPiped.cpp b/nixd/lib/Support/ForkPiped.cpp
index 60b704e..c520fec 100644
--- a/nixd/lib/Support/ForkPiped.cpp
+++ b/nixd/lib/Support/ForkPiped.cpp
@@ -1,18 +1,39 @@
 #include "nixd/Support/ForkPiped.h"
 
 #include <cerrno>
-
+#include <mutex>
 #include <system_error>
+
+#include <fcntl.h>
 #include <unistd.h>
 
+namespace {
+
+/// \brief Create a pipe that is not inherited by other processes.
+///
+/// If a process had the other end, it would not see the end of the file.
+void createPipe(int (&Pipe)[2]) {
+  if (pipe(Pipe) == -1)
+    throw std::system_error(errno, std::generic_category());
+  fcntl(Pipe[0], F_SETFD, FD_CLOEXEC);
+  fcntl(Pipe[1], F_SETFD, FD_CLOEXEC);
+}
+
+} // namespace
+
 int nixd::forkPiped(int &In, int &Out, int &Err) {
   static constexpr int READ = 0;
   static constexpr int WRITE = 1;
   int PipeIn[2];
   int PipeOut[2];
   int PipeErr[2];
-  if (pipe(PipeIn) == -1 || pipe(PipeOut) == -1 || pipe(PipeErr) == -1)
-    throw std::system_error(errno, std::generic_category());
+
+  // Do not fork in other threads before the pipes are marked.
+  static std::mutex ForkLock;
+  std::lock_guard _(ForkLock);
+  createPipe(PipeIn);
+  createPipe(PipeOut);
+  createPipe(PipeErr);
 
   pid_t Child = fork();
 
@@ -40,6 +61,6 @@ int nixd::forkPiped(int &In, int &Out, int &Err) {
 
   In = PipeIn[WRITE];
   Out = PipeOut[READ];
-  Err = PipeOut[READ];
+  Err = PipeErr[READ];
   return Child;
 }
-- 
2.43.0


From b6804661c20d87fb94c9cb82b1f442a0f8125ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 83/88] fix: requests before initialize are refused

---
 nixd/include/nixd/Controller/Controller.h    |  8 +++++++
 nixd/lib/Controller/LifeTime.cpp             | 25 ++++++++++++++++++++
 nixd/lspserver/include/lspserver/LSPServer.h | 13 +++++++---
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index 8a744d0..e195eba 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -155,6 +155,14 @@ private:
 
   void removeDocument(lspserver::PathRef File);
 
+  /// Whether or not "initialize" is received. The workers are started there, so
+  /// nothing else is handled before.
+  bool Initialized = false;
+
+  bool onNotify(llvm::StringRef Method, llvm::json::Value Params) override;
+  bool onCall(llvm::StringRef Method, llvm::json::Value Params,
+              llvm::json::Value ID) override;
+
   void onInitialize(const lspserver::InitializeParams &Params,
                     lspserver::Callback<llvm::json::Value> Reply);
 
diff --git a/nixd/lib/Controller/LifeTime.cpp b/nixd/lib/Controller/LifeTime.cpp
index 66f01fd..1e6c3e9 100644
--- a/nixd/lib/Controller/LifeTime.cpp
+++ b/nixd/lib/Controller/LifeTime.cpp
@@ -83,10 +83,35 @@ void Controller::evalExprWithProgress(AttrSetClient &Client,
   Client.evalExpr(Params, std::move(Action));
 }
 
+bool Controller::onNotify(llvm::StringRef Method, Value Params) {
+  if (!Initialized && Method != "exit") {
+    lspserver::elog("{0} is received before initialize", Method);
+    return true;
+  }
+  return LSPServer::onNotify(Method, std::move(Params));
+}
+
+bool Controller::onCall(llvm::StringRef Method, Value Params, Value ID) {
+  if (!Initialized && Method != "initialize") {
+    replyError(std::move(ID),
+               llvm::make_error<LSPError>("server not initialized",
+                                          ErrorCode::ServerNotInitialized));
+    return true;
+  }
+  if (Initialized && Method == "initialize") {
+    replyError(std::move(ID),
+               llvm::make_error<LSPError>("server already initialized",
+                                          ErrorCode::InvalidRequest));
+    return true;
+  }
+  return LSPServer::onCall(Method, std::move(Params), std::move(ID));
+}
+
 void Controller::
     onInitialize( // NOLINT(readability-convert-member-functions-to-static)
         [[maybe_unused]] const InitializeParams &Params,
         Callback<Value> Reply) {
+  Initialized = true;
 
   Object ServerCaps{
       {{"textDocumentSync",
diff --git a/nixd/lspserver/include/lspserver/LSPServer.h b/nixd/lspserver/include/lspserver/LSPServer.h
index 04537bd..6facc77 100644
--- a/nixd/lspserver/include/lspserver/LSPServer.h
+++ b/nixd/lspserver/include/lspserver/LSPServer.h
@@ -19,9 +19,6 @@ private:
   std::unique_ptr<InboundPort> In;
   std::unique_ptr<OutboundPort> Out;
 
-  bool onNotify(llvm::StringRef Method, llvm::json::Value) override;
-  bool onCall(llvm::StringRef Method, llvm::json::Value Params,
-              llvm::json::Value ID) override;
   bool onReply(llvm::json::Value ID,
                llvm::Expected<llvm::json::Value> Result) override;
 
@@ -56,6 +53,16 @@ private:
 
 protected:
   HandlerRegistry Registry;
+
+  bool onNotify(llvm::StringRef Method, llvm::json::Value) override;
+  bool onCall(llvm::StringRef Method, llvm::json::Value Params,
+              llvm::json::Value ID) override;
+
+  /// Reject the call, without invoking its handler.
+  void replyError(llvm::json::Value ID, llvm::Error Err) {
+    Out->reply(std::move(ID), std::move(Err));
+  }
+
   template <class T>
   llvm::unique_function<void(const T &)>
   mkOutNotifiction(llvm::StringRef Method, OutboundPort *O = nullptr) {
-- 
2.43.0


From e4baf67b6553171e06be7e62c608e0895e58d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:42 +0000
Subject: [PATCH 84/88] fix: items may have an empty name

---
 nixd/lib/Controller/Completion.cpp | 3 +++
 nixd/lspserver/src/Protocol.cpp    | 1 -
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index 5f6846f..fee8431 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -46,6 +46,9 @@ void addItem(std::vector<CompletionItem> &Items, CompletionItem Item) {
   if (Items.size() >= MaxCompletionSize) {
     throw ExceedSizeError();
   }
+  // Attributes may have an empty name, but items need a label.
+  if (Item.label.empty())
+    Item.label = quoteNixAttrKey(Item.label);
   Items.emplace_back(std::move(Item));
 }
 
diff --git a/nixd/lspserver/src/Protocol.cpp b/nixd/lspserver/src/Protocol.cpp
index e8cd92a..8b9aaaf 100644
--- a/nixd/lspserver/src/Protocol.cpp
+++ b/nixd/lspserver/src/Protocol.cpp
@@ -1193,7 +1193,6 @@ bool fromJSON(const llvm::json::Value &E, CompletionItemKindBitset &Out,
 }
 
 llvm::json::Value toJSON(const CompletionItem &CI) {
-  assert(!CI.label.empty() && "completion item label is required");
   llvm::json::Object Result{{"label", CI.label}};
   if (CI.kind != CompletionItemKind::Missing)
     Result["kind"] = static_cast<int>(CI.kind);
-- 
2.43.0


From 1bc1b4154ad28d8559fc79c56122c1984cecbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:42 +0000
Subject: [PATCH 85/88] fix: the server stops when workers do not answer

---
 nixd/include/nixd/Controller/Controller.h |  7 +--
 nixd/include/nixd/Eval/AttrSetClient.h    | 11 ++---
 nixd/lib/Controller/Support.cpp           | 28 ++++++++++++
 nixd/lib/Eval/AttrSetClient.cpp           | 52 ++++++++++++++++++++++-
 4 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/nixd/include/nixd/Controller/Controller.h b/nixd/include/nixd/Controller/Controller.h
index e195eba..ef0f2fa 100644
--- a/nixd/include/nixd/Controller/Controller.h
+++ b/nixd/include/nixd/Controller/Controller.h
@@ -262,12 +262,7 @@ public:
   Controller(std::unique_ptr<lspserver::InboundPort> In,
              std::unique_ptr<lspserver::OutboundPort> Out);
 
-  ~Controller() override {
-    Pool.join();
-    // The workers call back to the controller, so stop them at first.
-    Options.clear();
-    NixpkgsEval.reset();
-  }
+  ~Controller() override;
 
   bool isReadyToEval() { return Eval && Eval->ready(); }
 };
diff --git a/nixd/include/nixd/Eval/AttrSetClient.h b/nixd/include/nixd/Eval/AttrSetClient.h
index 11931d9..2046776 100644
--- a/nixd/include/nixd/Eval/AttrSetClient.h
+++ b/nixd/include/nixd/Eval/AttrSetClient.h
@@ -81,11 +81,12 @@ public:
   /// \brief Check if the process is still alive
   /// \returns nullptr if it has been dead.
   AttrSetClient *client();
-  ~AttrSetClientProc() {
-    Client.exit();
-    Client.closeInbound();
-    Input.join();
-  }
+  ~AttrSetClientProc();
+
+  /// \brief Kill all workers that are still running.
+  ///
+  /// Everything waiting for them gets an error then.
+  static void killAll();
 
   /// \see StreamProc::StreamProc
   AttrSetClientProc(const std::function<int()> &Action);
diff --git a/nixd/lib/Controller/Support.cpp b/nixd/lib/Controller/Support.cpp
index 1ef04e9..32cf708 100644
--- a/nixd/lib/Controller/Support.cpp
+++ b/nixd/lib/Controller/Support.cpp
@@ -6,11 +6,39 @@
 
 #include <boost/asio/post.hpp>
 
+#include <chrono>
+#include <future>
 #include <mutex>
+#include <thread>
 
 using namespace lspserver;
 using namespace nixd;
 
+namespace {
+
+/// The answers of workers are not waited any longer when the server stops.
+constexpr auto ExitTimeout = std::chrono::seconds(10);
+
+} // namespace
+
+Controller::~Controller() {
+  std::promise<void> Stopped;
+  std::thread Watch([F = Stopped.get_future()]() {
+    if (F.wait_for(ExitTimeout) == std::future_status::timeout) {
+      elog("workers are not responding, kill them");
+      AttrSetClientProc::killAll();
+    }
+  });
+
+  Pool.join();
+  // The workers call back to the controller, so stop them at first.
+  Options.clear();
+  NixpkgsEval.reset();
+
+  Stopped.set_value();
+  Watch.join();
+}
+
 void Controller::removeDocument(lspserver::PathRef File) {
   Store.removeDraft(File);
   {
diff --git a/nixd/lib/Eval/AttrSetClient.cpp b/nixd/lib/Eval/AttrSetClient.cpp
index 9c19c4c..29a149d 100644
--- a/nixd/lib/Eval/AttrSetClient.cpp
+++ b/nixd/lib/Eval/AttrSetClient.cpp
@@ -3,10 +3,41 @@
 #include "nixd/Eval/AttrSetClient.h"
 
 #include <signal.h> // NOLINT(modernize-deprecated-headers)
+#include <sys/wait.h>
+
+#include <chrono>
+#include <mutex>
+#include <set>
 
 using namespace nixd;
 using namespace lspserver;
 
+namespace {
+
+std::mutex RunningLock;
+std::set<pid_t> Running; // GUARDED_BY(RunningLock)
+
+/// Workers are busy if they do not stop in this time, e.g. evaluating an
+/// expression that does not terminate.
+constexpr auto StopTimeout = std::chrono::seconds(1);
+
+/// Wait for the process to stop, or kill it.
+void stopProcess(pid_t PID) {
+  const auto Deadline = std::chrono::steady_clock::now() + StopTimeout;
+  pid_t Stopped = 0;
+  while (!Stopped && std::chrono::steady_clock::now() < Deadline) {
+    Stopped = waitpid(PID, nullptr, WNOHANG);
+    if (!Stopped)
+      std::this_thread::sleep_for(std::chrono::milliseconds(5));
+  }
+  if (!Stopped) {
+    kill(PID, SIGKILL);
+    waitpid(PID, nullptr, 0);
+  }
+}
+
+} // namespace
+
 AttrSetClient::AttrSetClient(std::unique_ptr<lspserver::InboundPort> In,
                              std::unique_ptr<lspserver::OutboundPort> Out)
     : LSPServer(std::move(In), std::move(Out)) {
@@ -31,7 +62,26 @@ const char *AttrSetClient::getExe() {
 
 AttrSetClientProc::AttrSetClientProc(const std::function<int()> &Action)
     : Proc(Action), Client(Proc.mkIn(), Proc.mkOut()),
-      Input([this]() { Client.run(); }) {}
+      Input([this]() { Client.run(); }) {
+  std::lock_guard _(RunningLock);
+  Running.insert(Proc.proc().PID);
+}
+
+AttrSetClientProc::~AttrSetClientProc() {
+  Client.exit();
+  Client.closeInbound();
+  Input.join();
+
+  std::lock_guard _(RunningLock);
+  Running.erase(Proc.proc().PID);
+  stopProcess(Proc.proc().PID);
+}
+
+void AttrSetClientProc::killAll() {
+  std::lock_guard _(RunningLock);
+  for (pid_t PID : Running)
+    kill(PID, SIGKILL);
+}
 
 AttrSetClient *AttrSetClientProc::client() {
   if (!kill(Proc.proc().PID, 0))
-- 
2.43.0


From 553a04d9fb392753c6f0c16789ea5e9c052ac6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 86/88] fix: nixf-tidy prints names of any bytes

---
 libnixf/tools/nixf-tidy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libnixf/tools/nixf-tidy.cpp b/libnixf/tools/nixf-tidy.cpp
index b4c575b..aa17fbb 100644
--- a/libnixf/tools/nixf-tidy.cpp
+++ b/libnixf/tools/nixf-tidy.cpp
@@ -48,8 +48,9 @@ int main(int Argc, const char *Argv[]) {
   nlohmann::json V;
   to_json(V, Diags);
 
-  if (PrettyPrint)
-    std::cout << std::setw(4);
-  std::cout << V << "\n";
+  // Names may be any bytes, replace what is not UTF-8.
+  std::cout << V.dump(PrettyPrint ? 4 : -1, ' ', /*ensure_ascii=*/false,
+                      nlohmann::json::error_handler_t::replace)
+            << "\n";
   return 0;
 }
-- 
2.43.0


From 2808ca52c428ba965eb8ae65d7218fc607c74c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:47 +0000
Subject: [PATCH 87/88] fix: offer no options inside of `=`, `rec` and `let`

---
 nixd/lib/Controller/Completion.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nixd/lib/Controller/Completion.cpp b/nixd/lib/Controller/Completion.cpp
index fee8431..f1eea39 100644
--- a/nixd/lib/Controller/Completion.cpp
+++ b/nixd/lib/Controller/Completion.cpp
@@ -66,6 +66,15 @@ bool canCompleteAt(const Node &N) {
   return N.kind() == Node::NK_Binds || N.kind() == Node::NK_ExprAttrs;
 }
 
+/// Check whether attributes may be written next to \p N, a part of some set.
+/// e.g. `{ |}`, but not `{ foo |= bar; }`
+bool canBindAt(const Node &N, llvm::StringRef Src) {
+  if (N.kind() != Node::NK_Misc)
+    return true;
+  const std::string_view Token = N.src(Src);
+  return Token != "=" && Token != "rec" && Token != "let";
+}
+
 /// The dot just before \p Pos, if no name of the selection follows it.
 /// e.g. `lib.|`
 const Dot *getTrailingDot(const Node &N, nixf::Position Pos) {
@@ -562,6 +571,8 @@ void Controller::onCompletion(const CompletionParams &Params,
             return List;
           }
           case Node::NK_ExprAttrs: {
+            if (!canBindAt(N, TU->src()))
+              return List;
             completeAttrPath(EditRange, N, PM, OptionsLock, Options,
                              ClientCaps.CompletionSnippets, List.items);
             return List;
-- 
2.43.0


From 79163974a6040394e4768771a98f1e5c5842570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:49 +0000
Subject: [PATCH 88/88] fix: line comments end at a carriage return

---
 libnixf/src/Parse/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libnixf/src/Parse/Lexer.cpp b/libnixf/src/Parse/Lexer.cpp
index 5942ca7..c2bbf56 100644
--- a/libnixf/src/Parse/Lexer.cpp
+++ b/libnixf/src/Parse/Lexer.cpp
@@ -136,7 +136,7 @@ bool Lexer::consumeComments() {
   } else if (consumePrefix("#")) {
     // Single line comments, consume blocks until we meet EOF or '\n' or '\r'
     while (true) {
-      if (eof() || consumeEOL()) {
+      if (eof() || consumeEOL() || peek() == '\r') {
         return true;
       }
       consume(); // Consume a character (single line comment body).
-- 
2.43.0

