From 49dacc6ffd694624d392c1486a681692a5a4afc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 01/61] fix: require end of statement in the last import-stmt
 and interface-stmt forms

The eol() was a separate alternative, so 'import, none foo' and
'abstract interface foo' were accepted (as was an empty statement).
---
 src/flpr/parse_stmt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 7fe6153..ff1bafe 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2081,7 +2081,7 @@ Stmt_Tree import_stmt(TT_Stream &ts) {
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA), TOK(KW_ONLY), TOK(TK_COLON),
                list(TAG(SG_IMPORT_NAME_LIST), name()), eol()),
          h_seq(TOK(KW_IMPORT), TOK(TK_COMMA),
-               h_alts(TOK(KW_NONE), TOK(KW_ALL))), eol());
+               h_alts(TOK(KW_NONE), TOK(KW_ALL)), eol()));
   EVAL(SG_IMPORT_STMT, p(ts));
 }
 
@@ -2171,7 +2171,7 @@ Stmt_Tree interface_stmt(TT_Stream &ts) {
   constexpr auto p =
     alts(rule_tag,
          h_seq(TOK(KW_INTERFACE), opt(rule(generic_spec)), eol()),
-         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE)), eol());
+         h_seq(TOK(KW_ABSTRACT), TOK(KW_INTERFACE), eol()));
   EVAL(SG_INTERFACE_STMT, p(ts));
 }
 
-- 
2.43.0


From 636b20cb2620fe34d74830be2f4956346c2c5445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 02/61] fix: tag sync-images-stmt with its own syntax tag

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index ff1bafe..6928c1e 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3348,7 +3348,7 @@ Stmt_Tree sync_all_stmt(TT_Stream &ts) {
 
 //! R1164: sync-images-stmt (11.6.3)
 Stmt_Tree sync_images_stmt(TT_Stream &ts) {
-  RULE(SG_SYNC_ALL_STMT);
+  RULE(SG_SYNC_IMAGES_STMT);
   constexpr auto p =
     seq(rule_tag,
         TOK(KW_SYNC),
-- 
2.43.0


From e6e9fd210f5a369b9c928e62c34d0e82c55d1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 03/61] fix: accept the submodule name in submodule-stmt

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 6928c1e..461bad7 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3279,6 +3279,7 @@ Stmt_Tree submodule_stmt(TT_Stream &ts) {
     seq(rule_tag, TOK(KW_SUBMODULE), TOK(TK_PARENL),
         name(), opt(h_seq(TOK(TK_COLON), name())),
         TOK(TK_PARENR),
+        name(), // submodule-name
         eol());
   EVAL(SG_SUBMODULE_STMT, p(ts));
 }
-- 
2.43.0


From 63e5d47f97fcba1f2877b9aeff66f1d29272dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 04/61] fix: equiv-op is .EQV./.NEQV.; == and /= are rel-op

---
 src/flpr/parse_stmt.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 461bad7..1e72d15 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1605,8 +1605,8 @@ Stmt_Tree equiv_op(TT_Stream &ts) {
   RULE(SG_EQUIV_OP);
   constexpr auto p =
     alts(rule_tag,
-         TOK(TK_REL_EQ),   // the lexer merges ".EQ." and "=="
-         TOK(TK_REL_NE));
+         TOK(TK_EQV_OP),
+         TOK(TK_NEQV_OP));
   EVAL(SG_EQUIV_OP, p(ts));
 }
 
@@ -3060,6 +3060,8 @@ Stmt_Tree rel_op(TT_Stream &ts) {
   RULE(SG_REL_OP);
   constexpr auto p =
     alts(rule_tag,
+         TOK(TK_REL_EQ),  // the lexer merges ".EQ." and "=="
+         TOK(TK_REL_NE),
          TOK(TK_REL_LT),  // the lexer merges .LT. and <
          TOK(TK_REL_LE),  // similar for the rest of these
          TOK(TK_REL_GT),
-- 
2.43.0


From e6082da1d3a5cf4e775360e4c924f8a1a65b6ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 05/61] fix: the coarray-spec of a component-decl is in square
 brackets

---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 1e72d15..f9ede54 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -853,7 +853,7 @@ Stmt_Tree component_decl(TT_Stream &ts) {
     seq(rule_tag,
         name(), // component-name
         opt(h_parens(rule(component_array_spec))),
-        opt(h_parens(rule(coarray_spec))),
+        opt(h_brackets(rule(coarray_spec))),
         opt(h_seq(TOK(TK_ASTERISK), rule(char_length))),
         opt(rule(component_initialization)));
   EVAL(SG_COMPONENT_DECL, p(ts));
-- 
2.43.0


From 903fe2428f6dfecf5001a6ea97a00eebf103e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 06/61] fix: accept a declaration-type-spec as proc-interface

name() matches any keyword, so it hid the second alternative and
'procedure(real(8)) :: x' was rejected.
---
 src/flpr/parse_stmt.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index f9ede54..8edd846 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2871,8 +2871,8 @@ Stmt_Tree proc_interface(TT_Stream &ts) {
   RULE(SG_PROC_INTERFACE);
   constexpr auto p =
     alts(rule_tag,
-         name(), // interface-name
-         rule(declaration_type_spec));
+         rule(declaration_type_spec),
+         name()); // interface-name
   EVAL(SG_PROC_INTERFACE, p(ts));
 }
 
-- 
2.43.0


From 3ceab49a331bd769290c6edb58a874b6854ca9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 07/61] fix: accept a designator as data-stmt-repeat

The name() alternative matched the start of every designator, so
'data x /a(1)*0/' was rejected.
---
 src/flpr/parse_stmt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 8edd846..02ec4be 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -1073,7 +1073,7 @@ Stmt_Tree data_stmt_repeat(TT_Stream &ts) {
   constexpr auto p =
     alts(rule_tag,
          TOK(SG_INT_LITERAL_CONSTANT),  // integer-constant
-         name(),
+         h_seq(name(), peek(TAG(TK_ASTERISK))),
          rule(designator)  // int-constant-subobject
          );
   EVAL(SG_DATA_STMT_REPEAT, p(ts));
-- 
2.43.0


From 3edbb180960d3e825c0da8dcb44f130602487887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 08/61] fix: accept the construct name in select-rank-case-stmt

---
 src/flpr/parse_stmt.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 02ec4be..da6fcca 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3177,6 +3177,7 @@ Stmt_Tree select_rank_case_stmt(TT_Stream &ts) {
         h_alts(TOK(KW_DEFAULT),
                h_parens(TOK(TK_ASTERISK)),
                h_parens(rule(int_constant_expr))),
+        opt(name()), // select-construct-name
         eol());
   EVAL(SG_SELECT_RANK_CASE_STMT, p(ts));
 }
-- 
2.43.0


From 65f7ec76b97280db08ee6b62e61679881f68528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 09/61] fix: reject an expression with an unclosed paren or
 bracket

consume_until_break kept digesting past the end of the statement.
---
 src/flpr/parse_stmt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index da6fcca..0ecc1be 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -70,6 +70,8 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
       nesting_depth -= 1;
       if (!nesting_depth)
         break;
+    } else if (nesting_depth > 1 && Syntax_Tags::BAD == ts.peek()) {
+      FAIL; // ran out of tokens inside parens or brackets
     } else if (nesting_depth == 1) {
       // Other things you can run into that terminate an expression
       if (Syntax_Tags::BAD == ts.peek())
-- 
2.43.0


From de6cbcfb7846b440923aa7302c5a483caea1d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 10/61] fix: consume_parens rejects an unclosed paren instead
 of asserting

With assertions off it digested past the end of the statement.
---
 src/flpr/parse_stmt.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 0ecc1be..a2cd610 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -105,6 +105,7 @@ Stmt_Tree consume_until_break(TT_Stream &ts, int const rule_tag) {
 
 //! helper function to consume until the matching PARENR
 Stmt_Tree consume_parens(TT_Stream &ts) {
+  INIT_FAIL;
   int nesting_depth = 1;
   if (Syntax_Tags::TK_PARENL != ts.peek())
     return Stmt_Tree{};
@@ -116,8 +117,8 @@ Stmt_Tree consume_parens(TT_Stream &ts) {
       nesting_depth += 1;
     } else if (Syntax_Tags::TK_PARENR == ts.peek()) {
       nesting_depth -= 1;
-    } else {
-      assert(Syntax_Tags::BAD != ts.peek());
+    } else if (Syntax_Tags::BAD == ts.peek()) {
+      FAIL; // ran out of tokens before the matching paren
     }
     root.graft_back(Stmt_Tree{ts.peek(), ts.digest(1)});
   }
-- 
2.43.0


From f6624188c3f545f8760aca5f75b5268e7ed174a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 11/61] fix: procedure_designator puts the stream back when it
 does not match

---
 src/flpr/parse_stmt.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index a2cd610..d9ff327 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2954,6 +2954,7 @@ Stmt_Tree procedure_designator(TT_Stream &ts) {
      procedure-designator by: */
 
   //     - Capture where we start
+  INIT_FAIL;
   auto designator = ts.capture_begin();
 
   //     - Move to the last token
@@ -2980,7 +2981,10 @@ Stmt_Tree procedure_designator(TT_Stream &ts) {
         name(),
         eol()  // This is the EOL for the sub-stream
         );
-  EVAL(SG_PROCEDURE_DESIGNATOR, p(designator_ts));
+  Stmt_Tree designator_tree = p(designator_ts);
+  if (designator_tree.empty())
+    FAIL;
+  return designator_tree;
 }
 
 //! R1506: procedure-stmt (15.4.3.2)
-- 
2.43.0


From 26dbe4d2d029c8d18d24ded95c1b11d646ed140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:22 +0000
Subject: [PATCH 12/61] fix: paren and bracket skipping in TT_Stream

expect_tok() already consumes the opening paren, so the token after it
was skipped unseen ('()' ran to the end of the statement), and
ignore_bracket_expr never reported success.
---
 src/flpr/TT_Stream.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/flpr/TT_Stream.cc b/src/flpr/TT_Stream.cc
index a8e38ba..605b81a 100644
--- a/src/flpr/TT_Stream.cc
+++ b/src/flpr/TT_Stream.cc
@@ -109,7 +109,6 @@ void TT_Stream::w_general(char const *const warnmsg) const {
 // substrings.
 bool TT_Stream::move_to_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -128,7 +127,6 @@ bool TT_Stream::move_to_close_paren() {
 // substrings.
 bool TT_Stream::move_before_close_paren() {
   expect_tok(Syntax_Tags::TK_PARENL);
-  consume();
   int nesting_depth = 1;
   while (nesting_depth > 0) {
     if (Syntax_Tags::TK_PARENR == peek())
@@ -176,7 +174,7 @@ bool TT_Stream::ignore_bracket_expr() {
       break;
     consume();
   }
-  return nesting_depth == -1;
+  return nesting_depth == 0;
 }
 
 void TT_Stream::debug_print(std::ostream &os) const {
-- 
2.43.0


From 8b31fbc796c5f32b34cbbd84ef75ff610517f434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:31 +0000
Subject: [PATCH 13/61] fix: a negated parser consumes nothing and returns no
 tree

---
 src/flpr/Stmt_Parsers.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Stmt_Parsers.hh b/src/flpr/Stmt_Parsers.hh
index d8c7b66..74445c3 100644
--- a/src/flpr/Stmt_Parsers.hh
+++ b/src/flpr/Stmt_Parsers.hh
@@ -141,8 +141,11 @@ public:
   constexpr explicit Negated_Parser(P &&p) noexcept
       : parser_{std::forward<P>(p)} {}
   SP_Result operator()(TT_Stream &ts) const noexcept {
-    auto [st, match] = parser_(ts);
-    return SP_Result{std::move(st), !match};
+    auto ts_rewind_point = ts.mark();
+    bool const match = parser_(ts).match;
+    // A match is a failure here: leave the stream as it was and drop the tree
+    ts.rewind(ts_rewind_point);
+    return SP_Result{Stmt_Tree{}, !match};
   }
 
 private:
-- 
2.43.0


From c122d5ae607eadb5ca8f423b903b38a7a5ec5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:28 +0000
Subject: [PATCH 14/61] fix: procedure_designator fails when the last paren has
 no partner in it

---
 src/flpr/parse_stmt.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index d9ff327..146dbd7 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -2956,17 +2956,24 @@ Stmt_Tree procedure_designator(TT_Stream &ts) {
   //     - Capture where we start
   INIT_FAIL;
   auto designator = ts.capture_begin();
+  int const num_before = ts.num_consumed();
 
   //     - Move to the last token
   ts.consume_until_eol();
 
-  //     - Assuming that the token is ')', move back to preceding matching '('
-  bool move_okay = ts.move_to_open_paren();
+  //     - If that token is ')', move back to preceding matching '('
+  if (Syntax_Tags::TK_PARENR == ts.curr()) {
+    if (!ts.move_to_open_paren())
+      FAIL;
 
-  //     - If we found one, curr is on '(', move back one so peek() is '('
-  if (move_okay)
+    //     - Now curr is on '(', move back one so peek() is '('
     ts.put_back();
 
+    //     - A '(' before the start does not belong to this designator
+    if (ts.num_consumed() < num_before)
+      FAIL;
+  }
+
   //     - Mark this as the end of the (possible) designator sequence
   ts.capture_end(designator);
 
-- 
2.43.0


From e712c7983f0a4a35c07d1c729fa2be9031871c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:28 +0000
Subject: [PATCH 15/61] fix: look-ahead and expect_tok of TT_Stream stop at the
 end of the statement

---
 src/flpr/TT_Stream.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flpr/TT_Stream.hh b/src/flpr/TT_Stream.hh
index 9430352..4548b3d 100644
--- a/src/flpr/TT_Stream.hh
+++ b/src/flpr/TT_Stream.hh
@@ -184,8 +184,13 @@ inline int TT_Stream::curr() const { return curr_tt().token; }
 inline Token_Text const &TT_Stream::peek_tt(int const offset) const {
   static const Token_Text bad_tt;
   // the -1 is because next_token_ is already advanced one.
-  auto tmp = std::next(next_tok_, offset - 1);
-  if (tmp != ll_tt_range_.end())
+  auto tmp = next_tok_;
+  int steps = offset - 1;
+  for (; steps > 0 && tmp != ll_tt_range_.end(); --steps)
+    ++tmp;
+  for (; steps < 0 && tmp != ll_tt_range_.begin(); ++steps)
+    --tmp;
+  if (steps == 0 && tmp != ll_tt_range_.end())
     return *tmp;
   else
     return bad_tt;
@@ -252,10 +257,10 @@ inline TT_Range::iterator TT_Stream::mark() { return next_tok_; }
 
 inline void TT_Stream::expect_tok(const int tok) {
   const int next_tok = peek();
-  consume();
   if (next_tok != tok) {
     e_expect_tok(next_tok, tok);
   }
+  consume();
 }
 
 inline void TT_Stream::expect_eol() {
-- 
2.43.0


From f64d991e21b1906d9bb6170c2ac7b8463e5c18c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:21 +0000
Subject: [PATCH 16/61] fix: program parsers stop at the end of the statements

---
 src/flpr/Prgm_Parsers_impl.hh  |  3 ++-
 src/flpr/Prgm_Parsers_utils.hh | 27 +++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index cedfa32..85073d2 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -165,7 +165,8 @@ PPARSER(executable_construct) {
   /* If the current statement has a label that matches a label-do-stmt label
      that we are looking for, we force a non-match so that the end-do-stmt rule
      can look at it */
-  if(state.do_label_stack.is_top(state.ss->label())) return PP_Result{};
+  if(state.ss && state.do_label_stack.is_top(state.ss->label()))
+    return PP_Result{};
   EVAL(PG_EXECUTABLE_CONSTRUCT, p(state));
 }
 
diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 01c48a2..b8441b2 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -79,6 +79,18 @@ static void cover_branches(typename Prgm_Tree::reference node) {
   }
 }
 
+//! Tell the user where the statements stop making sense
+static void report_unrecognized(State &state, int const syntag) {
+  if (state.ss) {
+    std::cerr << "Unrecognized statement\n";
+    state.ss->print_me(std::cerr, false);
+  } else {
+    std::cerr << "Unexpected end of statements";
+  }
+  FLPR::Syntax_Tags::print(std::cerr << "\nwhile parsing ", syntag)
+      << std::endl;
+}
+
 /******************************* COMBINATORS **********************************/
 
 //! Return a result if any of the alternatives match
@@ -267,9 +279,7 @@ public:
     };
     bool const match = std::apply(fold, parsers_);
     if (!match) {
-      std::cerr << "Unrecognized statement\n";
-      state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-      FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+      report_unrecognized(state, syntag_);
       return PP_Result{};
     }
     if (root)
@@ -323,9 +333,7 @@ public:
     if (attach_if(parser0_)) {
       bool const match = std::apply(fold, rest_);
       if (!match) {
-        std::cerr << "Unrecognized statement\n";
-        state.ss->print_me(std::cerr, false) << "\nwhile parsing ";
-        FLPR::Syntax_Tags::print(std::cerr, syntag_) << std::endl;
+        report_unrecognized(state, syntag_);
         return PP_Result{};
       }
       if (root)
@@ -393,6 +401,8 @@ public:
   Statement_Parser(Statement_Parser const &) = default;
   constexpr explicit Statement_Parser(parser_function f) noexcept : f_{f} {}
   PP_Result operator()(State &state) const noexcept {
+    if (!state.ss)
+      return PP_Result{};
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::Stmt::Stmt_Tree st = f_(tts);
     if (!st)
@@ -497,6 +507,8 @@ public:
   PP_Result operator()(State &state) const noexcept {
 
     /****************************** DO-STMT ***********************************/
+    if (!state.ss)
+      return PP_Result{};
     FLPR::Stmt::Stmt_Tree do_stmt_tree;
     {
       FLPR::TT_Stream tts(*(state.ss));
@@ -543,6 +555,9 @@ public:
 
     /*********************** TERMINATING STATEMENT ****************************/
 
+    if (!state.ss)
+      return PP_Result{}; // ran out of statements inside of the loop
+
     FLPR::TT_Stream tts(*(state.ss));
     FLPR::LL_STMT_SEQ::iterator end_stmt_it{state.ss};
     int end_stmt_pg_tag{TAG(UNKNOWN)};
-- 
2.43.0


From 82956292761a86ae3927e02c574345b8963a4fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:09 +0000
Subject: [PATCH 17/61] fix: a do-construct ends only at its own terminating
 statement

---
 src/flpr/Prgm_Parsers_utils.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index b8441b2..863aa25 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -563,8 +563,9 @@ public:
     int end_stmt_pg_tag{TAG(UNKNOWN)};
     int end_stmt_sg_tag{TAG(UNKNOWN)};
 
-    /* Without a label, the only end-do this can be is a end-do-statment */
-    if (!state.ss->has_label()) {
+    /* Without a label (here or on the do-stmt), the only end-do this can be is
+       a end-do-statment */
+    if (label <= 0 || !state.ss->has_label()) {
       FLPR::Stmt::Stmt_Tree end_stmt_tree{FLPR::Stmt::end_do_stmt(tts)};
       if (!end_stmt_tree)
         return PP_Result{}; // wasn't end-do-stmt, so match fails
@@ -573,6 +574,8 @@ public:
       do_construct_tag = TAG(PG_DO_CONSTRUCT);
       end_stmt_it->set_stmt_tree(std::move(end_stmt_tree));
       state.ss.advance();
+      if (label > 0)
+        state.do_label_stack.pop();
     } else {
       /* So, we've got a label. Let NL be the number of instances of this
          label on the stack. This means, evaluated in order:
@@ -587,10 +590,10 @@ public:
          label the layers of label-do-stmts, which is provided by Label_Stack
       */
 
-      int const label{state.ss->label()};
-      int const level{state.do_label_stack.level(label)};
+      int const level{state.do_label_stack.level(state.ss->label())};
 
-      assert(level > -1);
+      if (level < 0)
+        return PP_Result{}; // some other label, so match fails
 
       if (level > 0) {
         /* this is a do-term-shared-stmt, and the first N-1 label-do-stmts that
-- 
2.43.0


From 60c5a75fb292e1562fd9eb59bc9b553f3ee78943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:12 +0000
Subject: [PATCH 18/61] fix: a program construct that fails gives its
 statements back

---
 src/flpr/Prgm_Parsers_utils.hh | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/flpr/Prgm_Parsers_utils.hh b/src/flpr/Prgm_Parsers_utils.hh
index 863aa25..5ab8ac0 100644
--- a/src/flpr/Prgm_Parsers_utils.hh
+++ b/src/flpr/Prgm_Parsers_utils.hh
@@ -266,6 +266,7 @@ public:
   constexpr explicit Sequence_Parser(int const syntag, Ps &&... ps) noexcept
       : syntag_{syntag}, parsers_{std::forward<Ps>(ps)...} {}
   PP_Result operator()(State &state) const noexcept {
+    State const start{state};
     Prgm_Tree root(syntag_);
     auto attach_if = [&state, &root ](auto const &p) constexpr {
       auto [pt, match] = p(state);
@@ -280,6 +281,7 @@ public:
     bool const match = std::apply(fold, parsers_);
     if (!match) {
       report_unrecognized(state, syntag_);
+      state = start; // leave the statements to the other parsers
       return PP_Result{};
     }
     if (root)
@@ -314,6 +316,7 @@ public:
       : syntag_{syntag}, parser0_{p0}, rest_{std::forward<Ps>(ps)...} {}
 
   PP_Result operator()(State &state) const noexcept {
+    State const start{state};
     Prgm_Tree root(syntag_);
 
     /* define a functor to attach the parse tree if a parser matches */
@@ -334,6 +337,7 @@ public:
       bool const match = std::apply(fold, rest_);
       if (!match) {
         report_unrecognized(state, syntag_);
+        state = start; // leave the statements to the other parsers
         return PP_Result{};
       }
       if (root)
@@ -505,6 +509,15 @@ class Legacy_Do_Construct_Parser {
 public:
   constexpr Legacy_Do_Construct_Parser() = default;
   PP_Result operator()(State &state) const noexcept {
+    State const start{state};
+    PP_Result res = parse_(state);
+    if (!res.match)
+      state = start; // leave the statements to the other parsers
+    return res;
+  }
+
+private:
+  PP_Result parse_(State &state) const noexcept {
 
     /****************************** DO-STMT ***********************************/
     if (!state.ss)
-- 
2.43.0


From 9d6369a0e3b57cc7a5621110baeb110add07f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:37 +0000
Subject: [PATCH 19/61] fix: Parsed_File survives statements that do not form a
 program

---
 src/flpr/Parsed_File.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index 960a0ba..d00e184 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -183,7 +183,8 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
       bad_state_ = true;
     }
     parse_tree_.swap(result.parse_tree);
-    link_stmts_recurse_(*parse_tree_);
+    if (!parse_tree_.empty())
+      link_stmts_recurse_(*parse_tree_);
   }
   tree_ok_ = true;
 }
-- 
2.43.0


From 1f4c9348cbe8bf7953cc43dcd81f13fb79013d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:34 +0000
Subject: [PATCH 20/61] fix: a derived type may have type parameters and
 several private/sequence statements

---
 src/flpr/Prgm_Parsers_impl.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Prgm_Parsers_impl.hh b/src/flpr/Prgm_Parsers_impl.hh
index 85073d2..6753414 100644
--- a/src/flpr/Prgm_Parsers_impl.hh
+++ b/src/flpr/Prgm_Parsers_impl.hh
@@ -112,7 +112,8 @@ PPARSER(derived_type_def) {
   constexpr auto p =
     seq_if(rule_tag,
            STMT(derived_type_stmt),
-           opt(STMT(private_or_sequence)),
+           star(STMT(type_param_def_stmt)),
+           star(STMT(private_or_sequence)),
            component_part,
            opt(type_bound_procedure_part),
            STMT(end_type_stmt));
-- 
2.43.0


From 97ab2b67142113a443e4a5ade99291b58d68245b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:58 +0000
Subject: [PATCH 21/61] fix: dispatch the statement tags end-do,
 private-or-sequence and type-bound-proc-binding

---
 src/flpr/parse_stmt.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flpr/parse_stmt.cc b/src/flpr/parse_stmt.cc
index 146dbd7..d1428ed 100644
--- a/src/flpr/parse_stmt.cc
+++ b/src/flpr/parse_stmt.cc
@@ -3937,6 +3937,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_END_BLOCK_STMT):
     return end_block_stmt(ts);
     break;
+  case TAG(SG_END_DO):
+    return end_do(ts);
+    break;
   case TAG(SG_END_DO_STMT):
     return end_do_stmt(ts);
     break;
@@ -4126,6 +4129,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_PRIVATE_COMPONENTS_STMT):
     return private_components_stmt(ts);
     break;
+  case TAG(SG_PRIVATE_OR_SEQUENCE):
+    return private_or_sequence(ts);
+    break;
   case TAG(SG_PROC_COMPONENT_DEF_STMT):
     return proc_component_def_stmt(ts);
     break;
@@ -4195,6 +4201,9 @@ Stmt_Tree parse_stmt_dispatch(int stmt_tag, TT_Stream &ts) {
   case TAG(SG_TYPE_BOUND_GENERIC_STMT):
     return type_bound_generic_stmt(ts);
     break;
+  case TAG(SG_TYPE_BOUND_PROC_BINDING):
+    return type_bound_proc_binding(ts);
+    break;
   case TAG(SG_TYPE_BOUND_PROCEDURE_STMT):
     return type_bound_procedure_stmt(ts);
     break;
-- 
2.43.0


From 731c61039061e0faa1e9196c52f20b38e3fb33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:01 +0000
Subject: [PATCH 22/61] fix: rebuild the tree of an extension action statement

---
 src/flpr/LL_Stmt.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/LL_Stmt.cc b/src/flpr/LL_Stmt.cc
index 48a6b0d..4b472ea 100644
--- a/src/flpr/LL_Stmt.cc
+++ b/src/flpr/LL_Stmt.cc
@@ -66,7 +66,9 @@ bool LL_Stmt::rebuild_tree_() const {
     return false;
   }
   TT_Stream tts{*const_cast<LL_Stmt *>(this)};
-  if (Stmt::is_action_stmt(stmt_syntag_)) {
+  /* Extension tags only become the tag of a statement via action-stmt */
+  if (Stmt::is_action_stmt(stmt_syntag_) ||
+      stmt_syntag_ >= Syntax_Tags::CLIENT_EXTENSION) {
     stmt_tree_ = Stmt::parse_stmt_dispatch(Syntax_Tags::SG_ACTION_STMT, tts);
   } else {
     stmt_tree_ = Stmt::parse_stmt_dispatch(stmt_syntag_, tts);
-- 
2.43.0


From 50552e4d786e8ca0b4b05c7d9c8194e90bdc43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:22 +0000
Subject: [PATCH 23/61] fix: Tree can be constructed from a const value

---
 src/flpr/Tree.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 77b8713..10fe65f 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -590,7 +590,7 @@ public:
 
   constexpr explicit Tree(value const &src)
       : root_list_p_{std::make_unique<node_list>()} {
-    root_list_p_->push_front(node(src));
+    root_list_p_->emplace_front(src);
     root_list_p_->front().link(root_list_p_->begin());
   }
 
-- 
2.43.0


From 379066d230aae0c9298baeb8b3cbfcada4f7a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:37 +0000
Subject: [PATCH 24/61] fix: an unassociated cursor converts to an unassociated
 const cursor

---
 src/flpr/Tree.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Tree.hh b/src/flpr/Tree.hh
index 10fe65f..4756e62 100644
--- a/src/flpr/Tree.hh
+++ b/src/flpr/Tree.hh
@@ -434,7 +434,10 @@ public:
   constexpr TN_Const_Cursor() : iter_{}, assoc_{false} {}
   constexpr explicit TN_Const_Cursor(iterator pos) : iter_{pos}, assoc_{true} {}
   constexpr TN_Const_Cursor(TN_Cursor<Tp, Alloc> const &c)
-      : iter_{c.self()}, assoc_{true} {}
+      : iter_{}, assoc_{c} {
+    if (assoc_)
+      iter_ = c.self();
+  }
   //! Return true if this node is the root of the Tree
   constexpr bool is_root() const noexcept {
     assert(assoc_);
-- 
2.43.0


From fcaa8260502095e8711cdcee751ede00e9cbe647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 25/61] fix: a fixed-form line with text only past the last
 column is a comment

Its text was taken both as the statement and as the trailing comment.
---
 src/flpr/File_Line.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 1d6250f..ba53adc 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -162,6 +162,15 @@ File_Line File_Line::analyze_fixed(int const linenum,
     }
   }
 
+  // If there are only blanks up to last_column, the rest is an implicit comment
+  if (last_column > 0 && ri >= static_cast<ST>(last_column) &&
+      ri < raw_txt.size()) {
+    if (raw_txt[ri] != '!')
+      raw_txt.insert(last_column, "! ");
+    SET_CLASS(comment);
+    return File_Line(linenum, bits, raw_txt);
+  }
+
   // Now record any indent (whitespace between first character of
   // Fortran text and the end of the control columns
   if (ri > indent_begin)
-- 
2.43.0


From 78b220e116f1f35a13c9fe6205758e2bf9c2abac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 26/61] fix: the scanner starts each line in its initial state

---
 src/flpr/scan_fort.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index a274ae2..60d135d 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -260,6 +260,7 @@ write { return Syntax_Tags::KW_WRITE; }
                    yyless(0); yy_push_state(kind_parse); }
   .|\n           { curr_line_pos -= yyleng;
                    yyless(0);  BEGIN(INITIAL); }
+  <<EOF>>        { BEGIN(INITIAL); yyterminate(); }
 }
 
   /* R714: real-literal-constant (7.4.3.2) */
-- 
2.43.0


From 6f69da686802b05274284218e804ee66f7ad1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 27/61] fix: the period after an integer belongs to the
 operator in 1.and.x

---
 src/flpr/scan_fort.l | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index 60d135d..86b08f7 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -12,6 +12,7 @@
 
 %{
 #include "flpr/Syntax_Tags.hh"
+#include <cstring>
 int curr_line_pos = 0;
 #define YY_USER_ACTION curr_line_pos += yyleng;
 using FLPR::Syntax_Tags;
@@ -274,6 +275,13 @@ write { return Syntax_Tags::KW_WRITE; }
   /* R708: int-literal-constant (7.4.3.1) */
 {DIGIT}+(_{KIND})?   { return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
 
+  /* digit-string followed by an operator: the period belongs to the operator,
+     as in "1.and.x", not to a significand */
+{DIGIT}+\.[a-z]+\.  { int const n = std::strspn(yytext, "0123456789");
+                      curr_line_pos -= yyleng - n;
+                      yyless(n);
+                      return Syntax_Tags::SG_INT_LITERAL_CONSTANT; }
+
   /* These must be last to allow keyword and operator completion */
 
   /* Defined operator */
-- 
2.43.0


From 7cf6a4f37aa5126366569bb3f4ac35e67a6c167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 28/61] fix: the scanner tables cover all 256 characters

---
 src/flpr/scan_fort.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/scan_fort.l b/src/flpr/scan_fort.l
index 86b08f7..8b166c7 100644
--- a/src/flpr/scan_fort.l
+++ b/src/flpr/scan_fort.l
@@ -18,6 +18,7 @@ int curr_line_pos = 0;
 using FLPR::Syntax_Tags;
 %}
 %option full
+%option 8bit
 %option case-insensitive
 %option noyywrap
 %option stack
-- 
2.43.0


From 1595dd9d57222973c7fd31c67c40fcdd7ab27aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 29/61] fix: replace_fragment moves the end of the fragment

---
 src/flpr/Logical_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6e4b5df..6573e20 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -320,6 +320,7 @@ void Logical_Line::replace_fragment(typename TT_SEQ::iterator frag,
   int const layout_line = frag->mt_begin_line_;
   std::string &main_txt = layout_[layout_line].main_txt;
   main_txt.replace(frag->mt_begin_col_, old_text_len, new_text);
+  frag->mt_end_col_ += len_change;
 
   // Update the mt_begin_col_ for all fragments following on this line
   for (frag = std::next(frag);
-- 
2.43.0


From 528f2222984a5ab3765c07556fe795c65a80f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 30/61] fix: a token knows its layout line when comment lines
 are in between

---
 src/flpr/Logical_Line.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6573e20..8356ddb 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -754,6 +754,13 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   // The index into la.accum()
   curr_line_pos = 0;
 
+  // The Line_Accum only knows about the non-trivial layout_ lines
+  std::vector<int> layout_line;
+  for (size_t i = 0; i < layout_.size(); ++i) {
+    if (!layout_[i].is_trivial())
+      layout_line.push_back(static_cast<int>(i));
+  }
+
   // Feed the la.accum() to the flex parser to generate
   // the Logical_Line token fragment data.
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
@@ -793,9 +800,9 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     }
 
     Token_Text &tt{fragments_.back()};
-    tt.mt_begin_line_ = tli;
+    tt.mt_begin_line_ = layout_line[tli];
     tt.mt_begin_col_ = tci;
-    tt.mt_end_line_ = end_text_line_idx;
+    tt.mt_end_line_ = layout_line[end_text_line_idx];
     tt.mt_end_col_ = end_text_col_idx;
     tt.pre_spaces_ = next_pre_sp;
     tt.post_spaces_ = space_between;
-- 
2.43.0


From b7e4da9b9ae08e67d4fae14e98b63d6e9e1f341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 31/61] fix: a token starts after the blanks that begin the
 line

---
 src/flpr/Logical_Line.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 8356ddb..d5382cc 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -765,14 +765,15 @@ void Logical_Line::tokenize(Line_Accum const &la) {
   // the Logical_Line token fragment data.
   YY_BUFFER_STATE bs = yy_scan_string(la.accum().c_str());
   const int N = la.accum().size();
-  int tok_start_col = curr_line_pos;
   int next_pre_sp = 0;
   int space_between;
 
   for (int result_tok = yylex(); result_tok != Syntax_Tags::EOL;
        result_tok = yylex()) {
-    /* tok_start is an index into la.accum().  Convert this into a file line and
-     column number */
+    /* yylex advances curr_line_pos to the end of the last token recognized.
+       tok_start_col is an index into la.accum().  Convert this into a file line
+       and column number */
+    int const tok_start_col = curr_line_pos - yyleng;
     int li, ci, tli, tci;
     la.linecolno(tok_start_col, li, ci, tli, tci);
     fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
@@ -790,12 +791,10 @@ void Logical_Line::tokenize(Line_Accum const &la) {
                  end_text_line_idx, end_text_col_idx);
     end_text_col_idx += 1;
 
-    /* yylex advances curr_line_pos to the end of the last token recognized, but
-       we want where the next token begins */
-    tok_start_col = curr_line_pos;
+    int next_start_col = curr_line_pos;
     space_between = 0;
-    while (tok_start_col < N && std::isspace(la.accum()[tok_start_col])) {
-      tok_start_col += 1;
+    while (next_start_col < N && std::isspace(la.accum()[next_start_col])) {
+      next_start_col += 1;
       space_between += 1;
     }
 
-- 
2.43.0


From f6be9c4cc77280848fa24171f2c2adab2438fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:01 +0000
Subject: [PATCH 32/61] fix: both halves of joined keywords have their place
 and spacing

---
 src/flpr/Logical_Line.cc | 27 +++++++++++++++++++--------
 src/flpr/Logical_Line.hh |  5 +++--
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index d5382cc..7b4f8e2 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -777,9 +777,6 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     int li, ci, tli, tci;
     la.linecolno(tok_start_col, li, ci, tli, tci);
     fragments_.emplace_back(std::string(yytext, yyleng), result_tok, li, ci);
-    /* Break up keywords with no space. */
-    if (result_tok == Syntax_Tags::TK_NAME)
-      unsmash();
 
     /* calculate the "end" address (one character beyond the last character of
        the token */
@@ -807,6 +804,20 @@ void Logical_Line::tokenize(Line_Accum const &la) {
     tt.post_spaces_ = space_between;
 
     next_pre_sp = space_between;
+
+    /* Break up keywords with no space. */
+    if (result_tok == Syntax_Tags::TK_NAME && unsmash()) {
+      /* find where the second keyword begins and the first one ends */
+      Token_Text &tt1{*std::prev(fragments_.end(), 2)};
+      Token_Text &tt2{fragments_.back()};
+      int const split_col = tok_start_col + static_cast<int>(tt1.text().size());
+      la.linecolno(split_col, tt2.start_line, tt2.start_pos, tli, tci);
+      tt2.mt_begin_line_ = layout_line[tli];
+      tt2.mt_begin_col_ = tci;
+      la.linecolno(split_col - 1, li, ci, tli, tci);
+      tt1.mt_end_line_ = layout_line[tli];
+      tt1.mt_end_col_ = tci + 1;
+    }
   }
   yy_delete_buffer(bs);
   init_stmts();
@@ -835,18 +846,18 @@ void Logical_Line::append_comment(std::string const &comment_text) {
 }
 
 /* ------------------------------------------------------------------------ */
-void Logical_Line::unsmash() {
+bool Logical_Line::unsmash() {
   using details_::Smash_Hash;
   using details_::Smashed;
   if (fragments_.empty())
-    return;
+    return false;
   if (fragments_.back().token != Syntax_Tags::TK_NAME)
-    return;
+    return false;
 
   Smashed const *ptr = Smash_Hash::in_word_set(
       fragments_.back().lower().c_str(), fragments_.back().text().size());
   if (!ptr)
-    return;
+    return false;
   Token_Text new2{fragments_.back()};
 
   // Alter the first token in place
@@ -858,9 +869,9 @@ void Logical_Line::unsmash() {
   // Add a new second token
   new2.token = ptr->tok2;
   new2.mod_text().erase(0, ptr->splitpos);
-  new2.start_pos += ptr->splitpos;
   new2.pre_spaces_ = 0;
   fragments_.emplace_back(std::move(new2));
+  return true;
 }
 
 /* ------------------------------------------------------------------------ */
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 6748d73..906b46b 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -226,8 +226,9 @@ private:
 
   //! If the last token in fragments is actually two (no space), split it
   /*! This handles the exception to the free-format spacing rules found
-    in section 6.3.2.2 of the standard */
-  void unsmash();
+    in section 6.3.2.2 of the standard.  Returns true if it was split; the
+    positions of the new ends are left to the caller. */
+  bool unsmash();
 
   //! Append a token to main_txt if it fits within max_len characters
   bool append_tt_if_(std::string &main_txt, size_t max_len,
-- 
2.43.0


From aff01dd29b61401d93094beb74ac0ec899555d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:51 +0000
Subject: [PATCH 33/61] fix: is_name does not index the tag table with a client
 extension

---
 src/flpr/Syntax_Tags.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/Syntax_Tags.hh b/src/flpr/Syntax_Tags.hh
index a232529..4b93ef3 100644
--- a/src/flpr/Syntax_Tags.hh
+++ b/src/flpr/Syntax_Tags.hh
@@ -35,7 +35,7 @@ public:
   static constexpr int pg_begin_tag() { return PG_000_LB + 1; }
   static constexpr int pg_end_tag() { return PG_ZZZ_UB; }
   static constexpr bool is_name(int const tag) {
-    return tag == TK_NAME || types_[tag] == 4;
+    return tag == TK_NAME || (tag < CLIENT_EXTENSION && types_[tag] == 4);
   }
   static int type(int const syntag);
 
-- 
2.43.0


From 91222fea84150eaf2ca8e3084d9174e74727896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 34/61] fix: turning a statement line into a comment line keeps
 its comment (a comment directly after the text was dropped, others were
 blanked)

---
 src/flpr/File_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ba53adc..438018b 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -445,13 +445,13 @@ void File_Line::make_comment_or_blank() {
     right_txt[0] = ' ';
   }
   auto comment_start = right_txt.find('!');
-  if (comment_start != std::string::npos && comment_start > 0) {
+  if (comment_start != std::string::npos) {
     /* transfer any leading blanks from right_txt to right_space */
     right_space.append(comment_start, ' ');
     right_txt.erase(0, comment_start);
     /* set each of the earlier text fields to be blank of the same length */
     left_txt.assign(left_txt.size(), ' ');
-    right_txt.assign(right_txt.size(), ' ');
+    main_txt.assign(main_txt.size(), ' ');
     bool const is_fixed_format = classification_[ff];
     classification_.reset();
     classification_[ff] = is_fixed_format;
-- 
2.43.0


From 16868dfc53d7814b57457985227636f72892df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 35/61] fix: get_leading_spaces added the length of a trailing
 comment to its own column

---
 src/flpr/File_Line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 438018b..7dfb583 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -602,7 +602,7 @@ int File_Line::get_leading_spaces() const noexcept {
         pos = right_txt.find('!');
         if (pos != std::string::npos) {
           retval = left_txt.size() + left_space.size() + main_txt.size() +
-                   right_txt.size() + pos;
+                   right_space.size() + pos;
         }
       }
     }
-- 
2.43.0


From c87eb44ff9e8c8d6f0b8816a647cdb73de2124f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 36/61] fix: set_leading_spaces does not destroy the text
 before a ! in a fixed-format C or * comment

---
 src/flpr/File_Line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 7dfb583..ee42cce 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -468,6 +468,11 @@ size_t File_Line::size() const noexcept {
 
 bool File_Line::set_leading_spaces(int const spaces) {
   if (is_comment()) {
+    /* A fixed-format comment indicator other than '!' has to stay in the first
+       column */
+    if (is_fixed_format() && !left_txt.empty() && left_txt[0] != '!' &&
+        left_txt[0] != ' ')
+      return false;
     std::string::size_type pos = left_txt.find('!');
     if (pos != std::string::npos) {
       left_space.clear();
-- 
2.43.0


From c8f6b35d2ed83641201079e9f546e65f424f018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 37/61] fix: set_leading_spaces used an uninitialized offset
 for fixed-format control columns, and reported changes that were none

---
 src/flpr/File_Line.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ee42cce..68631d7 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -523,7 +523,7 @@ bool File_Line::set_leading_spaces(int const spaces) {
 
   } else if (is_fortran()) {
     int orig_spaces{-1};
-    int offset;
+    int offset{0};
     if (left_txt.empty()) {
       if (static_cast<int>(left_space.size()) == spaces)
         return false; // no change needed
@@ -568,9 +568,11 @@ bool File_Line::set_leading_spaces(int const spaces) {
         }
       }
     }
+    if (offset == 0)
+      return false; // no change possible
     /* See if we can adjust spacing to leave right_txt comments in their
        original position */
-    if (!right_txt.empty() && offset) {
+    if (!right_txt.empty()) {
       std::string::size_type pos = right_txt.find('!');
       if (pos != std::string::npos) {
         if (offset < 0) {
-- 
2.43.0


From 8325d22b7db38f06467dea8516eb28210e59c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 38/61] fix: set_leading_spaces threw for a continued line with
 a comment, or put blanks into a token joined to the next line

---
 src/flpr/File_Line.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 68631d7..ac4f31a 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -577,8 +577,12 @@ bool File_Line::set_leading_spaces(int const spaces) {
       if (pos != std::string::npos) {
         if (offset < 0) {
           /* The main_txt moved left, so we can introduce more spaces on the
-             right */
-          right_space.insert(pos, -offset, ' ');
+             right.  If there is a continuation symbol, they go after it, as the
+             text on its left may be joined to the next line */
+          if (pos == 0)
+            right_space.append(-offset, ' ');
+          else
+            right_txt.insert(pos, -offset, ' ');
         } else {
           /* The main_txt moved right, so see if we can squeeze right_space */
           int const min_size = (right_space.empty()) ? 0 : 1;
-- 
2.43.0


From fae46ce3b7d9869818af0e5d0e741447cbb61108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 39/61] fix: set_label(0) wrote the label 0, and labelling a
 fixed-format line asserted (0 in column 6) or moved its text

---
 src/flpr/File_Line.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index ac4f31a..5d683de 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -630,19 +630,19 @@ bool File_Line::set_label(int new_label) {
 
   auto &bits = classification_;
 
-  if (new_label == 0 && !has_label())
-    return false;
+  if (new_label == 0) {
+    if (!has_label())
+      return false;
+    /* The fixed-format control columns don't contribute to left_space */
+    if (!is_fixed_format())
+      left_space.append(left_txt.size(), ' ');
+    left_txt.clear();
+    UNSET_CLASS(label);
+    return true;
+  }
   if (is_fixed_format()) {
-    if (left_txt.empty()) {
-      left_txt = std::to_string(new_label);
-      left_txt.append(6 - left_txt.size(), ' ');
-      if (left_space.size() > 6)
-        left_space.erase(0, 6);
-    } else {
-      assert(has_label());
-      left_txt = std::to_string(new_label);
-      left_txt.append(6 - left_txt.size(), ' ');
-    }
+    left_txt = std::to_string(new_label);
+    left_txt.append(6 - left_txt.size(), ' ');
   } else {
     /* free-format */
     size_t const old_size = left_txt.size();
-- 
2.43.0


From 35fd789e67dd33675d2862bfef4d008e62192653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 40/61] fix: make_continued separated a token from its
 continuation on a line that is continued already

---
 src/flpr/File_Line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 5d683de..aa4f351 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -385,6 +385,8 @@ void File_Line::make_uncontinued() {
 }
 
 void File_Line::make_continued() {
+  if (is_continued())
+    return;
   auto &bits = classification_;
   SET_CLASS(continued);
   if (right_space.empty())
-- 
2.43.0


From 9981394b412b2a4e2a0e82342b750ab8d2e15761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 41/61] fix: unspace_main dropped leading blanks instead of
 transferring them

---
 src/flpr/File_Line.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index aa4f351..87ff55c 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -354,6 +354,7 @@ void File_Line::unspace_main() {
     return;
   } else if (fnb > 0) {
     main_txt.erase(0, fnb);
+    left_space.append(fnb, ' ');
   }
   auto lnb = main_txt.find_last_not_of(' ');
   assert(lnb != std::string::npos);
-- 
2.43.0


From 92fffe83ad2daf3772a904d2bd5e233146a2e322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 42/61] fix: replacing statement text keeps the continuation
 mark when Fortran lines follow the replaced text

---
 src/flpr/Logical_Line.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 7b4f8e2..5226c86 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -443,11 +443,11 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
       layout_[stln].make_comment_or_blank();
   }
 
-  int count_fortran{0};
-  for (int i = hold_stln; i <= eln; ++i)
-    if (layout_[i].is_fortran())
-      count_fortran += 1;
-  if (count_fortran == 1)
+  /* the first line is only continued if there is something left to continue */
+  bool more_fortran{false};
+  for (size_t i = hold_stln + 1; i < layout_.size(); ++i)
+    more_fortran |= layout_[i].is_fortran();
+  if (!more_fortran)
     layout_[hold_stln].make_uncontinued();
 }
 
-- 
2.43.0


From 610fe80792d6bce74629c8023e239e3c887f4ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:09 +0000
Subject: [PATCH 43/61] fix: replacing the only text of a line that begins with
 blanks inserts at a position that still exists

---
 src/flpr/Logical_Line.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 5226c86..8f70de5 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -437,10 +437,10 @@ void Logical_Line::erase_stmt_text_(int stln, int stcol, int eln, int ecol) {
   assert(stcol >= 0);
   assert(ecol <= static_cast<int>(layout_[eln].main_txt.size()));
   layout_[stln].main_txt.erase(stcol, ecol - stcol);
-  if (layout_[stln].main_txt.find_first_not_of(' ') == std::string::npos) {
+  if (multiline &&
+      layout_[stln].main_txt.find_first_not_of(' ') == std::string::npos) {
     layout_[stln].main_txt.clear();
-    if (multiline)
-      layout_[stln].make_comment_or_blank();
+    layout_[stln].make_comment_or_blank();
   }
 
   /* the first line is only continued if there is something left to continue */
-- 
2.43.0


From 9437a341280d226ee388876b8848ca40af8e7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 44/61] fix: splitting a line does not put blanks into a token
 that is joined to the next line

---
 src/flpr/Logical_Line.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 8f70de5..66c9db9 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -552,7 +552,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       export_beg->right_txt = '&';
       size_t const new_rs =
           export_beg->right_txt.size() + lr_beg->mt_begin_col_ - 1;
-      if (export_beg->right_space.size() != new_rs) {
+      /* no space means that the text may be joined to the next line */
+      if (!export_beg->right_space.empty() &&
+          export_beg->right_space.size() != new_rs) {
         export_beg->right_space.assign(new_rs, ' ');
       }
     } else {
-- 
2.43.0


From 77c51d0427b7d9649733a57b573d7ec1fa1a6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 45/61] fix: the new line of a split has neither the label nor
 the continuation mark of the old one

---
 src/flpr/File_Line.cc    | 8 ++++++++
 src/flpr/File_Line.hh    | 3 +++
 src/flpr/Logical_Line.cc | 4 ++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/flpr/File_Line.cc b/src/flpr/File_Line.cc
index 87ff55c..9651027 100644
--- a/src/flpr/File_Line.cc
+++ b/src/flpr/File_Line.cc
@@ -367,6 +367,14 @@ void File_Line::unspace_main() {
   }
 }
 
+void File_Line::clear_left_txt() {
+  auto &bits = classification_;
+  left_txt.clear();
+  UNSET_CLASS(label);
+  UNSET_CLASS(continuation);
+}
+
+/* ------------------------------------------------------------------------ */
 void File_Line::make_uncontinued() {
   auto &bits = classification_;
   UNSET_CLASS(continued);
diff --git a/src/flpr/File_Line.hh b/src/flpr/File_Line.hh
index 7e3021a..1330f48 100644
--- a/src/flpr/File_Line.hh
+++ b/src/flpr/File_Line.hh
@@ -166,6 +166,9 @@ public:
   //! If not continued, set continued flag and add trailing amp
   void make_continued();
 
+  //! Remove a label or leading continuation mark
+  void clear_left_txt();
+
   //! Force into being a preprocessor line
   void make_preprocessor();
 
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 66c9db9..6b4c1e3 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -563,7 +563,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     }
 
     /* clean new: remove left_txt */
-    export_beg->left_txt.clear();
+    export_beg->clear_left_txt();
     /* clean new: indent column */
     export_beg->set_leading_spaces(num_left_sp);
 
@@ -598,7 +598,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
       non_trivial = std::next(non_trivial);
     }
     if (non_trivial != layout_.end()) {
-      non_trivial->left_txt.clear();
+      non_trivial->clear_left_txt();
       non_trivial->set_leading_spaces(num_left_sp);
     }
   }
-- 
2.43.0


From a2c001f3b51a741b51a9d036c790bf3c058522ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 46/61] fix: the tokens of a split line keep their places when
 comment lines follow the split

---
 src/flpr/Logical_Line.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 6b4c1e3..cdabcb5 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -502,7 +502,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   if (frag == fragments_.end())
     return false;
   int const split_line = frag->mt_end_line_;
-  assert(split_line < static_cast<int>(fragments_.size()));
+  assert(split_line < static_cast<int>(layout_.size()));
 
   auto const num_left_sp = layout_[0].main_first_col() - 1;
 
@@ -620,7 +620,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
                            std::make_move_iterator(fragments_.end()));
 
   /* update the main_txt line numbers for the new fragments  */
-  int const move_up = new_ll.fragments_.front().mt_begin_line_;
+  int const move_up = split_line + 1;
   for (auto &tt : new_ll.fragments_) {
     tt.mt_begin_line_ -= move_up;
     tt.mt_end_line_ -= move_up;
-- 
2.43.0


From db414a90a68e510c475b1b24f51c7ae992bace0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:10 +0000
Subject: [PATCH 47/61] fix: splitting a fixed-format line keeps the statement
 column, and an empty first line does not throw

---
 src/flpr/Logical_Line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index cdabcb5..071e7d2 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -504,7 +504,10 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
   int const split_line = frag->mt_end_line_;
   assert(split_line < static_cast<int>(layout_.size()));
 
-  auto const num_left_sp = layout_[0].main_first_col() - 1;
+  /* the fixed-format control columns don't contribute to the leading spaces */
+  int num_left_sp = static_cast<int>(layout_[0].left_space.size());
+  if (!layout_[0].is_fixed_format())
+    num_left_sp += static_cast<int>(layout_[0].left_txt.size());
 
   /* collect the range of tokens that follow frag on the same layout_ line */
   auto lr_beg = std::next(frag);
-- 
2.43.0


From bc2711f0a014cb4b18acbc201bd444957661491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:10 +0000
Subject: [PATCH 48/61] fix: splitting a line before a continuation line also
 removes the semicolons after the split from its text

---
 src/flpr/Logical_Line.cc | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 071e7d2..dda1178 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -521,6 +521,22 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     lr_beg = std::next(lr_beg);
   }
 
+  auto const cleanup_source = [this, split_line, frag]() {
+    File_Line &src = layout_[split_line];
+    /* if there is a right_space, expand it to cover the characters being erased
+       from main_txt, in order to preserve trailing comment alignment */
+    size_t const erase_start_pos = frag->mt_end_col_;
+    if (!src.right_txt.empty()) {
+      size_t const new_size =
+          src.right_space.size() + src.main_txt.size() - erase_start_pos;
+      src.right_space.assign(new_size, ' ');
+    }
+    /* remove main_txt past the end of frag */
+    src.main_txt.erase(erase_start_pos);
+    /* remove any trailing ampersand continuations */
+    src.make_uncontinued();
+  };
+
   FL_VEC::iterator export_beg;
 
   /* if the range isn't empty, insert a new layout_ line, move the remainder
@@ -530,21 +546,7 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
     auto layout_insert = layout_.begin() + split_line + 1;
     export_beg = layout_.insert(layout_insert, layout_[split_line]);
 
-    /* cleanup the source: if there is a right_space, expand it to cover the
-     characters being erased from main_txt, in order to preserve trailing
-     comment alignment */
-    size_t erase_start_pos = frag->mt_end_col_;
-    if (!layout_[split_line].right_txt.empty()) {
-      size_t const new_size = layout_[split_line].right_space.size() +
-                              layout_[split_line].main_txt.size() -
-                              erase_start_pos;
-      layout_[split_line].right_space.assign(new_size, ' ');
-    }
-    /* cleanup the source: remove main_txt past the end of frag */
-    layout_[split_line].main_txt.erase(erase_start_pos);
-
-    /* cleanup the source: remove any trailing ampersand continuations */
-    layout_[split_line].make_uncontinued();
+    cleanup_source();
 
     /* clean new: remove main_txt before start of frag */
     export_beg->main_txt.erase(0, lr_beg->mt_begin_col_);
@@ -589,8 +591,9 @@ bool Logical_Line::split_after(typename TT_SEQ::iterator frag,
        continuation and adjust indent */
     export_beg = layout_.begin() + split_line + 1;
 
-    /* cleanup the source: remove any trailing ampersand continuations */
-    layout_[split_line].make_uncontinued();
+    /* there may be semicolons following frag that aren't exported */
+    if (export_beg != layout_.end())
+      cleanup_source();
 
     /* skip comments */
     auto non_trivial = export_beg;
-- 
2.43.0


From 5b0e4822b3e41a17ed5e9a59f3892827043580a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:59 +0000
Subject: [PATCH 49/61] fix: a comment or blank line does not end a continued
 statement or literal

---
 src/flpr/Logical_File.cc | 11 ++++++++---
 src/flpr/Logical_Line.cc | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 4b6b535..32c6a97 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -100,7 +100,9 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
                 << "scan_fixed error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
+    /* comments and blank lines don't end a character context */
+    if (!fl[i].is_trivial())
+      prev_open_delim = fl[i].open_delim;
   }
 
   /* Identify "logical lines": blocks of lines that represent a
@@ -196,8 +198,11 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
                 << "scan_free error: " << e.what() << std::endl;
       return false;
     }
-    prev_open_delim = fl[i].open_delim;
-    prev_line_cont = fl[i].is_continued();
+    /* comments and blank lines don't end a continued statement */
+    if (!fl[i].is_trivial()) {
+      prev_open_delim = fl[i].open_delim;
+      prev_line_cont = fl[i].is_continued();
+    }
   }
 
   // Identify "logical lines": blocks of lines that represent a
diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index dda1178..4db1185 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -81,8 +81,11 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text) {
   for (auto const &l : raw_text) {
     layout_.emplace_back(File_Line::analyze_free(
         line_no++, l, prev_open_delim, prev_line_cont, in_literal_block));
-    prev_open_delim = layout_.back().open_delim;
-    prev_line_cont = layout_.back().is_continued();
+    /* comments and blank lines don't end a continued statement */
+    if (!layout_.back().is_trivial()) {
+      prev_open_delim = layout_.back().open_delim;
+      prev_line_cont = layout_.back().is_continued();
+    }
   }
   init_from_layout();
 }
@@ -103,7 +106,9 @@ Logical_Line::Logical_Line(std::vector<std::string> const &raw_text,
   for (auto const &l : raw_text) {
     layout_.emplace_back(
         File_Line::analyze_fixed(line_no++, l, prev_open_delim, last_col));
-    prev_open_delim = layout_.back().open_delim;
+    /* comments and blank lines don't end a character context */
+    if (!layout_.back().is_trivial())
+      prev_open_delim = layout_.back().open_delim;
   }
   init_from_layout();
 }
-- 
2.43.0


From 8a138b6ce88119ca39199f68b092d8dc294a7834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:29 +0000
Subject: [PATCH 50/61] fix: lines continuing a directive are not Fortran text

---
 src/flpr/Logical_File.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 32c6a97..e980cac 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -26,6 +26,14 @@
 #include <set>
 
 namespace FLPR {
+namespace {
+/* Directives can be continued with a backslash: what follows isn't Fortran */
+bool directive_continues(File_Line const &fl) {
+  return (fl.is_preprocessor() || fl.is_flpr_pp() || fl.is_include()) &&
+         last_non_blank_char(fl.left_txt) == '\\';
+}
+} // namespace
+
 void Logical_File::clear() {
   file_info.reset();
   lines.clear();
@@ -90,6 +98,13 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
   std::vector<File_Line> fl(N);
   char prev_open_delim = '\0';
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && directive_continues(fl[i - 1])) {
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].set_classification(File_Line::class_flags::fixed_format);
+      fl[i].make_preprocessor();
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
@@ -188,6 +203,12 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
   char prev_open_delim = '\0';
   bool prev_line_cont = false;
   for (size_t i = 0; i < N; ++i) {
+    if (i > 0 && directive_continues(fl[i - 1])) {
+      fl[i].linenum = (int)i + 1;
+      fl[i].left_txt = raw_lines[i];
+      fl[i].make_preprocessor();
+      continue;
+    }
     try {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
-- 
2.43.0


From a9ff5de292e6530e38f9dbdd2dfe4dcab9242490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:32 +0000
Subject: [PATCH 51/61] fix: reporting a bad line needs no file information

---
 src/flpr/Logical_File.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index e980cac..a0f82d4 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -32,6 +32,11 @@ bool directive_continues(File_Line const &fl) {
   return (fl.is_preprocessor() || fl.is_flpr_pp() || fl.is_include()) &&
          last_non_blank_char(fl.left_txt) == '\\';
 }
+
+/* The file information is only there when called from scan() */
+std::string name_of(std::shared_ptr<File_Info> const &file_info) {
+  return file_info ? file_info->filename : "(unknown file)";
+}
 } // namespace
 
 void Logical_File::clear() {
@@ -109,7 +114,7 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
       fl[i] = File_Line::analyze_fixed((int)i + 1, raw_lines[i],
                                        prev_open_delim, last_col);
     } catch (std::exception &e) {
-      std::cerr << "At line " << i + 1 << " of \"" << file_info->filename
+      std::cerr << "At line " << i + 1 << " of \"" << name_of(file_info)
                 << "\":\n"
                 << raw_lines[i] << '\n'
                 << "scan_fixed error: " << e.what() << std::endl;
@@ -165,7 +170,7 @@ bool Logical_File::scan_fixed(Line_Buf const &raw_lines, int const last_col) {
     if (curr < N) {
       if (!fl[curr].is_fortran()) {
         std::cerr << "scan_fixed confused on line " << curr + 1 << "of \""
-                  << file_info->filename << "\": \n"
+                  << name_of(file_info) << "\": \n"
                   << fl[curr] << '\n';
         exit(1);
       }
@@ -213,7 +218,7 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
       fl[i] = File_Line::analyze_free((int)i + 1, raw_lines[i], prev_open_delim,
                                       prev_line_cont, in_literal_block);
     } catch (std::exception &e) {
-      std::cerr << "At line " << i + 1 << " of \"" << file_info->filename
+      std::cerr << "At line " << i + 1 << " of \"" << name_of(file_info)
                 << "\":\n"
                 << raw_lines[i] << '\n'
                 << "scan_free error: " << e.what() << std::endl;
@@ -286,7 +291,7 @@ bool Logical_File::scan_free(std::vector<std::string> const &raw_lines) {
     if (curr < N) {
       if (!fl[curr].is_fortran()) {
         std::cerr << "scan_free confused on line " << curr + 1 << "of \""
-                  << file_info->filename << "\": \n"
+                  << name_of(file_info) << "\": \n"
                   << fl[curr] << '\n';
         exit(1);
       }
-- 
2.43.0


From 46f5ef9eef4dead6f9b4a88f5317560a2c22898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 52/61] fix: splitting a compound line updates the statements
 left on the first half

---
 src/flpr/Logical_File.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index a0f82d4..2ea0594 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -362,6 +362,18 @@ bool Logical_File::split_compound_before(LL_STMT_SEQ::iterator pos) {
     std::advance(update_stmt, 1);
   }
   assert(num_changed == ll_seq_new->stmts().size());
+
+  /* split_after() also took fragments away from the end of the original
+     Logical_Line, which may not be compound any more: update the statements
+     that remain there */
+  LL_Stmt_Src ss_orig{ll_seq_orig, false};
+  update_stmt = std::prev(pos, ll_seq_orig->stmts().size());
+  while (ss_orig.advance()) {
+    assert(update_stmt->it() == ll_seq_orig);
+    update_stmt->update_range(ss_orig.move());
+    std::advance(update_stmt, 1);
+  }
+  assert(update_stmt == pos);
   return true;
 }
 
-- 
2.43.0


From 9ef782526fd00d9c547d9ca0363bb01a62077067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 53/61] fix: an edit inside a statement counts from its own
 first token, not from the line's

---
 src/flpr/Logical_File.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 2ea0594..c1a2c80 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -467,8 +467,8 @@ void Logical_File::replace_stmt_substr(LL_STMT_SEQ::iterator stmt,
   isolate_stmt(stmt);
 
   /* find the updated TT_Range using the offsets */
-  auto new_beg_it = std::next(stmt->ll().fragments().begin(), beg_off);
-  auto new_end_it = std::next(stmt->ll().fragments().begin(), end_off);
+  auto new_beg_it = std::next(stmt->begin(), beg_off);
+  auto new_end_it = std::next(stmt->begin(), end_off);
 
   stmt->ll().replace_stmt_substr(TT_Range{new_beg_it, new_end_it}, new_text);
   assert(stmt->ll().has_stmts());
@@ -483,7 +483,7 @@ void Logical_File::insert_text_after(LL_STMT_SEQ::iterator stmt,
                                      std::string const &new_text) {
   auto const frag_off = std::distance(stmt->begin(), frag);
   isolate_stmt(stmt);
-  auto new_frag_it = std::next(stmt->ll().fragments().begin(), frag_off);
+  auto new_frag_it = std::next(stmt->begin(), frag_off);
   stmt->ll().insert_text_after(new_frag_it, new_text);
   stmt->assign_range(stmt->ll().stmts()[0]);
   stmt->drop_stmt_tree();
-- 
2.43.0


From 116439fb4857769cdc7fe1a9278ac1538c064ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:50 +0000
Subject: [PATCH 54/61] fix: replacing a statement drops the tree of the old
 text

---
 src/flpr/Logical_File.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index c1a2c80..6b940b5 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -449,6 +449,7 @@ void Logical_File::replace_stmt_text(LL_STMT_SEQ::iterator stmt,
   assert(stmt->ll().has_stmts());
   assert(stmt->ll().stmts().size() == 1);
   stmt->assign_range(stmt->ll().stmts()[0]);
+  stmt->drop_stmt_tree();
   stmt->set_stmt_syntag(new_syntag);
   stmt->unhook();
 }
-- 
2.43.0


From be004b6008c6cfb9179f3045b56cc45a0426c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:05 +0000
Subject: [PATCH 55/61] fix: replace_main_text makes valid continuation lines,
 and may be given fewer lines than there are

---
 src/flpr/Logical_Line.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index 4db1185..efcfaf5 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -380,6 +380,8 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   assert(layout_[ref_line].is_fortran());
   assert(!layout_[ref_line].is_continued());
 
+  bool const fixed{layout_[ref_line].is_fixed_format()};
+
   size_t num_orig_fortran_lines{0};
   for (auto const &fl : layout_) {
     if (fl.is_fortran())
@@ -393,10 +395,17 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   if (layout_.size() < new_text.size()) {
     int const indent = layout_[ref_line].main_first_col() - 1;
     File_Line ref_fl = layout_[ref_line];
-    ref_fl.make_continued();
     ref_fl.left_txt.clear();
+    ref_fl.right_space.clear();
     ref_fl.right_txt.clear();
+    ref_fl.unset_classification(File_Line::class_flags::label);
+    if (fixed) {
+      ref_fl.left_txt = "     &";
+      ref_fl.set_classification(File_Line::class_flags::continuation);
+    }
     ref_fl.set_leading_spaces(indent);
+    if (!fixed)
+      ref_fl.make_continued();
     layout_.insert(layout_.end(), new_text.size() - old_size, ref_fl);
   }
 
@@ -405,10 +414,9 @@ void Logical_Line::replace_main_text(std::vector<std::string> const &new_text) {
   for (std::string const &s : new_text) {
     layout_[fl_idx++].main_txt = s;
   }
-  assert(ref_line < fl_idx);
 
-  /* fix continuations */
-  if (ref_line < fl_idx - 1) {
+  /* fix continuations: fixed-format lines are marked on the next line */
+  if (!fixed && ref_line < fl_idx - 1) {
     layout_[ref_line].make_continued();
   }
   layout_[fl_idx - 1].make_uncontinued();
-- 
2.43.0


From 828b614a639ed56b4cee91c52d7f42d19763b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 56/61] fix: converting to free form puts nothing behind the &
 of a continued literal

---
 src/flpr/Logical_File.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 6b940b5..b37c875 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -559,11 +559,13 @@ bool Logical_File::convert_fixed_to_free() {
           File_Line &fl = layout[curr_idx];
           if (curr_fortran_line + 1 < total_fortran_lines) {
             /* Need to add a trailing continuation mark */
-            if (fl.right_txt.empty()) {
+            if (fl.right_txt.empty() || fl.open_delim != '\0') {
+              /* In a character context, the continuation mark can't be followed
+                 by commentary (here: text past the last column) */
               fl.right_txt = "&";
             } else {
               fl.right_txt.insert(0, "& ");
-              if (fl.open_delim == '\0' && fl.right_space.size() > 2) {
+              if (fl.right_space.size() > 2) {
                 fl.right_space.erase(0, 2);
               }
             }
-- 
2.43.0


From 45dff5ea6f7af399380d42215599f98a5f12932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 57/61] fix: converting to free form keeps labels apart from
 the text and drops a zero in column 6

---
 src/flpr/Logical_File.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index b37c875..572dbe3 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -575,9 +575,11 @@ bool Logical_File::convert_fixed_to_free() {
 
           /* Adjust left_txt and left_spaces */
           if (curr_fortran_line == 0) {
-            if (fl.left_txt.empty()) {
-              fl.left_space.insert(0, 6, ' ');
-            }
+            /* A zero in control column 6 marks an initial line */
+            if (!fl.has_label())
+              fl.left_txt.clear();
+            if (fl.left_txt.size() < 6)
+              fl.left_space.insert(0, 6 - fl.left_txt.size(), ' ');
           } else {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
-- 
2.43.0


From 3e4f408b1f1c8d40567316c1d3c09a338852a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 58/61] fix: converting to free form marks tokens that are
 split around comment lines

---
 src/flpr/Logical_File.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 572dbe3..7f81196 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -584,6 +584,11 @@ bool Logical_File::convert_fixed_to_free() {
             /* Need to adjust the control column 6 continuation mark */
             assert(fl.left_txt.size() == 6);
 
+            /* the lines that a token is split across may include comments */
+            while (!needs_front_continuation.empty() &&
+                   needs_front_continuation.front() < curr_idx)
+              needs_front_continuation.pop_front();
+
             if (!needs_front_continuation.empty() &&
                 needs_front_continuation.front() == curr_idx) {
               needs_front_continuation.pop_front();
-- 
2.43.0


From e60d2f58b8cdb105e562edce2acd41ae45c9ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 59/61] fix: converting to free form blanks out control columns
 of blank lines

---
 src/flpr/Logical_File.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/flpr/Logical_File.cc b/src/flpr/Logical_File.cc
index 7f81196..a3a1dd6 100644
--- a/src/flpr/Logical_File.cc
+++ b/src/flpr/Logical_File.cc
@@ -614,6 +614,9 @@ bool Logical_File::convert_fixed_to_free() {
           assert(!fl.left_txt.empty());
           if (fl.left_txt[0] != ' ')
             fl.left_txt[0] = '!';
+        } else if (layout[curr_idx].is_blank()) {
+          /* there may be control columns on a line that is otherwise blank */
+          layout[curr_idx].left_txt.clear();
         }
       }
     } else {
@@ -625,6 +628,8 @@ bool Logical_File::convert_fixed_to_free() {
           assert(!fl.left_txt.empty());
           if (fl.left_txt[0] != ' ')
             fl.left_txt[0] = '!';
+        } else if (layout[curr_idx].is_blank()) {
+          layout[curr_idx].left_txt.clear();
         }
       }
     }
-- 
2.43.0


From d8f31aaac0ab263f772e58bf1789c3477a09f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 60/61] fix: append_comment doesn't put the comment inside a
 character literal

---
 src/flpr/Logical_Line.cc | 27 +++++++++++++++++----------
 src/flpr/Logical_Line.hh |  3 ++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/flpr/Logical_Line.cc b/src/flpr/Logical_Line.cc
index efcfaf5..31177e2 100644
--- a/src/flpr/Logical_Line.cc
+++ b/src/flpr/Logical_Line.cc
@@ -848,21 +848,28 @@ void Logical_Line::tokenize(Line_Accum const &la) {
 void Logical_Line::append_comment(std::string const &comment_text) {
   if (comment_text.empty())
     return;
-  if (layout_[0].right_txt.empty()) {
-    int lline_len = layout_[0].main_first_col() + layout_[0].main_txt.size();
+  /* no comment can be put in a character context: skip lines that end in one */
+  size_t line{0};
+  while (line + 1 < layout_.size() &&
+         (layout_[line].open_delim != '\0' ||
+          (line > 0 && !layout_[line].is_fortran())))
+    line += 1;
+  File_Line &fl{layout_[line]};
+  if (fl.right_txt.empty()) {
+    int lline_len = fl.main_first_col() + fl.main_txt.size();
     int c_len = 2 + comment_text.size();
     if (72 - c_len > lline_len)
-      layout_[0].right_space = std::string(72 - c_len - lline_len, ' ');
+      fl.right_space = std::string(72 - c_len - lline_len, ' ');
     else
-      layout_[0].right_space = "    ";
-    layout_[0].right_txt = "! ";
-    layout_[0].right_txt.append(comment_text);
+      fl.right_space = "    ";
+    fl.right_txt = "! ";
+    fl.right_txt.append(comment_text);
   } else {
-    if (layout_[0].right_txt.find('!') == std::string::npos)
-      layout_[0].right_txt.append(" ! ");
+    if (fl.right_txt.find('!') == std::string::npos)
+      fl.right_txt.append(" ! ");
     else
-      layout_[0].right_txt.append(" : ");
-    layout_[0].right_txt.append(comment_text);
+      fl.right_txt.append(" : ");
+    fl.right_txt.append(comment_text);
   }
 }
 
diff --git a/src/flpr/Logical_Line.hh b/src/flpr/Logical_Line.hh
index 906b46b..833955e 100644
--- a/src/flpr/Logical_Line.hh
+++ b/src/flpr/Logical_Line.hh
@@ -172,7 +172,8 @@ public:
   //! Diagnostic output
   std::ostream &dump(std::ostream &os) const;
 
-  //! Appends an eol comment to first line.  Don't put a leading '!' in text
+  /*! Appends an eol comment to first line that doesn't end in a character
+      context.  Don't put a leading '!' in text */
   void append_comment(std::string const &text);
 
   //! Returns true if this Logical_Line contains some Fortran statements
-- 
2.43.0


From da0d699acc558412bc90d2d489b3d64ad7186f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:21 +0000
Subject: [PATCH 61/61] fix: Parsed_File::read_file and prefetch_parse_tree
 report failure as failure

---
 src/flpr/Parsed_File.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flpr/Parsed_File.hh b/src/flpr/Parsed_File.hh
index d00e184..b011a90 100644
--- a/src/flpr/Parsed_File.hh
+++ b/src/flpr/Parsed_File.hh
@@ -165,7 +165,7 @@ bool Parsed_File<PG_NODE_DATA>::read_file(std::string const &filename,
   if (logical_file_.read_and_scan(filename, last_fixed_col, file_type)) {
     bad_state_ = false;
   }
-  return bad_state_;
+  return !bad_state_;
 }
 
 template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
@@ -186,7 +186,7 @@ template <typename PG_NODE_DATA> void Parsed_File<PG_NODE_DATA>::build_tree_() {
     if (!parse_tree_.empty())
       link_stmts_recurse_(*parse_tree_);
   }
-  tree_ok_ = true;
+  tree_ok_ = !bad_state_;
 }
 
 template <typename PG_NODE_DATA>
-- 
2.43.0

