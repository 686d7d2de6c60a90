// Instantiates the statement-level combinators over abstract sub-parsers.
// Only parsed by the analysis, never compiled to code or run.
#include "flpr/Stmt_Parsers.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/parse_stmt.hh"

namespace verif {
using namespace FLPR;
using namespace FLPR::Stmt;
struct Sub {
  int id;
  SP_Result operator()(TT_Stream &ts) const noexcept; // abstract
};
Stmt_Tree sub_rule(TT_Stream &ts); // abstract
constexpr int TAG = Syntax_Tags::SG_CALL_STMT;

// makes the accessors used to look at results part of the analysed program
void v_use(Stmt_Tree &t) {
  Stmt_Tree::node &n = *t;
  (void)n.trunk();
  (void)n.self();
  (void)n.is_leaf();
  (void)n.branches().begin();
  (void)n.branches().end();
  (void)*n;
  (void)t.root();
  (void)static_cast<bool>(t);
  LL_TT_Range r{(*n).token_range};
  (void)r.begin();
  (void)r.end();
  (void)r.size();
  (void)r.empty();
}

SP_Result v_alts1(TT_Stream &ts) { return alts(TAG, Sub{0})(ts); }
SP_Result v_alts2(TT_Stream &ts) { return alts(TAG, Sub{0}, Sub{1})(ts); }
SP_Result v_alts3(TT_Stream &ts) {
  return alts(TAG, Sub{0}, Sub{1}, Sub{2})(ts);
}
SP_Result v_h_alts2(TT_Stream &ts) { return h_alts(Sub{0}, Sub{1})(ts); }
SP_Result v_seq1(TT_Stream &ts) { return seq(TAG, Sub{0})(ts); }
SP_Result v_seq2(TT_Stream &ts) { return seq(TAG, Sub{0}, Sub{1})(ts); }
SP_Result v_seq3(TT_Stream &ts) { return seq(TAG, Sub{0}, Sub{1}, Sub{2})(ts); }
SP_Result v_h_seq2(TT_Stream &ts) { return h_seq(Sub{0}, Sub{1})(ts); }
SP_Result v_star(TT_Stream &ts) { return star(Sub{0})(ts); }
SP_Result v_opt(TT_Stream &ts) { return opt(Sub{0})(ts); }
SP_Result v_neg(TT_Stream &ts) { return neg(Sub{0})(ts); }
SP_Result v_tag_if(TT_Stream &ts) { return tag_if(TAG, Sub{0})(ts); }
SP_Result v_list(TT_Stream &ts) { return list(TAG, Sub{0})(ts); }
SP_Result v_h_list(TT_Stream &ts) { return h_list(Sub{0})(ts); }
SP_Result v_parens(TT_Stream &ts) { return parens(TAG, Sub{0})(ts); }
SP_Result v_h_parens(TT_Stream &ts) { return h_parens(Sub{0})(ts); }
SP_Result v_brackets(TT_Stream &ts) { return brackets(TAG, Sub{0})(ts); }
SP_Result v_h_brackets(TT_Stream &ts) { return h_brackets(Sub{0})(ts); }
SP_Result v_rule(TT_Stream &ts) { return rule(sub_rule)(ts); }
SP_Result v_tok(TT_Stream &ts) { return tok(Syntax_Tags::TK_COMMA)(ts); }
SP_Result v_name(TT_Stream &ts) { return name()(ts); }
SP_Result v_letter(TT_Stream &ts) { return letter()(ts); }
SP_Result v_literal(TT_Stream &ts) { return literal("Abc")(ts); }
SP_Result v_peek(TT_Stream &ts) { return peek(Syntax_Tags::TK_COMMA)(ts); }
Stmt_Tree ext_rule0(TT_Stream &ts); // abstract
Stmt_Tree ext_rule1(TT_Stream &ts); // abstract
SP_Result v_ext_action(TT_Stream &ts) {
  Parser_Exts x;
  x.register_action_stmt(ext_rule0);
  x.register_action_stmt(ext_rule1);
  return x.parse_action_stmt(ts);
}
SP_Result v_ext_spec(TT_Stream &ts) {
  Parser_Exts x;
  x.register_other_specification_stmt(ext_rule0);
  x.register_other_specification_stmt(ext_rule1);
  return x.parse_other_specification_stmt(ts);
}
SP_Result v_ext_clear(TT_Stream &ts) {
  Parser_Exts x;
  x.register_action_stmt(ext_rule0);
  x.register_other_specification_stmt(ext_rule1);
  x.clear();
  SP_Result r = x.parse_action_stmt(ts);
  if (!r.match)
    return x.parse_other_specification_stmt(ts);
  return r;
}
SP_Result v_eol(TT_Stream &ts) { return eol()(ts); }
} // namespace verif
