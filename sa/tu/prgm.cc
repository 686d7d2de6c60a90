// Instantiates the program-level combinators over abstract sub-parsers.
// Only parsed by the analysis, never compiled to code or run.
#include "flpr/Prgm_Parsers.hh"

namespace verif {
using namespace FLPR;
using PP = FLPR::Prgm::Parsers<>;
struct PSub {
  int id;
  PP::PP_Result operator()(PP::State &state) const noexcept; // abstract
};
FLPR::Stmt::Stmt_Tree stmt_fn(FLPR::TT_Stream &ts); // abstract
constexpr int PT = Syntax_Tags::PG_IF_CONSTRUCT;

// makes the accessors used to look at results part of the analysed program
void pv_use(PP::Prgm_Tree &t, PP::State &st, LL_STMT_SEQ::iterator it) {
  PP::Prgm_Tree::node &n = *t;
  (void)n.trunk();
  (void)n.self();
  (void)n.is_leaf();
  (void)n.branches().begin();
  (void)n.branches().end();
  (void)*n;
  (void)t.root();
  (void)static_cast<bool>(t);
  (void)n->syntag();
  (void)n->is_stmt();
  (void)n->ll_stmt_iter();
  SL_Range<LL_Stmt> &r{n->stmt_range()};
  (void)r.begin();
  (void)r.end();
  (void)r.size();
  (void)r.empty();
  SL_Range<LL_Stmt> r2{it, it};
  PP::State s2{r2};
  (void)static_cast<bool>(st.ss);
  (void)st.ss.iter();
  (void)st.ss.advance();
  LL_STMT_SEQ::iterator j{st.ss};
  PP::Prgm_Tree t0;
  PP::Prgm_Tree t1{PT};
  PP::Prgm_Tree t2{PT, it};
  t1.graft_back(std::move(t2));
  PP::PP_Result res{std::move(t1), true};
  PP::PP_Result res0;
  (void)it->syntax_tag();
  (void)it->stmt_tree();
  FLPR::Stmt::Stmt_Tree &sx = it->stmt_tree();
  (void)(*sx).trunk();
  (void)(*sx).self();
  (void)(*sx).is_leaf();
  (void)(*sx).branches().begin();
  (void)(*sx).branches().end();
  (void)sx.root();
  sx.graft_back(FLPR::Stmt::Stmt_Tree{PT});
  LL_TT_Range rr{(*sx)->token_range};
  (void)rr.begin();
  (void)rr.end();
  (void)rr.size();
  (void)rr.empty();
  FLPR::Stmt::Stmt_Tree s0;
  FLPR::Stmt::Stmt_Tree s1{PT};
}

using R = PP::PP_Result;
using ST = PP::State;
R p_seq1(ST &s) { return PP::seq(PT, PSub{0})(s); }
R p_seq2(ST &s) { return PP::seq(PT, PSub{0}, PSub{1})(s); }
R p_seq3(ST &s) { return PP::seq(PT, PSub{0}, PSub{1}, PSub{2})(s); }
R p_h_seq2(ST &s) { return PP::h_seq(PSub{0}, PSub{1})(s); }
R p_seq_if1(ST &s) { return PP::seq_if(PT, PSub{0})(s); }
R p_seq_if2(ST &s) { return PP::seq_if(PT, PSub{0}, PSub{1})(s); }
R p_seq_if3(ST &s) { return PP::seq_if(PT, PSub{0}, PSub{1}, PSub{2})(s); }
R p_h_seq_if2(ST &s) { return PP::h_seq_if(PSub{0}, PSub{1})(s); }
R p_alts1(ST &s) { return PP::alts(PT, PSub{0})(s); }
R p_alts2(ST &s) { return PP::alts(PT, PSub{0}, PSub{1})(s); }
R p_alts3(ST &s) { return PP::alts(PT, PSub{0}, PSub{1}, PSub{2})(s); }
R p_opt(ST &s) { return PP::opt(PSub{0})(s); }
R p_star(ST &s) { return PP::star(PSub{0})(s); }
R p_plus(ST &s) { return PP::plus(PT, PSub{0})(s); }
R p_opt_seq2(ST &s) { return PP::opt_seq(PT, PSub{0}, PSub{1})(s); }
R p_opt_seq3(ST &s) { return PP::opt_seq(PT, PSub{0}, PSub{1}, PSub{2})(s); }
R p_h_opt_seq2(ST &s) { return PP::h_opt_seq(PSub{0}, PSub{1})(s); }
R p_tag_if(ST &s) { return PP::tag_if(PT, PSub{0})(s); }
R p_stmt(ST &s) { return PP::stmt(stmt_fn)(s); }
R p_end_stream(ST &s) { return PP::end_stream()(s); }
R p_do(ST &s) { return PP::do_construct(s); }
} // namespace verif
template struct FLPR::Prgm::Parsers<>;
