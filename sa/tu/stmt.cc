// Operations on a statement's cached tree and tag.
// Only parsed by the analysis, never compiled to code or run.
#include "flpr/LL_Stmt.hh"
#include "flpr/parse_stmt.hh"

namespace verif {
using namespace FLPR;
using ST = FLPR::Stmt::Stmt_Tree;
void s_set(LL_Stmt &s, ST &t) { s.set_stmt_tree(std::move(t)); }
void s_drop(LL_Stmt &s) { s.drop_stmt_tree(); }
void s_reset(LL_Stmt &s) { s.reset_stmt_tree(); }
void s_syntag(LL_Stmt &s, int t) { s.set_stmt_syntag(t); }
void s_update(LL_Stmt &s, LL_Stmt &o) { s.update_range(std::move(o)); }
ST &s_tree(LL_Stmt &s) { return s.stmt_tree(); }
ST const &s_ctree(LL_Stmt const &s) { return s.stmt_tree(); }
int s_tag(LL_Stmt const &s) { return s.syntax_tag(); }
int s_stmt_tag(LL_Stmt const &s, bool b) { return s.stmt_tag(b); }
ST s_make(int t) { return ST(t); }
ST s_none() { return ST(); }
void s_graft(ST &a, ST &b) { a.graft_back(std::move(b)); }
bool s_empty(ST const &a) { return a.empty(); }
int s_root(ST const &a) { return (*a.croot())->syntag; }
int s_label(LL_Stmt const &s) { return s.label(); }
int s_comp(LL_Stmt const &s) { return s.is_compound(); }
} // namespace verif
