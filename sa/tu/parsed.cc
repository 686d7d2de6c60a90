// Instantiates FLPR::Parsed_File over plain node data.
// Only parsed by the analysis, never compiled to code or run.
#include "flpr/flpr.hh"

namespace verif {
struct PD {
  using Stmt_Tree = FLPR::LL_Stmt::Stmt_Tree;
  using Stmt_Range = FLPR::SL_Range<FLPR::LL_Stmt>;
  int tag{0};
  FLPR::LL_Stmt *st{nullptr};
  Stmt_Range range;
  PD() = default;
  explicit PD(int t) : tag(t) {}
  PD(int t, FLPR::LL_Stmt *s) : tag(t), st(s) {}
  PD(int t, FLPR::LL_STMT_SEQ::iterator const &i) : tag(t), st(&*i) {}
  int syntag() const { return tag; }
  void syntag(int t) { tag = t; }
  bool is_stmt() const { return st != nullptr; }
  FLPR::LL_Stmt &ll_stmt() { return *st; }
  FLPR::LL_Stmt const &ll_stmt() const { return *st; }
  FLPR::LL_STMT_SEQ::iterator ll_stmt_iter() const { return {}; }
  Stmt_Range &stmt_range() { return range; }
};
using PF = FLPR::Parsed_File<PD>;
using T = PF::Parse_Tree;
using Nd = T::node;

T t_make(int tag) { return T(PD(tag)); }
T t_leaf(int tag, FLPR::LL_Stmt *s) { return T(PD(tag, s)); }
void t_graft_back_m(T &t, T &u) { t.graft_back(std::move(u)); }
bool f_indent(PF &f, FLPR::Indent_Table const &i) { return f.indent(i); }
bool f_bool(PF const &f) { return f; }
bool f_stmts(PF &f) { return f.prefetch_statements(); }
FLPR::LL_STMT_SEQ &f_statements(PF &f) { return f.statements(); }
bool f_tree(PF &f) { return f.prefetch_parse_tree(); }
T &f_parse_tree(PF &f) { return f.parse_tree(); }
bool f_read(PF &f, std::string const &n, int c, FLPR::File_Type t) { return f.read_file(n, c, t); }
PF f_make() { return PF(); }
PF f_open(std::string const &n, int c, FLPR::File_Type t) { return PF(n, c, t); }
PF f_stream(std::istream &i, std::string const &n, int c, FLPR::File_Type t) { return PF(i, n, c, t); }
PF::Parse::PP_Result t_result(T &t, bool b) { return PF::Parse::PP_Result(std::move(t), b); }
FLPR::LL_Stmt *f_of(Nd *n) { return (**n).st; }
using IT = FLPR::Indent_Table;
int i_get(IT const &t, int k) { return t.get_indent(k); }
int i_at(IT const &t, int k) { return t[k]; }
int i_cont(IT const &t) { return t.continued_offset(); }
void i_set(IT &t, int k, int n) { t.set_indent(k, n); }
void i_setc(IT &t, int n) { t.set_continued_offset(n); }
void i_constant(IT &t, int n) { t.apply_constant_indent(n); }
void i_fixed(IT &t, int n) { t.apply_constant_fixed_indent(n); }
void i_emacs(IT &t) { t.apply_emacs_indent(); }
bool f_node(PF &f, FLPR::LL_STMT_SEQ::iterator i, Nd *n) {
  auto c = f.stmt_to_node_cursor(i);
  return n ? bool(c) && &*c == &n->operator*() : !bool(c);
}
}
