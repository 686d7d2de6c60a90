// Instantiates the header-only templates a client of the library uses, so
// that their bodies are in the type-checked program that is analysed.
// This file is only parsed; it is never compiled to code or run.
#include "flpr/Indent_Table.hh"
#include "flpr/flpr.hh"
#include <vector>

using File = FLPR::Parsed_File<>;
using Proc = FLPR::Procedure<File>;
using Cursor = File::Parse_Tree::cursor_t;

struct VerifAction {
  bool operator()(File &, Cursor, bool, bool) const { return false; }
};

bool verif_instantiate(File &f, Cursor c, std::string const &s) {
  FLPR::Indent_Table t;
  bool r = f.indent(t);
  File f2("x.f90", 0);
  File f3;
  r |= f3.read_file("x.f90", 0);
  VerifAction a;
  FLPR::Procedure_Visitor v(f, a);
  r |= v.visit();
  Proc p(f);
  r |= p.ingest(c);
  r |= p.rename(s);
  r |= p.complete_end_stmt();
  r |= p.headless_main_program();
  r |= p.has_region(Proc::USES);
  (void)p.name();
  std::vector<int> labels;
  p.scan_out_labels(std::back_inserter(labels));
  auto rg = p.range(Proc::USES);
  auto crg = p.crange(Proc::USES);
  (void)rg;
  (void)crg;
  auto it = p.begin(Proc::EXECUTION_PART);
  auto cit = p.cbegin(Proc::EXECUTION_PART);
  auto l = p.last(Proc::EXECUTION_PART);
  auto e = p.end(Proc::EXECUTION_PART);
  (void)cit;
  (void)p.cend(Proc::EXECUTION_PART);
  (void)p.clast(Proc::EXECUTION_PART);
  p.emplace_stmt(e, FLPR::Logical_Line("x"), FLPR::Syntax_Tags::SG_CALL_STMT,
                 true);
  p.replace_stmt(l, "x", FLPR::Syntax_Tags::SG_CALL_STMT);
  p.replace_stmt_substr(it, FLPR::LL_TT_Range(), "x");
  p.insert_text_after(it, FLPR::TT_SEQ::iterator(), "x");
  p.clear();
  (void)f.stmt_to_node_cursor(it);
  return r;
}
