// Instantiates FLPR::Tree over an opaque value.
// Only parsed by the analysis, never compiled to code or run.
#include "flpr/Tree.hh"

namespace verif {
struct V {
  int v{0};
  V() = default;
  explicit V(int x) : v(x) {}
};
using T = FLPR::Tree<V>;
using Nd = T::node;
using It = T::iterator;
using Cu = T::cursor_t;
using CC = T::const_cursor_t;

// one function per operation; each is interpreted on every small tree
T t_make(int v) { return T(v); }
T t_make_val(V &v) { return T(std::move(v)); }
T t_make_cval(V const &v) { return T(v); }
T t_make_true() { return T(true); }
T t_make_none() { return T(); }
It t_graft_back_m(T &a, T &b) { return a.graft_back(std::move(b)); }
It t_graft_front_m(T &a, T &b) { return a.graft_front(std::move(b)); }
It t_graft_m(T &a, T &b, It pos) { return a.graft(pos, std::move(b)); }
It t_graft_back_r(T &a, T &b) { return a.graft_back(b); }
It t_graft_front_r(T &a, T &b) { return a.graft_front(b); }
It t_graft_r(T &a, T &b, It pos) { return a.graft(pos, b); }
It n_emplace(Nd &n, It pos, T &b) { return n.emplace(pos, std::move(*b)); }
It n_emplace_front(Nd &n, T &b) { return n.emplace_front(std::move(*b)); }
It n_emplace_back(Nd &n, T &b) { return n.emplace_back(std::move(*b)); }
void n_swap(Nd &n, T &b) { n.swap(*b); }
void t_swap(T &a, T &b) { a.swap(b); }
void t_clear(T &a) { a.clear(); }
T t_move(T &a) { return T(std::move(a)); }
void t_move_assign(T &a, T &b) { a = std::move(b); }
It n_erase(Nd &n, It pos) { return n.branches().erase(pos); }

bool q_bool(T const &a) { return static_cast<bool>(a); }
bool q_init(T const &a) { return a.tree_initialized(); }
bool q_empty(T const &a) { return a.empty(); }
size_t q_size(T const &a) { return a.size(); }
size_t qn_size(Nd const &n) { return n.size(); }
size_t qn_num(Nd const &n) { return n.num_branches(); }
bool qn_leaf(Nd const &n) { return n.is_leaf(); }
bool qn_fork(Nd const &n) { return n.is_fork(); }
bool qn_root(Nd const &n) { return n.is_root(); }
It qn_self(Nd &n) { return n.self(); }
It qn_trunk(Nd &n) { return n.trunk(); }
V &qn_val(Nd &n) { return *n; }
V *qn_arrow(Nd &n) { return n.operator->(); }
It qn_begin(Nd &n) { return n.branches().begin(); }
It qn_end(Nd &n) { return n.branches().end(); }
It q_root(T &a) { return a.root(); }
Nd &q_star(T &a) { return *a; }
T::const_iterator q_croot(T const &a) { return a.croot(); }
void q_check(T const &a) { a.check(); }

Cu c_of(It i) { return Cu(i); }
Cu c_root(T &t) { return t.cursor(); }
CC c_croot(T const &t) { return t.ccursor(); }
CC c_croot2(T const &t) { return t.cursor(); }
CC c_conv(Cu &c) { return CC(c); }
Cu c_none() { return Cu(); }
#define CUR(P, C)                                                              \
  bool P##_root(C const &c) { return c.is_root(); }                            \
  bool P##_fork(C const &c) { return c.is_fork(); }                            \
  bool P##_leaf(C const &c) { return c.is_leaf(); }                            \
  size_t P##_num(C const &c) { return c.num_branches(); }                      \
  bool P##_bool(C const &c) { return c; }                                      \
  bool P##_has_up(C const &c) { return c.has_up(); }                           \
  bool P##_has_prev(C const &c) { return c.has_prev(); }                       \
  bool P##_has_next(C const &c) { return c.has_next(); }                       \
  bool P##_has_down(C const &c) { return c.has_down(); }                       \
  void P##_up(C &c, int k) { c.up(k); }                                        \
  void P##_prev(C &c, int k) { c.prev(k); }                                    \
  void P##_next(C &c, int k) { c.next(k); }                                    \
  void P##_down(C &c, int k) { c.down(k); }                                    \
  bool P##_try_next(C &c, int k) { return c.try_next(k); }                     \
  bool P##_try_down(C &c, int k) { return c.try_down(k); }                     \
  void P##_clear(C &c) { c.clear(); }                                          \
  int P##_val(C &c) { return c->v; }                                           \
  int P##_star(C &c) { return (*c).v; }                                        \
  int P##_node(C &c) { return (*c.node()).v; }                                 \
  int P##_self(C &c) { return (**c.self()).v; }
CUR(cu, Cu)
CUR(cc, CC)
} // namespace verif
