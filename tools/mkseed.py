"""developer tool: write a planted bug directory from an edit list and a demo program"""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = r'''#include "flpr/flpr.hh"
#include "flpr/parse_stmt.hh"
#include "flpr/Stmt_Parsers.hh"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
using namespace FLPR;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
struct Src {
  Logical_File lf;
  explicit Src(std::vector<std::string> const &l) {
    Logical_File::Line_Buf b(l.begin(), l.end());
    lf.scan_free(b); lf.make_stmts();
  }
};
/* does the rule accept, and how many tokens are left? (-1: refused) */
template <typename R> int left(R r, std::string const &s) {
  Src h({s}); TT_Stream ts{h.lf.ll_stmts.front()};
  Stmt::Stmt_Tree t = r(ts);
  if (!t) return -1;
  int n = 0; while (!ts.is_eol() && ts.peek() != Syntax_Tags::BAD) { ts.consume(); ++n; }
  return n;
}
template <typename R> std::string tree(R r, std::string const &s) {
  Src h({s}); TT_Stream ts{h.lf.ll_stmts.front()};
  Stmt::Stmt_Tree t = r(ts);
  std::ostringstream o; if (t) o << t; return o.str();
}
'''
SH = '''#!/bin/bash
# exit 0 on correct code, non-zero when the property is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O0 -g -w %s -I/repo/src -I/repo/apps "$D/demo.cc" /repo/_build/src/flpr/libflpr.a -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo >/dev/null
'''
def seed(id, prop, edits, needs, breaks, demo, flags=''):
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = ''
    by = {}
    for f, a, b in edits: by.setdefault(f, []).append((a, b))
    for f, l in by.items():
        s = open('/repo/' + f).read(); n = s
        for a, b in l:
            assert n.count(a) == 1, (id, f, n.count(a), a)
            n = n.replace(a, b)
        diff += ''.join(difflib.unified_diff(s.splitlines(True), n.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cc', 'w').write(HEAD + demo + '\n')
    open(d + '/demo.sh', 'w').write(SH % flags)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
