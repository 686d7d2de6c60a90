#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the wording is reviewed in one place)"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    assert len(title) <= 80, title
    P.append(d)

S = 'src/flpr/'
p('P01', 'Each statement rule accepts exactly its documented Fortran production',
  'For every token sequence, parsing one Fortran statement or statement part succeeds exactly when the sequence starts with the form that the rule documents for it (the Fortran 2018 production quoted with the rule, with the deviations noted there), trying alternatives in an order in which no alternative hides a later one. No legal form is refused and no form outside the production is accepted.',
  ['inputs', 'programs'], 'every rule of the statement grammar and every token sequence',
  'The tests feed each rule one to three sample statements; a dropped alternative, an item made mandatory, or two alternatives in the wrong order only shows for a statement form that nobody sampled.',
  [S + 'parse_stmt.cc', S + 'parse_stmt.hh', S + 'Stmt_Parsers.hh'],
  [('statement rules built from parser combinators', S + 'parse_stmt.cc'), ('combinator classes', S + 'Stmt_Parsers.hh')])
p('P02', 'An accepted statement has been consumed to its end',
  'Whenever parsing a complete Fortran statement succeeds, every token of that statement has been consumed: a statement followed by leftover tokens is never reported as recognised. This holds for each statement kind and each way its rule can succeed.',
  ['inputs', 'programs'], 'every complete-statement rule and every way through it',
  'Trailing garbage must be rejected on each of the alternatives of more than a hundred statement rules; tests check legal statements only.',
  [S + 'parse_stmt.cc', S + 'Stmt_Parsers.hh'],
  [('end-of-line parser at the end of each statement rule', S + 'parse_stmt.cc')])
p('P03', 'Statement trees have the documented node kinds and nesting',
  'A successful parse of a statement or statement part returns a tree whose root carries the syntax tag of the production, whose inner nodes are the documented sub-productions in source order, and whose leaves cover the matched tokens from first to last. This is independent of which alternative matched or which optional parts were present.',
  ['inputs', 'programs'], 'every rule, every alternative and combination of optional parts',
  'The tests compare a few trees; most rules are only tested for success, and a wrong tag or nesting in one alternative is invisible to them.',
  [S + 'parse_stmt.cc', S + 'Stmt_Parsers.hh', S + 'Stmt_Tree.cc', S + 'Parser_Result.hh'],
  [('tag arguments of rules and combinators', S + 'parse_stmt.cc'), ('branch covering and hoisting', S + 'Stmt_Tree.cc')])
p('P04', 'A parse attempt that fails leaves no trace',
  'When an attempt to match a statement, a statement part, or one building block of a rule fails, the token position is exactly where it was before the attempt and no tree is returned; a repetition or optional part whose last attempt fails keeps what it matched before and nothing of the failed attempt. Consequently the outcome of later alternatives never depends on earlier ones having been tried.',
  ['inputs', 'programs', 'histories'], 'every rule and combinator, every point at which a sequence can fail',
  'Backtracking happens at arbitrary depth inside nested combinators; tests only see the final verdict for a few statements, in which a token lost on a failed path rarely matters.',
  [S + 'Stmt_Parsers.hh', S + 'parse_stmt.cc', S + 'TT_Stream.hh', S + 'TT_Stream.cc', S + 'Parser_Result.hh'],
  [('mark and rewind in every combinator', S + 'Stmt_Parsers.hh'), ('hand-written rules', S + 'parse_stmt.cc')])
p('P05', 'Parsing a statement always terminates',
  'For every token sequence each statement rule returns after finitely many steps: no rule calls itself again without having consumed a token, and no repetition or scanning loop goes round again without having consumed a token.',
  ['inputs', 'programs'], 'every rule, every loop, every token sequence',
  'Left recursion and empty repetitions hang only on the input that reaches them.',
  [S + 'parse_stmt.cc', S + 'Stmt_Parsers.hh', S + 'TT_Stream.cc'],
  [('rule call graph', S + 'parse_stmt.cc'), ('list, repetition and scan loops', S + 'Stmt_Parsers.hh')])
p('P06', 'Token scanning never reads past the end of a statement',
  'However a statement is cut short (unclosed parentheses, missing operands, nothing after a keyword), no token is read or consumed beyond the last token of the statement: look-ahead reports the token at the asked distance, or the end-of-statement marker when there is none, and the helpers that skip a bracketed part stop just after the matching bracket, or at the end of the statement when it is missing.',
  ['inputs', 'programs'], 'every token read and every scanning loop, at every position of every token sequence',
  'Out-of-range reads depend on truncated input and are silent unless they crash.',
  [S + 'TT_Stream.hh', S + 'TT_Stream.cc', S + 'parse_stmt.cc', S + 'Stmt_Parsers.hh'],
  [('token stream', S + 'TT_Stream.hh'), ('hand-written scanning rules', S + 'parse_stmt.cc')])
json.dump(0, open(os.devnull, 'w'))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops2.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mkprops2.py')) else None
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in sorted(P, key=lambda d: d['id']):
        f.write(json.dumps(d) + '\n')
