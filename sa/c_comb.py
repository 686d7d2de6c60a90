"""P04 / P05 / P06: behaviour of the combinators, the hand-written rules and
the token stream, by abstract interpretation (sa/absint.py, sa/comb.py)"""
import os
import sys
import traceback
from multiprocessing import Pool
import absint
import absnat
import comb
import peg
import c_grammar
from absint import *
from comb import Comb, Spec, Split, walks, judge, norm, cover, P0, N
from core import Facts, Broken, rel

TUS = ['combinators.cc', 'TT_Stream.cc', 'Stmt_Tree.cc', 'Syntax_Tags.cc', 'Stmt_Parser_Exts.cc',
       'LL_TT_Range.cc', 'Token_Text.cc', 'parse_stmt.cc']
_c = {}


def facts():
    if 'F' not in _c:
        _c['F'] = Facts(only=TUS)
        _c['F'].tags()
    return _c['F']


# ---------------------------------------------------- hand-written rules
def surely(rules, p, tag, first=True):
    """p matches whenever the next token is tag (None: whatever follows)"""
    k = p[0]
    if k in ('opt', 'star'):
        return True
    if tag is None:
        if k == 'seq':
            return all(surely(rules, x, None) for x in p[2])
        if k == 'tag':
            return surely(rules, p[2], None)
        return False
    if k == 'tok':
        return p[1] == tag
    if k == 'tag':
        return surely(rules, p[2], tag)
    if k == 'seq':
        return bool(p[2]) and p[2][0][0] == 'tok' and p[2][0][1] == tag and \
            all(surely(rules, x, None) for x in p[2][1:])
    return False


class RuleEng(Comb):
    def __init__(self, F, tu, under):
        super().__init__(F, ('F', 'M1'))
        self.tu = tu
        g = c_grammar.load()
        self.g = g
        self.maxmatch = 3
        for n in list(g['spec']) + list(peg.BUILTIN):
            if n in under or n in peg.BUILTIN and under[0] in peg.BUILTIN:
                continue
            q = 'FLPR::Stmt::' + n
            if q in F.byq:
                self.intercept[q] = (lambda m: lambda E, s, e, o, vs: E.sub(s, m, vs[0].a, e, True))('R:' + n)

    def tagof(self, i):
        if isinstance(i, str):
            return 900000 + (sorted(self.g['spec']) + list(peg.BUILTIN)).index(i[2:])
        return super().tagof(i)

    def outcomes_of(self, s, sid, pos):
        if isinstance(sid, str):
            t = s.tags.get(('T', pos), frozenset())
            if len(t) == 1:
                n = self.F.tags().get(list(t)[0])
                if surely(self.g['code'], self.g['code'].get(sid[2:], ('fail',)), n):
                    return ('M1',)
        return super().outcomes_of(s, sid, pos)


def until_break(tag):
    def spec(sp):
        v = sp.E.F.tagv
        one = lambda n: frozenset([v(n)])
        d, j, kids = 1, P0, []
        while True:
            if sp.at_end(j):
                if d > 1:
                    return False, None, P0
                break
            if sp.is_tag(j, frozenset([v('TK_PARENL'), v('TK_BRACKETL')])):
                d += 1
            elif sp.is_tag(j, frozenset([v('TK_PARENR'), v('TK_BRACKETR')])):
                d -= 1
                if d == 0:
                    break
            elif d == 1:
                if sp.is_tag(j, frozenset([v('TK_COMMA'), v('TK_COLON')])):
                    break
                if sp.is_tag(j, one('TK_EQUAL')):
                    return False, None, P0
            if sp.is_tag(j, one('SG_SIGNIFICAND')):
                ok, t, j2 = sp.sub('R:real_literal_constant', j)
                if not ok:
                    return False, None, P0
                kids.append(t)
                j = j2
            else:
                kids.append(sp.leaf(j))
                j = ladd(j, 1)
        if not kids:
            return False, None, P0
        return True, cover(tag, kids), j
    return spec


def parens(sp):
    v = sp.E.F.tagv
    L, R = frozenset([v('TK_PARENL')]), frozenset([v('TK_PARENR')])
    if sp.at_end(P0) or not sp.is_tag(P0, L):
        return False, None, P0
    d, j, kids = 1, ladd(P0, 1), [sp.leaf(P0)]
    while d:
        if sp.at_end(j):
            return False, None, P0
        if sp.is_tag(j, L):
            d += 1
        elif sp.is_tag(j, R):
            d -= 1
        kids.append(sp.leaf(j))
        j = ladd(j, 1)
    return True, cover(sp.E.HO, kids), j


def designator(sp):
    E = sp.E
    v = E.F.tagv
    L, R = frozenset([v('TK_PARENL')]), frozenset([v('TK_PARENR')])
    j = N
    if not sp.decide('==', N, 0) and sp.is_tag(ladd(N, -1), R):
        d, k = 1, ladd(N, -1)
        while d:
            if sp.decide('<=', k, 0):
                return False, None, P0
            k = ladd(k, -1)
            if sp.is_tag(k, R):
                d += 1
            elif sp.is_tag(k, L):
                d -= 1
        if sp.decide('<', k, P0):
            return False, None, P0
        j = k
    pos, kids = P0, []
    while True:
        # a sub-parser of the cut stream sees nothing beyond j
        if sp.decide('>=', pos, j):
            break
        ok, t, p2 = sp.sub('R:part_ref', pos)
        if not ok or sp.decide('>=', p2, j) or not sp.is_tag(p2, frozenset([v('TK_PERCENT')])):
            break
        kids += [t, (v('TK_PERCENT'), p2, ladd(p2, 1), ())]
        pos = ladd(p2, 1)
    if not sp.decide('<', pos, j) or not sp.is_tag(pos, E.names()):
        return False, None, P0
    if not sp.decide('==', ladd(pos, 1), j):
        return False, None, P0
    kids.append((v('TK_NAME'), pos, ladd(pos, 1), ()))
    return True, cover(v('SG_PROCEDURE_DESIGNATOR'), kids), j


# a production of spec/stmt.gram as a meaning on an abstract path
def gram(p, tags):
    E_tag = tags

    def ev(sp, p, i):
        k = p[0]
        v = E_tag
        if k == 'tok':
            return sp.tok(v(p[1]), i)
        if k == 'name':
            return sp.name(i)
        if k == 'letter':
            r = sp.name(i)
            if r[0] and not sp.decide('==', sp.E.textlen(sp.s, i), 1):
                return False, None, i
            return r
        if k == 'lit':
            r = sp.name(i)
            if r[0] and not sp.decide('==', sp.E.lower(i), StrV(p[1])):
                return False, None, i
            return r
        if k == 'any1':
            t = sp.leaf(i)
            return True, ((v(p[1]) if p[1] else t[0]),) + t[1:], ladd(i, 1)
        if k == 'peek':
            return sp.is_tag(i, frozenset([v(p[1])])), None, i
        if k == 'neg':
            return not ev(sp, p[1], i)[0], None, i
        if k == 'opt':
            return sp.opt(lambda j: ev(sp, p[1], j), i)
        if k == 'star':
            return sp.star(lambda j: ev(sp, p[1], j), i)
        if k == 'seq':
            return sp.seq(v(p[1]), [(lambda x: lambda j: ev(sp, x, j))(x) for x in p[2]], i)
        if k == 'alt':
            return sp.alts(v(p[1]), [(lambda x: lambda j: ev(sp, x, j))(x) for x in p[2]], i)
        if k == 'tag':
            return sp.tagp(v(p[1]), lambda j: ev(sp, p[2], j), i)
        if k == 'rule':
            return sp.sub('R:' + p[1], i)
        if k == 'call':
            return sp.sub('R:' + p[1], i)
        if k in ('fail', 'ext'):
            return False, None, i
        if k == 'first':
            for x in p[1]:
                m, t, j = ev(sp, x, i)
                if t is not None:
                    return True, t, j
            return False, None, i
        if k == 'ite':
            return ev(sp, p[2] if cond(sp, p[1], i) else p[3], i)
        raise Broken('meaning of %s' % k)

    def cond(sp, c, i):
        if c[0] == 'peekeq':
            return sp.is_tag(ladd(i, c[1] - 1), frozenset([E_tag(c[2])]))
        if c[0] == 'isname':
            return sp.is_tag(ladd(i, c[1] - 1), sp.E.names())
        if c[0] == 'not':
            return not cond(sp, c[1], i)
        if c[0] == 'and':
            return cond(sp, c[1], i) and cond(sp, c[2], i)
        return cond(sp, c[1], i) or cond(sp, c[2], i)
    return lambda sp: ev(sp, p, P0)


def direct():
    """rules that touch the token stream themselves or are not parser expressions"""
    from core import walk
    g = c_grammar.load()
    F = facts()
    out = []
    opaque = {g['G'].name(k) for k in g['G'].opaque}
    for n in g['spec']:
        if n in HAND:
            continue
        for f in F.byq.get('FLPR::Stmt::' + n, []):
            if f.get('body') and (n in opaque or any(
                    x.get('k') == 'mcall' and str(x.get('cls', '')).endswith('::TT_Stream')
                    for x in walk(f['body']))):
                out.append(n)
                break
    return sorted(set(out))


HAND = {
    # function: (spec, extra arguments, tokens left, tokens before)
    'consume_until_break': (None, 1, 3, None),
    'consume_parens': (parens, 0, 4, None),
    'procedure_designator': (designator, 0, 3, 1),
}


def run_hand(F, name, deep=False):
    spec, extra, left, done = HAND.get(name) or (
        gram(c_grammar.load()['spec'][name], F.tagv), 0, 3, None)
    E = RuleEng(F, 'parse_stmt.cc', [name])
    E.unroll = 16
    fn = [f for f in F.byq.get('FLPR::Stmt::' + name, []) if f.get('body')]
    if not fn:
        raise Broken('%s has no definition' % name)
    fn = fn[0]
    s = St()
    s, ta = E.stream(s, left + (1 if deep else 0), done)
    args = [LV(ta)]
    if extra:
        tag = E.F.tagv('SG_EXPR')
        args.append(tag)
        spec = until_break(tag)
    problems = []
    rs = E.call(s, fn, None, args, {'l': fn['l'], 'k': 'call', 't': ''})
    for s, v in rs:
        a = E.obj(s, v)
        sh = E.shape(s, a)
        judge(E, s, name, spec, (sh is not None, sh, E.position(s, ta)), problems)
    return fn, rs, problems, E


# ---------------------------------------------------- the token stream
class StreamEng(comb.TokEngine):
    def __init__(self, F):
        super().__init__(F, 'TT_Stream.cc')
        for n in ('e_expect_tok', 'e_expect_eol', 'e_expect_id', 'e_general'):
            # documented to end the program
            self.intercept['FLPR::TT_Stream::' + n] = lambda E, s, e, o, vs: []


NONE = object()


def tag_of(sp, pos):
    """the token tag at pos, or the end marker outside the statement"""
    if sp.decide('<', pos, 0) or sp.at_end(pos):
        return sp.E.bad
    return Tag(('T', pos))


def skip(l, r, before=False):
    def spec(sp):
        v = sp.E.F.tagv
        L, R = frozenset([v(l)]), frozenset([v(r)])
        if not sp.is_tag(P0, L):
            return NONE
        d, j = 1, ladd(P0, 1)
        while True:
            if sp.at_end(j):
                return False, j
            if sp.is_tag(j, L):
                d += 1
            elif sp.is_tag(j, R):
                d -= 1
                if not d:
                    return True, j if before else ladd(j, 1)
            j = ladd(j, 1)
    return spec


def open_paren(sp):
    v = sp.E.F.tagv
    L, R = frozenset([v('TK_PARENL')]), frozenset([v('TK_PARENR')])
    if sp.decide('<=', P0, 0) or not sp.is_tag(ladd(P0, -1), R):
        return False, P0
    d, k = 1, ladd(P0, -1)          # k: index of the current token
    while True:
        if sp.decide('<=', k, 0):
            return False, 0
        k = ladd(k, -1)
        if sp.is_tag(k, R):
            d += 1
        elif sp.is_tag(k, L):
            d -= 1
            if not d:
                return True, ladd(k, 1)


def eol_spec(sp):
    if sp.at_end(P0):
        return True, P0
    if sp.is_tag(P0, frozenset([sp.E.F.tagv('TK_SEMICOLON')])):
        return True, ladd(P0, 1)
    return False, P0


def expect(tag):
    def spec(sp):
        if not sp.is_tag(P0, frozenset([sp.E.F.tagv(tag)])):
            return NONE
        return VOID, ladd(P0, 1)
    return spec


def STREAM(E):
    v = E.F.tagv
    T = {
        'peek': ([], lambda sp: (tag_of(sp, P0), P0)),
        'curr': ([], lambda sp: (tag_of(sp, ladd(P0, -1)), P0)),
        'peek_back': ([], lambda sp: (tag_of(sp, ladd(N, -1)), P0)),
        'consume_until_eol': ([], lambda sp: (VOID, N)),
        'put_back': ([], lambda sp: (VOID, 0 if sp.decide('<=', P0, 0) else ladd(P0, -1))),
        'rewind': ([], lambda sp: (VOID, 0)),
        'mark': ([], lambda sp: (Pos('T', P0), P0)),
        'next_iterator': ([], lambda sp: (Pos('T', P0), P0)),
        'is_eol': ([], eol_spec),
        'num_consumed': ([], lambda sp: (P0, P0)),
        'move_to_close_paren': ([], skip('TK_PARENL', 'TK_PARENR')),
        'move_before_close_paren': ([], skip('TK_PARENL', 'TK_PARENR', True)),
        'move_to_open_paren': ([], open_paren),
        'ignore_bracket_expr': ([], skip('TK_BRACKETL', 'TK_BRACKETR')),
        'expect_tok': ([v('TK_COMMA')], expect('TK_COMMA')),
    }
    for k in (-1, 0, 1, 2, 3):
        T['peek#%d' % k] = ([k], (lambda k: lambda sp: (tag_of(sp, ladd(P0, k - 1)), P0))(k))
    for k in (0, 1, 2):
        T['consume#%d' % k] = ([k], (lambda k: lambda sp: (VOID, ladd(P0, k)))(k))
    T['rewind#m'] = ([Pos('T', 0)], lambda sp: (VOID, 0))
    return T


def run_stream(F, name):
    E = StreamEng(F)
    E.unroll = 16
    args, spec = STREAM(E)[name]
    s = St()
    s, ta = E.stream(s, 3, 3)
    short = name.split('#')[0]
    if short == 'consume' and args[0]:
        # the caller must know that this many tokens are left
        E.assume_le(s, ladd(ladd(P0, args[0]), N, -1), 0)
    problems = []
    rs = E.method(s, ta, short, args, None)
    for s, v in rs:
        got = (v if v is VOID else E.load(s, v), E.position(s, ta))
        if isinstance(got[0], LV):
            raise Broken('%s returns an object' % name)
        for s2, want in walks(E, s, spec):
            if want is NONE:
                continue
            if not same(E, s2, got[0], want[0]) or not same(E, s2, got[1], want[1]):
                problems.append((name, s2, got, want))
                break
    return E.F, rs, problems, E


def same(E, s, a, b):
    if a is VOID or b is VOID:
        return True
    if isinstance(a, Pos) and isinstance(b, Pos):
        return a.q == b.q and same(E, s, a.i, b.i)
    if isinstance(a, Tag) and len(s.tags.get(a.s, ())) == 1:
        a, = s.tags[a.s]
    if isinstance(b, Tag) and len(s.tags.get(b.s, ())) == 1:
        b, = s.tags[b.s]
    if a == b:
        return True
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        return E.entails_le(s, a, b) and E.entails_le(s, b, a)
    return False


def run_digest(F, k):
    """digest(k): the range of the next k tokens"""
    E = StreamEng(F)
    s = St()
    s, ta = E.stream(s, 3, 3)
    E.assume_le(s, ladd(ladd(P0, k), N, -1), 0)
    problems = []
    rs = E.method(s, ta, 'digest', [k])
    for s, v in rs:
        a = E.obj(s, v)
        (s, b) = E.one(E.method(s, a, 'begin'))
        (s, en) = E.one(E.method(s, a, 'end'))
        got = (E.load(s, b), E.load(s, en), E.position(s, ta))
        want = (Pos('T', P0), Pos('T', ladd(P0, k)), ladd(P0, k))
        if got != want:
            problems.append(('digest#%d' % k, s, got, want))
    return E.F, rs, problems, E


def job(a):
    kind, n, deep = a
    sys.setrecursionlimit(20000)
    F = facts()
    try:
        if kind == 'comb':
            E0 = Comb(F, ())
            sp, oc = comb.specs(E0)[n]
            rs, pr, E = comb.run_one(F, n, sp, oc)
        elif kind == 'hand':
            _, rs, pr, E = run_hand(F, n, deep)
        elif kind == 'digest':
            _, rs, pr, E = run_digest(F, n)
        else:
            _, rs, pr, E = run_stream(F, n)
    except Broken as x:
        return (kind, n, 'broken', str(x))
    except Exception:
        return (kind, n, 'broken', traceback.format_exc())
    fmt = lambda p: dict(log=say(p[1]), got=repr(p[2]), want=repr(p[3]),
                         got3=(p[2][0] if isinstance(p[2][0], bool) else repr(p[2][0]),) + tuple(repr(x) for x in p[2][1:]),
                         want3=(p[3][0] if isinstance(p[3][0], bool) else repr(p[3][0]),) + tuple(repr(x) for x in p[3][1:]))
    return (kind, n, 'ok', dict(
        paths=len(rs), problems=[fmt(p) for p in pr[:40]],
        aborts=[(a[0], a[1], say(a[2])) for a in E.aborts[:10]],
        trunc=sorted({t[0] for t in E.trunc}),
        escapes=[(x[0], x[1], say(x[2])) for x in E.escapes[:10]],
        steps=E.steps, fns=sorted(E.fns_done)))


def say(s):
    T = _c['F'].tags()
    t = []
    for k, v in sorted(s.tags.items(), key=repr):
        if isinstance(k, tuple) and k[0] == 'T' and len(v) <= 2:
            t.append('token %r is %s' % (k[1], '/'.join(T.get(x, str(x)) for x in v)))
    for x in s.log:
        t.append('sub-parser %s at %r: %s' % (x[0], x[2], x[1]))
    return '; '.join(t) or 'any tokens'


def all_jobs(deep=False):
    F = facts()
    E0 = Comb(F, ())
    J = [('comb', n, deep) for n in comb.specs(E0)]
    J += [('hand', n, deep) for n in HAND]
    J += [('hand', n, deep) for n in direct()]
    J += [('stream', n, deep) for n in STREAM(StreamEng(F))]
    J += [('digest', n, deep) for n in (0, 1, 2)]
    J.sort(key=lambda j: -({'v_list': 9, 'v_h_list': 9, 'v_star': 5, 'consume_until_break': 8,
                            'procedure_designator': 7}.get(j[1], 0) if isinstance(j[1], str) else 0))
    return J


def results(deep=False):
    """kind, name -> outcome of the abstract interpretation"""
    if 'R' not in _c:
        facts()
        c_grammar.load()
        J = all_jobs(deep)
        with Pool(min(8, os.cpu_count() or 2)) as p:
            _c['R'] = {r[:2]: r[2:] for r in p.imap_unordered(job, J)}
    return _c['R']


# ------------------------------------------------------------ the checks
WHAT = {'comb': 'combinator', 'hand': 'hand-written rule', 'stream': 'TT_Stream::', 'digest': 'TT_Stream::digest'}


def name_of(k):
    kind, n = k
    if kind == 'comb':
        return 'combinator ' + n[2:]
    if kind == 'hand':
        return n + '()'
    if kind == 'stream':
        return 'TT_Stream::' + n.split('#')[0] + ('(%s)' % n.split('#')[1] if '#' in n else '()')
    return 'TT_Stream::digest(%d)' % n


ANCH = {'v_alts': 'Alternatives_Parser', 'v_h_alts': 'Alternatives_Parser', 'v_seq': 'Sequence_Parser',
        'v_h_seq': 'Sequence_Parser', 'v_star': 'Star_Parser', 'v_opt': 'Optional_Parser', 'v_neg': 'Negated_Parser',
        'v_ext': 'Parser_Exts'}


def site(k):
    kind, n = k
    F = facts()
    if kind == 'comb':
        if n.startswith('v_ext'):
            return 'src/flpr/Stmt_Parser_Exts.cc (%s)' % name_of(k)
        return 'src/flpr/Stmt_Parsers.hh (%s)' % name_of(k)
    q = 'FLPR::Stmt::' + n if kind == 'hand' else 'FLPR::TT_Stream::' + str(n).split('#')[0] \
        if kind == 'stream' else 'FLPR::TT_Stream::digest'
    for f in F.byq.get(q, []):
        if f.get('body'):
            return '%s %s' % (rel(f['l']), name_of(k))
    return name_of(k)


def undecided(rep, R, kinds):
    """results that could not be obtained: reported, never an alarm"""
    bad = 0
    for k, (st, r) in sorted(R.items(), key=repr):
        if k[0] in kinds and st != 'ok':
            bad += 1
            rep.note('%s: not decided (%s)' % (name_of(k), str(r).strip().splitlines()[-1][:200]))
    if bad:
        print('note: %d item(s) not decided' % bad)
    tot = sum(1 for k in R if k[0] in kinds)
    if bad * 3 > tot:
        raise Broken('%d of %d items could not be analysed' % (bad, tot))


def stats(rep, R, kinds):
    fns = set()
    paths = steps = 0
    for k, (st, r) in R.items():
        if k[0] in kinds and st == 'ok':
            fns |= set(r['fns'])
            paths += r['paths']
            steps += r['steps']
    rep.cov.update(functions_interpreted=len(fns), abstract_paths=paths, steps=steps,
                   function_names=sorted(f for f in fns if f.startswith('FLPR'))[:80])


def eq(a, b):
    return a == b


def P04(rep):
    R = results(rep.tier == 'thorough')
    kinds = ('comb', 'hand')
    undecided(rep, R, kinds)
    for k, (st, r) in sorted(R.items(), key=repr):
        if k[0] not in kinds or st != 'ok':
            continue
        hit = None
        for p in r['problems']:
            g, w = p['got3'], p['want3']
            if not g[0] and (g[1] != 'None' or g[2] != 'p'):
                hit = p
                break
            if g[0] == w[0] and (g[2] != w[2]):
                hit = p
                break
        rep.check(hit is None, 'trace:%s' % (k[1],), site(k),
                  'when an attempt fails the stream is where it was and no tree is returned',
                  hit and '%s leaves a trace when %s: verdict %s tree %s position %s, documented %s %s %s'
                  % ((name_of(k), hit['log']) + tuple(hit['got3']) + tuple(hit['want3'])),
                  sample='%s: %d abstract paths, all failing ones leave the position and no tree'
                  % (name_of(k), r['paths']))
    # the expressions made of these combinators inherit the property; anything
    # else that moves a stream must be one of the analysed rules
    g = c_grammar.load()
    n = len(g['code'])
    rep.ok(n, sample='%d rules are expressions over the analysed combinators (induction)' % n)
    stats(rep, R, kinds)
    rep.need(200, 'P04')
    return ('Every combinator class of Stmt_Parsers.hh and the extension hooks were interpreted '
            'abstractly over sub-parsers that may fail or match in any way, on a token sequence of '
            'unknown length and unknown tags; the hand-written rules likewise, up to the stated number of '
            'remaining tokens; the remaining %d rules are pure expressions over these combinators.' % n)


def P05(rep):
    g = c_grammar.load()
    code, G = g['code'], g['G']
    rules = dict(code)
    # the hand-written rules: what they may call before consuming a token
    B = {'consume_until_break': (False, ()), 'consume_parens': (False, ()),
         'procedure_designator': (False, ('part_ref',))}
    null = {n: False for n in rules}

    def nul(p):
        k = p[0]
        if k in ('opt', 'star', 'peek', 'neg'):
            return True
        if k == 'seq':
            return all(nul(x) for x in p[2])
        if k == 'alt':
            return any(nul(x) for x in p[2])
        if k == 'first':
            return any(nul(x) for x in p[1])
        if k == 'tag':
            return nul(p[2])
        if k == 'ite':
            return nul(p[2]) or nul(p[3])
        if k in ('rule', 'call'):
            return null.get(p[1], B.get(p[1], (True, ()))[0])
        return False
    ch = True
    while ch:
        ch = False
        for n in rules:
            if not null[n] and nul(rules[n]):
                null[n] = ch = True

    def left(p):
        """rules that may be entered before a token is consumed"""
        k = p[0]
        if k in ('opt', 'star', 'neg'):
            return left(p[1])
        if k == 'seq':
            out = set()
            for x in p[2]:
                out |= left(x)
                if not nul(x):
                    break
            return out
        if k == 'alt':
            return set().union(*[left(x) for x in p[2]]) if p[2] else set()
        if k == 'first':
            return set().union(*[left(x) for x in p[1]]) if p[1] else set()
        if k == 'tag':
            return left(p[2])
        if k == 'ite':
            return left(p[2]) | left(p[3])
        if k in ('rule', 'call'):
            return {p[1]}
        return set()
    edges = {n: left(rules[n]) for n in rules}
    for b, (_, c) in B.items():
        edges.setdefault(b, set()).update(c)

    def cycle(n):
        seen, st = set(), [(n, (n,))]
        while st:
            x, path = st.pop()
            for y in edges.get(x, ()):
                if y == n:
                    return path + (n,)
                if y not in seen:
                    seen.add(y)
                    st.append((y, path + (y,)))
        return None

    def stars(p):
        if p[0] == 'star':
            yield p
        for x in p[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str) and x[0] in KINDS:
                    yield from stars(x)
                else:
                    for y in x:
                        if isinstance(y, tuple) and y:
                            yield from stars(y)
    nst = 0
    for n in sorted(rules):
        c = cycle(n)
        rep.check(c is None, 'leftrec:' + n, c_grammar.where(G, n),
                  'no rule is entered again before a token is consumed',
                  c and 'left recursion: ' + ' -> '.join(c),
                  sample='%s enters %s before consuming a token: no cycle' % (n, sorted(edges[n])[:4]))
        for st in stars(rules[n]):
            nst += 1
            rep.check(not nul(st[1]), 'star:%s:%s' % (n, peg.show(st[1])[:60]), c_grammar.where(G, n),
                      'the operand of a repetition consumes at least one token when it matches',
                      'the repetition { %s } in %s can match without consuming a token and never ends'
                      % (peg.show(st[1]), n))
    R = results(rep.tier == 'thorough')
    kinds = ('comb', 'hand', 'stream', 'digest')
    undecided(rep, R, kinds)
    for k, (st, r) in sorted(R.items(), key=repr):
        if st != 'ok':
            continue
        rep.check(not r['trunc'], 'loop:%s' % (k[1],), ', '.join(r['trunc']) or site(k),
                  'on a bounded number of tokens every loop ends',
                  '%s: the loop at %s goes round without consuming a token'
                  % (name_of(k), ', '.join(r['trunc'])))
    rep.cov.update(rules=len(rules), repetitions=nst)
    stats(rep, R, kinds)
    rep.need(250, 'P05')
    return ('Left-call graph of the %d extracted rules (acyclic before the first consumed token), %d '
            'repetitions whose operand cannot match nothing, and the loops of the combinators, '
            'hand-written rules and stream helpers, each of which ends on a bounded token sequence.'
            % (len(rules), nst))


KINDS = ('tok', 'name', 'letter', 'lit', 'any1', 'peek', 'neg', 'opt', 'star', 'seq', 'alt', 'tag', 'rule',
         'call', 'fail', 'ext', 'first', 'ite', 'plus', 'inl')


def P06(rep):
    R = results(rep.tier == 'thorough')
    kinds = ('comb', 'hand', 'stream', 'digest')
    undecided(rep, R, kinds)
    for k, (st, r) in sorted(R.items(), key=repr):
        if st != 'ok':
            continue
        esc = r['escapes'] or r['aborts']
        rep.check(not esc, 'read:%s:%s' % (k[1], esc[0][0] if esc else ''),
                  esc[0][1] if esc else site(k),
                  'the position and every token read stay within the statement',
                  esc and '%s: %s (%s)' % (name_of(k), esc[0][0], esc[0][2]),
                  sample='%s: %d abstract paths stay within the statement' % (name_of(k), r['paths']))
        if k[0] in ('stream', 'digest'):
            p = r['problems'][0] if r['problems'] else None
            rep.check(not p, 'stream:%s' % (k[1],), site(k),
                      'the token stream moves and looks as documented',
                      p and '%s when %s: gives %s, documented %s' % (name_of(k), p['log'], p['got'], p['want']))
        elif k[0] == 'hand':
            # a scan that stops elsewhere than documented
            p = [x for x in r['problems'] if x['got3'][0] and x['got3'][2] != x['want3'][2]]
            rep.check(not p, 'scan:%s' % k[1], site(k), 'scanning rules stop at the documented token',
                      p and '%s when %s: stops at %s, documented %s' % (
                          name_of(k), p[0]['log'], p[0]['got3'], p[0]['want3']))
    stats(rep, R, kinds)
    rep.need(60, 'P06')
    return ('Abstract interpretation of every TT_Stream operation, every combinator and every rule that '
            'touches the stream itself, at an arbitrary position of a statement with an arbitrary number '
            'of tokens (zone domain over position and length): all token reads and moves are shown to '
            'stay inside the statement, and the stream operations agree with their documented meaning.')


def combinator_problems(rep, kind, only=None):
    """the meaning of the combinators, on which P01-P03 rest"""
    R = results(rep.tier == 'thorough')
    undecided(rep, R, ('comb', 'hand'))
    for k, (st, r) in sorted(R.items(), key=repr):
        if k[0] not in ('comb', 'hand') or st != 'ok' or only and k[1] not in only:
            continue
        hit = None
        for p in r['problems']:
            g, w = p['got3'], p['want3']
            if kind == 'accept' and (g[0] != w[0] or g[2] != w[2]) or \
                    kind == 'tree' and g[0] and w[0] and g[1] != w[1]:
                hit = p
                break
        rep.check(hit is None, 'meaning:%s' % (k[1],), site(k),
                  'the building block does what it documents',
                  hit and '%s when %s: verdict %s tree %s position %s, documented %s %s %s'
                  % ((name_of(k), hit['log']) + tuple(hit['got3']) + tuple(hit['want3'])),
                  sample='%s agrees with its meaning on %d abstract paths' % (name_of(k), r['paths']))
    stats(rep, R, ('comb', 'hand'))


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    _c['F'] = facts()
    for k, (st, r) in sorted(results().items(), key=repr):
        if sys.argv[1:] and str(k[1]) not in sys.argv[1:]:
            continue
        if st != 'ok':
            print(k, st, r)
            continue
        print(k, r['paths'], 'paths', r['steps'], 'steps', 'PROBLEMS' if r['problems'] or r['aborts'] or r['trunc'] or r['escapes'] else '')
        for n in ('problems', 'aborts', 'trunc', 'escapes'):
            for x in r[n][:3]:
                print('    ', n, x)
