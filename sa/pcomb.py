"""Abstract interpretation of the program-level combinators
(Prgm_Parsers_utils.hh) over an abstract statement sequence S[0..M).

As comb.py does for tokens: each combinator is interpreted over abstract
sub-parsers, the start position and the number of statements are symbolic, and
verdict, tree, position and open labels of every abstract path are compared
with the documented meaning.  The DO construct is interpreted together with
the rules it calls, over statements whose kind and label are split on demand.
"""
import absint
import absnat
import comb
from absint import *
from comb import TokEngine, Spec, Split, walks, cover, norm
from core import Broken, rel

ND = 'FLPR::Prgm::Prgm_Node_Data'
PP = 'FLPR::Prgm::Parsers<%s>' % ND
PTREE = 'FLPR::Tree<%s, std::allocator<%s>>' % (ND, ND)
PRES = 'FLPR::details_::Parser_Result<%s>' % PTREE
STREE = comb.TREE
RANGE = 'FLPR::SL_Range<FLPR::LL_Stmt>'
P0 = symi('p')
M = symi('M')
NST = {'F': 0, 'M0': 0, 'M1': 1, 'ME': 0, 'MH0': 0, 'MH2': 2}
E0 = {'l': '', 'k': 'call', 't': ''}


class PrgmEng(TokEngine):
    def __init__(self, F):
        super().__init__(F, 'prgm.cc')
        self.unroll = 12
        self.limit = 20000000
        self.HO = F.tagv('HOIST')
        for q in ('FLPR::LL_Stmt::print_me', 'FLPR::Syntax_Tags::print'):
            self.intercept[q] = lambda E, s, e, o, vs: [(s, vs[0])]

    def bound(self, s):
        return M

    def pos_deref(self, s, it, e):
        if it.q != 'S':
            raise Broken('element of %s at %s' % (it.q, rel(e['l'])))
        if not (self.entails_le(s, P0, it.i) and self.entails_le(s, ladd(it.i, 1), self.bound(s))):
            self.escapes.append(('statement read outside the sequence', rel(e['l']), s, it.i))
            return []
        return self.statement(s, it.i, e)

    def pos_step(self, s, it, k, e):
        to = ladd(it.i, k)
        if it.q == 'S' and not (self.entails_le(s, P0, to) and self.entails_le(s, to, self.bound(s))):
            self.escapes.append(('the position leaves the statements', rel(e['l']), s, to))
            return None
        return Pos(it.q, to)

    def statement(self, s, i, e):
        k = ('stmt', i)
        if k not in s.x:
            q = ('T', i)
            (s, rg) = self.one(absnat.construct(self, s, 'FLPR::SL_Range<FLPR::Token_Text>',
                                                [Pos(q, 0), Pos(q, symi('n%s' % (i,)))], E0))
            (s, a) = self.one(absnat.construct(self, s, 'FLPR::LL_Stmt',
                                               [Pos('L', i), LV(rg), self.label(s, i), 0], E0))
            s.x[k] = a
        return [(s, LV(s.x[k]))]

    def label(self, s, i):
        return 0

    # ------------------------------------------------------------- state
    def pstate(self, s, count=None):
        s.zone.add('', 'p', 0)
        s.zone.add('p', 'M', 0)
        (s, rg) = self.one(absnat.construct(self, s, RANGE, [Pos('S', P0), Pos('S', self.bound(s))], E0))
        (s, a) = self.one(absnat.construct(self, s, PP + '::State', [LV(rg)], E0))
        return s, a

    def ppos(self, s, st):
        (s, v) = self.one(self.method(s, self.addr(s, st, 'ss'), 'iter'))
        v = self.load(s, v)
        if not isinstance(v, Pos):
            raise Broken('statement position is %r' % (v,))
        return v.i

    def labels(self, s, st):
        a = self.addr(s, st, 'do_label_stack')
        (s, v) = self.one(self.method(s, a, 'size', [], True))
        return self.load(s, v)

    # ------------------------------------------------------------- trees
    def pshape(self, s, a):
        (s, v) = self.one(self.method(s, a, 'operator bool', [], True))
        v = self.load(s, v)
        if v is False or v == 0:
            return None
        (s, it) = self.one(self.method(s, a, 'root'))
        return self.pn(s, self.load(s, it))

    def pn(self, s, it, up=None):
        e = {'l': ''}
        (s, n), = absnat.deref(self, s, it, e)
        na = n.a
        bad = []
        (s, me) = self.one(self.method(s, na, 'self'))
        if self.load(s, me) != it:
            bad.append('self link')
        (s, tr) = self.one(self.method(s, na, 'trunk'))
        if self.load(s, tr) != (up if up is not None else it):
            bad.append('parent link')
        (s, val) = self.one(self.method(s, na, 'operator*'))
        d = val.a
        (s, tag) = self.one([(s1, v) for s1, v in self.overload(s, d, 'syntag', [])])
        tag = self.load(s, tag)
        (s, isst) = self.one(self.method(s, d, 'is_stmt', [], True))
        (s, rg) = self.one(self.method(s, d, 'stmt_range'))
        ra = self.obj(s, rg)
        (s, emp) = self.one(self.method(s, ra, 'empty', [], True))
        emp = self.load(s, emp)
        if emp not in (True, False):
            raise Broken('emptiness of a statement range is %r' % (emp,))
        b = en = None
        if not emp:
            (s, b) = self.one(self.method(s, ra, 'begin'))
            (s, en) = self.one(self.method(s, ra, 'end'))
            b, en = self.load(s, b).i, self.load(s, en).i
            (s, sz) = self.one(self.method(s, ra, 'size', [], True))
            if self.load(s, sz) != ladd(en, b, -1):
                bad.append('range size')
        kids = []
        (s, leaf) = self.one(self.method(s, na, 'is_leaf', [], True))
        if not self.load(s, leaf):
            (s, br) = self.one(self.method(s, na, 'branches'))
            (s, i) = self.one(self.method(s, br.a, 'begin'))
            (s, last) = self.one(self.method(s, br.a, 'end'))
            i, last = self.load(s, i), self.load(s, last)
            k = 0
            while i != last:
                kids.append(self.pn(s, i, it))
                i = absnat.step(self, s, i, 1, e)
                k += 1
                if k > 64 or i is None:
                    raise Broken('branch list does not end')
        if self.load(s, isst):
            (s, li) = self.one(self.method(s, d, 'll_stmt_iter', [], True))
            li = self.load(s, li)
            tag = ('stmt', tag, li.i if isinstance(li, Pos) else li)
        return (tag, b, en, tuple(kids)) + ((tuple(bad),) if bad else ())

    def overload(self, s, a, name, args):
        return self.method(s, a, name, args, True)

    def leaf(self, tag, i):
        return (('stmt', tag, i), i, ladd(i, 1), ())


class PComb(PrgmEng):
    def __init__(self, F, outcomes):
        super().__init__(F)
        self.outcomes = outcomes
        self.maxmatch = 4
        self.intercept['verif::PSub::operator()'] = PComb.h_sub
        self.intercept['verif::stmt_fn'] = PComb.h_stmt

    def tagof(self, i):
        return self.F.tagv(('SG_CALL_STMT', 'SG_PRINT_STMT', 'SG_DATA_STMT')[i])

    def outcomes_of(self, s, sid, pos):
        n = sum(1 for k in s.x if isinstance(k, tuple) and k[0] == 'sub' and s.x[k] != 'F')
        return self.outcomes if n < self.maxmatch else ('F',)

    def h_stmt(self, s, e, o, vs):
        """an abstract statement rule: refuses, or returns a tree"""
        i = self.stream_of(s, vs[0].a)
        key = ('sub', 0, i)
        outs = [s.x[key]] if key in s.x else ('F', 'M1')
        res = []
        for k, oc in enumerate(outs):
            s2 = s.fork() if k < len(outs) - 1 else s
            s2.x[key] = oc
            s2.log = s2.log + ((0, oc, i),)
            (s2, a) = self.one(absnat.construct(self, s2, STREE, [self.tagof(0)] if oc == 'M1' else [], E0))
            res.append((s2, LV(a)))
        return res

    def stream_of(self, s, ta):
        """which statement a token stream reads"""
        (s, r) = self.one(self.method(s, ta, 'source', [], True))
        (s, v) = self.one(self.method(s, self.obj(s, r), 'begin', [], True))
        v = self.load(s, v)
        if not (isinstance(v, Pos) and isinstance(v.q, tuple)):
            raise Broken('a statement rule runs on %r' % (v,))
        return v.q[1]

    def h_sub(self, s, e, o, vs):
        sid = self.load(s, LV(s.heap[o.a].f['id']))
        st = vs[0].a
        pos = self.ppos(s, st)
        key = ('sub', sid, pos)
        outs = [s.x[key]] if key in s.x else self.outcomes_of(s, sid, pos)
        res = []
        for k, oc in enumerate(outs):
            s2 = s.fork() if k < len(outs) - 1 else s
            n = NST[oc]
            if n and not self.assume_le(s2, ladd(ladd(pos, n), self.bound(s2), -1), 0):
                continue
            s2.x[key] = oc
            s2.log = s2.log + ((sid, oc, pos),)
            t = self.tagof(sid)
            if oc in ('F', 'M0'):
                rs = absnat.construct(self, s2, PTREE, [], E0)
            elif oc == 'ME':
                rs = absnat.construct(self, s2, PTREE, [t], E0)
            elif oc == 'M1':
                rs = self.one_stmt(s2, st, t)
            else:
                rs = absnat.construct(self, s2, PTREE, [self.HO], E0)
                if oc == 'MH2':
                    (s2, a), = rs
                    states = [s2]
                    for _ in range(2):
                        nxt = []
                        for s1 in states:
                            for s1, k2 in self.one_stmt(s1, st, t):
                                s1.x['moved'] = s1.x.get('moved', frozenset()) | {k2}
                                (s1, _) = self.one(self.method(s1, a, 'graft_back', [LV(k2)]))
                                nxt.append(s1)
                        states = nxt
                    fn = [f for f in (self.F.byq.get('FLPR::Prgm::Parsers<>::cover_branches') or self.F.byq.get(PP + '::cover_branches', []))]
                    if not fn:
                        raise Broken('anchor cover_branches not found')
                    rs = []
                    for s1 in states:
                        (s1, nd) = self.one(self.method(s1, a, 'operator*'))
                        (s1, _) = self.one(self.call(s1, fn[0], None, [nd], E0))
                        rs.append((s1, a))
            for s3, a in rs:
                for s4, ra in absnat.construct(self, s3, PRES, [LV(a), oc != 'F'], E0):
                    res.append((s4, LV(ra)))
        return res

    def one_stmt(self, s, st, tag):
        i = self.ppos(s, st)
        (s, a) = self.one(absnat.construct(self, s, PTREE, [tag, Pos('S', i)], E0))
        return [(s1, a) for s1, _ in self.method(s, self.addr(s, st, 'ss'), 'advance')]

    def kids_of(self, sid, oc, pos):
        t = self.tagof(sid)
        if oc == 'M1':
            return [self.leaf(t, pos)], ladd(pos, 1)
        if oc == 'ME':
            return [(t, None, None, ())], pos
        if oc == 'MH2':
            return [self.leaf(t, pos), self.leaf(t, ladd(pos, 1))], ladd(pos, 2)
        return [], pos

    def tree_of(self, sid, oc, pos):
        k, end = self.kids_of(sid, oc, pos)
        if oc in ('F', 'M0'):
            return None
        if oc in ('M1', 'ME'):
            return k[0]
        return cover(self.HO, k)


class PSpec(Spec):
    def sub(self, sid, pos):
        E, s = self.E, self.s
        key = ('sub', sid, pos)
        oc = s.x.get(key)
        if oc is None:
            def case(o):
                def f(s2):
                    n = NST[o]
                    if n and not E.assume_le(s2, ladd(ladd(pos, n), M, -1), 0):
                        return False
                    s2.x[key] = o
                    return True
                return f
            raise Split([case(o) for o in E.outcomes_of(s, sid, pos)])
        k, end = E.kids_of(sid, oc, pos)
        return oc != 'F', E.tree_of(sid, oc, pos), end

    def at_end(self, pos):
        E = self.E
        if E.entails_le(self.s, M, pos):
            return True
        if E.entails_le(self.s, ladd(pos, 1), M):
            return False
        raise Split([lambda s: E.assume_le(s, ladd(M, pos, -1), 0),
                     lambda s: E.assume_le(s, ladd(ladd(pos, 1), M, -1), 0)])

    def starp(self, tag, q, pos, least=0):
        p, kids, n = pos, [], 0
        while not self.at_end(p):
            ok, t, p2 = q(p)
            if not ok:
                break
            self.hoist(kids, t)
            p = p2
            n += 1
        if n < least:
            return False, None, pos
        return True, cover(tag, kids), p

    def optseq(self, tag, qs, pos):
        """as many of the parts as match, in order"""
        p, kids = pos, []
        for q in qs:
            ok, t, p2 = q(p)
            if not ok:
                break
            self.hoist(kids, t)
            p = p2
        return True, cover(tag, kids), p

    def stmt(self, pos):
        if self.at_end(pos):
            return False, None, pos
        key = ('sub', 0, pos)
        oc = self.s.x.get(key)
        if oc is None:
            def case(o):
                def f(s2):
                    s2.x[key] = o
                    return True
                return f
            raise Split([case('F'), case('M1')])
        if oc == 'F':
            return False, None, pos
        return True, self.E.leaf(self.E.tagof(0), pos), ladd(pos, 1)


def specs(E):
    T = E.F.tagv('PG_IF_CONSTRUCT')
    H = E.HO
    ALL = ('F', 'M0', 'M1', 'ME', 'MH0', 'MH2')
    TREES = ('F', 'M1', 'ME', 'MH0', 'MH2')
    FEW = ('F', 'M0', 'M1', 'MH2')
    MOV = ('F', 'M1', 'MH2')
    sub = lambda sp, i: (lambda p: sp.sub(i, p))
    subs = lambda sp, n: [sub(sp, i) for i in range(n)]
    S = {}
    for n, oc in ((1, ALL), (2, ALL), (3, FEW)):
        S['p_seq%d' % n] = ((lambda n: lambda sp: sp.seq(T, subs(sp, n), P0))(n), oc)
        S['p_seq_if%d' % n] = ((lambda n: lambda sp: sp.seq(T, subs(sp, n), P0))(n), oc)
    # an alternative that matches always comes with a tree
    for n, oc in ((1, TREES), (2, TREES), (3, MOV)):
        S['p_alts%d' % n] = ((lambda n: lambda sp: sp.alts(T, subs(sp, n), P0))(n), oc)
    S['p_h_seq2'] = (lambda sp: sp.seq(H, subs(sp, 2), P0), ALL)
    S['p_h_seq_if2'] = S['p_h_seq2']
    S['p_opt'] = (lambda sp: sp.opt(sub(sp, 0), P0), ALL)
    S['p_star'] = (lambda sp: sp.starp(H, sub(sp, 0), P0), MOV)
    S['p_plus'] = (lambda sp: sp.starp(T, sub(sp, 0), P0, 1), MOV)
    S['p_opt_seq2'] = (lambda sp: sp.optseq(T, subs(sp, 2), P0), ALL)
    S['p_opt_seq3'] = (lambda sp: sp.optseq(T, subs(sp, 3), P0), FEW)
    S['p_h_opt_seq2'] = (lambda sp: sp.optseq(H, subs(sp, 2), P0), ALL)
    S['p_tag_if'] = (lambda sp: sp.tagp(T, sub(sp, 0), P0), ALL)
    S['p_stmt'] = (lambda sp: sp.stmt(P0), ())
    S['p_end_stream'] = (lambda sp: (sp.at_end(P0), None, P0), ())
    return S


def pwalks(E, s, spec):
    todo, out, n = [s], [], 0
    while todo:
        n += 1
        if n > 4000:
            raise Broken('the documented meaning does not settle')
        s = todo.pop()
        try:
            out.append((s, spec(PSpec(E, s))))
        except Split as x:
            for c in x.cases:
                s2 = s.fork()
                if c(s2):
                    todo.append(s2)
    return out


def run_one(F, name, spec, outcomes):
    E = PComb(F, outcomes)
    fn = F.byq.get('verif::' + name)
    if not fn:
        raise Broken('combinator driver %s missing' % name)
    s = St()
    s, st = E.pstate(s)
    problems = []
    rs = E.call(s, fn[0], None, [LV(st)], {'l': fn[0]['l'], 'k': 'call', 't': ''})
    for s, v in rs:
        r = s.heap[v.a]
        m = E.load(s, LV(r.f['match']))
        if not isinstance(m, (bool, int)):
            raise Broken('verdict is %r' % (m,))
        got = (bool(m), E.pshape(s, r.f['parse_tree']), E.ppos(s, st))
        extra = E.labels(s, st)
        if name == 'p_stmt' and got[0]:
            a = s.x[('stmt', P0)]
            (s, tg) = E.one(E.method(s, a, 'syntax_tag', [], True))
            if E.load(s, tg) != E.tagof(0):
                problems.append((name, s, ('statement records', E.load(s, tg)), ('statement records', E.tagof(0))))
                continue
        for s2, want in pwalks(E, s, spec):
            if got[0] == want[0] and got[1] == want[1] and extra == 0 and (got[2] == want[2] or
                    E.entails_le(s2, got[2], want[2]) and E.entails_le(s2, want[2], got[2])):
                continue
            problems.append((name, s2, got, want))
            break
    return rs, problems, E


# ------------------------------------------------------ the DO construct
# kinds of statements: (kind, label on the statement, label a DO waits for)
def kinds(deep):
    k = [('D', 0, 0), ('L', 0, 10), ('A', 0, 0), ('A', 10, 0), ('C', 10, 0), ('E', 0, 0), ('E', 10, 0), ('X', 0, 0),
         ('L', 0, 20), ('A', 20, 0)]
    if deep:
        k += [('C', 20, 0), ('X', 10, 0)]
    return k


ACCEPT = {'D': ('do_stmt',), 'L': ('do_stmt',), 'A': ('action_stmt',), 'C': ('action_stmt', 'continue_stmt', 'end_do'),
          'E': ('end_do_stmt', 'end_do'), 'X': ()}


OTHER = ('associate_construct', 'block_construct', 'case_construct', 'if_construct', 'select_rank_construct',
         'select_type_construct', 'where_construct', 'forall_construct')


class Rules(dict):
    """every statement rule is answered from the kind of the statement; the
    constructs that start with other statements cannot match here"""

    def get(self, q, d=None):
        x = super().get(q)
        if x is None and q.startswith('FLPR::Prgm::Parsers<') and q.endswith('_construct') \
                and q.rsplit('::', 1)[1] in OTHER:
            x = lambda E, s, e, o, vs: [(s1, LV(a)) for s1, a in absnat.construct(E, s, PRES, [], E0)]
        if x is None and q.startswith('FLPR::Stmt::') and q[12:].islower() and '::' not in q[12:]:
            n = q[12:]
            x = lambda E, s, e, o, vs: E.h_rule(s, n, e, vs)
        return x if x is not None else d


class DoEng(PrgmEng):
    def __init__(self, F, kinds, first=None):
        super().__init__(F)
        self.kinds, self.first = kinds, first
        r = Rules(self.intercept)
        self.intercept = r
        r['FLPR::Stmt::get_label_do_label'] = DoEng.h_label
        r['FLPR::Stmt::cover_branches'] = lambda E, s, e, o, vs: [(s, VOID)]
        self.tags_of = {n: F.tagv(t) for n, t in
                        (('do_stmt', 'SG_DO_STMT'), ('action_stmt', 'SG_ACTION_STMT'), ('continue_stmt', 'SG_CONTINUE_STMT'),
                         ('end_do_stmt', 'SG_END_DO_STMT'))}

    def choices(self, s, i):
        return [self.first] if i == P0 and self.first else self.kinds

    def statement(self, s, i, e):
        k = ('stmt', i)
        if k in s.x:
            return [(s, LV(s.x[k]))]
        out = []
        cs = [s.x[('kind', i)]] if ('kind', i) in s.x else self.choices(s, i)
        for j, c in enumerate(cs):
            s2 = s.fork() if j < len(cs) - 1 else s
            s2.x[('kind', i)] = c
            s2.log = s2.log + (c,)
            out += super().statement(s2, i, e)
        return out

    def label(self, s, i):
        return s.x[('kind', i)][1]

    stream_of = PComb.stream_of

    def rule_tag(self, n, kind):
        if n == 'end_do':
            n = 'end_do_stmt' if kind == 'E' else 'continue_stmt'
        return self.tags_of[n]

    def h_rule(self, s, n, e, vs):
        if len(vs) != 1:
            raise Broken('statement rule %s at %s' % (n, rel(e['l'])))
        i = self.stream_of(s, vs[0].a)
        k = s.x[('kind', i)]
        if n not in ACCEPT[k[0]]:
            (s, a) = self.one(absnat.construct(self, s, STREE, [], E0))
            return [(s, LV(a))]
        t = self.rule_tag(n, k[0])
        (s, a) = self.one(absnat.construct(self, s, STREE, [t], E0))
        if n == 'action_stmt':
            (s, b) = self.one(absnat.construct(self, s, STREE, [self.F.tagv('SG_PRINT_STMT')], E0))
            s.x['moved'] = s.x.get('moved', frozenset()) | {b}
            (s, _) = self.one(self.method(s, a, 'graft_back', [LV(b)]))
        (s, r) = self.one(self.method(s, a, 'root'))
        s.x[('root', self.load(s, r))] = i
        return [(s, LV(a))]

    def h_label(self, s, e, o, vs):
        (s, r) = self.one(self.method(s, vs[0].a, 'root'))
        i = s.x[('root', self.load(s, r))]
        return [(s, s.x[('kind', i)][2])]


class DoSpec(PSpec):
    def kind(self, i):
        if self.at_end(i):
            return None
        k = self.s.x.get(('kind', i))
        if k is None:
            def case(c):
                def f(s2):
                    s2.x[('kind', i)] = c
                    return True
                return f
            raise Split([case(c) for c in self.E.choices(self.s, i)])
        return k

    def exec_part(self, i, stack):
        """execution-part-construct: (tree, next) or None"""
        k = self.kind(i)
        if k is None or k[1] and stack and stack[-1][0] == k[1]:
            return None
        v = self.E.F.tagv
        if k[0] in 'AC':
            r = self.leafs('action_stmt', i), ladd(i, 1)
        elif k[0] in 'DL':
            r = self.do(i, stack)
        else:
            r = None
        if r is None:
            return None
        return cover(v('PG_EXECUTION_PART_CONSTRUCT'), [cover(v('PG_EXECUTABLE_CONSTRUCT'), [r[0]])]), r[1]

    def leafs(self, rule, i):
        return self.E.leaf(self.E.rule_tag(rule, self.kind(i)[0]), i)

    def do(self, i, stack):
        """the documented meaning; stack holds [label, level] of open label-DOs"""
        v = self.E.F.tagv
        k = self.kind(i)
        if k is None or k[0] not in 'DL':
            return None
        stack = [list(x) for x in stack] + ([[k[2], None]] if k[0] == 'L' else [])
        kids, j = [], ladd(i, 1)
        while True:
            r = self.exec_part(j, stack)
            if r is None:
                break
            kids.append(r[0])
            j = r[1]
            # an inner construct that closed on the shared statement settles the levels
            for x, y in zip(stack, self.levels.pop(j, ())):
                x[1] = y
        t = self.kind(j)
        if t is None:
            return None
        do, body = self.leafs('do_stmt', i), lambda tag: cover(tag, kids)
        if k[0] == 'D' or not t[1]:
            if t[0] != 'E':
                return None
            return cover(v('PG_DO_CONSTRUCT'), [do, body(v('PG_BLOCK')), self.leafs('end_do_stmt', j)]), ladd(j, 1)
        if t[1] != k[2]:
            return None
        if stack[-1][1] is None:
            n = 0
            while n < len(stack) and stack[-1 - n][0] == k[2]:
                n += 1
            for x in range(n):
                stack[-1 - x][1] = n - x if n > 1 else 0
        level = stack[-1][1]
        if level == 0:
            if t[0] in 'CE':
                return cover(v('PG_DO_CONSTRUCT'), [do, body(v('PG_BLOCK')), self.leafs('end_do', j)]), ladd(j, 1)
            if t[0] != 'A':
                return None
            sub, term, nxt = 'PG_ACTION_TERM_DO_CONSTRUCT', 'PG_DO_TERM_ACTION_STMT', ladd(j, 1)
        else:
            if t[0] not in 'AC':
                return None
            term = 'PG_DO_TERM_SHARED_STMT'
            sub = 'PG_OUTER_SHARED_DO_CONSTRUCT' if level == 1 else 'PG_INNER_SHARED_DO_CONSTRUCT'
            nxt = ladd(j, 1) if level == 1 else j
            self.levels[nxt] = [x[1] for x in stack[:-1]]
        return cover(v('PG_NONBLOCK_DO_CONSTRUCT'), [cover(v(sub), [
            do, body(v('PG_DO_BODY')), cover(v(term), [self.leafs('action_stmt', j)])])]), nxt

    levels = None


def do_meaning(E, s):
    sp = DoSpec(E, s)
    sp.levels = {}
    r = sp.do(P0, [])
    return (True, r[0], r[1]) if r else (False, None, P0)


def wrong_tag(E, s, t):
    """a statement of the tree whose own tag is not that of the rule that took it"""
    if isinstance(t[0], tuple):
        i = t[0][2]
        a = s.x.get(('stmt', i))
        if a is None:
            return i, 'never read', ''
        (s, tg) = E.one(E.method(s, a, 'syntax_tag', [], True))
        tg, k = E.load(s, tg), s.x[('kind', i)][0]
        v = E.F.tagv
        ok = {'D': ['SG_DO_STMT'], 'L': ['SG_DO_STMT'], 'A': ['SG_PRINT_STMT'], 'E': ['SG_END_DO_STMT'],
              'C': ['SG_PRINT_STMT', 'SG_CONTINUE_STMT']}.get(k, [])
        if tg not in [v(x) for x in ok]:
            return i, E.F.tags().get(tg, tg), ok[0]
        return None
    for k in t[3]:
        w = wrong_tag(E, s, k)
        if w:
            return w
    return None


def run_do(F, count, deep=False, first=None):
    E = DoEng(F, kinds(deep), first)
    fn = F.byq.get('verif::p_do')
    if not fn:
        raise Broken('driver p_do missing')
    s = St()
    s, st = E.pstate(s)
    s.zone.add('M', 'p', count)
    problems = []
    rs = E.call(s, fn[0], None, [LV(st)], {'l': fn[0]['l'], 'k': 'call', 't': ''})
    for s, v in rs:
        r = s.heap[v.a]
        m = E.load(s, LV(r.f['match']))
        got = (bool(m), E.pshape(s, r.f['parse_tree']), E.ppos(s, st))
        nl = E.labels(s, st)
        w = wrong_tag(E, s, got[1]) if got[0] else None
        if w:
            problems.append(('do_construct', s, ('statement %s is recorded as %s' % w[:2], ''), (w[2], '')))
            continue
        todo = [s]
        while todo:
            s1 = todo.pop()
            try:
                want = do_meaning(E, s1)
            except Split as x:
                for c in x.cases:
                    s2 = s1.fork()
                    if c(s2):
                        todo.append(s2)
                continue
            same = got[0] == want[0] and got[1] == want[1] and nl == 0 and (got[2] == want[2] or
                    E.entails_le(s1, got[2], want[2]) and E.entails_le(s1, want[2], got[2]))
            if not same:
                problems.append(('do_construct', s1, got + (nl,), want + (0,)))
                break
    return rs, problems, E


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    from core import Facts
    F = Facts(only=['prgm.cc', 'TT_Stream.cc', 'Stmt_Tree.cc', 'Syntax_Tags.cc', 'LL_Stmt.cc', 'LL_TT_Range.cc'])
    X = PComb(F, ())
    for n, (sp, oc) in dict(specs(X), p_do=(0, 0)).items():
        if sys.argv[1:] and n not in sys.argv[1:]:
            continue
        rs, pr, E = run_one(F, n, sp, oc) if n != 'p_do' else run_do(F, int(sys.argv[2]) if sys.argv[2:] else 4)
        print(n, len(rs), 'paths', len(pr), 'problems', len(E.aborts), 'aborts', len(E.trunc), 'trunc', len(E.escapes), 'esc', E.steps)
        for p in pr[:3]:
            print('   ', p[0], p[1].log, p[2:])
        for a in E.aborts[:3]:
            print('   abort', a[:2], a[2].log)
        for a in E.escapes[:3]:
            print('   esc', a[:2])
