"""Abstract interpretation of the statement combinators (Stmt_Parsers.hh).

Each combinator is interpreted over abstract sub-parsers: a sub-parser may
fail (leaving no trace) or match in one of the ways a parser can match.  The
token sequence is abstract: unknown length N, unknown tags, unknown current
position p.  The result (verdict, tree, position) of every abstract path is
compared with the meaning the combinator documents.
"""
import absint
import absnat
from absint import *
from core import Broken, rel

TREE = 'FLPR::Tree<FLPR::Stmt::ST_Node_Data, std::allocator<FLPR::Stmt::ST_Node_Data>>'
NODE = 'FLPR::details_::Tree_Node<FLPR::Stmt::ST_Node_Data, std::allocator<FLPR::Stmt::ST_Node_Data>>'
RES = 'FLPR::details_::Parser_Result<' + TREE + '>'
# what a sub-parser may do: fail, match nothing, match one token with a node,
# match nothing with a node, match with an empty / a two-element hoisted list;
# FJ: an extension that fails after moving the stream
NTOK = {'F': 0, 'M0': 0, 'M1': 1, 'ME': 0, 'MH0': 0, 'MH2': 2, 'FJ': 1}
P0 = symi('p')
N = symi('N')


class TokEngine(Engine):
    """engine with an abstract token sequence T[0..N)"""

    def __init__(self, F, tu=None):
        super().__init__(F, tu)
        self.escapes = []
        self.intercept['FLPR::Token_Text::lower'] = TokEngine.h_lower
        self.intercept['FLPR::tolower'] = TokEngine.h_tolower
        self.bad = F.tagv('BAD')

    def pos_deref(self, s, it, e):
        if it.q != 'T':
            raise Broken('element of %s at %s' % (it.q, rel(e['l'])))
        lo = self.entails_le(s, 0, it.i)
        hi = self.entails_le(s, ladd(it.i, 1), N)
        if not (lo and hi):
            self.escapes.append(('token read outside the statement', rel(e['l']), s, it.i))
            return []
        return [(s, LV(self.token(s, it.i)))]

    def pos_step(self, s, it, k, e):
        to = ladd(it.i, k)
        if it.q == 'T' and not (self.entails_le(s, 0, to) and self.entails_le(s, to, N)):
            self.escapes.append(('the position leaves the statement', rel(e['l']), s, to))
            return None
        return Pos(it.q, to)

    def token(self, s, i):
        k = ('tok', i)
        if k not in s.x:
            a = self.default(s, 'FLPR::Token_Text')
            r = s.heap[a]
            tg = Tag(('T', i))
            for f in r.f:
                s.heap[r.f[f]] = Sym(('tokfield', f, i))
            s.heap[r.f['token']] = tg
            s.tags.setdefault(tg.s, self.universe() - {self.bad})
            s.x[k] = a
        return s.x[k]

    def names(self):
        """tags that may be read as a name: TK_NAME and the keywords"""
        if not hasattr(self, '_names'):
            g = next((g for g in self.F.globals if g['q'].endswith('Syntax_Tags::types_')), None)
            if g is None:
                raise Broken('anchor Syntax_Tags::types_ not found')
            self._names = frozenset([self.F.tagv('TK_NAME')] +
                                    [i for i, x in enumerate(g['init']['a']) if x.get('cv') == 4])
        return self._names

    def textlen(self, s, i):
        return self.load(s, self.one(self.str_unknown(s, 'size', Sym(('tokfield', 'text_', i)), [], {}))[1])

    def lower(self, i):
        return Sym(('lower', i))

    def h_lower(self, s, e, o, vs):
        k = s.heap[s.heap[o.a].f['text_']]
        if not (isinstance(k, Sym) and k.s[0] == 'tokfield'):
            raise Broken('lower() of an unknown token')
        return [(s, LV(self.new(s, self.lower(k.s[2]))))]

    def h_tolower(self, s, e, o, vs):
        x = self.load(s, vs[0])
        if not isinstance(x, StrV):
            raise Broken('tolower of %r' % (x,))
        self.store(s, vs[0].a, StrV(x.s.lower()), e)
        return [(s, None)]

    def method(self, s, a, name, args=(), const=None):
        """call a member function by name on the object at a"""
        r = s.heap[a]
        return self.method_t(s, r.t, a, name, args, const)

    def method_t(self, s, t, a, name, args=(), const=None):
        rec = self.F.records.get(t)
        if rec is None:
            raise Broken('no class %s' % t)
        c = [m for m in rec['methods'] if m['n'] == name and not m.get('deleted')]
        fns = [(m, self.F.fn(m['key'], self.tu)) for m in c]
        fns = [(m, f) for m, f in fns if f is not None and
               (len(f['params']) == len(args) or
                len(f['params']) > len(args) and all(p.get('dflt') is not None for p in f['params'][len(args):]))]
        if len(fns) > 1 and any(len(f['params']) == len(args) for m, f in fns):
            fns = [(m, f) for m, f in fns if len(f['params']) == len(args)]
        if len(fns) > 1:
            p = [(m, f) for m, f in fns if bool(m['const']) == bool(const)]
            fns = p or fns
        if not fns:
            for b in rec['bases']:
                if strip(b) in self.F.records:
                    try:
                        return self.method_t(s, strip(b), a, name, args, const)
                    except Broken:
                        pass
            raise Broken('no member %s of %s' % (name, t))
        m, f = fns[0]
        args = list(args)
        return self.call(s, f, a, args, {'l': f['l'], 'k': 'call', 't': ''})

    def one(self, rs):
        if len(rs) != 1:
            raise Broken('expected one outcome, got %d' % len(rs))
        return rs[0]

    # -------------------------------------------------------- the stream
    def stream(self, s, left=None, done=None):
        """a TT_Stream over T[0..N) positioned at p; at most `left` tokens
        follow and at most `done` precede"""
        s.zone.add('', 'p', 0)
        s.zone.add('p', 'N', 0)
        s.zone.add('', 'N', 0)
        if left is not None:
            s.zone.add('N', 'p', left)
        if done is not None:
            s.zone.add('p', '', done)
        e = {'l': '', 'k': 'call', 't': ''}
        rng = absnat.construct(self, s, 'FLPR::LL_TT_Range',
                               [self_it(Sym('line')), Pos('T', 0), Pos('T', N)], e)
        (s, ra) = self.one(rng)
        (s, ta) = self.one(absnat.construct(self, s, 'FLPR::TT_Stream', [LV(ra)], e))
        (s, _) = self.one(self.method(s, ta, 'consume', [P0]))
        return s, ta

    def position(self, s, ta):
        (s, v) = self.one(self.method(s, ta, 'next_iterator', [], True))
        v = self.load(s, v)
        if not isinstance(v, Pos):
            raise Broken('stream position is %r' % (v,))
        return v.i

    def end(self, s, ta):
        (s, r) = self.one(self.method(s, ta, 'source', [], True))
        (s, v) = self.one(self.method(s, self.obj(s, r), 'end', [], True))
        return self.load(s, v).i

    # ----------------------------------------------------------- trees
    def shape(self, s, a):
        """python picture of the Stmt_Tree at a: None or (tag, begin, end, kids)"""
        (s, v) = self.one(self.method(s, a, 'operator bool', [], True))
        v = self.load(s, v)
        if v is False or v == 0:
            return None
        (s, it) = self.one(self.method(s, a, 'root'))
        it = self.load(s, it)
        return self.nshape(s, it)

    def nshape(self, s, it, up=None):
        e = {'l': ''}
        (s, n), = absnat.deref(self, s, it, e)
        na = n.a
        # links
        (s, me) = self.one(self.method(s, na, 'self'))
        me = self.load(s, me)
        bad = []
        if me != it:
            bad.append('self link')
        (s, tr) = self.one(self.method(s, na, 'trunk'))
        tr = self.load(s, tr)
        if tr != (up if up is not None else it):
            bad.append('parent link')
        (s, val) = self.one(self.method(s, na, 'operator*'))
        d = s.heap[val.a]
        tag = s.heap[d.f['syntag']]
        ra = d.f['token_range']
        rs = self.method(s, ra, 'empty', [], True)
        (s, emp) = self.one(rs)
        emp = self.load(s, emp)
        if emp not in (True, False):
            raise Broken('emptiness of a token range is %r' % (emp,))
        if emp:
            b = en = None
        else:
            (s, b) = self.one(self.method(s, ra, 'begin'))
            (s, en) = self.one(self.method(s, ra, 'end'))
            b, en = self.load(s, b).i, self.load(s, en).i
            (s, sz) = self.one(self.method(s, ra, 'size', [], True))
            if self.load(s, sz) != ladd(en, b, -1):
                bad.append('range size')
        kids = []
        (s, leaf) = self.one(self.method(s, na, 'is_leaf', [], True))
        if not self.load(s, leaf):
            (s, br) = self.one(self.method(s, na, 'branches'))
            (s, i) = self.one(self.method(s, br.a, 'begin'))
            (s, last) = self.one(self.method(s, br.a, 'end'))
            i, last = self.load(s, i), self.load(s, last)
            k = 0
            while i != last:
                kids.append(self.nshape(s, i, it))
                i = absnat.step(self, s, i, 1, e)
                k += 1
                if k > 64 or i is None:
                    raise Broken('branch list does not end')
        return (tag, b, en, tuple(kids)) + ((tuple(bad),) if bad else ())

    def make_tree(self, s, ta, tag, ntok):
        """Stmt_Tree{tag, ts.digest(ntok)} (address)"""
        e = {'l': '', 'k': 'call', 't': ''}
        (s, r) = self.one(self.method(s, ta, 'digest', [ntok]))
        (s, a) = self.one(absnat.construct(self, s, TREE, [tag, r], e))
        return s, a


def self_it(x):
    return _Itv(x)


def _Itv(x):
    return Pos('L', symi('line'))


class Comb(TokEngine):
    """combinators over the abstract sub-parsers Sub{id} and sub_rule"""

    def __init__(self, F, outcomes):
        super().__init__(F, 'combinators.cc')
        self.outcomes = outcomes
        self.maxmatch = 4
        self.HO = F.tagv('HOIST')
        self.intercept['verif::Sub::operator()'] = Comb.h_sub
        self.intercept['verif::sub_rule'] = Comb.h_rule
        self.intercept['verif::ext_rule0'] = lambda E, s, e, o, vs: E.sub(s, 0, vs[0].a, e, True)
        self.intercept['verif::ext_rule1'] = lambda E, s, e, o, vs: E.sub(s, 1, vs[0].a, e, True)

    # tags of the trees the sub-parsers return
    def tagof(self, i):
        return self.F.tagv('SG_EXPR') if i == 0 else \
            self.F.tagv('SG_VARIABLE') if i == 1 else self.F.tagv('SG_LABEL')

    def h_sub(self, s, e, o, vs):
        sid = self.load(s, LV(s.heap[o.a].f['id']))
        return self.sub(s, sid, vs[0].a, e, False)

    def outcomes_of(self, s, sid, pos):
        n = sum(1 for k in s.x if isinstance(k, tuple) and k[0] == 'sub' and s.x[k] != 'F')
        return self.outcomes if n < self.maxmatch else ('F',)

    def h_rule(self, s, e, o, vs):
        return self.sub(s, 0, vs[0].a, e, True)

    def sub(self, s, sid, ta, e, rule):
        pos = self.position(s, ta)
        key = ('sub', sid, pos)
        outs = [s.x[key]] if key in s.x else self.outcomes_of(s, sid, pos)
        res = []
        for k, oc in enumerate(outs):
            s2 = s.fork() if k < len(outs) - 1 else s
            ntok = NTOK[oc]
            if rule and oc in ('M0', 'MH0', 'MH2'):
                continue
            if ntok and not self.assume_le(s2, ladd(ladd(pos, ntok), self.end(s2, ta), -1), 0):
                continue
            s2.x[key] = oc
            s2.log = s2.log + ((sid, oc, pos),)
            s2, tree, ok = self.outcome(s2, sid, oc, ta, e)
            if rule:
                res.append((s2, LV(tree)))
                continue
            for s3, ra in absnat.construct(self, s2, RES, [LV(tree), ok], e):
                res.append((s3, LV(ra)))
        return res

    def outcome(self, s, sid, oc, ta, e):
        if oc in ('F', 'M0', 'FJ'):
            (s, a) = self.one(absnat.construct(self, s, TREE, [], e))
            if oc == 'FJ':
                (s, _) = self.one(self.method(s, ta, 'consume', [1]))
            return s, a, oc == 'M0'
        if oc in ('M1', 'ME'):
            s, a = self.make_tree(s, ta, self.tagof(sid), 1 if oc == 'M1' else 0)
            return s, a, True
        (s, a) = self.one(absnat.construct(self, s, TREE, [self.HO], e))
        if oc == 'MH2':
            for _ in range(2):
                s, k = self.make_tree(s, ta, self.tagof(sid), 1)
                s.x['moved'] = s.x.get('moved', frozenset()) | {k}
                (s, _) = self.one(self.method(s, a, 'graft_back', [LV(k)]))
            fn = [f for f in self.F.byq.get('FLPR::Stmt::cover_branches', [])]
            if not fn:
                raise Broken('anchor cover_branches not found')
            (s, nd) = self.one(self.method(s, a, 'operator*'))
            (s, _) = self.one(self.call(s, fn[0], None, [nd], e))
        return s, a, True

    def kids_of(self, sid, oc, pos):
        """what an outcome contributes to a covering node"""
        t = self.tagof(sid)
        if oc == 'M1':
            return [(t, pos, ladd(pos, 1), ())], ladd(pos, 1)
        if oc == 'ME':
            return [(t, None, None, ())], pos
        if oc == 'MH2':
            return [(t, pos, ladd(pos, 1), ()), (t, ladd(pos, 1), ladd(pos, 2), ())], ladd(pos, 2)
        return [], pos

    def tree_of(self, sid, oc, pos):
        k, end = self.kids_of(sid, oc, pos)
        if oc in ('F', 'M0', 'FJ'):
            return None
        if oc in ('M1', 'ME'):
            return k[0]
        return cover(self.HO, k)


def cover(tag, kids):
    ne = [k for k in kids if k[1] is not None]
    if not ne:
        return (tag, None, None, tuple(kids))
    return (tag, ne[0][1], ne[-1][2], tuple(kids))


class Ask(Exception):
    pass


class Split(Exception):
    """the meaning depends on something the path has not decided"""

    def __init__(self, cases):
        self.cases = cases        # functions state -> bool (feasible)


def walks(E, s, spec):
    """all refinements of the path s on which the meaning is decided"""
    todo, out, n = [s], [], 0
    while todo:
        n += 1
        if n > 4000:
            raise Broken('the documented meaning does not settle')
        s = todo.pop()
        try:
            out.append((s, spec(Spec(E, s))))
        except Split as x:
            for c in x.cases:
                s2 = s.fork()
                if c(s2):
                    todo.append(s2)
    return out


class Spec:
    """documented meaning of the combinators, evaluated on one abstract path"""

    def __init__(self, E, s):
        self.E, self.s = E, s

    def sub(self, sid, pos):
        E, s = self.E, self.s
        key = ('sub', sid, pos)
        oc = s.x.get(key)
        if oc is None:
            def case(o):
                def f(s2):
                    n = NTOK[o]
                    if n and not E.assume_le(s2, ladd(ladd(pos, n), N, -1), 0):
                        return False
                    s2.x[key] = o
                    return True
                return f
            raise Split([case(o) for o in E.outcomes_of(s, sid, pos)])
        k, end = E.kids_of(sid, oc, pos)
        return oc not in ('F', 'FJ'), E.tree_of(sid, oc, pos), end

    def at_end(self, pos):
        E = self.E
        if E.entails_le(self.s, N, pos):
            return True
        if E.entails_le(self.s, ladd(pos, 1), N):
            return False
        raise Split([lambda s: E.assume_le(s, ladd(N, pos, -1), 0),
                     lambda s: E.assume_le(s, ladd(ladd(pos, 1), N, -1), 0)])

    def tag_at(self, pos):
        if self.at_end(pos):
            return frozenset([self.E.bad])
        return self.s.tags.get(('T', pos), self.E.universe() - {self.E.bad})

    def is_tag(self, pos, tags):
        t = self.tag_at(pos)
        if t <= tags:
            return True
        if not (t & tags):
            return False

        def case(v):
            def f(s):
                s.tags[('T', pos)] = v
                return True
            return f
        raise Split([case(t & tags), case(t - tags)])

    def leaf(self, pos):
        return (Tag(('T', pos)), pos, ladd(pos, 1), ())

    def tok(self, tag, pos, leaf=None):
        if self.is_tag(pos, frozenset([tag])):
            return True, (leaf or tag, pos, ladd(pos, 1), ()), ladd(pos, 1)
        return False, None, pos

    def name(self, pos):
        if self.is_tag(pos, self.E.names()):
            return True, (self.E.F.tagv('TK_NAME'), pos, ladd(pos, 1), ()), ladd(pos, 1)
        return False, None, pos

    def decide(self, op, a, b):
        E = self.E
        r = E.split_cmp(self.s.fork(), op, a, b)
        if len(r) == 1:
            return r[0][1]

        def case(v):
            def f(s):
                x = [s2 for s2, y in E.split_cmp(s.fork(), op, a, b) if y == v]
                if not x:
                    return False
                [setattr(s, a, getattr(x[0], a)) for a in St.__slots__]
                return True
            return f
        raise Split([case(True), case(False)])

    def hoist(self, kids, tree):
        if tree is None:
            return
        if tree[0] == self.E.HO:
            kids.extend(tree[3])
        else:
            kids.append(tree)

    def seq(self, tag, parts, pos):
        p, kids = pos, []
        for q in parts:
            ok, t, p2 = q(p)
            if not ok:
                return False, None, pos
            self.hoist(kids, t)
            p = p2
        return True, cover(tag, kids), p

    def alts(self, tag, parts, pos):
        for q in parts:
            ok, t, p2 = q(pos)
            if ok:
                kids = []
                self.hoist(kids, t)
                return True, cover(tag, kids), p2
        return False, None, pos

    def star(self, q, pos):
        p, kids = pos, []
        while True:
            ok, t, p2 = q(p)
            if not ok:
                return True, cover(self.E.HO, kids), p
            self.hoist(kids, t)
            p = p2

    def opt(self, q, pos):
        ok, t, p2 = q(pos)
        return (True, t, p2) if ok else (True, None, pos)

    def tagp(self, tag, q, pos):
        ok, t, p2 = q(pos)
        if not ok:
            return False, None, pos
        if t is None:
            return True, None, p2
        kids = []
        self.hoist(kids, t)
        return True, cover(tag, kids), p2

    def list(self, tag, q, pos):
        c = self.E.F.tagv('TK_COMMA')
        return self.seq(tag, [q, lambda p: self.star(
            lambda p1: self.seq(self.E.HO, [lambda x: self.tok(c, x), q], p1), p)], pos)


def specs(E):
    """function -> (spec, outcomes)"""
    T = E.F.tagv('SG_CALL_STMT')
    H = E.HO
    ALL = ('F', 'M0', 'M1', 'ME', 'MH0', 'MH2')
    FEW = ('F', 'M0', 'M1', 'MH2')
    MOV = ('F', 'M1', 'MH2')
    sub = lambda sp, i: (lambda p: sp.sub(i, p))
    v = E.F.tagv

    def between(l, r, tag):
        return lambda sp: sp.seq(tag, [lambda p: sp.tok(v(l), p), sub(sp, 0), lambda p: sp.tok(v(r), p)], P0)

    def letter(sp):
        r = sp.name(P0)
        if r[0] and not sp.decide('==', E.textlen(sp.s, P0), 1):
            return False, None, P0
        return r

    def literal(sp):
        r = sp.name(P0)
        if r[0] and not sp.decide('==', E.lower(P0), StrV('abc')):
            return False, None, P0
        return r

    def ext(tag):
        # the first registered extension that matches, under the covering tag
        return lambda sp: sp.alts(v(tag), [sub(sp, 0), sub(sp, 1)], P0)
    S = {
        'v_alts1': (lambda sp: sp.alts(T, [sub(sp, 0)], P0), ALL),
        'v_alts2': (lambda sp: sp.alts(T, [sub(sp, 0), sub(sp, 1)], P0), ALL),
        'v_alts3': (lambda sp: sp.alts(T, [sub(sp, 0), sub(sp, 1), sub(sp, 2)], P0), FEW),
        'v_h_alts2': (lambda sp: sp.alts(H, [sub(sp, 0), sub(sp, 1)], P0), ALL),
        'v_seq1': (lambda sp: sp.seq(T, [sub(sp, 0)], P0), ALL),
        'v_seq2': (lambda sp: sp.seq(T, [sub(sp, 0), sub(sp, 1)], P0), ALL),
        'v_seq3': (lambda sp: sp.seq(T, [sub(sp, 0), sub(sp, 1), sub(sp, 2)], P0), FEW),
        'v_h_seq2': (lambda sp: sp.seq(H, [sub(sp, 0), sub(sp, 1)], P0), ALL),
        'v_star': (lambda sp: sp.star(sub(sp, 0), P0), MOV),
        'v_opt': (lambda sp: sp.opt(sub(sp, 0), P0), ALL),
        'v_tag_if': (lambda sp: sp.tagp(T, sub(sp, 0), P0), ALL),
        'v_list': (lambda sp: sp.list(T, sub(sp, 0), P0), MOV),
        'v_h_list': (lambda sp: sp.list(H, sub(sp, 0), P0), MOV),
        'v_parens': (between('TK_PARENL', 'TK_PARENR', T), ALL),
        'v_h_parens': (between('TK_PARENL', 'TK_PARENR', H), ALL),
        'v_brackets': (between('TK_BRACKETL', 'TK_BRACKETR', T), ALL),
        'v_h_brackets': (between('TK_BRACKETL', 'TK_BRACKETR', H), ALL),
        'v_rule': (lambda sp: sp.sub(0, P0), ('F', 'FJ', 'M1', 'ME')),
        'v_tok': (lambda sp: sp.tok(v('TK_COMMA'), P0), ()),
        'v_peek': (lambda sp: (sp.is_tag(P0, frozenset([v('TK_COMMA')])), None, P0), ()),
        'v_eol': (lambda sp: (sp.is_tag(P0, frozenset([v('BAD')])), None, P0), ()),
        'v_name': (lambda sp: sp.name(P0), ()),
        'v_letter': (letter, ()),
        'v_literal': (literal, ()),
        'v_ext_action': (ext('SG_ACTION_STMT'), ('F', 'FJ', 'M1', 'ME')),
        'v_ext_spec': (ext('SG_OTHER_SPECIFICATION_STMT'), ('F', 'FJ', 'M1', 'ME')),
        'v_ext_clear': (lambda sp: (False, None, P0), ('M1',)),
        'v_neg': (lambda sp: (not sp.sub(0, P0)[0], None, P0), ALL),
    }
    return S


def norm(s, t):
    """tree with the tags the path has decided"""
    if t is None:
        return None
    tag = t[0]
    if isinstance(tag, Tag) and len(s.tags.get(tag.s, ())) == 1:
        tag, = s.tags[tag.s]
    return (tag, t[1], t[2], tuple(norm(s, k) for k in t[3])) + tuple(t[4:])


def run_one(F, name, spec, outcomes, unroll=12):
    """interpret verif::name; returns (paths, problems, engine)"""
    E = Comb(F, outcomes)
    E.unroll = unroll
    fn = F.byq.get('verif::' + name)
    if not fn:
        raise Broken('combinator driver %s missing' % name)
    s = St()
    s, ta = E.stream(s)
    problems = []
    rs = E.call(s, fn[0], None, [LV(ta)], {'l': fn[0]['l'], 'k': 'call', 't': ''})
    for s, v in rs:
        r = s.heap[v.a]
        (s, m) = (s, E.load(s, LV(r.f['match'])))
        if not isinstance(m, (bool, int)):
            raise Broken('verdict is %r' % (m,))
        got = (bool(m), E.shape(s, r.f['parse_tree']), E.position(s, ta))
        judge(E, s, name, spec, got, problems)
    return rs, problems, E


def judge(E, s, name, spec, got, problems):
    for s2, want in walks(E, s, spec):
        g = (got[0], norm(s2, got[1]), got[2])
        w = (want[0], norm(s2, want[1]), want[2])
        if g[0] == w[0] and g[1] == w[1] and (g[2] == w[2] or
                E.entails_le(s2, g[2], w[2]) and E.entails_le(s2, w[2], g[2])):
            continue
        problems.append((name, s2, g, w))
        break


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    from core import Facts
    F = Facts(only=['combinators.cc', 'TT_Stream.cc', 'Stmt_Tree.cc', 'Syntax_Tags.cc', 'Stmt_Parser_Exts.cc'])
    E0 = Comb(F, ())
    for n, (sp, oc) in specs(E0).items():
        if sys.argv[1:] and n not in sys.argv[1:]:
            continue
        rs, pr, E = run_one(F, n, sp, oc)
        print(n, len(rs), 'paths', len(pr), 'problems', len(E.aborts), 'aborts', len(E.trunc), 'trunc', len(E.escapes), 'esc', E.steps)
        for p in pr[:3]:
            print('   ', p[0], p[1].log, p[2:])
        for a in E.aborts[:3]:
            print('   abort', a[:2], a[2].log)
        for a in E.escapes[:3]:
            print('   esc', a[:2])
