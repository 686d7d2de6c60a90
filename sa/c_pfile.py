"""P17: a parsed file reads and builds each structure once, links its tree and indents by it"""
import itertools
import absnat
from absint import St, Up, It, ListV, LV, Ptr, Rec, NULL, VOID, Sym
from core import Broken, Facts, rel
from text import symi, sym_text, ladd, Txt
from c_text import Out, Tasks
from c_line import LL, E0, lines
from c_edit import EdEng, PL, build, describe
from c_file import LF, Ck, enumv, TUS
from c_tree import shapes, Bad

LS = 'FLPR::LL_Stmt'
IT = 'FLPR::Indent_Table'
PTUS = ('parsed.cc',) + TUS + ('Indent_Table.cc',)


class PEng(EdEng):
    def __init__(self, F):
        super().__init__(F)
        self.unroll = 16
        self.bound = 14
        self.intercept[LL + '::set_leading_spaces'] = self.spaces
        for n in ('operator[]', 'get_indent'):
            self.intercept[IT + '::' + n] = lambda E, s, e, o, vs: [(s, symi(('ind', E.load(s, vs[0]))))]
        self.intercept[IT + '::continued_offset'] = lambda E, s, e, o, vs: [(s, symi(('cont',)))]

    def fn(self, q):
        k = [f for f in self.F.fns.values() if f['q'] == q and f.get('body')]
        if not k:
            raise Broken('%s not found' % q)
        return k[0]

    def spaces(self, E, s, e, o, vs):
        a = self.obj(s, o)
        out = []
        for b in (False, True):
            s2 = s.fork()
            s2.x['indented'] = s.x.get('indented', ()) + ((a, E.load(s, vs[0]), E.load(s, vs[1])),)
            s2.x['anych'] = s.x.get('anych', False) or b
            out.append((s2, b))
        return out

    def one(self, s, q, *vs):
        self.aborts.clear()
        rs = self.call(s, self.fn(q), None, list(vs), E0)
        if len(rs) != 1 or self.aborts:
            raise Broken('%s: %d outcomes %s' % (q, len(rs), self.aborts and self.aborts[0][:2]))
        return rs[0]


def stmt(E, s, lines_, compound, prefix, label=None):
    """a statement on a line of its own, with lines before it"""
    l, ll = lines_
    new = []
    for _ in range(prefix + 1):
        (s, x), = absnat.construct(E, s, LL, [], E0)
        new.append(x)
        s.x[('own', x)] = l
    v = s.heap[l]
    s.heap[l] = ListV(v.t, v.n[:-1] + tuple(new) + v.n[-1:])
    (s, a), = absnat.construct(E, s, LS, [], E0)
    s.heap[E.addr(s, a, 'compound_')] = compound
    s.heap[E.addr(s, a, 'label_')] = 10 if label is True else symi(('label', a)) if label is None else 0
    s.heap[E.addr(s, a, 'line_ref_')] = It(new[-1])
    s.heap[E.addr(s, a, 'll_set_')] = True
    p = E.addr(s, a, 'prefix_lines')
    s.heap[p] = ListV(s.heap[p].t, tuple(E.new(s, It(x)) for x in new[:-1]))
    v = s.heap[ll]
    s.heap[ll] = ListV(v.t, v.n[:-1] + (a,) + v.n[-1:])
    s.x[('own', a)] = ll
    return s, a, new


def tree(E, s, t, lists, info):
    """t: (kind, children...)"""
    k = t[0]
    if k[0] == 's':
        s, a, new = stmt(E, s, lists, int(k[1]), int(k[2]))
        s, b = E.one(s, 'verif::t_leaf', 900, Ptr(a))
        info.append((a, new, int(k[1])))
    else:
        s, b = E.one(s, 'verif::t_make', info.tags[k])
    b = E.obj(s, b)
    for c in t[1:]:
        s, d = tree(E, s, c, lists, info)
        s, _ = E.one(s, 'verif::t_graft_back_m', LV(b), LV(d))
    return s, b


class Info(list):
    tags = None


def parsed(E, s, t, ready=(1, 1, 1)):
    F = E.F
    info = Info()
    info.tags = {'b': F.tagv('PG_CASE_CONSTRUCT'), 'd': F.tagv('PG_DERIVED_TYPE_DEF'), 'n': F.tagv('PG_ENUM_DEF'), 'x': F.tagv('PG_BLOCK'), 'y': F.tagv('PG_IF_CONSTRUCT'),
                 'e': F.tagv('PG_EXECUTION_PART')}
    s, pf = E.one(s, 'verif::f_make')
    pf = E.obj(s, pf)
    lf = E.addr(s, pf, 'logical_file_')
    lists = (E.addr(s, lf, 'lines', 'list_'), E.addr(s, lf, 'll_stmts', 'list_'))
    if t:
        s, b = tree(E, s, t, lists, info)
        s.heap[E.addr(s, pf, 'parse_tree_')] = s.heap[b]
    for n, v in zip(('stmts_ok_', 'tree_ok_'), ready):
        s.heap[E.addr(s, pf, n)] = bool(v)
    s.heap[E.addr(s, pf, 'bad_state_')] = not ready[2]
    return s, pf, info


def show(t):
    return t[0] + ('(%s)' % ' '.join(show(c) for c in t[1:]) if len(t) > 1 else '')


KEY = ('a tree %s (s statement: number in a compound line, lines before it; b, d, n select, type, enum; x block, y if construct, '
       'e execution part)')


def expected(E, t, n, tags, it, want):
    if t[0][0] == 's':
        a, lines_, comp = next(it)
        if comp < 2:
            for x in lines_:
                want[x] = n
        return
    k = tags[t[0]]
    for i, c in enumerate(t[1:]):
        inner = t[0] not in 'bdn' or 0 < i < len(t) - 2
        expected(E, c, ladd(n, symi(('ind', k))) if inner else n, tags, it, want)


def indent(F, ts):
    o = Out()
    E = PEng(F)
    f = [f for f in F.fns.values() if 'Parsed_File' in f['q'] and f['q'].endswith('::indent') and f.get('body')]
    f = f[0] if f else E.fn('verif::f_indent')
    for t in ts:
        s, pf, info = parsed(E, St(), t)
        for x in info.tags.values():
            E.assume_le(s, ladd(0, symi(('ind', x)), -1), 0)
        k = Ck(o, f, KEY % show(t) if t else 'no tree')
        want = {}
        if t:
            expected(E, t, 0, info.tags, iter(info), want)
        tab = E.new(s, Sym('table'))
        E.aborts.clear()
        rs = E.call(s, E.fn('verif::f_indent'), None, [LV(pf), LV(tab)], E0)
        k.ok(bool(rs) and not E.aborts, 'paths', 'the file is indented', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))
        for s, v in rs:
            got = {}
            for a, n, c in s.x.get('indented', ()):
                k.ok(a not in got, 'twice', 'each line is indented once', 'a line is indented again')
                got[a] = n
                k.ok(c == symi(('cont',)), 'continued', 'continuation lines get the offset of the table', 'they get %s' % (c,))
            k.ok(set(got) == set(want), 'lines', 'the lines of each statement that begins a line are indented', '%d lines are, not %d' % (
                len(got), len(want)))
            for a in got:
                k.ok(got[a] == want.get(a), 'spaces', 'a statement is indented by the sum over the constructs around it',
                     'by %s, not %s' % (got[a], want.get(a)))
            for s2, r in E.split(s, v):
                k.ok(r == s.x.get('anych', False), 'result', 'the result tells whether anything changed', 'it is %r' % r)
    return o


def reachable(s, a, seen):
    """heap cells owned by a"""
    if a in seen:
        return seen
    seen.add(a)
    v = s.heap.get(a)
    if isinstance(v, Rec):
        for x in v.f.values():
            reachable(s, x, seen)
    elif isinstance(v, ListV):
        for x in v.n:
            reachable(s, x, seen)
    elif isinstance(v, Up) and isinstance(v.p, Ptr):
        reachable(s, v.p.a, seen)
    return seen


class BEng(PEng):
    """reading, finding statements and parsing are recorded; what they yield is given"""

    def __init__(self, F, ok, n, tree, match, odd):
        super().__init__(F)
        self.odd = odd
        self.okay, self.n, self.tree_, self.match = ok, n, tree, match
        self.intercept[LF + '::read_and_scan'] = self.reads
        self.intercept[LF + '::make_stmts'] = self.makes
        for f in F.fns.values():
            if f['q'].endswith('::program') and 'Parsers' in f['q']:
                self.intercept[f['q']] = self.parses

    def log(self, s, *w):
        s.x['log'] = s.x.get('log', ()) + (w,)

    def reads(self, E, s, e, o, vs):
        self.log(s, 'read', self.obj(s, o), tuple(self.load(s, v) for v in vs))
        return [(s, self.okay)]

    def makes(self, E, s, e, o, vs):
        lf = self.obj(s, o)
        self.log(s, 'stmts', lf)
        lists = (self.addr(s, lf, 'lines', 'list_'), self.addr(s, lf, 'll_stmts', 'list_'))
        for i in range(self.n):
            s, a, _ = stmt(self, s, lists, i * self.odd, 0, i % 2 == self.odd)
        return [(s, VOID)]

    def parses(self, E, s, e, o, vs):
        st = self.obj(s, vs[0])
        r = self.addr(s, st, 'stmt_range_')
        l = s.x['ll_stmts']
        st = list(s.heap[l].n[:-1])
        self.log(s, 'parse', tuple(self.get(s, r, n) for n in ('begin_', 'end_', 'size_')) == (It(st[0]), It(s.heap[l].n[-1]), len(st)))
        it = iter(st)

        def h(s, t):
            if t[0] == 's':
                s, b = self.one(s, 'verif::t_leaf', 900, Ptr(next(it)))
            else:
                s, b = self.one(s, 'verif::t_make', 3)
            b = self.obj(s, b)
            for c in t[1:]:
                s, d = h(s, c)
                s, _ = self.one(s, 'verif::t_graft_back_m', LV(b), LV(d))
            return s, b
        if self.tree_:
            s, b = h(s, self.tree_)
        else:
            (s, b), = absnat.construct(self, s, s.x['tree type'], [], E0)
        s.x['tree'] = s.heap[b]
        s, v = self.one(s, 'verif::t_result', LV(b), self.match)
        return [(s, v)]


def leaves(t):
    return 1 if t[0] == 's' else sum(leaves(c) for c in t[1:])


OPS = ('f_stmts', 'f_statements', 'f_tree', 'f_parse_tree')


def building(F, ok, tree, match, n, seqs):
    o = Out()
    f = [f for f in F.fns.values() if 'Parsed_File' in f['q'] and f['q'].endswith('::build_tree_')]
    for ops, odd in itertools.product(seqs, (0, 1)):
        E = BEng(F, ok, n, tree, match, odd)
        f = f or [E.fn('verif::f_tree')]
        k = Ck(o, f[0], 'a file that %s, %d statements, parsing %s %s; %s' % (
            'was read' if ok else 'could not be read', n, 'yields' if match else 'fails with', show(tree) if tree else 'no tree',
            ', '.join({'f_stmts': 'prefetch_statements', 'f_statements': 'statements', 'f_tree': 'prefetch_parse_tree', 'f_parse_tree': 'parse_tree'}[q]
                      for q in ops)))
        s, pf = E.one(St(), 'verif::f_make')
        pf = E.obj(s, pf)
        s.heap[E.addr(s, pf, 'bad_state_')] = not ok
        lf = E.addr(s, pf, 'logical_file_')
        l = s.x['ll_stmts'] = E.addr(s, lf, 'll_stmts', 'list_')
        s.x['tree type'] = s.heap[E.addr(s, pf, 'parse_tree_')].t
        made = parsed_ = 0
        good = ok
        for q in ops:
            s, v = E.one(s, 'verif::' + q, LV(pf))
            made = made or ok
            if ok and q in OPS[2:]:
                parsed_ = 1 if n else 0
                good = ok and (match or not n)
            if q == 'f_stmts':
                k.ok(bool(E.load(s, v)) == ok, 'statements', 'prefetch_statements tells whether there are statements', 'it yields %r' % (v,))
            elif q == 'f_tree':
                k.ok(bool(E.load(s, v)) == good, 'tree', 'prefetch_parse_tree tells whether there is a tree', 'it yields %r' % (v,))
            elif q == 'f_statements':
                k.ok(E.obj(s, v) == E.addr(s, lf, 'll_stmts'), 'ref', 'statements() is the sequence of the file', 'it is another')
            else:
                k.ok(E.obj(s, v) == E.addr(s, pf, 'parse_tree_'), 'ref', 'parse_tree() is the tree of the file', 'it is another')
            log = s.x.get('log', ())
            want = (('stmts', lf),) * made + (('parse', True),) * parsed_
            k.ok(log == want, 'once', 'statements are found and parsed once, all of them, when first asked for', 'calls: %s, not %s' % (
                [w[0] for w in log], [w[0] for w in want]))
            s, b = E.one(s, 'verif::f_bool', LV(pf))
            k.ok(bool(E.load(s, b)) == good, 'state', 'the file is good until reading or parsing fails', 'it is %r' % (b,))
        cells = reachable(s, E.addr(s, pf, 'parse_tree_'), set())
        hooked = leaves(tree) if parsed_ and tree else 0
        nodes = list(s.heap[l].n[:-1])
        for i, x in enumerate(nodes):
            h = E.get(s, x, 'hook_')
            if i < hooked:
                g = isinstance(h, Ptr) and h.a in cells and isinstance(s.heap[h.a], Rec) and 'Tree_Node' in s.heap[h.a].t
                k.ok(g, 'hook', 'a statement refers to its node of the tree', 'it refers to %s' % (h,))
                if not g:
                    continue
                s, b = E.one(s, 'verif::f_node', LV(pf), It(x), h)
                k.ok(bool(E.load(s, b)), 'cursor', 'the cursor of a statement is at its node', 'it is not')
                s, b = E.one(s, 'verif::f_of', h)
                k.ok(E.load(s, b) == Ptr(x), 'node', 'the node of a statement is the one that holds it', 'it holds another')
            else:
                k.ok(h is NULL, 'hook', 'a statement that is not in the tree refers to no node', 'it refers to %s' % (h,))
                s, b = E.one(s, 'verif::f_node', LV(pf), It(x), NULL)
                k.ok(bool(E.load(s, b)), 'cursor', 'a statement without node has no cursor', 'it has')
    return o


def reading(F):
    o = Out()
    for ok in (True, False):
        for q in ('f_open', 'f_stream', 'f_read'):
            E = BEng(F, ok, 0, None, True, 0)
            k = Ck(o, E.fn('verif::' + q), 'a file that %s be read' % ('can' if ok else 'cannot'))
            s = St()
            nm = E.new(s, sym_text(s, ('name',)))
            col, ty = symi(('col',)), symi(('type',))
            args = [LV(nm), col, ty]
            if q == 'f_stream':
                st = E.new(s, Sym('stream'))
                args = [LV(st)] + args
            if q == 'f_read':
                s, pf = E.one(s, 'verif::f_make')
                pf = E.obj(s, pf)
                s, r = E.one(s, 'verif::f_read', LV(pf), *args)
                k.ok(bool(E.load(s, r)) == ok, 'result', 'read_file tells whether the file was read', 'it yields %r' % (r,))
            else:
                s, pf = E.one(s, 'verif::' + q, *args)
                pf = E.obj(s, pf)
            log = [w for w in s.x.get('log', ()) if w[0] == 'read']
            want = tuple(E.load(s, x) for x in args)
            k.ok(len(log) == 1 and log[0][2] == want, 'reads', 'the file is read once, with the name, last column and kind given', 'calls: %s' % (log,))
            s, b = E.one(s, 'verif::f_bool', LV(pf))
            k.ok(bool(E.load(s, b)) == ok, 'state', 'the file is good if it was read', 'it is %r' % (b,))
    return o


BODY = ('PG_BLOCK', 'PG_EXECUTION_PART', 'PG_INTERFACE_SPECIFICATION', 'PG_INTERNAL_SUBPROGRAM', 'PG_MODULE_SUBPROGRAM', 'PG_SPECIFICATION_PART',
        'PG_WHERE_BODY_CONSTRUCT')
ENDED = ('PG_DERIVED_TYPE_DEF', 'PG_ENUM_DEF', 'PG_CASE_CONSTRUCT')


def table(F):
    o = Out()
    pg = sorted(v for v, n in F.tags().items() if n.startswith('PG_') and n not in ('PG_000_LB', 'PG_ZZZ_UB'))
    n, m = symi(('n',)), symi(('m',))

    def fresh(E):
        (s, t), = absnat.construct(E, St(), IT, [], E0)
        return s, t

    def read(E, s, t, k, want, cont, what):
        for x in pg:
            s, v = E.one(s, 'verif::i_get', LV(t), x)
            k.ok(E.load(s, v) == want.get(x, 0), 'indent', what, 'that of %s is %s, not %s' % (F.tags()[x], v, want.get(x, 0)))
            s, v = E.one(s, 'verif::i_at', LV(t), x)
            k.ok(E.load(s, v) == want.get(x, 0), 'indent', what, 'that of %s is %s, not %s' % (F.tags()[x], v, want.get(x, 0)))
        s, v = E.one(s, 'verif::i_cont', LV(t))
        k.ok(E.load(s, v) == cont, 'continued', what, 'that of continuation lines is %s, not %s' % (v, cont))
    E = EdEng(F)
    E.one = lambda *a: PEng.one(E, *a)
    E.fn = lambda q: PEng.fn(E, q)
    E.unroll = E.bound = 80
    ctor = [f for f in F.fns.values() if f['q'].endswith('Indent_Table::set_indent')]
    k = Ck(o, ctor[0], 'a new table')
    s, t = fresh(E)
    read(E, s, t, k, {}, 2, 'nothing is indented, continuation lines by two')
    for x in pg:
        k = Ck(o, ctor[0], 'a table with the indent of %s set' % F.tags()[x])
        s, t = fresh(E)
        s, _ = E.one(s, 'verif::i_set', LV(t), x, n)
        read(E, s, t, k, {x: n}, 2, 'an indent is that of one construct')
    s, t = fresh(E)
    s, _ = E.one(s, 'verif::i_setc', LV(t), n)
    k = Ck(o, ctor[0], 'a table with the offset of continuation lines set')
    read(E, s, t, k, {}, n, 'the offset is that of continuation lines')
    T = F.tagv
    for q, want in (('constant', {T(x): n for x in BODY + ENDED}),
                    ('fixed', {T(x): 0 if x in ('PG_EXECUTION_PART', 'PG_SPECIFICATION_PART') else n for x in BODY + ENDED}),
                    ('emacs', {T(x): 2 if x in ('PG_EXECUTION_PART', 'PG_SPECIFICATION_PART', 'PG_INTERNAL_SUBPROGRAM', 'PG_MODULE_SUBPROGRAM') else 3
                               for x in BODY + ENDED})):
        f = E.fn(IT + '::' + {'constant': 'apply_constant_indent', 'fixed': 'apply_constant_fixed_indent', 'emacs': 'apply_emacs_indent'}[q])
        for old in (0, 1):
            k = Ck(o, f, 'a table')
            s, t = fresh(E)
            if old:
                for x in BODY + ENDED:
                    s, _ = E.one(s, 'verif::i_set', LV(t), T(x), m)
            s, _ = E.one(s, 'verif::i_' + q, LV(t), *([n] if q != 'emacs' else []))
            read(E, s, t, k, want, 5, 'bodies and constructs are indented as the scheme says')
    return o


def margins(F):
    """the physical lines of a logical line"""
    o = Out()
    f = F.need(LL + '::set_leading_spaces')[0]
    P = PL
    for ls in ([P('F', 2)], [P('F', 2, 'lab', ls=1)], [P('C')], [P('B')], [P('B'), P('C')], [P('B'), P('B')], [P('C'), P('C')], [P('C'), P('B'), P('C')],
               [P('F', 2, rs=1, rt='&'), P('F', 1)], [P('F', 2, rs=1, rt='&'), P('C'), P('F', 1, 'amp')], [P('F', 3, semi=(1,)), P('C')],
               [P('F', 1, rs=1, rt='&'), P('F', 1, rs=1, rt='&'), P('B'), P('F', 1)]):
        for fixed in (0, 1):
            E = EdEng(F)

            def rec(E, s, e, o, vs):
                out = []
                for b in (False, True):
                    s2 = s.fork()
                    s2.x['indented'] = s.x.get('indented', ()) + ((E.obj(s, o), E.load(s, vs[0])),)
                    s2.x['anych'] = s.x.get('anych', False) or b
                    out.append((s2, b))
                return out
            E.intercept['FLPR::File_Line::set_leading_spaces'] = rec
            s, a, _ = build(E, St(), ls, fixed)
            n, c = symi(('n',)), symi(('c',))
            k = Ck(o, f, 'a ' + describe(ls, fixed))
            fort = any(p.kind == 'F' for p in ls)
            want = {x: ladd(n, c) if j and fort else n for j, x in enumerate(lines(E, s, a))}
            E.aborts.clear()
            rs = E.call(s, f, a, [n, c], E0)
            k.ok(bool(rs) and not E.aborts, 'paths', 'the line is indented', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))
            for s, v in rs:
                got = s.x.get('indented', ())
                k.ok(len(got) == len(want) and dict(got) == want, 'lines', 'each physical line is indented once, lines after the first of a '
                     'statement by the offset more', 'they are indented by %s' % [w for _, w in got])
                for s2, r in E.split(s, v):
                    k.ok(r == s.x.get('anych', False), 'result', 'the result tells whether anything changed', 'it is %r' % r)
    return o


def labelled(t, kinds, leaves):
    """a shape with kinds given to the inner nodes and leaves"""
    def h(x):
        if len(x) == 0:
            for k in leaves:
                yield (k,)
        else:
            for k in kinds:
                if k in 'bdn' and len(x) < 2:
                    continue
                for cs in itertools.product(*[list(h(c)) for c in x]):
                    yield (k,) + cs
    return h(t)


def P17(rep):
    F = Facts(only=PTUS)
    T = Tasks(rep, F)
    deep = rep.tier == 'thorough'
    ts = [None]
    for n in range(1, 4):
        for sh in shapes(n):
            ts += labelled(sh, 'bdnxy', ('s00', 's10', 's20', 's01', 's12', 'e'))
    for n in (4, 5, 6) if deep else (4, 5):
        for sh in shapes(n):
            ts += labelled(sh, 'bx' if n < 6 else 'b', ('s00', 's10', 's20', 'e') if n < 5 else ('s00', 'e'))
    for i in range(0, len(ts), 60):
        T.add(indent, ts[i:i + 60])
    T.add(reading)
    T.add(margins)
    T.add(table)
    seqs = [q for m in range(1, 4 if deep else 3) for q in itertools.product(OPS, repeat=m)]
    S = ('s',)
    for tree in (None, S, ('x', S), ('x', S, S), ('x', ('x', S), ('x',), S), ('x', ('x', ('x', S, S), S))):
        for match in (True, False):
            for n in {leaves(tree) if tree else 1, 2, 3}:
                if n >= (leaves(tree) if tree else 0):
                    T.add(building, True, tree, match, n, seqs)
    T.add(building, True, None, True, 0, seqs)
    T.add(building, False, S, True, 1, seqs)
    T.run()
    rep.need(1000, 'P17')
    return ('indent is followed on every tree of up to %d nodes (begin/end constructs, other constructs, statements first, later or alone on a '
            'line, with lines before them; indents unknown), prefetch/statements/parse_tree in every sequence of up to %d calls, read_file '
            'and the constructors, and every operation of Indent_Table for every program tag' % (6 if deep else 5, 3 if deep else 2))


if __name__ == '__main__':
    import sys
    F = Facts(only=PTUS)
    o = eval(sys.argv[1])
    print(o.n, o.bad, o.notes)
