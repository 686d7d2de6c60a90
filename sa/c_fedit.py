"""P15: editing a statement of a file through Logical_File"""
import itertools
import absnat
from absint import St, It, ListV, LV, NULL, VOID, Ptr
from core import Broken, Facts, rel
from text import Txt, Os, symi, sym_text
from c_text import Out, Tasks
from c_line import LL, TT, E0, TUS as LTUS, lines, frags
from c_edit import EdEng, PL, build, layout_of, snapf, freeze, new_text
from c_file import LF, Ck, range_of

TAG = 'FLPR::Syntax_Tags::'
"""logical lines, as sequences of t (token), ; and / (continued on the next physical line); L labelled, c comment"""
HOOK = 88001
EDITS = ('replace_main_text', 'replace_stmt_substr', 'insert_text_before', 'insert_text_after')


class FE(EdEng):
    def __init__(self, F):
        super().__init__(F)
        self.bound = 12
        for n in EDITS:
            self.intercept[LL + '::' + n] = lambda *a, n=n: self.edit(n, *a)
        self.intercept[LL + '::set_label'] = self.label

    def edit(self, n, E, s, e, o, vs):
        """the text of a line changes (P14): every token is read again"""
        a = self.obj(s, o)
        fr = frags(E, s, a)
        l = E.addr(s, a, 'fragments_', 'list_')
        args = [s.heap[v.a] if isinstance(v, LV) and isinstance(s.heap[v.a], Txt) else E.load(s, v) for v in vs]
        if n == 'replace_stmt_substr':
            args[0] = tuple(fr.index(x.n) if x.n in fr else len(fr) for x in range_of(E, s, vs[0].a)[:2])
        elif n == 'replace_main_text':
            args[0] = tuple(s.heap[x] if isinstance(x, int) else x for x in s.heap[vs[0].a].n)
        else:
            end = list(s.heap[E.addr(s, a, 'fragments_', 'list_')].n)
            if args[0].n not in end:
                E.aborts.append(('%s is given a token of another line, or one that is gone' % n, rel(e['l']), s))
                return []
            args[0] = end.index(args[0].n)
        s.x['edits'] = s.x.get('edits', ()) + ((n, a, tuple(args), tuple(keys(E, s, fr))),)
        kinds = [E.get(s, t, 'token') for t in fr]
        semi = E.kinds[1]
        if n == 'replace_main_text':
            kinds = [E.kinds[0]] * 3
        else:
            # one more token in the statement that is edited
            k = next((i for i, x in enumerate(kinds) if x != semi), len(kinds))
            kinds = kinds[:k] + [E.kinds[0]] + kinds[k:]
        for t in fr:
            s.x.pop(('own', t), None)
        new = []
        for k in kinds:
            (s2, t), = absnat.construct(E, s, TT, [], E0)
            assert s2 is s
            s.heap[E.addr(s, t, 'token')] = k
            s.x[('own', t)] = l
            new.append(t)
        s.heap[l] = ListV(s.heap[l].t, tuple(new) + s.heap[l].n[-1:])
        r = E.call(s, E.F.need(LL + '::init_stmts')[0], a, [], E0)
        if len(r) != 1:
            raise Broken('init_stmts on a known line: %d results' % len(r))
        return [(r[0][0], VOID)]

    def label(self, E, s, e, o, vs):
        a = self.obj(s, o)
        v = E.load(s, vs[0])
        s.x['edits'] = s.x.get('edits', ()) + (('set_label', a, (v,), ()),)
        s.heap[E.addr(s, a, 'label')] = v
        return [(s, self.changes)]


def keys(E, s, fr):
    """tokens are told apart by the place they record; splitting a line makes new ones"""
    return [E.get(s, t, 'start_pos') for t in fr]


def pls(w):
    if w == 'c':
        return [PL('C')]
    lab = w[0] == 'L'
    out = []
    ps = w.lstrip('L').split('/')
    for i, p in enumerate(ps):
        out.append(PL('F', len(p), 'lab' if lab and not i else '', ls=1, semi=tuple(k for k, c in enumerate(p) if c == ';'),
                      rs=i + 1 < len(ps), rt='&' if i + 1 < len(ps) else ''))
    return out


def words(w):
    """the statements of a line, as token numbers"""
    out, cur = [], []
    for k, c in enumerate(w.lstrip('L').replace('/', '')):
        if c == ';':
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(k)
    return out + [cur] if cur else out


def file_of(E, s, ws):
    F = E.F
    (s, a), = absnat.construct(E, s, LF, [], E0)
    l = E.addr(s, a, 'lines', 'list_')
    nodes = []
    for j, w in enumerate(ws):
        if w == 'c':
            (s, x), = absnat.construct(E, s, LL, [], E0)
            r = E.call(s, F.need(LL + '::init_stmts')[0], x, [], E0)
            s = r[0][0]
        else:
            s, x, _ = build(E, s, pls(w), 0)
            s.heap[E.addr(s, x, 'label')] = 10 + j if w[0] == 'L' else 0
            for q, t in enumerate(frags(E, s, x)):
                s.heap[E.addr(s, t, 'start_pos')] = 100 * (j + 1) + q
        s.x[('own', x)] = l
        nodes.append(x)
    v = s.heap[l]
    s.heap[l] = ListV(v.t, tuple(nodes) + v.n[-1:])
    r = E.call(s, F.need(LF + '::make_stmts')[0], a, [], E0)
    if len(r) != 1:
        raise Broken('make_stmts: %d results' % len(r))
    s = r[0][0]
    for k, x in enumerate(seq(E, s, a, 'll_stmts')):
        s.heap[E.addr(s, x, 'hook_')] = Ptr(HOOK + k)
        s.heap[E.addr(s, x, 'stmt_syntag_')] = 3000 + k
        t = E.addr(s, x, 'stmt_tree_')
        (s, b), = absnat.construct(E, s, s.heap[t].t, [LV(E.new(s, 3000 + k))], E0)
        s.heap[t] = s.heap[b]
    return s, a, nodes


def seq(E, s, a, n):
    return list(s.heap[E.addr(s, a, n, 'list_')].n[:-1])


def ref(E, s, x):
    """the line a statement refers to"""
    for n, y in s.heap[x].f.items():
        if n not in ('begin_', 'end_') and isinstance(s.heap[y], It):
            return s.heap[y]
    raise Broken('no line reference in a statement')


def treeless(E, s, x):
    f = [f for f in E.F.need('FLPR::Tree<FLPR::Stmt::ST_Node_Data>::empty')]
    r = E.call(s.fork(), f[0], E.addr(s, x, 'stmt_tree_'), [], E0)
    if len(r) != 1:
        raise Broken('Tree::empty: %d results' % len(r))
    return bool(r[0][1])


def snap(E, s, a):
    """what is recorded of the statements"""
    out = []
    for x in seq(E, s, a, 'll_stmts'):
        out.append(dict(node=x, line=ref(E, s, x), range=range_of(E, s, x), label=E.get(s, x, 'label_'), compound=E.get(s, x, 'compound_'),
                        hook=E.get(s, x, 'hook_'), tag=E.get(s, x, 'stmt_syntag_'),
                        prefix=[s.heap[y] for y in s.heap[E.addr(s, x, 'prefix_lines')].n], bare=treeless(E, s, x)))
    return out


class Model:
    """lines: [(line node or None for a new one, [statement indices])]"""

    def __init__(self, nodes, snaps):
        self.lines = [[n, [k for k, x in enumerate(snaps) if x['line'] == It(n)]] for n in nodes]

    def at(self, k):
        return next(i for i, (n, ks) in enumerate(self.lines) if k in ks)

    def split(self, k):
        i = self.at(k)
        n, ks = self.lines[i]
        m = ks.index(k)
        if not m:
            return False
        self.lines[i:i + 1] = [[n, ks[:m]], [None, ks[m:]]]
        return True

    def isolate(self, k):
        r = self.split(k)
        n, ks = self.lines[self.at(k)]
        m = ks.index(k)
        if m + 1 < len(ks):
            r = self.split(ks[m + 1]) or r
        return r


OPS = {
    'split_compound_before': 0, 'isolate_stmt': 0, 'emplace_ll_stmt': 0, 'emplace_ll_stmt_after_prefix': 0, 'replace_stmt_text': 0,
    'replace_stmt_substr': 1, 'insert_text_after': 1, 'append_stmt_text': 0, 'set_stmt_label': 2}


def one(F, ws, op, k, m=0, n=0, changes=True, o=None):
    """op on statement k; m, n: tokens of it, or the label"""
    o = o or Out()
    E = FE(F)
    E.changes = changes
    s, a, nodes = file_of(E, St(), ws)
    before = snap(E, s, a)
    toks = {i: [t for t in frags(E, s, x)] for i, x in enumerate(nodes)}
    place = [(i, w) for i, x in enumerate(ws) if x != 'c' for w in words(x)]
    node = [[toks[i][t] for t in w] for i, w in place]
    mine = [[100 * (i + 1) + t for t in w] for i, w in place]
    f = F.need(LF + '::' + op)[0]
    c = Ck(o, f, '%s of statement %d of "%s"' % (op, k + 1, ' | '.join(ws)))
    c.ok(len(before) == len(place), 'made', 'the file has its statements', '%d, not %d' % (len(before), len(place)))
    if len(before) != len(place):
        return o
    model = Model(nodes, before)
    pos = LV(E.new(s, It(before[k]['node'])))
    want_edit = result = None
    newline = newtag = None
    edited = k if op in ('replace_stmt_text', 'replace_stmt_substr', 'insert_text_after', 'append_stmt_text') else None
    args = [pos]
    label = {i: b['label'] for i, b in enumerate(before)}
    if op == 'split_compound_before':
        result = model.split(k)
    elif op == 'isolate_stmt':
        result = model.isolate(k)
    elif op.startswith('emplace'):
        s, newline, _ = build(E, s, [PL('F', 2, ls=1)], 0)
        ntoks = frags(E, s, newline)
        args += [LV(newline), LV(E.new(s, 4001))]
        i = model.at(k)
        if model.lines[i][1][0] != k:
            model.split(k)
            i += 1
        if op == 'emplace_ll_stmt':
            i -= len(before[k]['prefix'])
        model.lines.insert(i, ['new', ['new']])
    elif op == 'replace_stmt_text':
        t = new_text(E, s)
        (s2, v), = absnat.construct(E, s, 'std::vector<std::string>', [], E0)
        assert s2 is s
        x = E.new(s, t)
        s.heap[v] = ListV(s.heap[v].t, (x,))
        newtag = 3000 + k if m else 4001
        args += [LV(v), LV(E.new(s, newtag))]
        model.isolate(k)
        want_edit = ('replace_main_text', (t,))
    elif op == 'replace_stmt_substr':
        t = new_text(E, s)
        b, e = It(node[k][m]), nxt(E, s, nodes[place[k][0]], node[k][n])
        (s2, r), = absnat.construct(E, s, 'FLPR::SL_Range<FLPR::Token_Text>', [LV(E.new(s, b)), LV(E.new(s, e))], E0)
        assert s2 is s
        (s2, r), = absnat.construct(E, s, 'FLPR::LL_TT_Range', [LV(E.new(s, before[k]['line'])), LV(r)], E0)
        assert s2 is s
        args += [LV(r), LV(E.new(s, t))]
        model.isolate(k)
    elif op == 'insert_text_after':
        t = new_text(E, s)
        args += [LV(E.new(s, It(node[k][m]))), LV(E.new(s, t))]
        model.isolate(k)
    elif op == 'append_stmt_text':
        t = new_text(E, s)
        args += [LV(E.new(s, t))]
        model.isolate(k)
    elif op == 'set_stmt_label':
        args += [LV(E.new(s, m))]
        if m and not before[k]['label']:
            model.split(k)
        result = bool(m or before[k]['label'])
        label[k] = m
    E.aborts.clear()
    rs = E.call(s, f, a, args, E0)
    c.ok(bool(rs) and not E.aborts, 'paths', 'the edit succeeds', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))

    def after(s, v):
        now = snap(E, s, a)
        ln = seq(E, s, a, 'lines')
        c.ok(len(ln) == len(model.lines), 'lines', 'only the lines documented are made', '%d lines, not %d' % (len(ln), len(model.lines)))
        order = list(range(len(before)))
        if newline is not None:
            order.insert(k, 'new')
        c.ok(len(now) == len(order), 'statements', 'statements are neither lost nor made up', '%d statements, not %d' % (len(now), len(order)))
        if len(ln) != len(model.lines) or len(now) != len(order):
            return
        newst = None
        for w, x in zip(order, now):
            if w == 'new':
                newst = x
                continue
            c.ok(x['node'] == before[w]['node'], 'order', 'statements stay, in order', 'statement %d is not where it was' % (w + 1))
        if result is not None:
            if op == 'set_stmt_label' and result:
                c.ok(v == changes, 'result', 'the result says whether the line changed', 'it is %r' % (v,))
            else:
                c.ok(bool(v) == result, 'result', 'the result says whether anything changed', 'it is %r' % (v,))
        if newst is not None:
            c.ok(v == It(newst['node']), 'result', 'the new statement is returned', 'another is')
        pos_of = {w: x for w, x in zip(order, now)}
        for (n0, ks), n1 in zip(model.lines, ln):
            if n0 is not None and n0 != 'new':
                c.ok(n1 == n0, 'line order', 'lines stay, in order', 'a line is moved')
            else:
                c.ok(n1 not in nodes, 'line order', 'a new line is made in its place', 'an old line stands there')
            st = [range_of(E, s, x) for x in s.heap[E.addr(s, n1, 'stmts_')].n]
            c.ok(len(st) == len(ks), 'line statements', 'a line records its statements', 'a line has %d, not %d' % (len(st), len(ks)))
            fr = frags(E, s, n1)
            if len(st) != len(ks):
                continue
            for i, w in enumerate(ks):
                x = pos_of[w]
                at = 'the new statement' if w == 'new' else 'statement %d' % (w + 1)
                c.ok(x['line'] == It(n1), 'line', 'a statement refers to the line it is on', '%s refers to another line' % at)
                c.ok(x['range'] == st[i], 'range', 'a statement has the tokens its line has for it', '%s has other tokens (%r, not %r)' % (
                    at, x['range'], st[i]))
                c.ok(x['compound'] == (i + 1 if len(ks) > 1 else 0), 'number', 'statements sharing a line are numbered from 1, others have 0',
                     '%s has number %r' % (at, x['compound']))
                if w == 'new':
                    c.ok([t for t in fr] == ntoks, 'new line', 'the new line is the one given', 'it has other tokens')
                    c.ok(x['label'] == 0 and x['tag'] == 4001 and x['hook'] == NULL and x['bare'], 'new', 'a new statement has the tag given, '
                         'and no label, tree or node', 'it has %r' % ((x['label'], x['tag'], x['hook'], x['bare']),))
                    continue
                b = before[w]
                if w != edited:
                    body = keys(E, s, fr)[fr.index(x['range'][0].n):][:x['range'][2]] if x['range'][0].n in fr else []
                    c.ok(body == mine[w], 'tokens', 'a statement keeps its tokens', '%s has other tokens' % at)
                    c.ok(x['hook'] == b['hook'], 'node', 'statements not edited keep their node of the program', '%s loses it' % at)
                else:
                    c.ok(x['hook'] == NULL, 'node', 'an edited statement is not any more what its node of the program says', '%s keeps it' % at)
                c.ok(x['label'] == label[w], 'label', 'statements keep their labels', '%s has label %r, not %r' % (at, x['label'], label[w]))
                tg = newtag if op == 'replace_stmt_text' and w == k else b['tag']
                c.ok(x['tag'] == tg, 'tag', 'statements keep their tags', '%s has tag %r, not %r' % (at, x['tag'], tg))
                if w == edited or x['range'] != b['range']:
                    c.ok(x['bare'], 'tree', 'the tree of a statement does not outlive its tokens', '%s keeps the old tree' % at)
                pre = b['prefix']
                if op == 'emplace_ll_stmt_after_prefix' and w == k:
                    pre = []
                c.ok(x['prefix'] == pre, 'prefix', 'the lines before a statement stay with it', '%s has others' % at)
            if ks and ks != ['new']:
                c.ok(E.get(s, n1, 'label') == label.get(ks[0], 0) if op != 'set_stmt_label' else True, 'line label', 'a line keeps its label',
                     'a line has label %r' % E.get(s, n1, 'label'))
        if newst is not None:
            pre = before[k]['prefix'] if op == 'emplace_ll_stmt_after_prefix' else []
            c.ok(newst['prefix'] == pre, 'prefix', 'the prefix is handed over as documented', 'the new statement has %d lines before it' % len(
                newst['prefix']))
        # ---- the text edit itself
        ed = s.x.get('edits', ())
        mk = It(ln[model.at(k)]) if newline is None else None
        if edited is None:
            if op == 'set_stmt_label':
                w = [('set_label', ln[model.at(k)], (m,))] if m or before[k]['label'] else []
                c.ok([x[:3] for x in ed] == w, 'edit', 'the label of the line is set, once', 'the edits are %r' % ([x[:3] for x in ed],))
            else:
                c.ok(not ed, 'edit', 'no text is changed', 'the text is edited by %s' % (ed[0][0] if ed else '-'))
            return
        c.ok(len(ed) == 1 and ed[0][1] == ln[model.at(k)], 'edit', 'the text of the line of the statement is edited, once', 'the edits are %r' % (
            [x[:2] for x in ed],))
        if len(ed) != 1:
            return
        name, _, av, fr = ed[0]
        fr = list(fr)
        last = fr.index(mine[k][-1]) if mine[k][-1] in fr else None
        inside = [t for t in fr if t in mine[k]]
        c.ok(inside == mine[k], 'edit', 'the statement is alone on its line, whole', 'it is not')

        if inside != mine[k]:
            return
        if op == 'replace_stmt_text':
            c.ok(name == 'replace_main_text' and [x.p for x in av[0]] == [t.p], 'edit', 'the text given replaces the text of the line', '%s %r' % (name, av))
        elif op == 'replace_stmt_substr':
            g = name == 'replace_stmt_substr' and av[0] == (fr.index(mine[k][m]), fr.index(mine[k][n]) + 1) and av[1].p == t.p
            c.ok(g, 'edit', 'the tokens given are replaced by the text given', '%s %r' % (name, av))
        else:
            i = mine[k][m] if op == 'insert_text_after' else mine[k][-1]
            g = name == 'insert_text_after' and av[0] == fr.index(i) or \
                op == 'append_stmt_text' and name == 'insert_text_before' and av[0] == fr.index(i) + 1
            c.ok(g and av[1].p == t.p, 'edit', 'the text given is put behind the token given', '%s %r' % (name, av))

    for s1, v1 in rs:
        after(s1, v1)
    return o


def nxt(E, s, line, t):
    n = s.heap[E.addr(s, line, 'fragments_', 'list_')].n
    return It(n[n.index(t) + 1])


TUS = ('Logical_File.cc', 'Logical_Line.cc', 'File_Line.cc', 'LL_Stmt_Src.cc', 'File_Info.cc', 'Token_Text.cc', 'LL_TT_Range.cc',
       'LL_Stmt.cc', 'Stmt_Tree.cc', 'Stmt_Parser_Exts.cc')


def edits(F, ws, op):
    """op at every statement (and token, or label) of the file"""
    o = Out()
    for k, (i, w) in enumerate((i, w) for i, x in enumerate(ws) if x != 'c' for w in words(x)):
        kind = OPS[op]
        n = len(w)
        if kind == 0 and op != 'replace_stmt_text':
            more = [()]
        elif op == 'replace_stmt_substr':
            more = [(p, q) for p in range(n) for q in range(p, n)]
        elif op == 'replace_stmt_text':
            more = [(0,), (1,)]
        elif kind == 1:
            more = [(p,) for p in range(n)]
        else:
            more = [(0, 0, True), (0, 0, False), (77, 0, True), (77, 0, False)]
        for m in more:
            one(F, ws, op, k, *m, o=o)
    return o


LINES = ('t', 'tt', 'Ltt', 't;t', 'Lt;tt', 'tt;t;t', 'Lt;t;tt', ';tt', 'tt;', ';t;;t', 'Lt;;t;', 't;t;t;t', 'tt/t', 't;t/t', 't;/t;t', 't/;t', 't;t/t;t',
         't/t;t')
"""lines around the one edited"""
AROUND = (('', ''), ('c', ''), ('t;t|c|c', 't'), ('t', 'c|t;t'))


def files(deep):
    for x in LINES:
        for b, e in AROUND:
            yield [w for w in b.split('|') + [x] + e.split('|') if w]
    if deep:
        for n in (2, 3):
            for t in itertools.product(('c', 't', 'Lt', 't;t', ';Lt;t;t'.replace('L', ''), 't;t;'), repeat=n):
                yield list(t)


def P15(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    fs = list(files(rep.tier == 'thorough'))
    for op in OPS:
        for ws in fs:
            T.add(edits, ws, op)
    T.run()
    rep.need(20000, 'P15')
    return '%d edits are followed at every statement and token of %d files of up to %d logical lines' % (len(OPS), len(fs), max(map(len, fs)))


def survey(F, op, deep=0):
    r = []
    n = 0
    for ws in files(deep):
        o = edits(F, ws, op)
        n += o.n
        r += o.bad
    b = {}
    for x in r:
        b.setdefault(x[0], (x[3], sum(y[0] == x[0] for y in r)))
    o = Out()
    o.n, o.bad = n, list(b.items())
    return o


if __name__ == '__main__':
    F = Facts(only=None)
    import time, sys
    t = time.time()
    o = eval(sys.argv[1])
    print(o.n, o.bad, time.time() - t)
