"""P08, P14: tokens of a line, their places, and edits through them"""
import itertools
import absnat
from absint import *
from core import Facts, Broken, rel, walk
from text import *
from c_text import LineEng, FIELDS, Tasks, Out

TUS = ['File_Line.cc', 'Line_Accum.cc', 'Token_Text.cc', 'Logical_Line.cc']
LL = 'FLPR::Logical_Line'
SPACE = frozenset((32, 9, 10, 11, 12, 13))
TT = 'FLPR::Token_Text'


def lazy_loop(E, n, st, test, body, inc, do):
    """loops over containers are followed; loops over texts are generalised"""
    where = rel(n.get('l', ''))
    if where not in E.textual:
        nt, na, hook = len(E.trunc), len(E.aborts), E.loop_hook
        E.loop_hook = None
        try:
            # nested loops need the hook: Engine.loop looks at it once, before the iterations
            r = unrolled(E, n, st.fork(), test, body, inc, do, hook)
        finally:
            E.loop_hook = hook
        if r is not None:
            return r
        del E.trunc[nt:]
        del E.aborts[na:]
        E.textual.add(where)
    return havoc_loop(E, n, st, test, body, inc, do)


def unrolled(E, n, st, test, body, inc, do, hook):
    E.loop_hook = hook
    out, cur = [], [st]
    for it in range(E.bound + 1):
        nxt = []
        for s in cur:
            enter = []
            if do and it == 0:
                enter = [s]
            else:
                for s1 in (E.with_init({'cvar': n.get('cvar')}, s) if n.get('cvar') else [s]):
                    for s2, b in (E.cond(test, s1) if test else [(s1, True)]):
                        if b:
                            enter.append(s2)
                        else:
                            out.append(('n', s2, None))
            if it == E.bound and enter:
                return None
            for s2 in enter:
                for kind, s3, v in E.ex(body, s2):
                    if kind in ('n', 'c'):
                        nxt += [s4 for s4, _ in E.ev(inc, s3)] if inc else [s3]
                    elif kind == 'b':
                        out.append(('n', s3, None))
                    else:
                        out.append((kind, s3, v))
        cur = nxt
        if not cur:
            break
    return out


class TokEng(LineEng):
    def __init__(self, F):
        super().__init__(F)
        self.loop_hook = lazy_loop
        self.textual = set()
        self.bound = 6
        self.tokens = 2
        self.intercept['yy_scan_string'] = self.scan
        self.intercept['yylex'] = self.lex
        self.intercept['yy_delete_buffer'] = lambda E, s, e, o, vs: [(s, VOID)]
        self.intercept['FLPR::details_::Smash_Hash::in_word_set'] = self.smash

        self.intercept['FLPR::Token_Text::lower'] = self.lower
        self.intercept['std::stoi'] = self.stoi

    def stoi(self, E, s, e, o, vs):
        t = norm(E, s, text(E, s, vs[0], e))
        w = ''.join(p[1] for p in t.p if p[0] in ('l', 'k'))
        if len(t.p) != 1 or not w.strip().isdigit():
            raise Undecided('number in %s' % (t,))
        if len(vs) > 1:
            p = E.load(s, vs[1])
            if isinstance(p, Ptr):
                s.heap[p.a] = len(w.rstrip())
        return [(s, int(w))]

    def lower(self, E, s, e, o, vs):
        t = norm(E, s, E.get(s, E.obj(s, o), 'text_'))
        E.ctr += 1
        base = ('low', E.ctr)
        u = sym_text(s, base)
        n = tlen(t)
        s.x['low'] = s.x.get('low', ()) + ((base, t),)
        return [(s, LV(E.new(s, Txt((('s', base, 0, n),)))))]

    # ------------------------------------------------ the scanner, as P07 has it
    def scan(self, E, s, e, o, vs):
        """the buffer is any sequence of tokens with blanks around them"""
        buf = text(E, s, vs[0], e)
        one = joined(E, s, buf)
        if one is not None:
            for k, v in list(s.heap.items()):
                if isinstance(v, Txt) and v == buf:
                    s.heap[k] = one
            buf = one
        n = tlen(buf)
        out = []
        cur = [(s, (), 0)]
        for k in range(E.tokens + 1):
            nxt = []
            for s1, toks, prev in cur:
                for s2 in blanks(E, s1.fork(), buf, prev, n):
                    s2.x['buf'], s2.x['toks'], s2.x['next'] = buf, toks, 0
                    out.append((s2, Sym('buffer')))
                if k == E.tokens:
                    continue
                a, b = symi(('a', k)), symi(('b', k))
                s2 = s1.fork()
                if not (E.assume_le(s2, ladd(prev, a, -1), 0) and E.assume_le(s2, ladd(ladd(a, 1), b, -1), 0) and
                        E.assume_le(s2, ladd(b, n, -1), 0)):
                    continue
                for s3 in blanks(E, s2, buf, prev, a):
                    for s4, c in at(E, s3, buf, a, E0):
                        if isinstance(c, Tag):
                            s4.tags[c.s] = s4.tags[c.s] - SPACE
                            if not s4.tags[c.s]:
                                continue
                        elif c in SPACE:
                            continue
                        # the text of the token, so that later cuts agree
                        for s5, _, _, _ in part(E, s4, buf, a, ladd(b, a, -1), E0):
                            if E.feasible(s5):
                                for tag in E.kinds:
                                    nxt.append((s5.fork(), toks + ((a, b, tag),), b))
            cur = nxt
        return out

    def lex(self, E, s, e, o, vs):
        toks, k = s.x['toks'], s.x['next']
        buf = s.x['buf']
        n = tlen(buf)
        if k == len(toks):
            s.heap['g:curr_line_pos'] = n
            s.x['ended'] = True
            return [(s, 0)]
        a, b, tag = toks[k][:3]
        s.x['next'] = k + 1
        s.heap['g:curr_line_pos'] = b
        s.heap['g:yyleng'] = ladd(b, a, -1)
        out = []
        for s3, _, t, _ in part(E, s, buf, a, ladd(n, a, -1), E0):
            s3.heap['g:yytext'] = t
            out.append((s3, tag))
        return out

    def smash(self, E, s, e, o, vs):
        k = s.x['next'] - 1
        a, b, tag = s.x['toks'][k][:3]
        given = text(E, s, vs[0], e)
        low = dict(s.x.get('low', ()))
        want = low.get(given.p[0][1]) if len(given.p) == 1 and given.p[0][0] == 's' else None
        s.x['looked'] = s.x.get('looked', ()) + ((k, want, E.load(s, vs[1])),)
        s1 = s.fork()
        out = [(s, NULL)]
        c = symi(('c', k))
        E.assume_le(s1, ladd(ladd(a, 1), c, -1), 0)
        E.assume_le(s1, ladd(ladd(c, 1), b, -1), 0)
        if E.feasible(s1):
            r = E.new(s1, Rec('FLPR::details_::Smashed', {
                'name': E.new(s1, Sym('smashed name')), 'tok1': E.new(s1, E.k1), 'tok2': E.new(s1, E.k2),
                'splitpos': E.new(s1, ladd(c, a, -1))}))
            s1.x['toks'] = s1.x['toks'][:k] + ((a, b, tag, c),) + s1.x['toks'][k + 1:]
            out.append((s1, Ptr(r)))
        return out


def joined(E, s, t):
    """the pieces of A with single blanks between them as one piece of A, whose characters at the
    ends of the lines are taken to be those blanks"""
    p = t.p
    if len(p) < 2 or p[0][0] != 's':
        return None
    gaps, end = [], p[-1][3] if p[-1][0] == 's' else None
    for i in range(1, len(p), 2):
        w = p[i - 1]
        if i + 1 == len(p):
            if p[i][0] not in ('l', 'k') or p[i][1].strip(' ') or w[0] != 's':
                return None
            gaps += [ladd(w[3], j) for j in range(len(p[i][1]))]
            end = ladd(w[3], len(p[i][1]))
            break
        x = p[i + 1]
        k = len(p[i][1]) if p[i][0] in ('l', 'k') and not p[i][1].strip(' ') else 0
        if not k or x[0] != 's' or x[1] != w[1] or not eqv(E, s, ladd(w[3], k), x[2]):
            return None
        gaps += [ladd(w[3], j) for j in range(k)]
    for g in gaps:
        c = char_at(E, s, p[0][1], g)
        s.tags[c.s] = frozenset((32,))
    return Txt((('s', p[0][1], p[0][2], end),))


def blanks(E, s, buf, lo, hi):
    """[state]: the characters of buf in [lo,hi) are blank"""
    if lo == hi:
        return [s]
    out = []
    for s1, _, t, _ in part(E, s, buf, lo, ladd(hi, lo, -1), E0):
        ok = True
        for p in t.p:
            if p[0] == 's':
                ok = add_range(E, s1, p[1], p[2], p[3], frozenset((32, 9, 13))) and ok
            elif p[0] == 'f':
                ok = ok and p[1] in (32, 9, 13)
            else:
                ok = ok and not p[1].strip(' \t\r')
        if ok and E.feasible(s1):
            out.append(s1)
    return out


def layout(E, s, shape):
    """a line of the given physical lines: 'F' Fortran text, 'C' comment; returns (line object, [places])"""
    (s, a), = absnat.construct(E, s, LL, [], E0)
    lay = E.addr(s, a, 'layout_')
    t = s.heap[lay].t
    nodes, info, q = [], [], 0
    first = True
    for i, (k, ls, rs, lt) in enumerate(shape):
        (s, f), = absnat.construct(E, s, 'FLPR::File_Line', [], E0)
        r = s.heap[f].f
        s.heap[r['linenum']] = symi(('line', i))
        s.zone.add('', ('line', i), 0)
        s.zone.add(('line', i), '', 1 << 30)
        s.heap[r['left_txt']] = Txt((('k', lt),)) if lt else Txt()
        bits = list(s.heap[r['classification_']].b)
        if lt:
            bits[E.bitno['label']] = True
        if k in 'CB':
            bits[E.bitno['comment' if k == 'C' else 'blank']] = True
            s.heap[r['main_txt']] = Txt()
            s.heap[r['right_txt']] = sym_text(s, ('note', i), 1) if k == 'C' else Txt()
            p = None
        else:
            p = q
            if not first and ls:
                p = ladd(p, 1)
            q = symi(('q', i))
            E.assume_le(s, ladd(ladd(p, 1), q, -1), 0)
            E.assume_le(s, q, 1 << 30)
            s.heap[r['main_txt']] = Txt((('s', 'A', p, q),))
            info.append((i, p, q))
            if rs:
                q = ladd(q, 1)
            first = False
        s.heap[r['classification_']] = Bits(bits)
        for f_, have in (('left_space', ls), ('right_space', rs)):
            if have:
                m = symi((f_, i))
                E.assume_le(s, ladd(1, m, -1), 0)
                E.assume_le(s, m, 1 << 20)
                s.heap[r[f_]] = Txt((('f', 32, m),))
            else:
                s.heap[r[f_]] = Txt()
        nodes.append(f)
    s.heap[lay] = ListV(t, tuple(nodes))
    for f in nodes:
        s.x[('own', f)] = lay
    return s, a, info



def deduce(E, s, chars=False):
    """a character outside the set of a range that starts before it ends that range; False when
    contradictory"""
    for _ in range(6):
        new = False
        for b, lo, hi, S in s.x.get('rng', ()):
            for k, cs in list(s.tags.items()):
                if isinstance(k, tuple) and k[:2] == ('ch', b) and cs <= S and E.entails_le(s, lo, hi) and \
                        eqv(E, s, k[2], hi):
                    r = (b, lo, ladd(hi, 1), S)
                    if r not in s.x['rng']:
                        s.x['rng'] = tuple(s.x['rng']) + (r,)
                        new = True
        for b, lo, hi, S in s.x.get('rng', ()):
            for k in list(s.tags):
                if not (isinstance(k, tuple) and k[:2] == ('ch', b)) or s.tags[k] & S:
                    continue
                if E.entails_le(s, lo, k[2]) and not E.entails_le(s, hi, k[2]):
                    if not E.assume_le(s, ladd(hi, k[2], -1), 0):
                        return False
                    new = True
                elif E.entails_le(s, ladd(k[2], 1), hi) and not E.entails_le(s, ladd(k[2], 1), lo):
                    if not E.assume_le(s, ladd(ladd(k[2], 1), lo, -1), 0):
                        return False
                    new = True
        for k, j in itertools.combinations([k for k in s.tags if isinstance(k, tuple) and k[:1] == ('ch',)] if chars else (), 2):
            if k[1] != j[1] or s.tags[k] & s.tags[j]:
                continue
            for x, y in ((k[2], j[2]), (j[2], k[2])):
                if E.entails_le(s, x, y) and not E.entails_le(s, ladd(x, 1), y):
                    if not E.assume_le(s, ladd(ladd(x, 1), y, -1), 0):
                        return False
                    new = True
        if not new:
            break
    return E.feasible(s)


def frags(E, s, a):
    """the token objects of a line, without the sentry"""
    l = E.addr(s, a, 'fragments_', 'list_')
    return list(s.heap[l].n[:-1])


def lines(E, s, a):
    return list(s.heap[E.addr(s, a, 'layout_')].n)


def place(E, s, info, x):
    """[(state, layout index, offset)]: where position x of the joined text stands"""
    out, cur = [], s
    for k, (i, p, q) in enumerate(info):
        if k + 1 == len(info):
            out.append((cur, i, ladd(x, p, -1)))
            break
        nx = None
        for s2, b in E.split_cmp(cur, '<', x, info[k + 1][1]):
            if b:
                out.append((s2, i, ladd(x, p, -1)))
            else:
                nx = s2
        if nx is None:
            break
        cur = nx
    return out


def expected(E, s, info, shape):
    """[(state, [token])]: token = dict of what its object should hold"""
    toks = s.x['toks']
    n = tlen(s.x['buf'])
    parts = []
    for k, t in enumerate(toks):
        a, b, tag = t[:3]
        before = 0 if k == 0 else ladd(a, toks[k - 1][1], -1)
        after = ladd(toks[k + 1][0], b, -1) if k + 1 < len(toks) else ladd(n, b, -1)
        if len(t) > 3:
            parts.append((a, t[3], E.k1, before, 0))
            parts.append((t[3], b, E.k2, 0, after))
        else:
            parts.append((a, b, tag, before, after))
    cur = [(s, [])]
    for a, b, tag, pre, post in parts:
        nxt = []
        for s1, acc in cur:
            for s2, i, c in place(E, s1, info, a):
                for s3, j, d in place(E, s2, info, ladd(b, -1)):
                    for s4, _, t, _ in part(E, s3, s3.x['buf'], a, ladd(b, a, -1), E0):
                        if not E.feasible(s4):
                            continue
                        fc = ladd(len(shape[i][3]), 1)
                        if shape[i][1]:
                            fc = ladd(fc, symi(('left_space', i)))
                        nxt.append((s4, acc + [dict(
                            token=tag, text_=t, start_line=symi(('line', i)), start_pos=ladd(fc, c),
                            mt_begin_line_=i, mt_begin_col_=c, mt_end_line_=j, mt_end_col_=ladd(d, 1),
                            pre_spaces_=pre, post_spaces_=post)]))
        cur = nxt
    return cur


WHAT = dict(token='tag', text_='text', start_line='file line', start_pos='file column',
            mt_begin_line_='first line in the layout', mt_begin_col_='first column in its line',
            mt_end_line_='last line in the layout', mt_end_col_='end column in its line',
            pre_spaces_='number of blanks before it', post_spaces_='number of blanks after it')


def equal(E, s, v, w):
    if isinstance(w, Txt):
        return isinstance(v, Txt) and same_text(E, s, v, w)
    if isinstance(v, (int, Lin)) and isinstance(w, (int, Lin)):
        return eqv(E, s, v, w)
    return v == w


def same_text(E, s, v, w):
    v, w = norm(E, s, v), norm(E, s, w)
    if v == w:
        return True
    if len(v.p) != len(w.p):
        return False
    for x, y in zip(v.p, w.p):
        if x[0] != y[0]:
            return False
        if x[0] == 's':
            if x[1] != y[1] or not eqv(E, s, x[2], y[2]) or not eqv(E, s, x[3], y[3]):
                return False
        elif x[0] == 'f':
            if x[1] != y[1] or not eqv(E, s, x[2], y[2]):
                return False
        elif x != y:
            return False
    return True


def shapes(thorough):
    F1 = [('F', 0, 0, ''), ('F', 1, 0, ''), ('F', 0, 1, '10')]
    out = [[f] for f in F1]
    for ls in (0, 1):
        for rs in (0, 1):
            out.append([('F', 0, rs, ''), ('F', ls, 0, '')])
    out += [[('F', 1, 1, ''), ('C', 1, 0, ''), ('F', 1, 0, '')],
            [('C', 0, 0, ''), ('F', 1, 0, '')],
            [('F', 1, 0, '10'), ('C', 0, 0, ''), ('F', 0, 0, '')],
            [('F', 0, 0, ''), ('B', 0, 0, ''), ('F', 0, 0, '')],
            [('F', 0, 0, ''), ('F', 1, 1, '')], [('F', 1, 0, ''), ('F', 1, 1, ''), ('F', 1, 0, '')]]
    if thorough:
        out += [[('F', 1, 1, ''), ('B', 0, 0, ''), ('F', 1, 1, ''), ('F', 0, 1, '')],
                [('F', 0, 0, ''), ('C', 0, 0, ''), ('C', 0, 0, ''), ('F', 0, 1, ''), ('F', 1, 0, '')]]
    return out


def describe(shape):
    return ' / '.join({'F': 'text', 'C': 'comment', 'B': 'blank line'}[k] + (' indented' if ls else '') +
                      (' with blanks after it' if rs else '') + (' with a label' if lt else '') for k, ls, rs, lt in shape)


def engine(F, tokens):
    E = TokEng(F)
    E.tokens = tokens
    E.kinds = (F.tagv('TK_NAME'), F.tagv('TK_SEMICOLON'))
    E.k1, E.k2 = F.tagv('KW_END'), F.tagv('KW_DO')
    return E


def havoc(v):
    """does the value depend on what a loop leaves behind (and not only on the line)?"""
    if isinstance(v, int):
        return False
    if isinstance(v, Lin):
        return any(not (isinstance(k, tuple) and k[0] in ('a', 'b', 'c', 'q', 'line', 'left_space', 'right_space', 'n'))
                   for k in v.t)
    if isinstance(v, Txt):
        return any(havoc(x) for p in v.p for x in p[2:] if not isinstance(x, str))
    return True


def tokenised(F, shape, tokens):
    o = Out()
    E = engine(F, tokens)
    s, a, info = layout(E, St(), shape)
    f = F.need(LL + '::init_from_layout')[0]
    rs = E.call(s, f, a, [], E0)
    fs = F.byq.get(LL + '::tokenize')
    where = rel((fs or [f])[0]['l'])
    name = describe(shape)
    for why, w, s in E.aborts:
        o.check(False, 'abort:%s' % why, w, 'tokenising a line succeeds', 'a line of %s: %s' % (name, why))
    seen = set()
    semi = E.kinds[1]
    for s, _ in rs:
        if not deduce(E, s):
            continue
        for s1, want in expected(E, s, info, shape):
            fr = frags(E, s1, a)
            o.check(len(fr) == len(want), 'count', where, 'one token object per token, two for joined keywords',
                    'a line of %s with %d tokens gives %d token objects' % (name, len(want), len(fr)))
            if len(fr) != len(want):
                continue
            split = any(len(t) > 3 for t in s1.x['toks'])
            for n, w in zip(fr, want):
                for k, x in w.items():
                    v = E.get(s1, n, k)
                    if equal(E, s1, v, x):
                        o.n += 1
                    elif havoc(v) and not apart(E, s1, v, x):
                        o.note('not decided: the %s of a token, in a line of %s' % (WHAT[k], name))
                    else:
                        o.check(False, 'field:%s:%s' % (k, 'joined' if split else 'plain'), where,
                                'a token records its tag, text and place',
                                'a line of %s%s: the %s of a token is %s, not %s' % (
                                    name, ' with joined keywords' if split else '', WHAT[k], v, x))
            for k, txt, ln in s1.x.get('looked', ()):
                t = s1.x['toks'][k]
                for s2, _, y, _ in part(E, s1, s1.x['buf'], t[0], ladd(t[1], t[0], -1), E0):
                    o.check(txt is not None and same_text(E, s2, txt, y) and eqv(E, s2, ln, tlen(y)),
                            'lookup', where, 'joined keywords are looked up by the whole name',
                            'the name looked up is %s (length %s), the token is %s' % (txt, ln, y))
            looked = {x[0] for x in s1.x.get('looked', ())}
            for k, t in enumerate(s1.x['toks']):
                o.check(k in looked or t[2] != E.kinds[0], 'not-looked-up', where, 'every name is looked up among the '
                        'joined keywords', 'a line of %s: the %s name is not looked up' % (name, NTH[k]))
            statements(E, o, s1, a, [w['token'] for w in want], 'a line of ' + name)
            lab = E.get(s1, a, 'label')
            o.check(lab == int(shape[0][3] or 0), 'label', rel(f['l']), 'the label of a line is the one of its first line',
                    'a line of %s: the label is %s' % (name, lab))
            seen.add(len(want))
    o.check(len(seen) >= 2, 'vacuous:' + name, where, 'tokens are found', 'a line of %s: no token' % name)
    o.cov['lines tokenised symbolically'] = len(rs)
    return o


NTH = ('first', 'second', 'third', 'fourth')


def apart(E, s, v, w):
    """the two certainly differ"""
    if isinstance(v, (int, Lin)) and isinstance(w, (int, Lin)):
        return not any(E.feasible(s2) for s2, b in E.split_cmp(s.fork(), '==', v, w) if b)
    if isinstance(v, Txt) and isinstance(w, Txt):
        return not any(E.feasible(s2) for s2, b in E.split_cmp(s.fork(), '==', tlen(v), tlen(w)) if b)
    return False


def runs(tags, semi):
    """the statements: maximal runs of tokens between semicolons"""
    out, cur = [], []
    for i, t in enumerate(tags + [semi]):
        if t == semi:
            if cur:
                out.append(cur)
            cur = []
        else:
            cur = cur + [i]
    return out


def statements(E, o, s, a, tags, what):
    fr = frags(E, s, a) + [s.heap[E.addr(s, a, 'fragments_', 'list_')].n[-1]]
    semi = E.kinds[1]
    where = rel(E.F.need(LL + '::init_stmts')[0]['l'])
    got = []
    for n in s.heap[E.addr(s, a, 'stmts_')].n:
        b, e, k = (E.get(s, n, x) for x in ('begin_', 'end_', 'size_'))
        got.append((fr.index(b.n) if b.n in fr else None, fr.index(e.n) if e.n in fr else None, k))
    want = [(r[0], r[-1] + 1, len(r)) for r in runs(tags, semi)]
    show = ' '.join(';' if t == semi else 'x' for t in tags)
    o.check(got == want, 'statements', where, 'the statements are the non-empty runs of tokens between semicolons',
            '%s with tokens "%s": the statements (first, end, count) are %s, not %s' % (what, show, got, want))
    c = E.get(s, a, 'num_semicolons_')
    o.check(c == tags.count(semi), 'semicolons', where, 'the semicolons are counted',
            '%s with tokens "%s": %s semicolons' % (what, show, c))


def divided(F, n):
    """init_stmts for n tokens of every kind, twice: what an earlier call found is replaced"""
    o = Out()
    E = engine(F, 2)
    E.bound = n + 2
    name, semi = E.kinds
    f = F.need(LL + '::init_stmts')[0]
    for tags in itertools.product((name, semi), repeat=n):
        s = St()
        (s, a), = absnat.construct(E, s, LL, [], E0)
        l = E.addr(s, a, 'fragments_', 'list_')
        nodes = []
        for i in range(n):
            (s, t), = absnat.construct(E, s, TT, [], E0)
            s.heap[s.heap[t].f['token']] = name
            s.x[('own', t)] = l
            nodes.append(t)
        v = s.heap[l]
        s.heap[l] = ListV(v.t, tuple(nodes) + v.n[-1:])
        for again in (0, 1):
            rs = E.call(s, f, a, [], E0)
            o.check(len(rs) == 1 and not E.aborts, 'stmts:paths', rel(f['l']), 'dividing a line into statements succeeds',
                    '%d results, %s' % (len(rs), E.aborts[:1]))
            if len(rs) != 1:
                break
            s = rs[0][0]
            statements(E, o, s, a, list(tags) if again else [name] * n, 'a line')
            for t, k in zip(nodes, tags):
                s.heap[s.heap[t].f['token']] = k
    return o


def lowercase(F):
    """lower() is the text in lower case, whatever was cached before"""
    o = Out()
    f = F.need(TT + '::lower')[0]
    m = F.need(TT + '::mod_text')[0]
    low = tuple((u, u + 32) for u in range(65, 91))
    where = rel(f['l'])

    def judge(E, s, v, t, what):
        v = E.load(s, v)
        good = len(v.p) == 1 and v.p[0][0] == 's' and v.p[0][1][0] == 'mapped' and eqv(E, s, tlen(v), tlen(t))
        if good and v.p[0][1][1:3] == (t.p[0][1], t.p[0][2]):
            good = v.p[0][1][3] == low
        elif isinstance(v, Txt) and havoc_text(v):
            raise Undecided('the lower-case text %s of %s' % (v, what))
        else:
            good = False
        o.check(good, 'lower:' + what, where, 'lower() is the whole text in lower case',
                '%s: lower() is %s, the text is %s' % (what, v, t))

    E = LineEng(F)
    s = St()
    (s, t), = absnat.construct(E, s, TT, [], E0)
    r = s.heap[t].f
    s.heap[r['text_']] = sym_text(s, 'T', 1)
    s.heap[r['lower_']] = Txt()
    for s1, v in E.call(s, f, t, [], E0):
        judge(E, s1, v, s1.heap[r['text_']], 'a new token')
        for s2, v2 in E.call(s1, f, t, [], E0):
            judge(E, s2, v2, s2.heap[r['text_']], 'a second call')
        # the text is replaced through the reference that mod_text() gives
        for s3, ref in E.call(s1, m, t, [], E0):
            ok = isinstance(ref, LV) and ref.a == r['text_']
            o.check(ok, 'mod_text', rel(m['l']), 'mod_text() refers to the text', 'mod_text() gives %r' % (ref,))
            s3.heap[r['text_']] = sym_text(s3, 'U', 1)
            for s4, v4 in E.call(s3, f, t, [], E0):
                judge(E, s4, v4, s4.heap[r['text_']], 'a modified token')
    # no other function changes the text of a token
    n = 0
    for g in F.fns.values():
        if g.get('clsq') != TT and g.get('cls') != TT:
            for x in walk(g.get('body')):
                if x.get('k') == 'mem' and x.get('q') == TT + '::text_' and written(g, x):
                    o.check(False, 'text_:%s' % g['q'], rel(x.get('l', '')), 'the text of a token is changed through '
                            'mod_text()', '%s changes text_ itself, so lower() may be stale' % g['q'])
                n += x.get('k') == 'mem' and x.get('q') == TT + '::text_'
    o.n += 1
    return o


MUT = ('operator=', 'assign', 'append', 'erase', 'insert', 'replace', 'clear', 'resize', 'push_back', 'pop_back', 'swap',
       'operator+=')


def written(g, m):
    for x in walk(g['body']):
        if x.get('k') == 'asg' and x['a'][0] is m:
            return True
        if x.get('k') == 'mcall' and x.get('o') is m and x.get('f', '').rsplit('::', 1)[-1] in MUT:
            return True
        if x.get('k') == 'op' and x.get('a') and x['a'][0] is m and x.get('op') in ('=', '+=', 'operator=', 'operator+='):
            return True
    return False


def havoc_text(v):
    return any(p[0] == 's' and isinstance(p[1], tuple) and p[1][0] not in ('mapped',) for p in v.p)


def P08(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    for sh in reversed(shapes(rep.tier == 'thorough')):
        T.add(tokenised, sh, 2)
    T.add(tokenised, shapes(False)[0], 3)
    if rep.tier == 'thorough':
        for sh in shapes(False)[1:4]:
            T.add(tokenised, sh, 3)
    for n in range(0, 6 if rep.tier == 'quick' else 8):
        T.add(divided, n)
    T.add(lowercase)
    T.run()
    rep.need(1000, 'P08')
    return ('init_from_layout is followed on every path for lines of one to three physical lines of unknown text and '
            'any token boundaries; the fields of each token object are compared with the place of the token in the '
            'line; init_stmts is followed for every sequence of up to five tokens')
