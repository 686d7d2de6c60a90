"""P14: editing a token, a statement or part of a line changes what it names and nothing else"""
import itertools
import absnat
from absint import *
from core import Facts, Broken, rel
from text import *
from c_text import FIELDS, Tasks, Out
from c_line import TokEng, TUS, LL, TT, deduce, frags, lines, same_text, equal, statements, WHAT, NTH
from c_fline import blanks, solid, blank_piece, same_pieces, same_txt, comment_col, width, loose, splits

OTHERS = ('linenum', 'open_delim')
PLACE = ('mt_begin_line_', 'mt_begin_col_', 'mt_end_line_', 'mt_end_col_')
TOKF = ('token', 'text_', 'start_line', 'start_pos', 'pre_spaces_', 'post_spaces_')


class Cut(Exception):
    pass


class EdEng(TokEng):
    multi = True
    relocate = True

    def __init__(self, F):
        super().__init__(F)
        self.kinds = (F.tagv('TK_NAME'), F.tagv('TK_SEMICOLON'))
        self.bound = 14
        self.intercept[LL + '::init_from_layout'] = self.reread

    def reread(self, E, s, e, o, vs):
        a = self.obj(s, o)
        s.x['reread'] = tuple(freeze(layout_of(E, s, a)))
        return [(s, VOID)]


class PL:
    """a physical line: kind F(ortran), C(omment), B(lank); number of tokens; joined: the last token
    goes on in the next Fortran line"""

    def __init__(self, kind='F', toks=1, left='', ls=0, rs=0, rt='', joined=0, semi=(), tail=0):
        self.kind, self.toks, self.left, self.ls, self.rs, self.rt, self.joined, self.semi, self.tail = \
            kind, toks, left, ls, rs, rt, joined, semi, tail


def describe(ls, fixed):
    w = []
    for p in ls:
        if p.kind != 'F':
            w.append({'C': 'comment', 'B': 'blank'}[p.kind])
            continue
        x = {'': '', 'lab': 'labelled ', 'amp': '& ', 'col6': '', 'bamp': '& '}[p.left]
        x += ' '.join(';' if k in p.semi else 't' for k in range(p.toks))
        if p.joined:
            x += '(joined)'
        x += {'': '', '&': ' &', '!': ' !', '&!': ' & !'}[p.rt]
        w.append(x.strip())
    return ('fixed-form' if fixed else 'free-form') + ' line "' + ' / '.join(w) + '"'


def layout_of(E, s, a):
    return [snapf(E, s, f) for f in lines(E, s, a)]


def snapf(E, s, f):
    d = {k: E.get(s, f, k) for k in FIELDS + OTHERS}
    d['bits'] = tuple(E.get(s, f, 'classification_').b)
    return d


def freeze(v):
    return [tuple(sorted(d.items(), key=lambda x: x[0])) for d in v]


def build(E, s, ls, fixed):
    """(state, line object, token nodes with their documented places)"""
    (s, a), = absnat.construct(E, s, LL, [], E0)
    lay = E.addr(s, a, 'layout_')
    nodes, toks, open_ = [], [], None
    for i, p in enumerate(ls):
        (s, f), = absnat.construct(E, s, 'FLPR::File_Line', [], E0)
        r = s.heap[f].f
        bits = list(s.heap[r['classification_']].b)
        t = dict.fromkeys(FIELDS, ())
        if fixed:
            bits[E.bitno['fixed_format']] = True
        if p.kind == 'C':
            bits[E.bitno['comment']] = True
            t['left_txt'] = (('l', '!'),) + sym_text(s, ('note', i)).p
        elif p.kind == 'B':
            bits[E.bitno['blank']] = True
        else:
            if p.left == 'lab':
                bits[E.bitno['label']] = True
                t['left_txt'] = (('l', '10'),)
            elif p.left in ('amp', 'bamp', 'col6'):
                bits[E.bitno['continuation']] = True
                t['left_txt'] = (('l', '     &'),) if fixed else ((blanks(E, s, ('m', i)),) if p.left == 'bamp' else ()) + (('l', '&'),)
            if p.ls:
                t['left_space'] = (blanks(E, s, ('ls', i)),)
            if p.rs:
                t['right_space'] = (blanks(E, s, ('rs', i)),)
            rt = ()
            if p.rt[:1] == '&':
                bits[E.bitno['continued']] = True
                rt = (('l', '&'),) + ((blanks(E, s, ('k', i)),) if p.rt == '&!' else ())
            if p.rt[-1:] == '!':
                rt += (('l', '!'),) + sym_text(s, ('note', i)).p
            t['right_txt'] = rt
            base = ('L', i)
            n = tlen(sym_text(s, base))
            at = 0
            E.assume_le(s, n, 1 << 20)
            for k in range(p.toks):
                first, last = k == 0, k + 1 == p.toks
                lo, hi = symi(('a', i, k)), symi(('b', i, k))
                if first and (open_ is not None or p.left == '' and i == 0 or p.left == 'lab'):
                    lo = 0
                if last and (p.joined or not p.tail):
                    hi = n
                E.assume_le(s, ladd(at, lo, -1), 0)
                E.assume_le(s, ladd(ladd(lo, 1), hi, -1), 0)
                E.assume_le(s, ladd(hi, n, -1), 0)
                if lo != at:
                    add_range(E, s, base, at, lo, frozenset((32,)))
                for q in (lo, ladd(hi, -1)):
                    c = char_at(E, s, base, q)
                    s.tags[c.s] = s.tags.get(c.s, CH) - {32, 9}
                at = hi
                ps = (('s', base, lo, hi),)
                if first and open_ is not None:
                    w = open_
                    w['pieces'] += ps
                    w['end'] = (i, hi)
                    open_ = None
                else:
                    w = dict(pieces=ps, begin=(i, lo), end=(i, hi), kind=E.kinds[1] if k in p.semi else E.kinds[0])
                    toks.append(w)
                if last and p.joined:
                    open_ = w
            if at != n:
                add_range(E, s, base, at, n, frozenset((32,)))
            t['main_txt'] = (('s', base, 0, n),)
        for k, v in t.items():
            s.heap[r[k]] = Txt(v)
        s.heap[r['classification_']] = Bits(bits)
        s.heap[r['linenum']] = symi(('line', i))
        s.heap[r['open_delim']] = 0
        nodes.append(f)
    s.heap[lay] = ListV(s.heap[lay].t, tuple(nodes))
    for f in nodes:
        s.x[('own', f)] = lay
    if ls[0].left == 'lab':
        s.heap[E.addr(s, a, 'label')] = 10
    l = E.addr(s, a, 'fragments_', 'list_')
    tn = []
    for k, w in enumerate(toks):
        (s, t), = absnat.construct(E, s, TT, [], E0)
        r = s.heap[t].f
        v = dict(token=w['kind'], text_=Txt(w['pieces']), lower_=Txt(), start_line=symi(('tl', k)), start_pos=symi(('tp', k)),
                 mt_begin_line_=w['begin'][0], mt_begin_col_=w['begin'][1], mt_end_line_=w['end'][0], mt_end_col_=w['end'][1],
                 pre_spaces_=symi(('pre', k)), post_spaces_=symi(('post', k)))
        for q, x in v.items():
            s.heap[r[q]] = x
        s.x[('own', t)] = l
        tn.append(t)
    s.heap[l] = ListV(s.heap[l].t, tuple(tn) + s.heap[l].n[-1:])
    r = E.call(s, E.F.need(LL + '::init_stmts')[0], a, [], E0)
    if len(r) != 1:
        raise Broken('init_stmts on a known line: %d results' % len(r))
    return r[0][0], a, toks


def tokf(E, s, t):
    return {k: E.get(s, t, k) for k in TOKF + PLACE}


def width_ok(E, s, v, w):
    return eqv(E, s, v, w)


class Ck:
    def __init__(self, o, E, f, what):
        self.o, self.E, self.what = o, E, what
        self.where, self.op = rel(f['l']), f['q'].rsplit('::', 1)[-1]
        self.vague = False

    def ok(self, good, key, rule, msg):
        if not good and self.vague:
            self.o.note('not decided: %s, %s' % (self.op, self.what))
            return
        self.o.check(bool(good), '%s:%s' % (self.op, key), self.where, rule, '%s: %s' % (self.what, msg))

    def line(self, s, i, c, want, rule='the rest of the line stays'):
        """every field of a physical line but those mapped to None"""
        for k, v in want.items():
            if v is None:
                continue
            if k == 'bits':
                for n, j in self.E.bitno.items():
                    if j < len(c['bits']) and v[j] is not None and not n.startswith('zzz'):
                        self.ok(c['bits'][j] == v[j], 'flag:' + n, 'the kind of each physical line is recorded',
                                'the %s flag of line %d becomes %s' % (n, i + 1, c['bits'][j]))
            elif k in FIELDS:
                self.ok(same_txt(self.E, s, c[k], v), 'field:' + k, rule, '%s of line %d becomes %s, not %s' % (k, i + 1, c[k], v))
            else:
                self.ok(c[k] == v, 'field:' + k, rule, '%s of line %d becomes %s' % (k, i + 1, c[k]))

    def token(self, s, k, got, want, rule):
        for f, v in want.items():
            self.ok(equal(self.E, s, got[f], v), 'token:' + f, rule,
                    'the %s of the %s token is %s, not %s' % (WHAT.get(f, f), NTH2[k], got[f], v))


NTH2 = NTH + tuple('%dth' % i for i in range(5, 30))


def run(F, ls, fixed, op, pick):
    """pick(E, s, a, nodes, toks) -> arguments"""
    o = Out()
    E = EdEng(F)
    s, a, toks = build(E, St(), ls, fixed)
    fs = [f for f in E.fns(LL + '::' + op)]
    f = fs[0]
    before = layout_of(E, s, a)
    tb = [tokf(E, s, t) for t in frags(E, s, a)]
    nodes = frags(E, s, a)
    what = 'a ' + describe(ls, fixed)
    args, extra = pick(E, s, a, nodes)
    E.aborts.clear()
    rs = E.call(s, f, a, args, E0)
    k = Ck(o, E, f, what)
    out = []
    for why, w, s1 in E.aborts:
        if deduce(E, s1):
            o.check(False, '%s:abort:%s' % (op, why), w, 'the operation succeeds', '%s: %s' % (what, why))
    for s1, v in rs:
        if deduce(E, s1):
            out.append((s1, v))
    o.check(bool(out) or bool(E.aborts), op + ':none', rel(f['l']), 'the operation returns', '%s: no path returns' % what)
    return o, E, a, toks, before, tb, nodes, k, out, extra


def iterator(E, s, a, nodes, i):
    l = E.addr(s, a, 'fragments_', 'list_')
    return It(nodes[i] if i < len(nodes) else s.heap[l].n[-1])


def shifted(E, tb, i, at, d):
    """the documented fields of the tokens after a change by d columns of line at[0] behind column at[1]"""
    out = []
    for k, t in enumerate(tb):
        t = dict(t)
        if k > i:
            if t['mt_begin_line_'] == at:
                t['mt_begin_col_'] = ladd(t['mt_begin_col_'], d)
            if t['mt_end_line_'] == at:
                t['mt_end_col_'] = ladd(t['mt_end_col_'], d)
        out.append(t)
    return out


W = 'W'


def new_text(E, s):
    t = sym_text(s, W, 1)
    E.assume_le(s, tlen(t), 1 << 20)
    return t


def spliced(c, lo, hi, mid):
    """the main text with [lo,hi) replaced"""
    (_, base, _, n), = c['main_txt'].p
    return Txt((('s', base, 0, lo),) + tuple(mid) + (('s', base, hi, n),))


def replace_fragment(F, ls, fixed, i):
    tag = F.tagv('KW_CALL')

    def pick(E, s, a, nodes):
        t = new_text(E, s)
        return [iterator(E, s, a, nodes, i), tag, LV(E.new(s, t))], t
    o, E, a, toks, lb, tb, nodes, k, rs, t = run(F, ls, fixed, 'replace_fragment', pick)
    li, lo, hi = tb[i]['mt_begin_line_'], tb[i]['mt_begin_col_'], tb[i]['mt_end_col_']
    d = ladd(tlen(t), ladd(hi, lo, -1), -1)
    want = shifted(E, tb, i, li, d)
    want[i] = dict(want[i], token=tag, text_=t, mt_end_col_=ladd(lo, tlen(t)))
    for s, v in rs:
        lc = layout_of(E, s, a)
        k.ok(len(lc) == len(lb), 'lines', 'physical lines stay', '%d lines become %d' % (len(lb), len(lc)))
        for j, (b, c) in enumerate(zip(lb, lc)):
            k.line(s, j, c, dict(b, main_txt=spliced(b, lo, hi, t.p)) if j == li else b,
                   'the text of the token is replaced in its line' if j == li else 'other lines stay')
        k.ok(frags(E, s, a) == nodes, 'tokens', 'no other token appears or vanishes', 'the tokens change')
        for j, n in enumerate(nodes):
            k.token(s, j, tokf(E, s, n), want[j], 'tokens record their text and place')
        low = E.get(s, nodes[i], 'lower_')
        k.ok(eqv(E, s, tlen(low), 0) or same_text(E, s, low, t), 'lower', 'the lower-case text follows', 'it stays %s' % (low,))
    return o


def remove_fragment(F, ls, fixed, i):
    def pick(E, s, a, nodes):
        return [iterator(E, s, a, nodes, i)], None
    o, E, a, toks, lb, tb, nodes, k, rs, _ = run(F, ls, fixed, 'remove_fragment', pick)
    li, lo, hi = tb[i]['mt_begin_line_'], tb[i]['mt_begin_col_'], tb[i]['mt_end_col_']
    want = shifted(E, tb, i, li, ladd(lo, hi, -1))
    rest = [j for j in range(len(tb)) if j != i]
    for s, v in rs:
        lc = layout_of(E, s, a)
        k.ok(len(lc) == len(lb), 'lines', 'physical lines stay', '%d lines become %d' % (len(lb), len(lc)))
        for j, (b, c) in enumerate(zip(lb, lc)):
            k.line(s, j, c, dict(b, main_txt=spliced(b, lo, hi, ())) if j == li else b,
                   'the text of the token is removed from its line' if j == li else 'other lines stay')
        k.ok(frags(E, s, a) == [nodes[j] for j in rest], 'tokens', 'only the token named is removed', 'the tokens left are wrong')
        if frags(E, s, a) == [nodes[j] for j in rest]:
            for j in rest:
                k.token(s, j, tokf(E, s, nodes[j]), want[j], 'tokens record their text and place')
            statements(E, o, s, a, [tb[j]['token'] for j in rest], k.what + ' without its %s token' % NTH2[i])
    return o


def reread(k, E, s, a):
    now = tuple(freeze(layout_of(E, s, a)))
    k.ok(s.x.get('reread') == now, 'reread', 'the tokens are read again after the text changed',
         'init_from_layout is not called, or the text changes after it')


def insert_text(F, ls, fixed, i, after):
    op = 'insert_text_after' if after else 'insert_text_before'

    def pick(E, s, a, nodes):
        t = new_text(E, s)
        return [iterator(E, s, a, nodes, i), LV(E.new(s, t))], t
    o, E, a, toks, lb, tb, nodes, k, rs, t = run(F, ls, fixed, op, pick)
    if after or i == len(tb):
        x = tb[i if after else -1]
        li, at = x['mt_end_line_'], x['mt_end_col_']
    else:
        li, at = tb[i]['mt_begin_line_'], tb[i]['mt_begin_col_']
    for s, v in rs:
        lc = layout_of(E, s, a)
        k.ok(len(lc) == len(lb), 'lines', 'physical lines stay', '%d lines become %d' % (len(lb), len(lc)))
        for j, (b, c) in enumerate(zip(lb, lc)):
            k.line(s, j, c, dict(b, main_txt=spliced(b, at, at, t.p)) if j == li else b,
                   'the text is put in its place' if j == li else 'other lines stay')
        reread(k, E, s, a)
    return o


def on(E, b, **kw):
    v = list(b['bits'])
    for n, x in kw.items():
        v[E.bitno[n]] = x
    return tuple(v)


def dropped(k, E, s, j, b, c, p):
    """a Fortran line whose text was all removed: its comment stays"""
    note = p.rt[-1:] == '!'
    off = {n: False for n in E.bitno if not n.startswith('zzz') and n != 'fixed_format' and E.bitno[n] < len(b['bits'])}
    off['comment' if note else 'blank'] = True
    k.line(s, j, c, {'bits': on(E, b, **off)})
    for f in FIELDS if not note else FIELDS[:4]:
        k.ok(not solid(c[f]), 'left over', 'the text is removed from every line it was on',
             '%s of line %d still holds %s' % (f, j + 1, c[f]))
    if note:
        k.ok(same_pieces(E, s, solid(c['right_txt']), (('l', '!'), ('s', ('note', j), 0, symi(('n', ('note', j)))))), 'note',
             'comments stay', 'right_txt of line %d becomes %s' % (j + 1, c['right_txt']))


def replace_stmt_substr(F, ls, fixed, i, m):
    def pick(E, s, a, nodes):
        t = new_text(E, s)
        b, e = iterator(E, s, a, nodes, i), iterator(E, s, a, nodes, m + 1)
        (s1, r), = absnat.construct(E, s, 'FLPR::SL_Range<FLPR::Token_Text>', [LV(E.new(s, b)), LV(E.new(s, e))], E0)
        assert s1 is s
        return [LV(r), LV(E.new(s, t))], t
    o, E, a, toks, lb, tb, nodes, k, rs, t = run(F, ls, fixed, 'replace_stmt_substr', pick)
    sl, sc = tb[i]['mt_begin_line_'], tb[i]['mt_begin_col_']
    el, ec = tb[m]['mt_end_line_'], tb[m]['mt_end_col_']
    for s, v in rs:
        lc = layout_of(E, s, a)
        k.ok(len(lc) == len(lb), 'lines', 'physical lines stay', '%d lines become %d' % (len(lb), len(lc)))
        if len(lc) != len(lb):
            continue
        gone = [j for j in range(sl + 1, el) if ls[j].kind == 'F']
        cases = [(s, None)]
        if el > sl:
            n = tlen(lb[el]['main_txt'])
            cases = [(s2, b) for s2, b in splits(E, s, '==', n, ec)] if any(x['mt_begin_line_'] == el for x in tb[m + 1:]) is False \
                else [(s, False)]
            # blanks behind the last token are no text
            if not any(x['mt_begin_line_'] == el and j > m for j, x in enumerate(tb)):
                cases = [(s, True)]
        for s2, empty in cases:
            out = gone + ([el] if empty else [])
            left = [j for j in range(len(ls)) if ls[j].kind == 'F' and j not in out]
            for j, (b, c) in enumerate(zip(lb, lc)):
                if j in out:
                    dropped(k, E, s2, j, b, c, ls[j])
                elif j == sl:
                    if el > sl:
                        txt = Txt((('s', ('L', j), 0, sc),) + t.p)
                    else:
                        txt = spliced(b, sc, ec, t.p)
                    w = dict(b, main_txt=txt)
                    if left[-1] == sl and ls[j].rt[:1] == '&':
                        w['bits'] = on(E, b, continued=False)
                        w['right_space'] = w['right_txt'] = None
                        note = solid(b['right_txt'])[1:]
                        k.ok(same_pieces(E, s2, solid(c['right_txt']), [p for p in note if not blank_piece(p)]), 'uncontinued',
                             'the continuation mark goes with the last continuation line, the comment stays',
                             'right_txt of line %d becomes %s' % (j + 1, c['right_txt']))
                        k.ok(not solid(c['right_space']), 'uncontinued', 'only blanks are put behind the text',
                             'right_space of line %d becomes %s' % (j + 1, c['right_space']))
                    k.line(s2, j, c, w, 'the text named is replaced, the rest of the line stays')
                elif j == el:
                    k.line(s2, j, c, dict(b, main_txt=Txt((('s', ('L', j), ec, tlen(b['main_txt'])),))),
                           'the text named is replaced, the rest of the line stays')
                else:
                    k.line(s2, j, c, b, 'other lines stay')
            reread(k, E, s2, a)
    return o


def split_after(F, ls, fixed, i):
    def pick(E, s, a, nodes):
        (s1, n), = absnat.construct(E, s, LL, [], E0)
        assert s1 is s
        # the other line held something before
        s.heap[E.addr(s, n, 'label')] = 77
        return [iterator(E, s, a, nodes, i), LV(n)], n
    o, E, a, toks, lb, tb, nodes, k, rs, new = run(F, ls, fixed, 'split_after', pick)
    if i >= len(tb):
        for s, v in rs:
            for s2, r in E.split(s, v):
                k.ok(not r, 'end', 'there is nothing after the end', 'reports a split')
            for j, (b, c) in enumerate(zip(lb, layout_of(E, s2, a))):
                k.line(s2, j, c, b)
        return o
    sl, sc = tb[i]['mt_end_line_'], tb[i]['mt_end_col_']
    semi = E.kinds[1]
    rest = list(range(i + 1, len(tb)))
    same = [j for j in rest if tb[j]['mt_begin_line_'] == sl]
    skip = 0
    while skip < len(same) and tb[same[skip]]['token'] == semi:
        skip += 1
    same = same[skip:]
    rest = rest[skip:]
    expect = bool(same) or sl + 1 < len(ls)
    lead = tlen(lb[0]['left_space']) if fixed else ladd(tlen(lb[0]['left_txt']), tlen(lb[0]['left_space']))
    label0 = 10 if ls[0].left == 'lab' else 0
    for s, v in rs:
        for s2, r in E.split(s, v):
            k.ok(r == expect, 'result', 'the operation reports whether there is a new line', 'reports %s' % r)
        if not expect:
            lc = layout_of(E, s, a)
            k.ok(len(lc) == len(lb) and frags(E, s, a) == nodes, 'damage', 'a line that is not split stays', 'it is changed')
            for j, (b, c) in enumerate(zip(lb, lc)):
                k.line(s, j, c, b, 'a line that is not split stays')
            for j, n in enumerate(frags(E, s, a)):
                k.token(s, j, tokf(E, s, n), tb[j], 'a line that is not split keeps its tokens')
            continue
        # ---- this line
        lc = layout_of(E, s, a)
        k.ok(len(lc) == sl + 1, 'lines', 'this line ends where it is split', 'it has %d physical lines, not %d' % (len(lc), sl + 1))
        k.ok(frags(E, s, a) == nodes[:i + 1], 'tokens', 'this line keeps the tokens up to the split', 'its tokens are others')
        if len(lc) != sl + 1 or frags(E, s, a) != nodes[:i + 1]:
            continue
        for j in range(i + 1):
            k.token(s, j, tokf(E, s, nodes[j]), tb[j], 'this line keeps its tokens')
        for j in range(sl):
            k.line(s, j, lc[j], lb[j], 'lines before the split stay')
        b, c = lb[sl], lc[sl]
        w = dict(b, main_txt=Txt((('s', ('L', sl), 0, sc),)), right_space=None, right_txt=None, bits=on(E, b, continued=False))
        k.line(s, sl, c, w, 'this line keeps its text up to the split')
        note = [p for p in solid(b['right_txt']) if p != ('l', '&')]
        k.ok(same_pieces(E, s, solid(c['right_txt']), note), 'note', 'the comment stays on this line, the continuation mark does not',
             'right_txt becomes %s' % (c['right_txt'],))
        k.ok(not solid(c['right_space']), 'blank', 'only blanks are put behind the text', 'right_space becomes %s' % (c['right_space'],))
        if note:
            k.ok(eqv(E, s, comment_col(E, c), comment_col(E, b)), 'comment column', 'the comment keeps its column',
                 'it moves to column %s from %s' % (comment_col(E, c), comment_col(E, b)))
        k.ok(E.get(s, a, 'label') == label0, 'label', 'this line keeps its label', 'its label becomes %s' % E.get(s, a, 'label'))
        known = E.get(s, a, 'num_semicolons_')
        if known == -1:
            k.ok(not s.heap[E.addr(s, a, 'stmts_')].n, 'stmts', 'the statements of this line are forgotten or right', 'stale ones remain')
        else:
            statements(E, o, s, a, [tb[j]['token'] for j in range(i + 1)], k.what + ', split')
        # ---- the new line
        ln = layout_of(E, s, new)
        want = ([None] if same else []) + list(range(sl + 1, len(ls)))
        k.ok(len(ln) == len(want), 'new lines', 'the new line gets the rest of the text', 'it has %d physical lines, not %d' % (
            len(ln), len(want)))
        fr = frags(E, s, new)
        k.ok(len(fr) == len(rest), 'new tokens', 'the new line gets the rest of the tokens', 'it has %d, not %d' % (len(fr), len(rest)))
        k.ok(E.get(s, new, 'label') == 0, 'new label', 'the new line has no label', 'its label is %s' % E.get(s, new, 'label'))
        if len(ln) != len(want) or len(fr) != len(rest):
            continue
        head = None
        for j, (x, c) in enumerate(zip(want, ln)):
            if x is None:
                b = lb[sl]
                from_ = tb[same[0]]['mt_begin_col_']
                (_, base, _, n), = b['main_txt'].p
                w = dict(b, main_txt=Txt((('s', base, from_, n),)), left_txt=Txt(), left_space=None, right_space=None,
                         right_txt=Txt((('l', '&'),)) if ls[sl].rt[:1] == '&' else Txt(),
                         bits=on(E, b, label=False, continuation=False))
                k.line(s, j, c, w, 'the new line begins with the rest of the text')
                k.ok(not solid(c['left_space']) and eqv(E, s, tlen(c['left_space']), lead), 'margin',
                     'the new line has the margin of the old one', 'left_space becomes %s' % (c['left_space'],))
                k.ok(not solid(c['right_space']), 'blank', 'only blanks are put behind the text',
                     'right_space becomes %s' % (c['right_space'],))
                if ls[sl].rt[:1] == '&':
                    if ls[sl].rs:
                        k.ok(E.entails_le(s, 1, tlen(c['right_space'])), 'apart', 'blanks before a continuation mark stay',
                             'right_space becomes %s' % (c['right_space'],))
                    else:
                        k.ok(eqv(E, s, tlen(c['right_space']), 0), 'joined', 'text joined to the next line stays joined',
                             'right_space becomes %s' % (c['right_space'],))
                else:
                    k.ok(eqv(E, s, tlen(c['right_space']), 0), 'blank', 'no blanks are left at the end',
                         'right_space becomes %s' % (c['right_space'],))
                head = x
                found = True
                continue
            b = lb[x]
            if same or any(ls[q].kind == 'F' for q in range(sl + 1, x)):
                k.line(s, j, c, b, 'lines after the split stay')
            elif ls[x].kind == 'F':
                w = dict(b, left_txt=Txt(), left_space=None, right_space=None, right_txt=None,
                         bits=on(E, b, label=False, continuation=False))
                k.line(s, j, c, w, 'the new line begins with the rest of the text')
                k.ok(not solid(c['left_space']) and eqv(E, s, tlen(c['left_space']), lead), 'margin',
                     'the new line has the margin of the old one', 'left_space becomes %s' % (c['left_space'],))
                k.ok(same_pieces(E, s, solid(c['right_txt']), solid(b['right_txt'])), 'right', 'marks and comments stay',
                     'right_txt becomes %s' % (c['right_txt'],))
                if ls[x].rt[:1] == '&' and not ls[x].rs:
                    k.ok(eqv(E, s, tlen(c['right_space']), 0), 'joined', 'text joined to the next line stays joined',
                         'right_space becomes %s' % (c['right_space'],))
            else:
                k.line(s, j, c, dict(b, left_space=None), 'comment lines stay')
                k.ok(not solid(c['left_space']), 'comment lines', 'comment lines stay', 'left_space becomes %s' % (c['left_space'],))
        off = -(sl + 1)
        for q, x in enumerate(rest):
            w = dict(tb[x])
            for e in ('begin', 'end'):
                li, co = w['mt_%s_line_' % e], w['mt_%s_col_' % e]
                if same and li == sl:
                    co = ladd(co, tb[same[0]]['mt_begin_col_'], -1)
                w['mt_%s_line_' % e] = li + off + (1 if same else 0)
                w['mt_%s_col_' % e] = co
            k.token(s, x, tokf(E, s, fr[q]), w, 'the tokens of the new line record their text and place')
        known = E.get(s, new, 'num_semicolons_')
        if known == -1:
            k.ok(not s.heap[E.addr(s, new, 'stmts_')].n, 'stmts', 'the statements of the new line are unknown or right', 'stale ones remain')
        else:
            statements(E, o, s, new, [tb[j]['token'] for j in rest], k.what + ', the new line')
    return o


def replace_main_text(F, ls, fixed, m):
    """m new texts, one for each physical line"""
    def pick(E, s, a, nodes):
        (s1, v), = absnat.construct(E, s, 'std::vector<std::string>', [], E0)
        assert s1 is s
        ts = []
        for j in range(m):
            t = sym_text(s, ('W', j), 1)
            E.assume_le(s, tlen(t), 1 << 20)
            ts.append(t)
        s.heap[v] = ListV(s.heap[v].t, tuple(E.new(s, t) for t in ts))
        return [LV(v)], ts
    o, E, a, toks, lb, tb, nodes, k, rs, ts = run(F, ls, fixed, 'replace_main_text', pick)
    k.what += ', given %d lines of text' % m
    n = len(lb)
    first_col = 6 if fixed else width(E, lb[-1], ('left_txt',))
    first_col = ladd(first_col, tlen(lb[-1]['left_space']))
    for s, v in rs:
        lc = layout_of(E, s, a)
        k.ok(len(lc) == max(n, m) if m else len(lc) == n, 'lines', 'a physical line is added for each further text', '%d lines become %d' % (n, len(lc)))
        if len(lc) != max(n, m):
            continue
        if not m:
            for j in range(n):
                k.line(s, j, lc[j], lb[j], 'without new text nothing changes')
            continue
        for j, c in enumerate(lc):
            if j < m:
                k.line(s, j, c, dict(main_txt=ts[j]), 'each line gets its text')
            last, old = j == m - 1, j < n
            if j >= m:
                dropped(k, E, s, j, lb[j], c, ls[j])
                continue
            # marks at the end
            bits = on(E, lb[min(j, n - 1)], continued=not fixed and not last)
            note = [p for p in solid(lb[j]['right_txt']) if p != ('l', '&')] if old else []
            r = list(solid(c['right_txt']))
            if fixed or last:
                k.ok(same_pieces(E, s, r, note), 'end', 'the last line is not continued, and keeps its comment', 'right_txt of line %d becomes %s' % (
                    j + 1, c['right_txt']))
            else:
                k.ok(r[:1] == [('l', '&')] and same_pieces(E, s, r[1:], note), 'end', 'every line but the last is continued, and keeps its comment',
                     'right_txt of line %d becomes %s' % (j + 1, c['right_txt']))
                if j >= n - 1:
                    k.ok(E.entails_le(s, 1, tlen(c['right_space'])), 'apart', 'a blank is put before a new mark', 'right_space becomes %s' % (
                        c['right_space'],))
            k.ok(not solid(c['right_space']), 'blank', 'only blanks are put behind the text', 'right_space becomes %s' % (c['right_space'],))
            if old:
                k.line(s, j, c, dict(left_txt=lb[j]['left_txt'], left_space=lb[j]['left_space'], linenum=lb[j]['linenum'], bits=bits))
                continue
            # a new line
            bits = on(E, lb[n - 1], continued=not fixed and not last, label=False, continuation=True if fixed else None)
            k.line(s, j, c, dict(bits=bits))
            lead = list(solid(c['left_txt']))
            if fixed:
                p = c['left_txt'].p
                k.ok(len(p) == 1 and p[0][0] == 'l' and len(p[0][1]) == 6 and p[0][1][:5] == '     ' and p[0][1][5] not in ' 0', 'mark',
                     'a new fixed-form line is marked in column 6', 'left_txt becomes %s' % (c['left_txt'],))
            else:
                k.ok(lead in ([], [('l', '&')]), 'front', 'a new line has no label', 'left_txt becomes %s' % (c['left_txt'],))
            k.ok(not solid(c['left_space']) and eqv(E, s, ladd(tlen(c['left_txt']), tlen(c['left_space'])), first_col), 'margin',
                 'a new line is indented like the last one', 'its text begins after %s%s' % (c['left_txt'], c['left_space']))
        reread(k, E, s, a)
    return o


def append_comment(F, ls, fixed, i):
    def pick(E, s, a, nodes):
        if not i:
            return [LV(E.new(s, Txt()))], None
        if i == 2:   # joined lines are joined inside a literal
            for p, x in zip(ls, lines(E, s, a)):
                s.heap[E.addr(s, x, 'open_delim')] = 39 if p.joined else 0
        t = new_text(E, s)
        return [LV(E.new(s, t))], t
    o, E, a, toks, lb, tb, nodes, k, rs, t = run(F, ls, fixed, 'append_comment', pick)
    at = 0
    if i == 2:
        k.what += ' in a literal'
        at = next(j for j, p in enumerate(ls) if p.kind == 'F' and not p.joined)
    for s, v in rs:
        lc = layout_of(E, s, a)
        k.ok(len(lc) == len(lb) and frags(E, s, a) == nodes, 'lines', 'lines and tokens stay', 'they change')
        for j, (b, c) in enumerate(zip(lb, lc)):
            if j != at or not t:
                k.line(s, j, c, b if t is None or i == 1 else dict(b, open_delim=None))
                continue
            k.line(s, j, c, dict(b, open_delim=None, right_txt=None, right_space=None))
            k.ok(not solid(c['right_space']), 'blank', 'only blanks are put behind the text', 'right_space becomes %s' % (c['right_space'],))
            if not solid(b['right_txt']):
                k.ok(E.entails_le(s, 1, tlen(c['right_space'])), 'apart', 'a blank is put before a new comment', 'right_space becomes %s' % (
                    c['right_space'],))
            else:
                k.line(s, j, c, dict(right_space=b['right_space']))
            was, r = list(solid(b['right_txt'])), list(solid(c['right_txt']))
            rest = r[len(was):]
            k.ok(same_pieces(E, s, r[:len(was)], was), 'kept', 'marks and comments stay, in front', 'right_txt becomes %s' % (c['right_txt'],))
            bang = any(p[0] == 'l' and '!' in p[1] for p in was)
            want = solid(t)
            k.ok(same_pieces(E, s, rest[-len(want):], want), 'text', 'the text is at the end of the line', 'right_txt becomes %s' % (
                c['right_txt'],))
            mid = rest[:-len(want)]
            k.ok(all(p[0] == 'l' for p in mid) and (bang or ''.join(p[1] for p in mid).strip() == '!'), 'mark',
                 'a comment begins with !', 'right_txt becomes %s' % (c['right_txt'],))
    return o


def cases():
    """[(lines, fixed)]"""
    F = PL
    out = [([F('F', 3)], 0), ([F('F', 3, ls=1, rs=1, rt='!')], 0), ([F('F', 2, 'lab', ls=1)], 0),
           ([F('F', 4, ls=1, semi=(1,), rs=1, rt='!')], 0), ([F('F', 4, 'lab', ls=1, semi=(1, 2))], 0),
           ([F('F', 3, semi=(2,))], 0),
           ([F('F', 2, tail=1)], 0)]
    for left in ('', 'amp', 'bamp'):
        for rs, rt in ((1, '&'), (0, '&'), (1, '&!')):
            out.append(([F('F', 2, ls=1, rs=rs, rt=rt), F('F', 2, left, ls=left == '')], 0))
    out += [([F('F', 2, 'lab', ls=1, rs=0, rt='&', joined=1), F('F', 2, 'amp')], 0),
            ([F('F', 4, semi=(1,), rs=0, rt='&', joined=1), F('F', 3, 'bamp', semi=(1,))], 0),
            ([F('F', 1, rs=1, rt='&'), F('C'), F('F', 2, ls=1)], 0),
            ([F('F', 3, ls=1, semi=(1,), rs=1, rt='&'), F('C'), F('F', 1, ls=1, rs=1, rt='!')], 0),
            ([F('F', 2, semi=(1,), rs=1, rt='&'), F('B'), F('F', 2, 'amp', rs=1, rt='!')], 0),
            ([F('F', 2, rs=1, rt='&!'), F('F', 2, ls=1, rs=1, rt='&!'), F('F', 2, 'bamp')], 0),
            ([F('F', 1, rs=1, rt='&'), F('F', 1, ls=1, rs=1, rt='&'), F('F', 1, ls=1, rs=1, rt='!')], 0),
            ([F('F', 1, rs=1, rt='&'), F('F', 3, ls=1, semi=(1,), rs=1, rt='&'), F('F', 1, ls=1)], 0),
            ([F('F', 2, rs=0, rt='&', joined=1), F('F', 1, 'amp', rs=0, rt='&', joined=1), F('F', 2, 'amp')], 0),
            ([F('F', 2, rs=0, rt='&', joined=1), F('F', 1, 'bamp', rs=1, rt='!')], 0),
            ([F('F', 3, semi=(1,)), F('C')], 0),
            ([F('F', 2, ls=1, semi=(1,)), F('C'), F('C')], 0),
            ([F('F', 3, ls=1)], 1), ([F('F', 3, 'lab', ls=1, semi=(1,), rs=1, rt='!')], 1),
            ([F('F', 3, ls=1, semi=(1,)), F('F', 2, 'col6', ls=1)], 1),
            ([F('F', 1), F('C'), F('F', 2, 'col6', rs=1, rt='!')], 1),
            ([F('F', 1), F('F', 1, 'col6'), F('F', 1, 'col6', ls=1)], 1)]
    return out


def P14(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    for ls, fixed in cases():
        E = EdEng(F)
        s, a, toks = build(E, St(), ls, fixed)
        n = len(toks)
        split = [t['begin'][0] != t['end'][0] for t in toks]
        for i in range(n):
            if not split[i]:
                T.add(replace_fragment, ls, fixed, i)
                T.add(remove_fragment, ls, fixed, i)
            for after in (0, 1):
                T.add(insert_text, ls, fixed, i, after)
            T.add(split_after, ls, fixed, i)
            semis = [j for j in range(n) if toks[j]['kind'] == E.kinds[1]]
            for m in range(i, n):
                if not any(i <= j <= m for j in semis):
                    T.add(replace_stmt_substr, ls, fixed, i, m)
        T.add(insert_text, ls, fixed, n, 0)
        T.add(split_after, ls, fixed, n)
        for q in (0, 1, 2) if any(p.joined for p in ls) else (0, 1):
            T.add(append_comment, ls, fixed, q)
        if all(p.kind == 'F' and not p.joined and not p.semi for p in ls):
            for m in range(len(ls) + 3):
                T.add(replace_main_text, ls, fixed, m)
    T.run()
    rep.need(1000, 'P14')
    return ('each operation that edits a token, a run of tokens or a place of a logical line (replace_fragment, remove_fragment, '
            'insert_text_before, insert_text_after, replace_stmt_substr, split_after) is followed on every path for %d '
            'arrangements of physical lines, comments and tokens (texts, places and numbers of blanks unknown), at every token; '
            'the fields of every physical line and token afterwards are compared with the documented effect' % len(cases()))
