"""P24: converting a fixed-form file to free form"""
import itertools
import absnat
from absint import St, It, ListV, LV, Ptr, Up
from core import Broken, Facts, rel
from text import Txt, symi, sym_text, tlen, ladd, norm
from c_text import FIELDS, Out, Tasks
from c_line import LL, E0, lines, frags
from c_edit import EdEng, PL, build, layout_of, tokf, eqv
from c_file import LF, Ck, enumv, TUS
from c_fline import blanks, solid, same_txt, same_pieces

"""kinds of physical lines of a fixed-form statement: (what it is, control columns, blanks at the start, blanks behind the text,
comment, joined to the next, in a literal)"""
FIRST = ('', 'lab', 'lab_', 'blab', 'zero')
TAILS = {  # rs, right text, joined, delim
    '': (0, '', 0, 0), '_': (1, '', 0, 0), '!': (0, '!', 0, 0), '_!': (1, '!', 0, 0), 'j': (0, '', 1, 0), 'j!': (0, '!', 1, 0),
    'q': (0, '', 1, 39), 'q!': (0, '!', 1, 39), 'J': (0, '', 1, 0)}   # J: one token only
MIDDLE = ('C', '*', 'B', 'I', 'b')   # C and * comment, ! comment behind blanks, empty line, blank line with control columns


def fline(E, s, i, w, x):
    """a Fortran line; x: label columns"""
    rs, rt, joined, d = TAILS[w]
    return PL('F', 1 if w == 'J' else 2, 'col6' if i else 'lab' if 'lab' in x else '', ls=1 if i or x in ('lab_', 'zero') else 0, rs=rs, rt=rt, joined=joined)


def statement(E, s, first, items):
    """a logical line: items are tails (of Fortran lines) and kinds of lines between"""
    ls, k = [], 0
    joined = False
    for j, w in enumerate(items):
        if w in MIDDLE:
            ls.append(PL('C' if w in 'CI*' else 'B'))
            continue
        p = fline(E, s, k, w, first)
        if joined:
            p.ls = 0
        joined = p.joined
        ls.append(p)
        k += 1
    s, a, _ = build(E, s, ls, 1)
    k = 0
    for j, (w, f) in enumerate(zip(items, lines(E, s, a))):
        def put(n, v):
            s.heap[E.addr(s, f, n)] = v
        if w in ('C', '*'):
            put('left_txt', Txt((('l', w),) + sym_text(s, ('note', j)).p))
        elif w == 'I':
            put('left_txt', Txt((('l', '  '), blanks(E, s, ('in', j)), ('l', '!')) + sym_text(s, ('note', j)).p))
        elif w == 'b':
            put('left_txt', Txt((('l', '     1'),)))
        elif w != 'B':
            if not k and first == 'blab':
                put('left_txt', Txt((('l', '  10'),)))
            if not k and first == 'zero':
                put('left_txt', Txt((('l', '     0'),)))
            put('open_delim', TAILS[w][3])
            k += 1
    return s, a


def other(E, s, kind):
    """logical lines that are no statements"""
    (s, a), = absnat.construct(E, s, LL, [], E0)
    lay = E.addr(s, a, 'layout_')
    nodes = []
    for j, w in enumerate(kind):
        (s, f), = absnat.construct(E, s, 'FLPR::File_Line', [], E0)
        r = s.heap[f].f
        bits = list(s.heap[r['classification_']].b)
        bits[E.bitno['fixed_format']] = True
        t = ()
        if w in 'CI!*':
            bits[E.bitno['comment']] = True
            n = sym_text(s, ('note', j)).p
            t = (('l', '  '), blanks(E, s, ('in', j)), ('l', '!')) + n if w == 'I' else (('l', w),) + n
        elif w == '#':
            bits[E.bitno['preprocessor']] = True
            t = (('l', '#'),) + sym_text(s, ('note', j)).p
        elif w == 'i':
            bits[E.bitno['include']] = True
            t = sym_text(s, ('note', j)).p
        else:
            bits[E.bitno['blank']] = True
            t = (('l', '     1'),) if w == 'b' else ()
        s.heap[r['left_txt']] = Txt(t)
        from text import Bits
        s.heap[r['classification_']] = Bits(bits)
        s.heap[r['open_delim']] = 0
        nodes.append(f)
    s.heap[lay] = ListV(s.heap[lay].t, tuple(nodes))
    for f in nodes:
        s.x[('own', f)] = lay
    r = E.call(s, E.F.need(LL + '::init_stmts')[0], a, [], E0)
    return r[0][0], a


def show(first, items):
    return 'a statement line (%s) %s' % (first or 'no label', ' / '.join(items))


def file_of(E, s, lls, fixed):
    """lls: functions (E, s) -> (s, logical line)"""
    F = E.F
    (s, a), = absnat.construct(E, s, LF, [], E0)
    (s, fi), = absnat.construct(E, s, 'FLPR::File_Info', [LV(E.new(s, sym_text(s, ('file',)))), LV(E.new(s, enumv(F, 'FLPR::File_Type', 'FIXEDFMT')))], E0)
    s.heap[E.addr(s, a, 'file_info')] = Up(Ptr(fi))
    l = E.addr(s, a, 'lines', 'list_')
    nodes = []
    for f, fx in zip(lls, fixed):
        s, x = f(E, s)
        if not fx:
            for y in lines(E, s, x):
                c = E.addr(s, y, 'classification_')
                b = list(s.heap[c].b)
                b[E.bitno['fixed_format']] = False
                s.heap[c] = type(s.heap[c])(b)
        s.x[('own', x)] = l
        nodes.append(x)
    v = s.heap[l]
    s.heap[l] = ListV(v.t, tuple(nodes) + v.n[-1:])
    return s, a, nodes, fi


def convert(F, what, lls, fixed, o=None):
    o = o or Out()
    E = EdEng(F)
    s, a, nodes, fi = file_of(E, St(), lls, fixed)
    before = [(layout_of(E, s, x), [tokf(E, s, t) for t in frags(E, s, x)]) for x in nodes]
    f = F.need(LF + '::convert_fixed_to_free')[0]
    k = Ck(o, f, what)
    E.aborts.clear()
    rs = E.call(s, f, a, [], E0)
    k.ok(bool(rs) and not E.aborts, 'paths', 'the conversion succeeds', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))
    for s, v in rs:
        if not E.feasible(s):
            continue
        k.ok(bool(v) == any(fixed), 'result', 'the result tells whether anything was converted', 'it is %r' % (v,))
        free = enumv(F, 'FLPR::File_Type', 'FREEFMT' if any(fixed) else 'FIXEDFMT')
        k.ok(E.get(s, fi, 'file_type') == free, 'file type', 'the file is a free-form file afterwards', 'it is not')
        k.ok(list(s.heap[E.addr(s, a, 'lines', 'list_')].n[:-1]) == nodes, 'lines', 'logical lines stay', 'they change')
        for x, (lb, tb), fx in zip(nodes, before, fixed):
            one(E, s, k, lb, tb, layout_of(E, s, x), [tokf(E, s, t) for t in frags(E, s, x)], fx)
    return o


def one(E, s, k, lb, tb, lc, tc, fx):
    k.ok(len(lb) == len(lc), 'layout', 'physical lines stay', '%d lines become %d' % (len(lb), len(lc)))
    k.ok(tb == tc, 'tokens', 'tokens stay', 'they change')
    if len(lb) != len(lc):
        return
    B = E.bitno

    def flags(b, c, i, **kw):
        for n, j in B.items():
            if j < len(c['bits']):
                w = kw.get(n, b['bits'][j])
                k.ok(c['bits'][j] == w, 'flag:' + n, 'the kind of each physical line is recorded', 'the %s flag of line %d becomes %s' % (
                    n, i + 1, c['bits'][j]))

    def same(b, c, i, but=()):
        for n in FIELDS + ('open_delim', 'linenum'):
            if n not in but:
                g = same_txt(E, s, b[n], c[n]) if n in FIELDS else b[n] == c[n]
                k.ok(g, 'field:' + n, 'the rest of the line stays', '%s of line %d becomes %s' % (n, i + 1, c[n]))
    code = [i for i, b in enumerate(lb) if not any(b['bits'][B[n]] for n in ('comment', 'blank', 'preprocessor', 'include', 'flpr_pp', 'flpr_lit'))]
    if not fx:
        for i, (b, c) in enumerate(zip(lb, lc)):
            flags(b, c, i)
            same(b, c, i)
        return
    # lines whose text goes on inside a token of the last one
    inner = {j for t in tb for j in range(t['mt_begin_line_'] + 1, t['mt_end_line_'] + 1)}
    for i, (b, c) in enumerate(zip(lb, lc)):
        kw = dict(fixed_format=False)
        if i not in code:
            flags(b, c, i, **kw)
            if b['bits'][B['comment']]:
                same(b, c, i, ('left_txt',))
                p = norm(E, s, b['left_txt']).p
                if p[0][0] == 'l' and p[0][1][0] != ' ':
                    p = (('l', '!' + p[0][1][1:]),) + p[1:]
                k.ok(same_txt(E, s, c['left_txt'], Txt(p)), 'comment', 'a comment begins with ! and keeps its text and place',
                     'the comment becomes %s' % (c['left_txt'],))
            elif b['bits'][B['blank']]:
                same(b, c, i, ('left_txt', 'left_space'))
                k.ok(not solid(c['left_txt']) and not solid(c['left_space']), 'blank', 'a line without text is blank in free form',
                     'line %d reads %s' % (i + 1, c['left_txt']))
            else:
                same(b, c, i)
            continue
        first, last = i == code[0], i == code[-1]
        if not last:
            kw['continued'] = True
        if not first:
            kw['continuation'] = i in inner
        flags(b, c, i, **kw)
        same(b, c, i, ('left_txt', 'left_space') + (() if last else ('right_space', 'right_txt')))
        # ---- the front
        w0 = ladd(6, tlen(b['left_space']))
        w1 = ladd(tlen(c['left_txt']), tlen(c['left_space']))
        k.ok(E.feasible(s) and eqv(E, s, w0, w1), 'column', 'the text keeps its column', 'line %d starts in column %s, not %s' % (i + 1, w1, w0))
        k.ok(not solid(c['left_space']), 'front', 'only blanks are put before the text', 'left_space becomes %s' % (c['left_space'],))
        if first:
            lab = solid(b['left_txt']) if b['bits'][B['label']] else []
            k.ok(same_pieces(E, s, solid(c['left_txt']), lab), 'label', 'a label stays, a zero in column 6 goes', 'left_txt becomes %s' % (
                c['left_txt'],))
            if lab:
                k.ok(E.entails_le(s, 1, tlen(c['left_space'])), 'label apart', 'a blank stands between the label and the statement',
                     'left_space becomes %s' % (c['left_space'],))
        elif i in inner:
            k.ok(list(solid(c['left_txt'])) == [('l', '&')] and c['left_txt'].p[-1][1][-1] == '&' and eqv(E, s, tlen(c['left_space']), tlen(b['left_space'])), 'joined',
                 'a line that goes on inside a token begins with & directly before the text', 'line %d begins %s %s' % (
                     i + 1, c['left_txt'], c['left_space']))
        else:
            k.ok(not solid(c['left_txt']), 'mark', 'the mark in column 6 goes', 'left_txt becomes %s' % (c['left_txt'],))
        # ---- the end
        if last:
            continue
        note = list(solid(b['right_txt']))
        r = list(solid(c['right_txt']))
        k.ok(r[:1] == [('l', '&')], 'continued', 'a line that is continued ends with &', 'right_txt of line %d becomes %s' % (i + 1, c['right_txt']))
        k.ok(not solid(c['right_space']), 'blank', 'only blanks are put behind the text', 'right_space becomes %s' % (c['right_space'],))
        if b['open_delim']:
            k.ok(r == [('l', '&')], 'character', 'nothing follows the & of a continued literal', 'right_txt of line %d becomes %s' % (
                i + 1, c['right_txt']))
        else:
            k.ok(same_pieces(E, s, r[1:], note), 'note', 'comments stay', 'right_txt of line %d becomes %s' % (i + 1, c['right_txt']))
        nx = next(j for j in code if j > i)
        if nx in inner:
            k.ok(eqv(E, s, tlen(c['right_space']), 0), 'joined', 'no blank is put inside a token', 'right_space of line %d becomes %s' % (
                i + 1, c['right_space']))
        elif tlen(b['right_space']) != 0:
            k.ok(not note and eqv(E, s, tlen(c['right_space']), tlen(b['right_space'])) or note, 'apart', 'blanks behind the text stay',
                 'right_space of line %d becomes %s' % (i + 1, c['right_space']))


def stmts(F, first, heads, n):
    """statements of n Fortran lines"""
    o = Out()
    for tails in itertools.product(TAILS, repeat=n - len(heads) - 1):
        for last in ('', '_', '!', '_!'):
            for mid in between(n):
                items = []
                for t, m in zip(heads + tails, mid):
                    items += [t] + list(m)
                items.append(last)
                convert(F, show(first, items), [lambda E, s: statement(E, s, first, items)], (1,), o)
    return o


def between(n):
    """lines between the Fortran lines"""
    yield ('',) * (n - 1)
    for i in range(n - 1):
        for m in ('C', 'I', 'B', 'b', 'CB', 'b*'):
            yield ('',) * i + (m,) + ('',) * (n - 2 - i)
    if n > 2:
        yield ('C',) * (n - 1)


def single(F):
    o = Out()
    for first in FIRST:
        for last in ('', '_', '!', '_!'):
            convert(F, show(first, [last]), [lambda E, s: statement(E, s, first, [last])], (1,), o)
    return o


def others(F, n):
    o = Out()
    for w in itertools.product('C*!IBb', repeat=n):
        convert(F, 'comment and blank lines "%s"' % ''.join(w), [lambda E, s: other(E, s, w)], (1,), o)
    for w in ('#', 'i'):
        convert(F, 'a directive', [lambda E, s: other(E, s, w)], (1,), o)
    return o


def mixed(F):
    """several logical lines, some not in fixed form"""
    o = Out()
    ks = (lambda E, s: statement(E, s, 'lab', ['q!', 'C', '']), lambda E, s: statement(E, s, '', ['_!', 'j', '!']), lambda E, s: other(E, s, 'C!'))
    for n in range(4):
        for w in itertools.permutations(range(3), n):
            for fx in itertools.product((0, 1), repeat=n):
                convert(F, 'logical lines %s, in fixed form: %s' % (w, fx), [ks[i] for i in w], fx, o)
    return o


def P24(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    deep = rep.tier == 'thorough'
    T.add(single)
    for n in range(1, 4 if deep else 3):
        T.add(others, n)
    T.add(mixed)
    for first in FIRST:
        T.add(stmts, first, (), 2)
        for h in TAILS:
            if deep or first in ('', 'lab'):
                T.add(stmts, first, (h,), 3)
                if deep and first == '':
                    for h2 in TAILS:
                        T.add(stmts, first, (h, h2), 4)
    T.run()
    rep.need(20000, 'P24')
    return ('convert_fixed_to_free is followed for statements of up to %d Fortran lines with every kind of front and end of line, and comment, '
            'blank and control-column lines between, and for files of up to three logical lines' % (4 if deep else 3))


if __name__ == '__main__':
    F = Facts(only=TUS)
    import time, sys
    t = time.time()
    o = eval(sys.argv[1])
    print(o.n, o.bad, time.time() - t)
