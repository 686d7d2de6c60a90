"""P22: editing the margin, label, continuation mark or kind of a physical line"""
import absnat
from absint import *
from core import Facts, Broken, rel
from text import *
from c_text import LineEng, FIELDS, Tasks, Out
from c_line import deduce

TUS = ['File_Line.cc']
FLN = 'FLPR::File_Line'
FL = FLN + '::'


class EditEng(LineEng):
    multi = True

    def split(self, st, v, e=None):
        if isinstance(v, LV) and v.a in st.heap:
            v = self.load(st, v)
        if v is UNINIT:
            self.abort(st, 'a value that was never set is used', e or E0)
            return []
        return super().split(st, v, e)


class Shape:
    """a physical line with unknown text: which fields it has"""

    def __init__(self, left='', ls=0, main=1, rs=0, rt='', fixed=0, kind='fortran', m0=0):
        self.left, self.ls, self.main, self.rs, self.rt = left, ls, main, rs, rt
        self.fixed, self.kind, self.m0 = fixed, kind, m0

    def text(self):
        if self.kind != 'fortran':
            return '%s %s line (%s)' % ('fixed-form' if self.fixed else 'free-form', self.kind, self.left)
        w = ['fixed-form' if self.fixed else 'free-form', 'line']
        d = [{'': '', 'lab': 'a label', 'blab': 'an indented label', 'amp': '& in front', 'bamp': 'an indented & in front',
              'col6': 'a continuation mark', 'col6z': '0 in column 6'}[self.left]]
        d += ['indentation'] if self.ls else []
        d += ['no statement text'] if not self.main else []
        d += ['blanks after the text'] if self.rs else []
        d += [{'': '', '&': 'a trailing &', '!': 'a comment', '&!': 'a trailing & and a comment'}[self.rt]]
        d = [x for x in d if x]
        return ' '.join(w) + (' with ' + ', '.join(d) if d else '')


def blanks(E, s, n, least=1):
    m = symi(n)
    E.assume_le(s, ladd(least, m, -1), 0)
    E.assume_le(s, m, 1 << 20)
    return ('f', 32, m)


def own(E, s, base, ps):
    """the pieces as one unknown text of which the same is known"""
    ps = tuple(ps)
    if len(ps) < 2:
        return ps
    n = 0
    marks = []
    u = sym_text(s, base)
    for p in ps:
        marks.append((n, p))
        hi = ladd(n, plen(p))
        if p[0] == 'f':
            add_range(E, s, base, n, hi, frozenset((p[1],)))
        elif p[0] == 'l':
            for i, ch in enumerate(p[1]):
                c = char_at(E, s, base, ladd(n, i))
                s.tags[c.s] = frozenset((ord(ch),))
        n = hi
    E.assume_le(s, ladd(n, tlen(u), -1), 0)
    E.assume_le(s, ladd(tlen(u), n, -1), 0)
    s.x['own'] = s.x.get('own', ()) + ((base, tuple(marks), n),)
    return u.p


def plain(E, s, t):
    """the text with slices of an own text replaced by what that is made of"""
    out = []
    for p in norm(E, s, t).p:
        o = [x for x in s.x.get('own', ()) if p[0] == 's' and x[0] == p[1]]
        if not o:
            out.append(p)
            continue
        _, marks, end = o[0]
        lo, hi = p[2], p[3]
        if eqv(E, s, lo, hi):
            continue
        got, at = [], lo
        for i, (m, q) in enumerate(marks):
            nx = marks[i + 1][0] if i + 1 < len(marks) else end
            last = i + 1 == len(marks)
            if not (E.entails_le(s, m, at) and E.entails_le(s, at if last else ladd(at, 1), nx)):
                continue
            to = nx if E.entails_le(s, nx, hi) else hi if E.entails_le(s, hi, nx) else None
            if to is None:
                break
            if eqv(E, s, at, m):
                at = m
            off, ln = ladd(at, m, -1), ladd(to, at, -1)
            if q[0] == 'f':
                got.append(('f', q[1], ln))
            elif q[0] == 'l':
                if not isinstance(off, int) or not isinstance(ln, int):
                    break
                got.append(('l', q[1][off:off + ln]))
            else:
                got.append(('s', q[1], ladd(q[2], off), ladd(ladd(q[2], off), ln)))
            at = to
        if eqv(E, s, at, hi):
            out += got
        else:
            out.append(p)
    return norm(E, s, Txt(tuple(out)))


def build(E, s, sh):
    (s, a), = absnat.construct(E, s, FLN, [], E0)
    r = s.heap[a].f
    bits = list(s.heap[r['classification_']].b)

    def on(n):
        bits[E.bitno[n]] = True

    if sh.fixed:
        on('fixed_format')
    f = dict.fromkeys(FIELDS, ())
    if sh.kind == 'fortran':
        if sh.left in ('lab', 'blab'):
            on('label')
            f['left_txt'] = ((blanks(E, s, 'm'),) if sh.left == 'blab' else ()) + (('l', '10'),)
        elif sh.left in ('amp', 'bamp'):
            on('continuation')
            f['left_txt'] = ((blanks(E, s, 'm'),) if sh.left == 'bamp' else ()) + (('l', '&'),)
        elif sh.left == 'col6':
            on('continuation')
            f['left_txt'] = (('l', '     &'),)
        elif sh.left == 'col6z':
            f['left_txt'] = (('l', '     0'),)
        if sh.ls:
            f['left_space'] = (blanks(E, s, 'ls'),)
        if sh.main:
            t = sym_text(s, 'A', 1)
            f['main_txt'] = t.p
            for i in (0, ladd(tlen(t), -1)):
                c = char_at(E, s, 'A', i)
                s.tags[c.s] = CH - {32, 9}
        if sh.rs:
            f['right_space'] = (blanks(E, s, 'rs'),)
        rt = ()
        if sh.rt[:1] == '&':
            on('continued')
            rt += (('l', '&'),)
            if sh.rt == '&!':
                rt += (blanks(E, s, 'k'),)
        if sh.rt[-1:] == '!':
            rt += (('l', '!'),) + sym_text(s, 'N').p
        f['right_txt'] = rt
    else:
        on({'preprocessor': 'preprocessor', 'include': 'include', 'directive': 'flpr_pp', 'literal': 'flpr_lit'}.get(
            sh.kind, sh.kind))
        if sh.kind == 'comment' and sh.left == 'right':
            f['left_space'] = (blanks(E, s, 'm'),)
            f['right_txt'] = (('l', '!'),) + sym_text(s, 'N').p
        elif sh.kind == 'comment':
            b = () if sh.left in '!C*' else (blanks(E, s, 'm'),)
            f['left_txt'] = b + (('l', sh.left.strip()),) + sym_text(s, 'N').p
        elif sh.kind == 'blank':
            f['left_txt'] = (blanks(E, s, 'm', 0),)
        else:
            f['left_txt'] = sym_text(s, 'N', 1).p
    for k, v in f.items():
        s.heap[r[k]] = Txt(own(E, s, k, v))
    s.heap[r['classification_']] = Bits(bits)
    s.heap[r['linenum']] = symi('line')
    s.heap[r['open_delim']] = 0
    return s, a


def snap(E, s, a):
    d = {k: plain(E, s, E.get(s, a, k)) for k in FIELDS}
    d['bits'] = E.bits(s, a).b
    d['linenum'] = E.get(s, a, 'linenum')
    d['open_delim'] = E.get(s, a, 'open_delim')
    return d


def blank_piece(p):
    return p[0] == 'f' and p[1] == 32 or p[0] in ('l', 'k') and not p[1].strip(' ')


def solid(t):
    """the pieces that are not blank"""
    out = []
    for p in t.p:
        if p[0] in ('l', 'k'):
            out += [('l', w) for w in p[1].split(' ') if w]
        elif not blank_piece(p):
            out.append(p)
    # adjacent known words: keep them joined as given
    return tuple(out)


def lead(E, s, t):
    """number of blanks in front"""
    n = 0
    for p in t.p:
        if blank_piece(p):
            n = ladd(n, plen(p))
        else:
            if p[0] in ('l', 'k'):
                n = ladd(n, len(p[1]) - len(p[1].lstrip(' ')))
            break
    return n


def same_txt(E, s, v, w):
    v, w = norm(E, s, v), norm(E, s, w)
    return same_pieces(E, s, v.p, w.p)


def same_pieces(E, s, v, w):
    v, w = [p for p in v if not zero(E, s, p)], [p for p in w if not zero(E, s, p)]
    if len(v) != len(w):
        return False
    for x, y in zip(v, w):
        if x[0] == 's' and y[0] == 's':
            if x[1] != y[1] or not eqv(E, s, x[2], y[2]) or not eqv(E, s, x[3], y[3]):
                return False
        elif x[0] == 'f' and y[0] == 'f':
            if x[1] != y[1] or not eqv(E, s, x[2], y[2]):
                return False
        elif x[0] in 'lk' and y[0] in 'lk':
            if x[1] != y[1]:
                return False
        elif x != y:
            return False
    return True


def zero(E, s, p):
    return eqv(E, s, plen(p), 0)


def unchanged(E, s, b, c, keys=FIELDS):
    return [k for k in keys if not same_txt(E, s, b[k], c[k])]


def loose(c):
    """does a field depend on what a generalised loop leaves behind?"""
    def h(x):
        if isinstance(x, Lin):
            return any(h(k) for k, _ in x.t)
        return isinstance(x, tuple) and (x[:1] == ('h',) or any(h(y) for y in x))
    return any(h(p) for f in FIELDS for p in c[f].p)


class Ck:
    """the checks of one operation on one shape of line"""

    def __init__(self, o, E, s, f, what):
        self.o, self.E, self.s, self.f, self.what, self.c = o, E, s, f, what, None
        self.where = rel(f['l'])
        self.op = f['q'].rsplit('::', 1)[-1]

    def ok(self, good, key, rule, msg):
        if not good and self.c and loose(self.c):
            self.o.note('not decided: %s, %s' % (self.op, self.what))
            return
        self.o.check(good, '%s:%s' % (self.op, key), self.where, rule, '%s: %s' % (self.what, msg))

    def keep(self, b, c, keys, rule):
        for k in keys:
            self.ok(same_txt(self.E, self.s, b[k], c[k]), 'keep:' + k, rule, '%s was %s and becomes %s' % (k, b[k], c[k]))

    def is_blank(self, c, keys):
        for k in keys:
            self.ok(not solid(c[k]), 'blank:' + k, 'only blanks are put around the text', '%s becomes %s' % (k, c[k]))

    def solid(self, b, c, keys, rule):
        for k in keys:
            self.ok(same_pieces(self.E, self.s, solid(b[k]), solid(c[k])), 'text:' + k, rule,
                    '%s was %s and becomes %s' % (k, b[k], c[k]))

    def flags(self, b, c, change=()):
        d = dict(change)
        for n, i in self.E.bitno.items():
            if n.startswith('zzz') or n == 'zzz_num' or i >= len(c['bits']):
                continue
            want = d.get(n, b['bits'][i])
            self.ok(c['bits'][i] == want, 'flag:' + n, 'the kind of the line is recorded', 'the %s flag becomes %s' % (
                n, c['bits'][i]))

    def eq(self, v, w, key, rule, msg):
        self.ok(eqv(self.E, self.s, v, w), key, rule, msg % {'v': v, 'w': w})

    def rest(self, b, c):
        for k in ('linenum', 'open_delim'):
            self.ok(b[k] == c[k], 'keep:' + k, 'nothing else changes', '%s was %s and becomes %s' % (k, b[k], c[k]))


def fn(E, name, n=None):
    fs = [f for f in E.fns(FL + name) if n is None or len(f['params']) == n]
    if not fs:
        raise Broken(FL + name + ' not found')
    return fs[0]


def every(F, shape, op, args=lambda E, s: []):
    """(Out, [(state, value, check, before, after)])"""
    o = Out()
    E = EditEng(F)
    s, a = build(E, St(), shape)
    b = snap(E, s, a)
    f = fn(E, op)
    vs = args(E, s)
    rs = E.call(s, f, a, vs, E0)
    what = 'a ' + shape.text()
    o.check(bool(rs) or bool(E.aborts), op + ':none', rel(f['l']), 'the operation returns', '%s: no path returns' % what)
    for why, w, s1 in E.aborts:
        o.check(False, '%s:abort:%s' % (op, why), w, 'the operation succeeds', '%s: %s' % (what, why))
    out = []
    for s1, v in rs:
        if not deduce(E, s1, True):
            continue
        c = snap(E, s1, a)
        k = Ck(o, E, s1, f, what)
        k.c = c
        out.append((s1, v, k, b, c))
    return o, E, a, out


def width(E, c, keys):
    n = 0
    for k in keys:
        n = ladd(n, tlen(c[k]))
    return n


def splits(E, s, op, v, w):
    return [(s2, b) for s2, b in E.split_cmp(s.fork(), op, v, w) if E.feasible(s2)]


# ------------------------------------------------------------------ margins
def spacing(F, sh):
    def args(E, s):
        E.assume_le(s, ladd(0, symi('w'), -1), 0)
        E.assume_le(s, symi('w'), 1 << 20)
        return [symi('w')]
    o, E, a, rs = every(F, sh, 'set_leading_spaces', args)
    w = symi('w')
    for s, v, k, b, c in rs:
        k.rest(b, c)
        k.flags(b, c)
        diff = unchanged(E, s, b, c)
        for s2, r in E.split(s, v):
            k.s = s2
            d2 = unchanged(E, s2, b, c)
            if not r:
                k.ok(not d2, 'result', 'the operation reports whether the spacing was altered',
                     'reports no change, but %s changed' % ', '.join(d2))
            else:
                k.ok(bool(d2), 'result', 'the operation reports whether the spacing was altered',
                     'reports a change, but nothing changed')
        k.s = s
        if sh.kind == 'fortran':
            k.keep(b, c, ['main_txt'], 'the text of the statement stays')
            k.is_blank(c, ['left_space', 'right_space'])
            k.solid(b, c, ['left_txt', 'right_txt'], 'label, marks and comment stay')
            lt = c['left_txt'].p
            k.ok(not lt or not (blank_piece(lt[-1]) or lt[-1][0] == 'l' and lt[-1][1][-1:] == ' ') or sh.fixed, 'behind',
                 'nothing is put between a mark and the text', 'left_txt was %s and becomes %s' % (b['left_txt'], c['left_txt']))
            if sh.rt[:1] == '&' and not sh.rs:
                k.ok(eqv(E, s, tlen(c['right_space']), 0), 'joined', 'text that is joined to the next line stays joined',
                     'right_space was empty and becomes %s' % (c['right_space'],))
            if sh.rs:
                k.ok(E.entails_le(s, 1, tlen(c['right_space'])), 'apart', 'blanks before the mark stay',
                     'right_space was not empty and becomes %s' % (c['right_space'],))
            if sh.rt[:1]:
                k.ok(c['right_txt'].p[:1] and c['right_txt'].p[0][0] in 'lk' and c['right_txt'].p[0][1][:1] == sh.rt[:1],
                     'first', 'trailing text begins with its mark', 'right_txt becomes %s' % (c['right_txt'],))
            if sh.fixed:
                if sh.left == 'col6':
                    k.keep(b, c, ['left_space'], 'a continued text is not moved')
                continue
            col = width(E, c, ('left_txt', 'left_space'))
            old = width(E, b, ('left_txt', 'left_space'))
            if sh.left == '':
                cases = [(s, w)]
            elif sh.left in ('lab', 'blab'):
                n = tlen(b['left_txt'])
                cases = [(s2, w if lt else ladd(n, 1)) for s2, lt in splits(E, s, '<', n, w)]
            else:
                cases = []
                least = ladd(old, lead(E, s, b['left_txt']), -1)
                for s2, lt in splits(E, s, '<', w, least):
                    cases.append((s2, least if lt else w))
            for s2, want in cases:
                k.s = s2
                k.eq(col, want, 'column', 'the text begins after the given number of columns',
                     'the text begins after %(v)s columns, not %(w)s')
            # a trailing comment keeps its column when there is room
            if sh.rt[-1:] == '!':
                old = comment_col(E, b)
                new = comment_col(E, c)
                mv = ladd(width(E, c, ('left_txt', 'left_space')), width(E, b, ('left_txt', 'left_space')), -1)
                room = ladd(tlen(b['right_space']), 1 if sh.rs else 0, -1)
                for s2, fits in splits(E, s, '<=', mv, room):
                    k.s = s2
                    if sh.rt == '&!' and not sh.rs:
                        continue
                    if fits:
                        k.eq(new, old, 'comment column', 'a trailing comment keeps its column when there is room',
                             'the comment moves to column %(v)s from %(w)s')
        elif sh.kind == 'comment' and sh.left in ('!', ' !'):
            k.keep(b, c, FIELDS[1:], 'a comment line has no other text')
            t = c['left_txt']
            k.eq(lead(E, s, t), w, 'column', 'the comment begins after the given number of columns',
                 'the comment begins after %(v)s columns, not %(w)s')
            rest = Txt(tuple(p for p in t.p if not blank_piece(p)))
            full = Txt(b['left_txt'].p[1:] if sh.left == ' !' else b['left_txt'].p)
            good = rest.p[:1] and rest.p[0][0] in 'lk' and rest.p[0][1] == '!'
            tail = [p for p in rest.p[1:]]
            good = good and len(tail) <= 1
            if good and tail:
                p = tail[0]
                good = p[0] == 's' and p[1] == 'N' and eqv(E, s, p[3], symi(('n', 'N')))
                if good and not eqv(E, s, p[2], 0):
                    good = sh.left == '!' and known_range(E, s, 'left_txt', 1, ladd(p[2], 1)) <= {32, 9}
            elif good:
                good = eqv(E, s, symi(('n', 'N')), 0)
            k.ok(bool(good), 'comment', 'the text of the comment stays', 'the comment %s becomes %s' % (full, t))
        else:
            k.keep(b, c, FIELDS, 'a line that is no statement and no comment is not changed')
    return o


def comment_col(E, c):
    n = width(E, c, FIELDS[:4])
    for p in c['right_txt'].p:
        if p[0] in 'lk' and '!' in p[1]:
            return ladd(n, p[1].index('!'))
        n = ladd(n, plen(p))
    return n


def leading(F, sh):
    o, E, a, rs = every(F, sh, 'get_leading_spaces')
    for s, v, k, b, c in rs:
        k.keep(b, c, FIELDS, 'a query changes nothing')
        if sh.kind == 'fortran':
            want = ladd(6, tlen(b['left_space'])) if sh.fixed else width(E, b, ('left_txt', 'left_space'))
        elif sh.left == 'right':
            want = symi('m')
        else:
            want = lead(E, s, b['left_txt'])
        k.eq(E.load(s, v), want, 'column', 'the number of columns before the text is given', 'gives %(v)s, not %(w)s')
    return o


# ------------------------------------------------------------ continuation
def mark(F, sh, op):
    o, E, a, rs = every(F, sh, op)
    cont = op == 'make_continued'
    for s, v, k, b, c in rs:
        k.rest(b, c)
        k.flags(b, c, [('continued', cont)])
        k.keep(b, c, ['left_txt', 'left_space', 'main_txt'], 'only the end of the line changes')
        k.is_blank(c, ['right_space'])
        want = tuple(p for p in solid(b['right_txt']) if p != ('l', '&'))
        if cont:
            want = (('l', '&'),) + want
        k.ok(same_pieces(E, s, solid(c['right_txt']), want), 'right_txt', 'only the mark is put or removed',
             'right_txt was %s and becomes %s' % (b['right_txt'], c['right_txt']))
        first = c['right_txt'].p[:1]
        if want:
            k.ok(first and first[0][0] in 'lk' and first[0][1][:1] == want[0][1][:1], 'first',
                 'trailing text begins with its mark', 'right_txt becomes %s' % (c['right_txt'],))
        elif not cont:
            k.ok(eqv(E, s, width(E, c, FIELDS[3:]), 0), 'empty', 'nothing is left after the text', '%s %s are left' % (
                c['right_space'], c['right_txt']))
        if cont and sh.rt[:1] == '&':
            k.keep(b, c, ['right_space', 'right_txt'], 'a continued line stays as it is')
        elif cont:
            k.ok(E.entails_le(s, 1, tlen(c['right_space'])), 'blank', 'the mark is kept apart from the text',
                 'right_space becomes %s' % (c['right_space'],))
        if sh.rt[-1:] == '!':
            room = True if not cont or sh.rt[:1] == '&' else None
            for s2, r in ([(s, True)] if room else splits(E, s, '<', 2, tlen(b['right_space']))):
                k.s = s2
                if r:
                    k.eq(comment_col(E, c), comment_col(E, b), 'comment column',
                         'a trailing comment keeps its column when there is room',
                         'the comment moves to column %(v)s from %(w)s')
    return o


# ------------------------------------------------------------------ labels
def label(F, sh, n):
    o, E, a, rs = every(F, sh, 'set_label', lambda E, s: [n])
    for s, v, k, b, c in rs:
        k.rest(b, c)
        had = sh.left in ('lab', 'blab')
        k.flags(b, c, [('label', n != 0)])
        k.keep(b, c, ['main_txt', 'right_space', 'right_txt'], 'only the label changes')
        k.is_blank(c, ['left_space'])
        want = (('l', str(n)),) if n else (('l', '0'),) if sh.left == 'col6z' else ()
        k.ok(same_pieces(E, s, solid(c['left_txt']), want), 'label', 'the line holds the label given',
             'label %d: left_txt becomes %s' % (n, c['left_txt']))
        for s2, r in E.split(s, v):
            k.ok(r == (n != 0 or had), 'result', 'the operation reports whether there is a change',
                 'label %d: reports %s' % (n, r))
        if sh.fixed:
            k.ok(E.entails_le(s, tlen(c['left_txt']), 6), 'width', 'labels are in the control columns',
                 'left_txt becomes %s' % (c['left_txt'],))
            k.keep(b, c, ['left_space'], 'the text of the statement stays in its column')
        else:
            old, new = width(E, b, FIELDS[:2]), width(E, c, FIELDS[:2])
            for s2, room in splits(E, s, '<', ladd(tlen(c['left_txt']), 1), old):
                k.s = s2
                if room:
                    k.eq(new, old, 'column', 'the text keeps its column when the label fits',
                         'label %d: the text moves to column %%(v)s from %%(w)s' % n)
                elif n:
                    k.ok(E.entails_le(s2, 1, tlen(c['left_space'])), 'blank', 'a label is kept apart from the text',
                         'left_space becomes %s' % (c['left_space'],))
    return o


# ------------------------------------------------------------------- kinds
def kind(F, sh, op):
    o, E, a, rs = every(F, sh, op)
    off = [(n, False) for n in E.bitno if n != 'fixed_format']

    def to(n):
        return [(m, m == n) for m, _ in off]
    for s, v, k, b, c in rs:
        if op == 'make_preprocessor':
            k.flags(b, c, to('preprocessor'))
            k.ok(same_txt(E, s, c['left_txt'], Txt(sum((b[f].p for f in FIELDS), ()))), 'text', 'the text of the line stays',
                 'the line %s becomes %s' % ([b[f] for f in FIELDS], c['left_txt']))
            for f in FIELDS[1:]:
                k.ok(eqv(E, s, tlen(c[f]), 0), 'once', 'text appears once', '%s still holds %s' % (f, c[f]))
            continue
        note = op == 'make_comment_or_blank' and (sh.rt[-1:] == '!' or sh.kind == 'comment')
        if not note:
            k.flags(b, c, to('blank'))
            for f in FIELDS:
                k.ok(eqv(E, s, tlen(c[f]), 0), 'empty', 'a blank line holds nothing', '%s holds %s' % (f, c[f]))
        elif sh.kind == 'comment':
            k.flags(b, c)
            k.keep(b, c, FIELDS, 'a comment line is not changed')
        else:
            k.flags(b, c, to('comment'))
            k.is_blank(c, FIELDS[:4])
            k.ok(same_pieces(E, s, c['right_txt'].p, (('l', '!'), ('s', 'N', 0, symi(('n', 'N'))))), 'comment',
                 'the comment of the line stays', 'right_txt was %s and becomes %s' % (b['right_txt'], c['right_txt']))
            k.eq(comment_col(E, c), comment_col(E, b), 'comment column', 'the comment keeps its column',
                 'the comment moves to column %(v)s from %(w)s')
    return o


def unspaced(F, front, back):
    """main text with blanks around it"""
    o = Out()
    E = EditEng(F)
    for rs in (0, 1):
        for ls in (0, 1):
            sh = Shape(ls=ls, rs=rs, rt='!')
            s, a = build(E, St(), sh)
            t = E.get(s, a, 'main_txt')
            s.heap[s.heap[a].f['main_txt']] = Txt(((blanks(E, s, 'x'),) if front else ()) + t.p +
                                                  ((blanks(E, s, 'y'),) if back else ()))
            b = snap(E, s, a)
            f = fn(E, 'unspace_main')
            for s1, v in E.call(s, f, a, [], E0):
                c = snap(E, s1, a)
                k = Ck(o, E, s1, f, 'main text with blanks around it')
                k.rest(b, c)
                k.flags(b, c)
                k.keep(b, c, ['left_txt', 'right_txt'], 'only blanks move')
                k.ok(same_txt(E, s1, c['main_txt'], t), 'main', 'the text is kept without the blanks around it',
                     'main_txt %s becomes %s' % (b['main_txt'], c['main_txt']))
                k.is_blank(c, ['left_space', 'right_space'])
                k.eq(tlen(c['left_space']), ladd(tlen(b['left_space']), symi('x') if front else 0), 'left',
                     'blanks in front are transferred to left_space', 'left_space has %(v)s blanks, not %(w)s')
                k.eq(tlen(c['right_space']), ladd(tlen(b['right_space']), symi('y') if back else 0), 'right',
                     'blanks behind are transferred to right_space', 'right_space has %(v)s blanks, not %(w)s')
            for why, w, s1 in E.aborts:
                o.check(False, 'unspace:abort', w, 'the operation succeeds', why)
    return o


def swapped(F):
    o = Out()
    E = EditEng(F)
    s, a = build(E, St(), Shape('lab', 1, 1, 1, '!'))
    s, b = build(E, s, Shape('col6', 0, 1, 0, '&', fixed=1))
    s.heap[s.heap[b].f['linenum']] = symi('other')
    s.heap[s.heap[b].f['open_delim']] = 39
    x, y = snap(E, s, a), snap(E, s, b)
    f = fn(E, 'swap')
    for s1, v in E.call(s, f, a, [LV(b)], E0):
        k = Ck(o, E, s1, f, 'two lines')
        for addr, want in ((a, y), (b, x)):
            c = snap(E, s1, addr)
            k.keep(want, c, FIELDS, 'every field is exchanged')
            k.rest(want, c)
            k.ok(c['bits'] == want['bits'], 'bits', 'every field is exchanged', 'the flags are not exchanged')
    return o


def fortran(thorough):
    out = []
    for left in ('', 'lab', 'blab', 'amp', 'bamp'):
        for ls in (0, 1):
            if left in ('amp', 'bamp') and ls or left in ('lab', 'blab') and not ls:
                continue
            for rs in (0, 1):
                for rt in ('', '&', '!', '&!'):
                    if rs and not rt:
                        continue
                    out.append(Shape(left, ls, 1, rs, rt))
    for left in ('', 'lab', 'col6', 'col6z'):
        for ls in (0, 1):
            for rs, rt in ((0, ''), (1, '!'), (0, '!')):
                out.append(Shape(left, ls, 1, rs, rt, fixed=1))
    return out


OTHER = [Shape('!', kind='comment'), Shape(' !', kind='comment'), Shape('right', kind='comment'),
         Shape('C', kind='comment', fixed=1), Shape('*', kind='comment', fixed=1), Shape('!', kind='comment', fixed=1),
         Shape(' !', kind='comment', fixed=1)]
REST = [Shape('blank', kind='blank'), Shape('#', kind='preprocessor'), Shape('i', kind='include'), Shape('d', kind='directive'),
        Shape('l', kind='literal')]


def P22(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    ft = fortran(rep.tier == 'thorough')
    for sh in ft + OTHER + REST:
        T.add(spacing, sh)
    for sh in ft + [x for x in OTHER if x.left not in 'C*']:
        T.add(leading, sh)
    for sh in ft:
        if not sh.fixed:
            T.add(mark, sh, 'make_continued')
        T.add(mark, sh, 'make_uncontinued')
        for op in ('make_blank', 'make_comment_or_blank', 'make_preprocessor'):
            T.add(kind, sh, op)
        if sh.left not in ('amp', 'bamp', 'col6'):
            for n in (0, 1, 7, 10, 99, 500, 1000, 9999, 10000, 99999):
                T.add(label, sh, n)
    for sh in OTHER:
        T.add(kind, sh, 'make_comment_or_blank')
    for a in (0, 1):
        for b in (0, 1):
            T.add(unspaced, a, b)
    T.add(swapped)
    T.run()
    rep.need(1000, 'P22')
    return ('each operation that edits a physical line (set_leading_spaces, set_label, make_continued, make_uncontinued, '
            'make_comment_or_blank, make_blank, make_preprocessor, unspace_main, swap) and get_leading_spaces is followed '
            'on every path for each combination of fields a line can have, with unknown texts and numbers of blanks; '
            'the fields and flags afterwards are compared with the documented effect')
