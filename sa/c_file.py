"""P21: physical lines are grouped into logical lines, and statements are made from these, in order."""
import itertools
import absnat
from absint import (St, Up, Ptr, It, Pos, ListV, Rec, Sym, LV, NULL, VOID, ladd, Tup)
from core import Broken, Facts, rel
from text import norm, Os, Txt, Bits, Undecided, sym_text, tlen, put, text, CH, char_at, symi
from c_text import Out, Tasks
from c_line import LL, TT, E0, lines, frags, blanks
from c_edit import EdEng, PL, build

LF = 'FLPR::Logical_File'
FL = 'FLPR::File_Line'
"""kinds of physical lines (what the line analysis, P20 and P23, may say of one)"""
FREE = {
    'blank': dict(f=('blank',)),
    'comment': dict(f=('comment',)),
    'lit{': dict(f=('flpr_lit',), edge=True),
    'lit': dict(f=('flpr_lit',)),
    'lit}': dict(f=('flpr_lit',), edge=True),
    'cpp': dict(f=('preprocessor',)),
    'cpp\\': dict(f=('preprocessor',), bs=True),
    'pp': dict(f=('flpr_pp',)),
    'pp\\': dict(f=('flpr_pp',), bs=True),
    'inc': dict(f=('include',)),
    'inc\\': dict(f=('include',), bs=True),
    'stmt': dict(f=()),
    'stmt&': dict(f=('continued',)),
    "stmt'&": dict(f=('continued',), d=39),
    '&stmt': dict(f=('continuation',)),
    '&stmt&': dict(f=('continuation', 'continued')),
    'bad': None,
}
FIXED = {
    'blank': dict(f=('blank',)),
    'comment': dict(f=('comment',)),
    'cpp': dict(f=('preprocessor',)),
    'cpp\\': dict(f=('preprocessor',), bs=True),
    'pp': dict(f=('flpr_pp',)),
    'inc': dict(f=('include',)),
    'stmt': dict(f=()),
    "stmt'": dict(f=(), d=39),
    'lab': dict(f=('label',)),
    'cont': dict(f=('continuation',)),
    "cont'": dict(f=('continuation',), d=34),
    'bad': None,
}
DIRECTIVE = ('preprocessor', 'flpr_pp', 'include')


class FileEng(EdEng):
    def __init__(self, F):
        super().__init__(F)
        self.bound = 8
        self.thrown = []
        self.marks = {}
        self.catching = 0
        for c in ('exception', 'runtime_error', 'logic_error'):
            self.nat['std::%s::what' % c] = lambda E, s, e, o, vs: [(s, Txt((('l', 'what'),)))]
        self.intercept[FL + '::analyze_free'] = lambda *a: self.analyse(False, *a)
        self.intercept[FL + '::analyze_fixed'] = lambda *a: self.analyse(True, *a)

    def reread(self, E, s, e, o, vs):
        a = self.obj(s, o)
        m = tuple(E.get(s, x, 'linenum') for x in lines(E, s, a))
        c = next((c for c, v in self.marks.items() if v == m), None)
        if c is None:
            c = 70000 + len(self.marks)
            self.marks[c] = m
        s.heap[E.addr(s, a, 'label')] = c
        return [(s, VOID)]

    def analyse(self, fixed, E, s, e, o, vs):
        calls = s.x.get('calls', ())
        xs = [E.load(s, v) for v in vs]
        num = xs[0]
        raw = text(E, s, vs[1], e)
        i = next((k for k, t in enumerate(self.raw) if t == raw.p), None)
        rec = dict(fixed=fixed, num=num, i=i, delim=xs[2], rest=xs[3:])
        if not fixed and len(vs) == 5:
            rec['lit'] = xs[4]
        s.x['calls'] = calls + (tuple(sorted(rec.items(), key=str)),)
        if i is None:
            raise Undecided('a line that is none of the file is analysed')
        k = self.kinds_[i]
        if k is None:
            self.thrown.append(s)
            return []
        (s, f), = absnat.construct(E, s, FL, [], E0)
        r = s.heap[f].f
        s.heap[r['linenum']] = num
        s.heap[r['left_txt']] = Txt(self.raw[i])
        s.heap[r['open_delim']] = k.get('d', 0)
        b = list(s.heap[r['classification_']].b)
        if fixed:
            b[E.bitno['fixed_format']] = True
        for n in k['f']:
            b[E.bitno[n]] = True
        s.heap[r['classification_']] = Bits(b)
        if not fixed and 'flpr_lit' in k['f'] and len(vs) == 5:
            s.heap[vs[4].a] = not xs[4] if k.get('edge') else xs[4]
        return [(s, LV(f))]

    def e_ref(self, e, st):
        try:
            return super().e_ref(e, st)
        except Broken:
            if self.catching and 'exception' in e.get('t', ''):
                return [(st, LV(self.new(st, Sym('exception'))))]
            raise

    def s_try(self, n, st):
        hold, self.thrown = self.thrown, []
        out = self.ex(n['b'], st)
        got, self.thrown = self.thrown, hold
        for s in got:
            if not n.get('h'):
                raise Undecided('try without handler')
            self.catching += 1
            out += self.ex(n['h'][0]['b'], s)
            self.catching -= 1
        return out



def enumv(F, q, n):
    v = dict(F.enums.get(q, {'e': []})['e']).get(n)
    if v is None:
        raise Broken('no %s::%s' % (q, n))
    return v


def rows(names, fixed, absorb=True):
    """the documented calls of the line analysis, and the index of the line that is refused (or None)"""
    table = FIXED if fixed else FREE
    calls, delim, cont, lit, out = [], 0, False, False, []
    directive = False
    for i, n in enumerate(names):
        k = table[n]
        absorbed = directive
        if absorbed:
            out.append(('absorbed', i))
            directive = bool(k and k.get('bs'))
            continue
        c = dict(num=i + 1, i=i, delim=delim)
        if not fixed:
            c.update(cont=cont, lit=lit)
        calls.append(c)
        if k is None:
            return calls, i, None
        f = k['f']
        if 'blank' not in f and 'comment' not in f:
            delim, cont = k.get('d', 0), 'continued' in f
        if k.get('edge'):
            lit = not lit
        directive = absorb and any(x in f for x in DIRECTIVE) and bool(k.get('bs'))
        out.append((n, i))
    return calls, None, out


def groups(names, fixed, out):
    """the documented logical lines: [(first, end, category)]; category None: not documented, only the order is"""
    table = FIXED if fixed else FREE
    N = len(names)
    f = [('absorbed',) if out[i][0] == 'absorbed' else table[names[i]]['f'] for i in range(N)]
    trivial = [bool(set(x) & {'blank', 'comment'}) for x in f]
    res, i = [], 0
    while i < N:
        j = i + 1
        if trivial[i]:
            while j < N and trivial[j]:
                j += 1
            cat = 'UNKNOWN'
        elif 'flpr_lit' in f[i]:
            while j < N and 'flpr_lit' in f[j]:
                j += 1
            cat = 'LITERAL'
        elif set(f[i]) & set(DIRECTIVE):
            while j < N and f[j] == ('absorbed',):
                j += 1
            cat = {'preprocessor': 'MACRO', 'flpr_pp': 'FLPR_PP', 'include': 'INCLUDE'}[f[i][0]]
        elif fixed:
            while j < N and (trivial[j] or 'continuation' in f[j]):
                j += 1
            while trivial[j - 1]:
                j -= 1
            cat = 'stmt'
        else:
            cat, j = 'stmt', i
            while j < N and (trivial[j] or 'continued' in f[j]):
                j += 1
            if j == N or set(f[j]) & set(DIRECTIVE + ('flpr_lit',)):
                # a statement that never ends: how its lines are divided is not documented
                res.append((i, None, None))
                j = N if j == N else j + 1
                return res
            j += 1
        res.append((i, j, cat))
        i = j
    return res


def sequence(E, s, names, fixed):
    table = FIXED if fixed else FREE
    E.kinds_ = [table[n] for n in names]
    (s, buf), = absnat.construct(E, s, 'std::vector<std::string>', [], E0)
    E.raw, nodes = [], []
    for i, k in enumerate(E.kinds_):
        t = sym_text(s, ('raw', i)).p + (('l', ('\\' if k and k.get('bs') else '.') + (' \t' if i % 2 else '')),)
        E.raw.append(t)
        n = E.new(s, Txt(t))
        nodes.append(n)
        s.x[('own', n)] = buf
    s.heap[buf] = ListV(s.heap[buf].t, tuple(nodes))
    return s, buf


def called(s):
    return [dict(c) for c in s.x.get('calls', ())]


def compare_calls(k, s, want, fixed, names):
    got = called(s)
    k.ok(len(got) == len(want), 'calls', 'each line is analysed once', '%d lines are analysed, not %d' % (len(got), len(want)))
    for g, w in zip(got, want):
        at = 'line %d' % (w['i'] + 1)
        k.ok(g['i'] == w['i'], 'order', 'lines are analysed in order', 'in place of %s, line %s is analysed' %
             (at, g['i'] + 1 if g['i'] is not None else '?'))
        k.ok(g['num'] == w['num'], 'number', 'the line analysis is given the number of the line',
             '%s is numbered %s' % (at, g['num']))
        k.ok(g['delim'] == w['delim'], 'delim', 'the delimiter left open by the last line that is no comment or blank line is carried on',
             '%s is analysed with open delimiter %r, not %r' % (at, g['delim'], w['delim']))
        if fixed:
            k.ok(g['rest'] == [72], 'column', 'the last column is passed on', '%s: last column %s' % (at, g['rest']))
        else:
            k.ok(bool(g['rest'][0]) == w['cont'], 'cont', 'a line is analysed as a continuation when the last line that is no comment or blank line is continued',
                 '%s is analysed %s' % (at, 'as a continuation' if g['rest'][0] else 'as no continuation'))
            k.ok(bool(g['lit']) == w['lit'], 'lit', 'the literal block state is carried on', '%s: in a literal block: %s' % (at, g['lit']))


class Ck:
    def __init__(self, o, f, what):
        self.o, self.f, self.what = o, f, what

    def ok(self, c, key, rule, msg):
        self.o.check(c, '%s:%s' % (self.f['q'].split('::')[-1], key), rel(self.f['l']), rule, '%s: %s' % (self.what, msg))


def name(names, fixed):
    return '%s-form lines "%s"' % ('fixed' if fixed else 'free', ' / '.join(names))


def line_of(E, s, x, i, absorbed, fixed):
    """'' or what is wrong with physical line i of a logical line"""
    t = {n: E.get(s, x, n) for n in ('left_txt', 'left_space', 'main_txt', 'right_space', 'right_txt')}
    if t['left_txt'].p != E.raw[i] or any(t[n].p for n in t if n != 'left_txt'):
        return 'text is %r, not that of line %d' % (t['left_txt'], i + 1)
    if E.get(s, x, 'linenum') != i + 1:
        return 'line number is %r, not %d' % (E.get(s, x, 'linenum'), i + 1)
    want = {'preprocessor'} if absorbed else set(E.kinds_[i]['f'])
    if fixed:
        want.add('fixed_format')
    b = E.get(s, x, 'classification_').b
    got = {n for n, v in E.bitno.items() if v < len(b) and b[v] is True}
    if got != want:
        return 'flags of line %d are %s, not %s' % (i + 1, sorted(got), sorted(want))
    return ''


def one_scan(E, o, names, fixed, info):
    F = E.F
    s = St()
    s.x = {}
    (s, a), = absnat.construct(E, s, LF, [], E0)
    s, buf = sequence(E, s, names, fixed)
    if info:
        (s, fi), = absnat.construct(E, s, 'FLPR::File_Info', [LV(E.new(s, Txt((('l', 'f.f90'),)))),
                                                           enumv(F, 'FLPR::File_Type', 'FREEFMT')], E0)
        s.heap[E.addr(s, a, 'file_info')] = Up(Ptr(fi))
    f = F.need(LF + ('::scan_fixed' if fixed else '::scan_free'))[0]
    k = Ck(o, f, name(names, fixed))
    E.aborts.clear()
    rs = E.call(s, f, a, [LV(buf)] + ([72] if fixed else []), E0)
    calls, refused, out = rows(names, fixed)
    k.ok(not E.aborts, 'abort', 'the lines are read', '%s' % (E.aborts and E.aborts[0][:2],))
    k.ok(len(rs) == 1, 'paths', 'the lines are read', '%d results' % len(rs))
    if len(rs) != 1:
        return
    s, v = rs[0]
    compare_calls(k, s, calls, fixed, names)
    lls = s.heap[E.addr(s, a, 'lines', 'list_')].n[:-1]
    v = E.load(s, v)
    if refused is not None:
        k.ok(not v, 'refused', 'a line that cannot be analysed is reported', 'line %d is refused, but true is returned' % (refused + 1))
        k.ok(not lls, 'refused:lines', 'nothing is read when a line cannot be analysed', 'there are %d logical lines' % len(lls))
        return
    k.ok(bool(v), 'result', 'reading succeeds', 'false is returned')
    k.ok(E.get(s, a, 'num_input_lines') == len(names), 'num', 'the lines are counted', 'num_input_lines is %r' % (E.get(s, a, 'num_input_lines'),))
    pp = any(not x == 'absorbed' and names[i].startswith('pp') for x, i in out)
    want = groups(names, fixed, out)
    k.ok(bool(E.get(s, a, 'has_flpr_pp')) == pp or any(g[2] is None for g in want), 'pp', 'FLPR directives are noticed', 'has_flpr_pp is %r' % (E.get(s, a, 'has_flpr_pp'),))
    got = [lines(E, s, l) for l in lls]
    flat = [x for g in got for x in g]
    k.ok(len(flat) == len(names), 'once', 'each physical line is in one logical line', '%d physical lines in the logical lines' % len(flat))
    for i, x in enumerate(flat[:len(names)]):
        w = line_of(E, s, x, i, out[i][0] == 'absorbed', fixed)
        k.ok(not w, 'line', 'each physical line is kept in order', w)
    at, have = 0, []
    for l, g in zip(lls, got):
        have.append((at, at + len(g), l))
        at += len(g)
        m = E.marks.get(E.get(s, l, 'label'))
        k.ok(m == tuple(E.get(s, x, 'linenum') for x in g), 'analysed', 'the text of each logical line is tokenised once it is complete',
             'the logical line of %s was tokenised with lines %s' % ([E.get(s, x, 'linenum') for x in g], m))
        fi = s.heap[E.addr(s, l, 'file_info')]
        k.ok(isinstance(fi, Up) and fi.p == s.heap[E.addr(s, a, 'file_info')].p, 'info',
             'each logical line refers to the file', 'the file of a logical line is %r' % (fi,))
        k.ok(not E.get(s, l, 'suppress'), 'suppress', 'lines read are not suppressed', 'a line is suppressed')
    for n, (i, j, cat) in enumerate(want):
        if cat is None:
            k.ok(any(h[0] == i for h in have), 'group', 'a statement begins a logical line', 'line %d does not' % (i + 1))
            break
        h = have[n] if n < len(have) else None
        k.ok(h is not None and h[:2] == (i, j), 'group', 'lines are grouped: comment and blank lines, literal blocks, directives with the lines that '
             'continue them, statements with all their continuation lines',
             'lines %d to %d belong together, but a logical line has lines %s' % (i + 1, j, h and '%d to %d' % (h[0] + 1, h[1])))
        if h is None or h[:2] != (i, j):
            break
        c = E.get(s, h[2], 'cat')
        w = enumv(F, 'FLPR::LineCat', 'UNKNOWN' if cat == 'stmt' else cat)
        k.ok(c == w, 'category', 'logical lines are given their category', 'lines %d to %d have category %r, not %r (%s)' % (i + 1, j, c, w, cat))
        if fixed:
            k.ok(bool(E.get(s, h[2], 'needs_reformat')) == (cat == 'stmt'), 'reformat', 'fixed-form statements are marked to be reformatted',
                 'lines %d to %d: needs_reformat is %r' % (i + 1, j, E.get(s, h[2], 'needs_reformat')))


def good(names, fixed):
    lit = False
    out = rows(names, fixed)[2]
    for i, n in enumerate(names):
        if out and out[i][0] == 'absorbed':
            if n.startswith('lit') or n == 'bad':
                return n == 'bad'
            continue
        if lit != (n in ('lit', 'lit}')):
            return False
        if n == 'lit{':
            lit = True
        if n == 'lit}':
            lit = False
        if n == 'bad' and i + 1 < len(names):
            return False
        if n == 'bad':
            return True
    return True


def scans(F, head, rest, fixed):
    """all files that begin with the given lines and have rest more"""
    o = Out()
    E = FileEng(F)
    for tail in itertools.product(FIXED if fixed else FREE, repeat=rest):
        names = head + tail
        if not good(names, fixed):
            continue
        one_scan(E, o, names, fixed, True)
        if 'bad' in names:
            one_scan(E, o, names, fixed, False)
    return o


def one_line(E, o, names, fixed):
    """a Logical_Line built from several raw lines"""
    s = St()
    s, buf = sequence(E, s, names, fixed)
    fs = [f for f in E.fns(LL + '::Logical_Line') if f['params'] and 'std::vector<std::basic_string' in f['params'][0]['t']
          and 'iterator' not in f['params'][0]['t'] and len(f['params']) == 1 + fixed]
    if len(fs) != 1:
        raise Broken('constructor of a Logical_Line from raw lines')
    k = Ck(o, fs[0], 'a Logical_Line made of ' + name(names, fixed))
    E.aborts.clear()
    a0 = E.default(s, LL)
    rs = [(s1, a0) for s1, _ in E.call(s, fs[0], a0, [LV(buf)] + ([72] if fixed else []), E0)]
    k.ok(not E.aborts and len(rs) == 1, 'abort', 'the line is made', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))
    if len(rs) != 1:
        return
    s, a = rs[0]
    compare_calls(k, s, rows(names, fixed, False)[0], fixed, names)
    g = lines(E, s, a)
    k.ok(len(g) == len(names), 'once', 'each physical line is in the logical line', '%d lines' % len(g))
    for i, x in enumerate(g[:len(names)]):
        w = line_of(E, s, x, i, False, fixed)
        k.ok(not w, 'line', 'each physical line is kept in order', w)
    k.ok(E.marks.get(E.get(s, a, 'label')) == tuple(range(1, len(names) + 1)), 'analysed', 'the line is tokenised once it is complete',
         'it was tokenised with lines %s' % (E.marks.get(E.get(s, a, 'label')),))


def built(F, rest, fixed):
    o = Out()
    E = FileEng(F)
    tab = [x for x in (FIXED if fixed else FREE) if x != 'bad' and not x.startswith('lit')]
    for n in range(1, rest + 1):
        for names in itertools.product(tab, repeat=n):
            one_line(E, o, names, fixed)
    return o


class Hand(FileEng):
    """the parts of scan() and read_and_scan() by themselves"""

    def __init__(self, F):
        super().__init__(F)
        for n in ('scan_free', 'scan_fixed'):
            self.intercept[LF + '::' + n] = (lambda n: lambda *a: self.handed(n, *a))(n)
        self.answer = False
        self.nat['std::getline'] = self.getline
        self.nat['std::basic_ios::operator bool'] = lambda E, s, e, o, vs: [(s, E.load(s, o))]
        self.nat['std::basic_ios::operator!'] = lambda E, s, e, o, vs: [(s, not E.load(s, o))]

    def handed(self, n, E, s, e, o, vs):
        a = self.obj(s, o)
        p = E.get(s, a, 'file_info').p
        fi = (text(E, s, LV(E.addr(s, p.a, 'filename'))).p, E.get(s, p.a, 'file_type'), E.get(s, p.a, 'last_fixed_column')) if isinstance(p, Ptr) else None
        lines = tuple(text(E, s, LV(x)).p for x in s.heap[vs[0].a].n)
        s.x['handed'] = s.x.get('handed', ()) + ((n, lines, tuple(E.load(s, v) for v in vs[1:]), fi),)
        return [(s, self.answer)]

    def getline(self, E, s, e, o, vs):
        if len(vs) != 2:
            raise Undecided('getline with a delimiter')
        i = s.x.get('got', 0)
        if i == len(self.raw):
            return [(s, LV(E.new(s, False)))]
        s.x['got'] = i + 1
        put(E, s, vs[1], Txt(self.raw[i]))
        return [(s, LV(E.new(s, True)))]


def handing(F, n):
    o = Out()
    E = Hand(F)
    fs = {len(f['params']): f for f in E.fns(LF + '::read_and_scan')}
    if sorted(fs) != [3, 4]:
        raise Broken('read_and_scan')
    for ft, how, E.answer in itertools.product(('FIXEDFMT', 'FREEFMT'), ('scan', 'stream'), (False, True)):
        if True:
            s = St()
            (s, a), = absnat.construct(E, s, LF, [], E0)
            s, buf = sequence(E, s, ('stmt',) * n, False)
            for i in range(0, n, 2):
                E.raw[i] = () if i else sym_text(s, ('any', i)).p
                s.heap[s.heap[buf].n[i]] = Txt(E.raw[i])
            nm = E.new(s, Txt((('l', 'some.f90'),)))
            f = F.need(LF + '::scan')[0] if how == 'scan' else fs[4]
            src = buf if how == 'scan' else E.new(s, Sym('stream'))
            col = symi(('col',))
            k = Ck(o, f, '%d lines read as %s' % (n, ft))
            E.aborts.clear()
            rs = E.call(s, f, a, [LV(src), LV(nm), col, enumv(F, 'FLPR::File_Type', ft)], E0)
            k.ok(len(rs) == 1 and not E.aborts, 'paths', 'the lines are passed on', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))
            for s1, v in rs:
                h = s1.x.get('handed', ())
                w = 'scan_fixed' if ft == 'FIXEDFMT' else 'scan_free'
                k.ok([x[0] for x in h] == [w], 'form', 'the scanner of the form of the file is used', '%s instead of %s' % ([x[0] for x in h], w))
                if len(h) != 1:
                    continue
                k.ok(h[0][1] == tuple(E.raw), 'lines', 'all lines are passed on in order', '%d of %d lines, or other text' % (len(h[0][1]), n))
                k.ok(h[0][2] == ((col,) if ft == 'FIXEDFMT' else ()), 'column', 'the last column is passed on', '%r' % (h[0][2],))
                fi = h[0][3]
                k.ok(fi is not None and fi[0] == (('l', 'some.f90'),) and fi[1] == enumv(F, 'FLPR::File_Type', ft) and
                     (ft != 'FIXEDFMT' or fi[2] == col), 'info', 'the name and form of the file are recorded', '%r' % (fi,))
                k.ok(bool(E.load(s1, v)) == E.answer, 'result', 'what the scanner returns is returned', '%r' % (E.load(s1, v),))
    return o


def printing(F, n, suppress):
    """printing a logical line prints its physical lines"""
    o = Out()
    E = FileEng(F)
    f = E.fns(LL + '::print')[0]
    for kinds in itertools.product((0, 1, 2), repeat=n):
        s = St()
        (s, a), = absnat.construct(E, s, LL, [], E0)
        lay = E.addr(s, a, 'layout_')
        nodes, want = [], ()
        for i, q in enumerate(kinds):
            (s, x), = absnat.construct(E, s, FL, [], E0)
            r = s.heap[x].f
            b = list(s.heap[r['classification_']].b)
            if q == 0:
                b[E.bitno['comment']] = True
            elif q == 1:
                b[E.bitno['blank']] = True
            s.heap[r['classification_']] = Bits(b)
            for fn in ('left_txt', 'left_space', 'main_txt', 'right_space', 'right_txt')[:1 if q < 2 else 5]:
                t = sym_text(s, (fn, i))
                s.heap[r[fn]] = t
                want += t.p
            want += (('l', '\n'),)
            nodes.append(x)
        s.heap[lay] = ListV(s.heap[lay].t, tuple(nodes))
        for x in nodes:
            s.x[('own', x)] = lay
        s.heap[E.addr(s, a, 'suppress')] = bool(suppress)
        os = E.new(s, Os())
        k = Ck(o, f, 'a %slogical line of %d lines' % ('suppressed ' if suppress else '', n))
        E.aborts.clear()
        rs = E.call(s, f, a, [LV(os)], E0)
        k.ok(bool(rs) and not E.aborts, 'paths', 'the line is printed', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))
        for s1, v in rs:
            got = norm(E, s1, Txt(s1.heap[os].p)).p
            w = () if suppress else norm(E, s1, Txt(want)).p
            k.ok(got == w, 'text', 'each physical line is printed once, in order, on a line of its own; nothing if suppressed',
                 'it prints %r, not %r' % (Txt(got), Txt(w)))
    return o


ITEMS = {  # logical lines: (statements, labelled, category, suppressed)
    'c': (0, 0, 'UNKNOWN', 0), 'C': (0, 0, 'UNKNOWN', 1), '#': (0, 0, 'MACRO', 0), 'i': (0, 0, 'INCLUDE', 0),
    '1': (1, 0, 'UNKNOWN', 0), 'L': (1, 1, 'UNKNOWN', 0), '2': (2, 0, 'UNKNOWN', 0), '3': (3, 1, 'UNKNOWN', 0)}


def seq_of(E, s, l, items):
    """logical lines put into the list l"""
    F = E.F
    nodes = []
    for j, c in enumerate(items):
        n, lab, cat, sup = ITEMS[c]
        if n:
            semi = tuple(range(1, 2 * n - 1, 2))
            s, a, _ = build(E, s, [PL('F', 2 * n - 1, 'lab' if lab else '', ls=1, semi=semi)], 0)
            s.heap[E.addr(s, a, 'label')] = 10 + j if lab else 0
        else:
            (s, a), = absnat.construct(E, s, LL, [], E0)
            r = E.call(s, F.need(LL + '::init_stmts')[0], a, [], E0)
            s = r[0][0]
        s.heap[E.addr(s, a, 'cat')] = enumv(F, 'FLPR::LineCat', cat)
        s.heap[E.addr(s, a, 'suppress')] = bool(sup)
        s.x[('own', a)] = l
        nodes.append(a)
    v = s.heap[l]
    s.heap[l] = ListV(v.t, tuple(nodes) + v.n[-1:])
    return s, nodes


def range_of(E, s, x):
    return tuple(E.get(s, x, n) for n in ('begin_', 'end_', 'size_'))


def stmts(F, items, again):
    """make_stmts: the statements of the logical lines"""
    o = Out()
    for its in items:
        E = EdEng(F)
        s = St()
        (s, a), = absnat.construct(E, s, LF, [], E0)
        s, nodes = seq_of(E, s, E.addr(s, a, 'lines', 'list_'), its)
        f = F.need(LF + '::make_stmts')[0]
        k = Ck(o, f, 'logical lines "%s" (c comment, C suppressed comment, # macro, i include, 1 to 3 statements, L labelled)' % its)
        for rep in range(1 + again):
            E.aborts.clear()
            rs = E.call(s, f, a, [], E0)
            k.ok(len(rs) == 1 and not E.aborts, 'paths', 'the statements are made', '%d results, %s' % (len(rs), E.aborts and E.aborts[0][:2]))
            if len(rs) != 1:
                break
            s = rs[0][0]
            got = s.heap[E.addr(s, a, 'll_stmts', 'list_')].n[:-1]
            want, pre = [], []
            for c, n in zip(its, nodes):
                num, lab, _, sup = ITEMS[c]
                if not num:
                    if not sup:
                        pre.append(n)
                    continue
                for m, r in enumerate(s.heap[E.addr(s, n, 'stmts_')].n):
                    want.append(dict(line=n, range=range_of(E, s, r), label=E.get(s, n, 'label') if m == 0 else 0,
                                     compound=m + 1 if num > 1 else 0, prefix=pre))
                    pre = []
            k.ok(len(got) == len(want), 'count', 'each statement of each line becomes one statement', '%d statements, not %d' % (len(got), len(want)))
            for m, (x, w) in enumerate(zip(got, want)):
                at = 'statement %d' % (m + 1)
                it = E.get(s, x, 'it_') if 'it_' in s.heap[x].f else None
                it = it if it is not None else next((s.heap[y] for n2, y in s.heap[x].f.items() if isinstance(s.heap[y], It) and n2 not in ('begin_', 'end_')), None)
                k.ok(it == It(w['line']), 'line', 'a statement refers to its line', '%s refers to another line' % at)
                k.ok(range_of(E, s, x) == w['range'], 'range', 'a statement has the tokens of its statement', '%s has other tokens' % at)
                k.ok(E.get(s, x, 'label_') == w['label'], 'label', 'the label belongs to the first statement of the line',
                     '%s has label %r, not %r' % (at, E.get(s, x, 'label_'), w['label']))
                k.ok(E.get(s, x, 'compound_') == w['compound'], 'compound', 'statements sharing a line are numbered from 1, others have 0',
                     '%s has number %r, not %r' % (at, E.get(s, x, 'compound_'), w['compound']))
                p = [s.heap[y] for y in s.heap[E.addr(s, x, 'prefix_lines')].n]
                k.ok(p == [It(n) for n in w['prefix']], 'prefix', 'the lines without statements stand before the statement that follows them, in order',
                     '%s has %d lines before it, not %d (or others)' % (at, len(p), len(w['prefix'])))
                k.ok(E.get(s, x, 'stmt_syntag_') == F.tagv('UNKNOWN'), 'tag', 'a new statement has no tag', '%s has one' % at)
    return o


TUS = ('Logical_File.cc', 'Logical_Line.cc', 'File_Line.cc', 'LL_Stmt_Src.cc', 'File_Info.cc', 'Token_Text.cc', 'LL_TT_Range.cc',
       'LL_Stmt.cc', 'Stmt_Tree.cc')


def P21(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    deep = rep.tier == 'thorough'
    for fixed in (False, True):
        tab = FIXED if fixed else FREE
        T.add(scans, (), 0, fixed)
        T.add(scans, (), 1, fixed)
        T.add(scans, (), 2, fixed)
        for h in tab:
            T.add(scans, (h,), 2, fixed)
        if deep:
            for h in itertools.product(tab, repeat=2):
                T.add(scans, h, 2, fixed)
        T.add(built, 3, fixed)
    for n in range(5):
        T.add(handing, n)
        if n < 4:
            for sup in (0, 1):
                T.add(printing, n, sup)
    T.add(stmts, [''], 1)
    for n in range(1, 5 if deep else 4):
        for h in ITEMS:
            its = [h + ''.join(t) for t in itertools.product(ITEMS, repeat=n - 1)]
            T.add(stmts, its, 1)
    T.run()
    rep.need(10000, 'P21')
    return ('reading (scan_free, scan_fixed) is followed for every sequence of up to %d physical lines of the %d free-form and %d fixed-form '
            'kinds; make_stmts for every sequence of up to %d logical lines; scan, read_and_scan and print for up to 4 lines' %
            (4 if deep else 3, len(FREE), len(FIXED), 4 if deep else 3))

if __name__ == '__main__':
    F = Facts()
    import time, sys
    t = time.time()
    o = eval(sys.argv[1])
    print(o.n, o.bad, time.time() - t)
