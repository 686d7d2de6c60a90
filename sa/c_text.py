"""P20, P23: splitting a source line into fields"""
import absnat
from absint import *
from core import Facts, Broken, rel
from text import *

TUS = ['File_Line.cc']
FL = 'FLPR::File_Line::'
FIELDS = ('left_txt', 'left_space', 'main_txt', 'right_space', 'right_txt')
BLANK = frozenset((32, 9, 10, 11, 12, 13))
SKIP = frozenset((32, 9, 13))
Q = (0, 34, 39)


class LineEng(TextEngine):
    def __init__(self, F):
        super().__init__(F)
        self.intercept['FLPR::tolower'] = lambda *a: self.cased(lambda u: u + 32 if 65 <= u <= 90 else u, *a)
        self.intercept['FLPR::toupper'] = lambda *a: self.cased(lambda u: u - 32 if 97 <= u <= 122 else u, *a)
        self.bitno = {}
        for n, v in F.enums.get('FLPR::File_Line::class_flags', {'e': []})['e']:
            self.bitno[n] = v

    @staticmethod
    def cased(fn, E, s, e, o, vs):
        t = norm(E, s, text(E, s, vs[0], e))
        E.ctr += 1
        u = sym_text(s, ('case', E.ctr))
        E.assume_le(s, ladd(tlen(u), tlen(t), -1), 0)
        E.assume_le(s, ladd(tlen(t), tlen(u), -1), 0)
        if len(t.p) == 1 and t.p[0][0] == 's':
            s.x['cased'] = s.x.get('cased', ()) + ((('case', E.ctr), (t.p[0][1], t.p[0][2], fn)),)
        put(E, s, vs[0], u)
        return [(s, VOID)]

    def fns(self, q):
        k = [f for f in self.F.fns.values() if f['q'] == q and f.get('body')]
        if not k:
            raise Broken('%s not found' % q)
        return k

    def field(self, s, a, f):
        t = self.get(s, a, f)
        if not isinstance(t, Txt):
            raise Broken('field %s holds %r' % (f, t))
        return t

    def bits(self, s, a):
        b = self.get(s, a, 'classification_')
        if not isinstance(b, Bits):
            raise Broken('classification %r' % (b,))
        return b


def flag(E, s, a, n):
    """[(state, bool)]"""
    return E.split(s, E.bits(s, a).b[E.bitno[n]])


def flags(E, s, a, names):
    cur = [(s, {})]
    for n in names:
        cur = [(s2, dict(d, **{n: b})) for s1, d in cur for s2, b in flag(E, s1, a, n)]
    return cur


# ------------------------------------------------------------------ monitor
CLS = [(39,), (34,), (33,), (38,)]
CLS.append(sorted(CH - {39, 34, 33, 38}))
NAMES = ["an apostrophe", 'a quotation mark', "'!'", "'&'", 'another character']


def mstep(g, k):
    if g == 0:
        return {0: 39, 1: 34}.get(k, 0)
    return 0 if CLS[k][0] == g and k < 2 else g


def rest_not_blank(E, s, i, n, base):
    """is some character after position i certainly not blank?"""
    for k in s.tags:
        if isinstance(k, tuple) and k[0] == 'ch' and not (s.tags[k] & BLANK) and E.entails_le(s, ladd(i, 1), k[2]):
            return True
    return False


def passing_free(E, s, g, k, i):
    if g == 0 and k == 2:
        return "'!' outside character context is passed over"
    if g == 0 and k == 3:
        return "'&' outside character context is passed over"
    if g in (34, 39) and k == 3 and not rest_not_blank(E, s, i, None, None):
        return "'&' that ends the line inside character context is passed over"
    return None


def passing_fixed(E, s, g, k, i):
    if g == 0 and k == 2:
        return "'!' outside character context is passed over"
    return None


def start(E, s):
    return Tag('pd')


# ------------------------------------------------------------- free form
def given(E, s, txt):
    """the line begins with txt"""
    E.assume_le(s, ladd(len(txt), symi(('n', 'R')), -1), 0)
    for i, ch in enumerate(txt):
        char_at(E, s, 'R', i)
        s.tags[('ch', 'R', i)] = frozenset((ord(ch),))


def run_free(E, txt=''):
    s = St()
    raw = E.new(s, sym_text(s, 'R'))
    given(E, s, txt)
    s.tags['pd'] = frozenset(Q)
    lit = E.new(s, Sym('lit'))
    f = [f for f in E.fns(FL + 'analyze_free') if len(f['params']) == 5]
    if not f:
        raise Broken('analyze_free(int, string, char, bool, bool&) not found')
    E.monitor = Monitor(CLS, mstep, start, passing_free)
    rs = E.call(s, f[0], None, [1, LV(raw), Tag('pd'), Sym('cont'), LV(lit)], E0)
    E.monitor_free = E.monitor
    E.monitor = None
    return f[0], rs, lit


def run_fixed(E, tab, txt='', run=0):
    """tab: position of a tab in the control columns, None: there is none"""
    s = St()
    raw = E.new(s, sym_text(s, 'R'))
    given(E, s, txt)
    s.tags['pd'] = frozenset(Q)
    s.zone.add('lc', '', (1 << 31) - 1)
    s.zone.add('', 'lc', 1 << 31)
    n = symi(('n', 'R'))
    parts = [s]
    if tab is None:
        parts = []
        for s1, b in E.split_cmp(s, '<=', n, 6):
            if add_range(E, s1, 'R', 0, n if b else 6, CH - {9}):
                parts.append(s1)
    else:
        E.assume_le(s, ladd(tab + 1, n, -1), 0)
        add_range(E, s, 'R', 0, tab, CH - {9})
        char_at(E, s, 'R', tab)
        s.tags[('ch', 'R', tab)] = frozenset((9,))
        if run:
            E.assume_le(s, ladd(tab + run + 1, n, -1), 0)
            for i in range(tab, tab + run + 1):
                char_at(E, s, 'R', i)
                s.tags[('ch', 'R', i)] = frozenset((9,)) if i < tab + run else CH - {9}
    f = [f for f in E.fns(FL + 'analyze_fixed') if len(f['params']) == 4]
    if not f:
        raise Broken('analyze_fixed(int, string, char, int) not found')
    E.monitor = Monitor(CLS, mstep, start, passing_fixed)
    E.rebase = True
    rs = []
    for s in parts:
        rs += E.call(s, f[0], None, [1, LV(raw), Tag('pd'), symi('lc')], E0)
    E.monitor_fixed = E.monitor
    E.monitor = None
    return f[0], rs


def whole(E, s, a):
    ps = ()
    for f in FIELDS:
        ps += E.field(s, a, f).p
    return norm(E, s, Txt(ps))


def printed(E, s, a):
    """what operator<< writes for the line"""
    f = [f for f in E.fns('FLPR::operator<<') if f['params'][-1]['t'].endswith('File_Line &')]
    if not f:
        raise Broken('operator<<(ostream, File_Line) not found')
    o = E.new(s, Os())
    return [(s2, Txt(s2.heap[o].p)) for s2, _ in E.call(s, f[0], None, [LV(o), LV(a)], E0)], f[0]


def cover(E, s, P, base='R'):
    """why P is not the line with blanks added or removed ('' when it is, None when
    the text is not followed); the slices (start, printed offset) and the insertions"""
    made = dict(s.x.get('made', ()))
    P = norm(E, s, P)
    E.inner = []
    bs = {p[1] for p in P.p if p[0] == 's'}
    if base == 'R' and bs and not 'R' in bs and len(bs) == 1 and next(iter(bs)) in made:
        b = next(iter(bs))
        why, sl, ins = cover(E, s, made[b], 'R')
        if why != '' or ins:
            return why or 'text %r that is not in the line appears' % (ins,), sl, ins
        base = b
        E.inner = sl
    at, off, out, ins = 0, 0, [], []
    for p in P.p:
        if p[0] == 's' and p[1] == base:
            if not E.entails_le(s, at, p[2]):
                return 'text from position %s on appears again' % (p[2],), out, ins
            g = known_range(E, s, base, at, p[2])
            if not g <= BLANK:
                return 'text between positions %s and %s is lost' % (at, p[2]), out, ins
            out.append((p[2], off))
            at = p[3]
        elif p[0] == 's':
            return (None if p[1] != 'R' else 'text of the line appears twice'), out, ins
        elif p[0] == 'f' and not isinstance(p[1], int):
            return 'text %r that is not in the line appears' % (p,), out, ins
        elif p[0] == 'f' and p[1] in BLANK:
            pass
        elif p[0] == 'l' and set(p[1]) <= set(' \t'):
            pass
        else:
            ins.append((at, p[1], off))
        off = ladd(off, plen(p))
    n = symi(('n', base))
    if not known_range(E, s, base, at, n) <= BLANK:
        return 'text from position %s to the end is lost' % (at,), out, ins
    return '', out, ins


def show(E, s, a):
    return ', '.join('%s=%r' % (f, E.field(s, a, f)) for f in FIELDS)


def first(t):
    for p in t.p:
        if p[0] == 's':
            return p[2]
    return None


def upto(t):
    for p in reversed(t.p):
        if p[0] == 's':
            return p[3]
    return None


class Tasks:
    """the independent runs of one check, in parallel processes"""

    def __init__(self, rep, F):
        self.rep, self.F, self.todo = rep, F, []

    def add(self, f, *args):
        self.todo.append((f, args))

    def run(self):
        import multiprocessing as mp
        global _T
        _T = self
        broken = []
        with mp.get_context('fork').Pool(min(8, len(self.todo))) as pool:
            for r in pool.imap(_one, range(len(self.todo))):
                if r[0] in ('broken', 'undecided'):
                    broken.append(r[1])
                    self.rep.note('not decided: ' + r[1])
                    continue
                out = r[1]
                self.rep.ok(out.n)
                for b in out.bad:
                    self.rep.bad(*b)
                for x in out.notes:
                    self.rep.note(x)
                for k, v in out.cov.items():
                    self.rep.cov[k] = self.rep.cov.get(k, 0) + v if isinstance(v, int) else v
        if len(broken) == len(self.todo):
            raise Broken(broken[0])


class Out:
    def __init__(self):
        self.n, self.bad, self.notes, self.cov = 0, [], [], {}

    def check(self, c, key, where, rule, msg):
        if c:
            self.n += 1
        elif len(self.bad) < 40 and not any(b[0] == key for b in self.bad):
            self.bad.append((key, where, rule, msg))

    def note(self, m):
        if m not in self.notes and len(self.notes) < 20:
            self.notes.append(m)


def _one(i):
    f, args = _T.todo[i]
    try:
        return ('ok', f(_T.F, *args))
    except Undecided as e:
        return ('undecided', str(e))
    except Broken as e:
        return ('broken', str(e))


def safety(E, o, fn, form):
    """no access outside a text on any path"""
    w = rel(fn['l'])
    for why, where, s in E.aborts:
        if why in ('throw', 'length error'):
            continue
        o.check(False, '%s:%s' % (form, why), where, 'no access outside the text of the line',
                '%s while a %s-form line is analysed (reached from %s)' % (why, form, w))
    o.n += 1


# --------------------------------------------------------------------- P20
def split_free(F):
    E, o = LineEng(F), Out()
    fn, rs, lit = run_free(E)
    w = rel(fn['l'])
    safety(E, o, fn, 'free')
    n = 0
    for s, v in rs:
        a = E.obj(s, v)
        R = sym_text(s, 'R')
        t = whole(E, s, a)
        o.check(same(E, s, t, R), 'free:fields', w,
                'the five fields of a free-form line, in order, are the line',
                'the fields of a free-form line are not the line: %s' % show(E, s, a))
        pr, pf = printed(E, s, a)
        for s2, P in pr:
            o.check(same(E, s2, norm(E, s2, P), R), 'free:printed', rel(pf['l']),
                    'a free-form line is printed as it was read',
                    'a free-form line with %s is printed as %r' % (show(E, s2, a), norm(E, s2, P)))
            n += 1
    if n < 20:
        raise Broken('only %d ways through analyze_free' % n)
    o.cov = {'paths': n, 'functions': len(E.fns_done), 'loops': len(E.loops)}
    return o


def split_fixed(F, tab, run=0):
    """run: the number of tabs in a row"""
    E, o = LineEng(F), Out()
    fn, rs = run_fixed(E, tab, '', run)
    w = rel(fn['l'])
    safety(E, o, fn, 'fixed')
    n = 0
    for s, v in rs:
        a = E.obj(s, v)
        pr, pf = printed(E, s, a)
        for s2, P in pr:
            n += 1
            why, sl, ins = cover(E, s2, P)
            inner = E.inner
            if why is None:
                o.note('a fixed-form line (tab at %s) is rebuilt in a way that is not followed' % tab)
                continue
            o.check(not why, 'fixed:text', w, 'the text of a fixed-form line is kept, in order',
                    '%s: fields %s, printed %r' % (why, show(E, s2, a), norm(E, s2, P)))
            if why:
                continue
            ok = len(ins) <= 1
            for at_, t, off in ins:
                nx = [x for x, k in sl if not E.entails_le(s2, x, ladd(at_, -1)) and E.entails_le(s2, off, k)]
                ok = ok and t.strip() == '!' and bool(nx) and E.entails_le(s2, 1, symi('lc')) and \
                    known_range(E, s2, base_of(P), symi('lc'), nx[0]) <= BLANK
            o.check(ok, 'fixed:insert', w,
                    'the only text added to a fixed-form line is a comment mark before text past the last column',
                    'text added: %r in a line printed as %r' % (ins, norm(E, s2, P)))
            if tab is None:
                lim = ins[0][2] if ins else None
                for x, k in sl:
                    if E.entails_le(s2, 6, x) and (lim is None or E.entails_le(s2, k, lim)):
                        o.check(eqv(E, s2, x, k), 'fixed:column', rel(pf['l']),
                                'text from column 7 on keeps its column',
                                'text of position %s is printed at %s: %r' % (x, k, norm(E, s2, P)))
            for x, k in inner:
                if tab is None:
                    o.check(eqv(E, s2, x, k), 'fixed:shift', w, 'a tab past the control columns is not expanded',
                            'text of position %s is moved to %s: %r' % (x, k, norm(E, s2, P)))
                elif run and E.entails_le(s2, tab + run, x):
                    o.check(eqv(E, s2, ladd(x, 5 * run), k), 'fixed:expand', w,
                            'each tab in the control columns becomes six blanks',
                            'text of position %s, after %d tabs, is moved to %s: %r' % (x, run, k, norm(E, s2, P)))
    if n < 20:
        raise Broken('only %d ways through analyze_fixed' % n)
    o.cov = {'paths': n, 'functions': len(E.fns_done), 'loops': len(E.loops)}
    return o


def base_of(P):
    for p in P.p:
        if p[0] == 's':
            return p[1]
    return 'R'


def P20(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    T.add(split_fixed, None)
    for t in ((0, 1, 2, 3, 4, 5) if rep.tier == 'thorough' else (0, 3, 5)):
        T.add(split_fixed, t)
    for t, n in ((0, 1), (3, 2)) if rep.tier == 'quick' else ((0, 1), (0, 2), (3, 2), (5, 1), (5, 3)):
        T.add(split_fixed, t, n)
    T.add(split_free)
    T.run()
    rep.need(200, 'P20')
    return ('every path through the analysis of a free-form and of a fixed-form line of any text and length, followed '
            'by printing: the fields are compared with the line as slices of the same unknown text')


# --------------------------------------------------------------------- P23
PRIM = ('blank', 'comment', 'preprocessor', 'include', 'flpr_pp', 'flpr_lit')
DIGIT = frozenset(range(48, 58))


def chclass(E, s, base, q, sets):
    """[(state, index of the set that holds the character)]"""
    out, cur = [], []
    c = char_at(E, s, base, q)
    if c is None:
        return []
    cur = [s]
    for k, S in enumerate(sets):
        nx = []
        for s1 in cur:
            for s2, b in E.split_tag(s1, c, S):
                (out if b else nx).append((s2, k) if b else s2)
        cur = nx
    return out + [(s1, len(sets)) for s1 in cur]


def certainly(E, s, op, a, b):
    return all(r for _, r in E.split_cmp(s.fork(), op, a, b))


def scan_end(E, o, s, a, form, w, mon, lc):
    """the main text ends where the character-context rules say"""
    L, M, RS, RT = (E.field(s, a, f) for f in ('left_txt', 'main_txt', 'right_space', 'right_txt'))
    n = symi(('n', 'R'))
    body = norm(E, s, Txt(M.p + RS.p))
    rt = norm(E, s, RT)
    if any(p[0] == 's' and p[1] != 'R' for p in body.p + rt.p):
        o.note('the text of the statement is rebuilt in a way that is not followed')
        return
    mend = first(rt) if first(rt) is not None else upto(body)
    ms = first(body) if first(body) is not None else mend
    if mend is None:
        # nothing in the body and nothing after it
        o.n += 1
        return
    if form == 'fixed':
        for s1, b in E.split_cmp(s.fork(), '>', lc, 0):
            if b:
                o.check(certainly(E, s1, '<=', mend, lc), 'fixed:past', w,
                        'text past the last column is not part of the statement',
                        'the statement text goes on to position %s, past the last column' % (mend,))
    gs = [g for g in s.x.get('ghosts', ()) if eqv(E, s, g[1], ms) and eqv(E, s, g[2], mend)]
    if not gs:
        o.note('the end of the statement text is not found by stepping through the characters (%s form)' % form)
        return
    gid, _, _, g, late = gs[-1]
    if g not in Q:
        o.note('the character context is not followed (%s form)' % form)
        return
    for where, why in list(mon.bad.get(gid, ())[:3]) + ([late] if late else []):
        o.check(False, '%s:passed:%s' % (form, why), where,
                'trailing comments and continuation marks are found outside character context only, and always', why)
    od = E.get(s, a, 'open_delim')
    if od is UNINIT:
        o.check(False, form + ':delim-unset', w, 'the open delimiter is set', 'open_delim is not set')
        return
    ctx = {0: 'outside character context', 34: 'inside "..."', 39: "inside '...'"}[g]
    if form == 'free':
        if not rt.p:
            o.check(g == 0 and certainly(E, s, '==', od, 0), 'free:open-end:%d' % g, w,
                    'a line that ends inside character context without & is rejected',
                    'a line that ends %s without & is accepted (open delimiter %r)' % (ctx, od))
            return
        c = char_at(E, s, 'R', mend)
        S = s.tags[c.s] if c is not None else frozenset()
        if g == 0:
            o.check(S <= {33, 38}, 'free:split:0', w,
                    'outside character context the statement ends at the first ! or &',
                    'the statement ends before a character %s outside character context' % sample(S))
            o.check(certainly(E, s, '==', od, 0), 'free:delim:0', w, 'the open delimiter of a line',
                    'open delimiter %r after a statement that ends outside character context' % (od,))
        else:
            o.check(S <= {38} and known_range(E, s, 'R', ladd(mend, 1), n) <= BLANK, 'free:split:%d' % g, w,
                    'inside character context only a final & ends the line',
                    'the statement ends before a character %s %s' % (sample(S), ctx))
            o.check(certainly(E, s, '==', od, g), 'free:delim:%d' % g, w, 'the open delimiter of a line',
                    'open delimiter %r after a line that is continued %s' % (od, ctx))
        return
    # fixed
    lcp = certainly(E, s, '>', lc, 0)
    if certainly(E, s, '==', mend, n) or lcp and certainly(E, s, '==', mend, lc):
        # the text ends with the line or at the last column; a ! there is allowed as well
        o.check(certainly(E, s, '==', od, g) or (g == 0 and certainly(E, s, '==', od, 0)), 'fixed:delim:%d' % g, w,
                'the open delimiter of a line', 'open delimiter %r after a line that ends %s' % (od, ctx))
        return
    c = char_at(E, s, 'R', mend)
    S = s.tags[c.s] if c is not None else frozenset()
    o.check(g == 0 and S <= {33} and certainly(E, s, '==', od, 0), 'fixed:split:%d' % g, w,
            'the statement ends at the first ! outside character context or at the last column',
            'the statement ends before a character %s %s, open delimiter %r' % (sample(S), ctx, od))


def sample(S):
    S = sorted(S, key=lambda u: (not 32 < u < 127, u))
    return ' or '.join(repr(chr(u)) if u > 0 else str(u) for u in S[:3]) + (' ...' if len(S) > 3 else '')


def prim_of(E, s, a):
    """[(state, primary class, flags)]"""
    out = []
    for s1, d in flags(E, s, a, PRIM + ('continued', 'continuation', 'label', 'fixed_format')):
        on = [p for p in PRIM if d[p]]
        out.append((s1, on[0] if len(on) == 1 else ('fortran' if not on else '+'.join(on)), d))
    return out


def class_free(F):
    E, o = LineEng(F), Out()
    fn, rs, lit = run_free(E)
    w = rel(fn['l'])
    n = symi(('n', 'R'))
    np = 0
    for why, where, s in E.aborts:
        if why == 'throw':
            gs = [g for g in s.x.get('ghosts', ()) if eqv(E, s, g[2], n)]
            if not gs:
                if not s.tags['pd'] <= {34, 39}:
                    o.note('a rejected line is not followed')
                o.n += 1
            else:
                o.check(any(g[3] != 0 for g in gs), 'free:reject', where,
                        'only a line that ends inside character context is rejected',
                        'a line that ends outside character context is rejected')
    for s0, v in rs:
        a = E.obj(s0, v)
        for s1, inlit in E.split(s0, Sym('lit')):
            for s2, q in search(E, s1, sym_text(s1, 'R'), CH - SKIP, 0, E0):
                for s3, prim, d in prim_of(E, s2, a):
                    np += 1
                    one_free(E, o, s3, a, inlit, q, prim, d, w)
    if np < 20:
        raise Broken('only %d ways through analyze_free' % np)
    o.cov = {'paths': np, 'functions': len(E.fns_done)}
    return o


INCLUDE = ("include'a", 'include "a', 'INCLUDE   \'a', "IncludE'a", "  include'a", "      Include 'a", "   inclUDE'a",
           "        include  'a")


def directed_include(F, form, txt):
    """a line that begins like this is an include line"""
    E, o = LineEng(F), Out()
    if form == 'free':
        fn, rs, lit = run_free(E, txt)
    else:
        fn, rs = run_fixed(E, None, txt)
    got = set()
    for s0, v in rs:
        a = E.obj(s0, v)
        for s1, inlit in E.split(s0, Sym('lit')) if form == 'free' else [(s0, False)]:
            if not inlit:
                got |= {p for _, p, _ in prim_of(E, s1, a)}
    if got - {'include'} and 'include' in got:
        o.note('include lines are not followed')
        return o
    o.check(got <= {'include'}, form + ':include-missed', rel(fn['l']), 'an include line is recognised',
            'a line that begins with %r is %s' % (txt, ' or '.join(sorted(got))))
    return o


def is_include(E, o, s, q, form, w):
    """the line was taken for an include line: it has to be one"""
    n = symi(('n', 'R'))
    ok = True
    for k, c in enumerate('include'):
        cs = frozenset((ord(c), ord(c.upper())))
        if not E.entails_le(s, ladd(q, k + 1), n):
            ok = False
            break
        t = char_at(E, s, 'R', ladd(q, k))
        if t is not None and not s.tags[t.s] <= cs:
            ok = False
            break
    o.check(ok, form + ':include-word', w, 'an include line begins with the word include',
            'a line is taken for an include line although the word include was not seen')
    if not ok:
        return
    quote = False
    for k in list(s.tags):
        if isinstance(k, tuple) and k[:2] == ('ch', 'R') and s.tags[k] <= {34, 39} and \
                E.entails_le(s, ladd(q, 7), k[2]) and known_range(E, s, 'R', ladd(q, 7), k[2]) <= BLANK:
            quote = True
    o.check(quote, form + ':include-quote', w, 'the word include is followed by a literal',
            'a line is taken for an include line although no literal follows the word')


def left_parts(E, o, s, a, form, q, digits, d, w):
    """label and continuation fields"""
    L, LS = E.field(s, a, 'left_txt'), E.field(s, a, 'left_space')
    k = upto(norm(E, s, L))
    if d['label']:
        ok = k is not None and E.entails_le(s, ladd(q, 1), k) and known_range(E, s, 'R', q, k) <= DIGIT and digits
        o.check(ok, form + ':label', w, 'the label field holds the leading digits',
                'label field %r' % (L,))
        if ok:
            n = symi(('n', 'R'))
            full = certainly(E, s, '>=', ladd(k, q, -1), 5) or certainly(E, s, '>=', k, n) or \
                form == 'fixed' and certainly(E, s, '>=', k, 5)
            if not full:
                full = True
                for s1, b in E.split_cmp(s.fork(), '<', k, n):
                    if b:
                        c = char_at(E, s1, 'R', k)
                        if c is None or not (s1.tags[c.s] & DIGIT):
                            continue
                        for s4, five in E.split_cmp(s1.fork(), '>=', ladd(k, q, -1), 5):
                            if not five and not (form == 'fixed' and certainly(E, s4, '>=', k, 5)):
                                full = False
            o.check(full, form + ':label-cut', w, 'a label of up to five digits is taken whole',
                    'a digit follows the label field %r' % (L,))
    for f, t in (('left_space', LS), ('right_space', E.field(s, a, 'right_space'))):
        t = norm(E, s, t)
        ok = all(p[0] == 's' and known_range(E, s, p[1], p[2], p[3]) <= BLANK or p[0] == 'f' and p[1] in BLANK or
                 p[0] == 'l' and not p[1].strip() for p in t.p)
        o.check(ok, '%s:%s' % (form, f), w, 'the space fields hold blanks only', '%s=%r' % (f, t))


def one_free(E, o, s, a, inlit, q, prim, d, w):
    def want(ok, key, rule, msg):
        o.check(ok, 'free:' + key, w, rule, msg)
    want(not d['fixed_format'], 'form', 'a free-form line is not marked fixed', 'a free-form line is marked fixed')
    if inlit:
        want(prim == 'flpr_lit', 'lit', 'every line of a literal block is literal', 'a line of a literal block is %s' % prim)
        return
    if q is None:
        want(prim == 'blank', 'blank', 'a blank line is classified blank', 'a blank line is %s' % prim)
        return
    for s1, k in chclass(E, s, 'R', q, [{33}, {38}, {35}, DIGIT, {105, 73}]):
        c = ('!', '&', '#', 'digit', 'i', 'other')[k]
        ok = {'!': ('comment', 'flpr_pp', 'flpr_lit'), '&': ('fortran',), '#': ('preprocessor', 'fortran'),
              'digit': ('fortran',), 'i': ('include', 'fortran'), 'other': ('fortran',)}[c]
        want(prim in ok, 'class:' + c, 'a line is classified by its first non-blank character',
             'a line whose first non-blank character is %s is %s' % (c, prim))
        if prim not in ok:
            continue
        if c == '#':
            for s2, z in E.split_cmp(s1.fork(), '==', q, 0):
                want(z == (prim == 'preprocessor'), 'pp', '# in column 1 marks a preprocessor line',
                     "'#' at position %s gives %s" % (q if not z else 0, prim))
        if prim == 'include':
            is_include(E, o, s1, q, 'free', w)
        if prim == 'comment':
            for s2, ct in E.split(s1.fork(), Sym('cont')):
                want(d['continued'] == ct, 'comment-cont', 'a comment keeps the continuation going exactly if there is one',
                     'a comment line %s a continued line is %smarked continued' % (
                         'after' if ct else 'not after', '' if d['continued'] else 'not '))
        if prim != 'fortran':
            continue
        for s2, ct in E.split(s1.fork(), Sym('cont')):
            want(d['label'] == (c == 'digit' and not ct), 'label-flag',
                 'a label is taken from a line that starts with a digit and does not continue a statement',
                 'a line starting with %s%s is %slabelled' % (c, ' that continues a statement' if ct else '',
                                                             '' if d['label'] else 'not '))
        want(d['continuation'] == (c == '&'), 'amp-flag', 'a leading & marks a continuation',
             'a line starting with %s is %sa continuation' % (c, '' if d['continuation'] else 'not '))
        rt = norm(E, s1, E.field(s1, a, 'right_txt'))
        am = None
        if not rt.p:
            am = False
        elif first(rt) is not None:
            x = char_at(E, s1, 'R', first(rt))
            if x is not None:
                am = {True: True, False: False}.get(s1.tags[x.s] <= {38}) if \
                    s1.tags[x.s] <= {38} or not s1.tags[x.s] & {38} else None
        if am is not None:
            want(d['continued'] == am, 'continued-flag', 'a line is continued exactly if a trailing & follows the statement',
                 'a line with trailing text %r is %scontinued' % (rt, '' if d['continued'] else 'not '))
        left_parts(E, o, s1, a, 'free', q, c == 'digit', d, w)
        scan_end(E, o, s1, a, 'free', w, E.monitor_free, None)


def class_fixed(F):
    E, o = LineEng(F), Out()
    fn, rs = run_fixed(E, None)
    w = rel(fn['l'])
    np = 0
    for s0, v in rs:
        a = E.obj(s0, v)
        for s2, q in search(E, s0, sym_text(s0, 'R'), CH - SKIP, 0, E0):
            for s3, prim, d in prim_of(E, s2, a):
                np += 1
                one_fixed(E, o, s3, a, q, prim, d, w)
    if np < 20:
        raise Broken('only %d ways through analyze_fixed' % np)
    o.cov = {'paths': np, 'functions': len(E.fns_done)}
    return o


def one_fixed(E, o, s, a, q, prim, d, w):
    def want(ok, key, rule, msg):
        o.check(ok, 'fixed:' + key, w, rule, msg)
    want(d['fixed_format'], 'form', 'a fixed-form line is marked fixed', 'a fixed-form line is not marked fixed')
    if q is None:
        want(prim == 'blank', 'blank', 'a blank line is classified blank', 'a blank line is %s' % prim)
        return
    lc = symi('lc')
    for s1, k in chclass(E, s, 'R', q, [{33}, {35}, {42, 67, 99}, DIGIT, {105, 73}]):
        for s2, z in E.split_cmp(s1, '==', q, 0):
            for s3, five in ([(s2, False)] if z else E.split_cmp(s2, '==', q, 5)):
                for s4, ctl in ([(s3, True)] if z or five else E.split_cmp(s3, '<', q, 6)):
                    c = ('!', '#', 'c', 'digit', 'i', 'other')[k]
                    lab = c == 'digit' and ctl and not five
                    if five:
                        ok = ('fortran', 'blank', 'comment')
                    elif c == '!' or c == 'c' and z:
                        ok = ('comment', 'flpr_pp')
                    elif c == '#' and z:
                        ok = ('preprocessor',)
                    elif lab:
                        ok = ('fortran', 'blank', 'comment')
                    else:
                        ok = ('fortran', 'comment') + (('include',) if c == 'i' else ())
                    where = 'in column 1' if z else 'in column 6' if five else \
                        'in columns 2-5' if ctl else 'past column 6'
                    want(prim in ok, 'class:%s:%s' % (c, where),
                         'a fixed-form line is classified by its first non-blank character and its column',
                         'a line whose first non-blank character is %s %s is %s' % (c, where, prim))
                    if prim not in ok:
                        continue
                    if prim == 'comment' and 'fortran' in ok:
                        x = 6 if five else q
                        g = E.entails_le(s4, 1, lc) and (
                            lab or E.entails_le(s4, lc, x) or known_range(E, s4, 'R', x, lc) <= BLANK)
                        want(g, 'hidden', 'a line is a comment only if nothing but blanks comes before the last column',
                             'a line whose first non-blank character is %s %s is a comment' % (c, where))
                        continue
                    if prim == 'blank' and five:
                        want(known_range(E, s4, 'R', 6, symi(('n', 'R'))) <= BLANK, 'hidden-blank',
                             'a line with text after the control columns is not blank',
                             'a continuation line with text is blank')
                    if prim == 'include':
                        is_include(E, o, s4, q, 'fixed', w)
                    if prim != 'fortran':
                        continue
                    want(d['label'] == lab, 'label-flag', 'a label starts with a digit in columns 1-5',
                         'a line with %s %s is %slabelled' % (c, where, '' if d['label'] else 'not '))
                    if not five:
                        want(not d['continuation'], 'cont-flag', 'a continuation has a mark in column 6',
                             'a line starting with %s %s is a continuation' % (c, where))
                    else:
                        for s5, zero in chclass(E, s4.fork(), 'R', q, [{48}]):
                            want(d['continuation'] == (zero == 1), 'cont-flag5',
                                 'a mark other than 0 in column 6 continues the statement',
                                 'a line with %s in column 6 is %sa continuation' % (
                                     "'0'" if zero == 0 else 'a mark', '' if d['continuation'] else 'not '))
                    left_parts(E, o, s4, a, 'fixed', q, lab, d, w)
                    scan_end(E, o, s4, a, 'fixed', w, E.monitor_fixed, lc)


def P23(rep):
    F = Facts(only=TUS)
    T = Tasks(rep, F)
    T.add(class_fixed)
    T.add(class_free)
    for t in INCLUDE:
        T.add(directed_include, 'free', t)
        if not t.startswith('     i'):
            T.add(directed_include, 'fixed', t)
    T.run()
    rep.need(200, 'P23')
    return ('every path through the analysis of a line of any text and length is compared with the classification by '
            'first character; a specification automaton for the character context runs along the scanning loops')
