"""Abstract text: the abstract interpreter with a domain for strings.

A string is a list of pieces: a slice [lo,hi) of an unknown text, a run of n
equal characters, or known characters; positions and lengths are linear forms
whose differences the state bounds.  A character of an unknown text is a finite
set keyed by (text, position); searches leave facts of the form "every
character of text[lo,hi) is in S".  Loops are not unrolled: the values that an
iteration changes are replaced by unknowns (with the bounds, equalities and
character facts that every iteration preserves), so a result holds for every
length of every text.
"""
import itertools
import absnat
from absint import *
from core import Broken, rel

M64 = 1 << 64
CH = frozenset(range(-128, 128))
BIG = 1 << 40
E0 = {'l': '', 'k': 'call', 't': '', 'pt': []}


class Txt:
    __slots__ = ('p',)

    def __init__(self, p=()):
        self.p = tuple(p)

    def __eq__(self, o):
        return isinstance(o, Txt) and o.p == self.p

    def __hash__(self):
        return hash(('txt', self.p))

    def __repr__(self):
        return 'txt(%s)' % ' . '.join(
            '%s[%s,%s)' % x[1:] if x[0] == 's' else
            ('%r*%s' % (chr(x[1]) if isinstance(x[1], int) and x[1] > 0 else x[1], x[2])
             if x[0] == 'f' else repr(x[1])) for x in self.p)


class CharLV:
    """a character inside the string object at a"""
    __slots__ = ('a', 'i', 'v')

    def __init__(self, a, i, v):
        self.a, self.i, self.v = a, i, v


class ChF:
    """f(character), f given by a table"""
    __slots__ = ('t', 'm', 'n')

    def __init__(self, t, m, n):
        self.t, self.m, self.n = t, m, n

    def __eq__(self, o):
        return isinstance(o, ChF) and (o.t, o.n) == (self.t, self.n)

    def __hash__(self):
        return hash(('chf', self.t, self.n))

    def __repr__(self):
        return '%s(%r)' % (self.n, self.t)


class Bits:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = tuple(b)

    def __eq__(self, o):
        return isinstance(o, Bits) and o.b == self.b

    def __hash__(self):
        return hash(('bits', self.b))

    def __repr__(self):
        return 'bits%r' % (self.b,)


class BitRef:
    __slots__ = ('a', 'i')

    def __init__(self, a, i):
        self.a, self.i = a, i


class Os:
    """an output stream: what was written, pending width, adjustment"""
    __slots__ = ('p', 'w', 'left')

    def __init__(self, p=(), w=0, left=False):
        self.p, self.w, self.left = tuple(p), w, left

    def __eq__(self, o):
        return isinstance(o, Os) and (o.p, o.w, o.left) == (self.p, self.w, self.left)

    def __hash__(self):
        return hash((self.p, self.w, self.left))

    def __repr__(self):
        return 'os(%r,%r,%r)' % (Txt(self.p), self.w, self.left)


def plen(p):
    if p[0] == 's':
        return ladd(p[3], p[2], -1)
    if p[0] == 'f':
        return p[2]
    return len(p[1])


def tlen(t):
    n = 0
    for p in t.p:
        n = ladd(n, plen(p))
    return n


def sym_text(s, base, least=0):
    """an unknown text"""
    s.zone.add('', ('n', base), -least)
    s.zone.add(('n', base), '', BIG)
    return Txt((('s', base, 0, symi(('n', base))),))


def eqv(E, s, a, b):
    if a == b:
        return True
    return E.entails_le(s, a, b) and E.entails_le(s, b, a)


def fixed(E, s, x):
    """the value as a known integer when the state determines it"""
    if isinstance(x, int):
        return x
    m = s.zone.max(x)
    if m is not None:
        n = s.zone.max(ladd(0, x, -1))
        if n is not None and -n == m:
            return m
    return x


def norm(E, s, t):
    """merge what is certainly adjacent, drop what is certainly empty"""
    out = []
    for p in t.p:
        n = plen(p)
        if n == 0 or not isinstance(n, int) and E.entails_le(s, n, 0):
            continue
        if p[0] == 'f' and not isinstance(n, int):
            n = fixed(E, s, n)
            p = ('f', p[1], n)
        if p[0] == 'f' and isinstance(n, int) and isinstance(p[1], int) and 0 < p[1] < 128 and n < 64:
            p = ('l', chr(p[1]) * n)
        if out:
            q = out[-1]
            if p[0] == 's' and q[0] == 's' and p[1] == q[1] and eqv(E, s, q[3], p[2]):
                out[-1] = ('s', p[1], q[2], p[3])
                continue
            if p[0] == 'l' and q[0] == 'l':
                out[-1] = ('l', q[1] + p[1])
                continue
            if p[0] == 'f' and q[0] == 'f' and p[1] == q[1]:
                out[-1] = ('f', p[1], ladd(q[2], p[2]))
                continue
            if p[0] == 'f' and q[0] == 'l' and isinstance(p[1], int) and set(q[1]) == {chr(p[1])}:
                out[-1] = ('f', p[1], ladd(len(q[1]), p[2]))
                continue
            if p[0] == 'l' and q[0] == 'f' and isinstance(q[1], int) and set(p[1]) == {chr(q[1])}:
                out[-1] = ('f', q[1], ladd(q[2], len(p[1])))
                continue
        out.append(p)
    return Txt(out)


def loc(e):
    return rel(e.get('l', ''))


# ------------------------------------------------------------- char facts
def facts_at(E, s, base, i):
    cur = CH
    for b, lo, hi, S in s.x.get('rng', ()):
        if b == base and E.entails_le(s, lo, i) and E.entails_le(s, ladd(i, 1), hi):
            cur = cur & S
    return cur


def char_at(E, s, base, i):
    """the character base[i] (a Tag whose set is in the state); None: infeasible"""
    i = fixed(E, s, i)
    k = ('ch', base, i)
    eq = [k2 for k2 in s.tags if isinstance(k2, tuple) and k2[:2] == ('ch', base) and k2 != k and
          eqv(E, s, k2[2], i)]
    if k not in s.tags:
        if eq:
            k = eq.pop()
        else:
            s.tags[k] = facts_at(E, s, base, i)
    for k2 in eq:
        s.tags[k] = s.tags[k] & s.tags[k2]
    return Tag(k) if s.tags[k] else None


def add_range(E, s, base, lo, hi, S):
    """every character of base[lo,hi) is in S; False when contradictory"""
    S = frozenset(S)
    if eqv(E, s, lo, hi) or S == CH:
        return True
    s.x['rng'] = s.x.get('rng', ()) + ((base, lo, hi, S),)
    for k in list(s.tags):
        if isinstance(k, tuple) and k[:2] == ('ch', base) and \
                E.entails_le(s, lo, k[2]) and E.entails_le(s, ladd(k[2], 1), hi):
            s.tags[k] = s.tags[k] & S
            if not s.tags[k]:
                return False
    return True


def known_range(E, s, base, lo, hi, depth=0):
    """a set that certainly holds every character of base[lo,hi)"""
    if E.entails_le(s, hi, lo):
        return frozenset()
    best, more = CH, []
    for b, l, h, S in s.x.get('rng', ()):
        if b != base or not E.entails_le(s, l, lo):
            continue
        if E.entails_le(s, hi, h):
            best = best & S
        elif E.entails_le(s, lo, h) and not E.entails_le(s, h, lo):
            more.append((h, S))
    one = eqv(E, s, ladd(lo, 1), hi)
    for k in s.tags:
        if isinstance(k, tuple) and k[:2] == ('ch', base) and eqv(E, s, k[2], lo):
            if one:
                best = best & s.tags[k]
            else:
                more.append((ladd(lo, 1), s.tags[k]))
    if depth < 4:
        for h, S in more:
            if not best <= S:
                best = best & (S | known_range(E, s, base, h, hi, depth + 1))
    return best


# ------------------------------------------------------------ string cuts
def cut(E, s, t, pos):
    """[(state, left, right)] with left of length pos; pos <= length is known"""
    out = []
    todo = [(s, 0, 0)]
    while todo:
        s1, i, off = todo.pop()
        # off: length of pieces before i; off <= pos
        if i == len(t.p) or eqv(E, s1, off, pos):
            out.append((s1, Txt(t.p[:i]), Txt(t.p[i:])))
            continue
        n = plen(t.p[i])
        nx = ladd(off, n)
        for s2, b in E.split_cmp(s1, '<=', nx, pos):
            if b:
                todo.append((s2, i + 1, nx))
                continue
            k = ladd(pos, off, -1)
            p = t.p[i]
            if p[0] == 's':
                m = ladd(p[2], k)
                l, r = ('s', p[1], p[2], m), ('s', p[1], m, p[3])
            elif p[0] == 'f':
                l, r = ('f', p[1], k), ('f', p[1], ladd(n, k, -1))
            else:
                for j in range(0, len(p[1])):
                    for s3, q in E.split_cmp(s2.fork(), '==', k, j):
                        if q:
                            out.append((s3, Txt(t.p[:i] + ((('l', p[1][:j]),) if j else ())),
                                        Txt((('l', p[1][j:]),) + t.p[i + 1:])))
                continue
            out.append((s2, Txt(t.p[:i] + (l,)), Txt((r,) + t.p[i + 1:])))
    return out


def within(E, s, t, pos, e, what):
    """states in which pos <= length (otherwise out_of_range is thrown)"""
    out = []
    for s1, b in E.split_cmp(s, '<=', pos, tlen(t)):
        if b:
            out.append(s1)
        else:
            E.abort(s1, 'out of range: %s' % what, e)
    return out


def part(E, s, t, pos, n, e, what='substr'):
    """[(state, before, part, after)] for substr(pos, n)"""
    out = []
    for s1 in within(E, s, t, pos, e, what):
        rest = ladd(tlen(t), pos, -1)
        for s2, b in E.split_cmp(s1, '<=', rest, n):
            for s3, l, r in cut(E, s2, t, pos):
                if b:
                    out.append((s3, l, r, Txt()))
                else:
                    for s4, m, q in cut(E, s3, r, n):
                        out.append((s4, l, m, q))
    return [(a, norm(E, a, x), norm(E, a, y), norm(E, a, z)) for a, x, y, z in out]


def at(E, s, t, i, e):
    """[(state, value)]: the character at i (0 at the end)"""
    out = []
    for s1, b in E.split_cmp(s, '<=', i, tlen(t)):
        if not b:
            E.abort(s1, 'character beyond the end of the text read', e)
            continue
        for s2, l, r in cut(E, s1, t, i):
            cur = [(s2, 0)]
            while cur:
                s3, k = cur.pop()
                if k == len(r.p):
                    out.append((s3, 0))
                    continue
                p = r.p[k]
                for s4, z in E.split_cmp(s3, '<=', plen(p), 0):
                    if z:
                        cur.append((s4, k + 1))
                    elif p[0] == 's':
                        c = char_at(E, s4, p[1], p[2])
                        if c is not None:
                            out.append((s4, c))
                    elif p[0] == 'f':
                        out.append((s4, p[1]))
                    else:
                        out.append((s4, ord(p[1][0])))
    return out


def piece_of(E, s, c, e):
    """pieces of a single character value"""
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return (('l', chr(c)),) if 0 < c < 128 else (('f', c, 1),)
    if isinstance(c, Tag) and isinstance(c.s, tuple) and c.s[0] == 'ch':
        return (('s', c.s[1], c.s[2], ladd(c.s[2], 1)),)
    return (('f', c, 1),)


# ---------------------------------------------------------------- searches
def search(E, s, t, S, start, e, last=False):
    """[(state, position|None)]: first (last) character of t in S at or after start (before or at)"""
    S = frozenset(S)
    order = list(range(len(t.p)))
    offs, n = [], 0
    for p in t.p:
        offs.append(n)
        n = ladd(n, plen(p))
    if last:
        order.reverse()
    out, cur = [], [s]
    for i in order:
        p, off = t.p[i], offs[i]
        nxt = []
        for s1 in cur:
            if p[0] == 'l':
                idx = [k for k, c in enumerate(p[1]) if ord(c) in S]
                if not idx:
                    nxt.append(s1)
                else:
                    out.append((s1, ladd(off, idx[-1] if last else idx[0])))
                continue
            if p[0] == 'f':
                inS = None
                if isinstance(p[1], int):
                    inS = [(s1, p[1] in S)]
                elif isinstance(p[1], Tag):
                    inS = E.split_tag(s1, p[1], S)
                else:
                    raise Broken('search in %r at %s' % (t, loc(e)))
                for s2, b in inS:
                    if not b:
                        nxt.append(s2)
                        continue
                    for s3, z in E.split_cmp(s2, '<=', p[2], 0):
                        if z:
                            nxt.append(s3)
                        else:
                            out.append((s3, ladd(off, ladd(p[2], -1) if last else 0)))
                continue
            base, lo, hi = p[1], p[2], p[3]
            kr = known_range(E, s1, base, lo, hi)
            if not (kr & S):
                nxt.append(s1)
                continue
            key = ('srch', base, lo, hi, S, last)
            if key in s1.x:
                r = s1.x[key]
                if r is None:
                    nxt.append(s1)
                else:
                    out.append((s1, ladd(off, ladd(r, lo, -1))))
                continue
            # none in this piece
            a = s1.fork()
            if add_range(E, a, base, lo, hi, CH - S):
                a.x[key] = None
                nxt.append(a)
            # found in this piece
            b = s1.fork()
            if not E.assume_le(b, ladd(lo, hi, -1), -1):
                continue
            end = ladd(hi, -1) if last else lo
            for _ in range(6 if not last else 0):
                nx = [h for b2, l, h, S2 in b.x.get('rng', ()) if b2 == base and not (S & S2) and
                      E.entails_le(b, l, end) and E.entails_le(b, ladd(end, 1), h)]
                if not nx:
                    break
                end = nx[0]
            f = facts_at(E, b, base, fixed(E, b, end))
            ks = [k for k in b.tags if isinstance(k, tuple) and k[:2] == ('ch', base) and eqv(E, b, k[2], end)]
            for k in ks:
                f = f & b.tags[k]
            if f and f <= S:
                b.x[key] = end
                out.append((b, ladd(off, ladd(end, lo, -1))))
                continue
            E.ctr += 1
            q = ('q', E.ctr)
            ql = symi(q)
            ok = E.assume_le(b, ladd(lo, ql, -1), 0) and E.assume_le(b, ladd(ql, hi, -1), -1)
            if not ok:
                continue
            if last:
                ok = add_range(E, b, base, ladd(ql, 1), hi, CH - S)
            else:
                ok = add_range(E, b, base, lo, ql, CH - S)
            c = char_at(E, b, base, ql) if ok else None
            if c is None:
                continue
            b.tags[c.s] = b.tags[c.s] & S
            if not b.tags[c.s]:
                continue
            b.x[key] = ql
            out.append((b, ladd(off, ladd(ql, lo, -1))))
        cur = nxt
    return out + [(s1, None) for s1 in cur]


def charset(E, s, v, e):
    x = E.load(s, v)
    if isinstance(x, StrV):
        return frozenset(ord(c) for c in x.s)
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return frozenset((x,))
    if isinstance(x, Tag):
        return s.tags.get(x.s, CH) if len(s.tags.get(x.s, CH)) == 1 else None
    if isinstance(x, Txt):
        t = norm(E, s, x)
        if all(p[0] == 'l' for p in t.p):
            return frozenset(ord(c) for p in t.p for c in p[1])
    return None


def text(E, s, v, e=E0):
    x = E.load(s, v)
    if isinstance(x, CharLV):
        return Txt(piece_of(E, s, x.v, e))
    if isinstance(x, StrV):
        return Txt((('l', x.s),)) if x.s else Txt()
    if isinstance(x, Txt):
        return x
    if isinstance(x, (int, Tag)):
        return Txt(piece_of(E, s, x, e))
    if isinstance(x, Sym):
        t = sym_text(s, x)
        return t
    raise Broken('not a string: %r at %s' % (x, loc(e)))


def put(E, s, o, t):
    s.heap[o.a] = norm(E, s, t)


def finder(neg, last):
    def h(E, s, e, o, vs):
        t = text(E, s, o, e)
        S = charset(E, s, vs[0], e)
        if S is None:
            E.ctr += 1
            return [(s, Sym(('find', E.ctr)))]
        x = E.load(s, vs[0])
        if not neg and isinstance(x, (StrV, Txt)) and e['f'].endswith(('::find', '::rfind')) and \
                not (isinstance(x, StrV) and len(x.s) == 1):
            # substring search: position unknown, nothing about the text is learned
            E.ctr += 1
            q = symi(('q', E.ctr))
            a, b = s, s.fork()
            n = len(x.s) if isinstance(x, StrV) else 1
            E.assume_le(a, ladd(0, q, -1), 0)
            out = [(b, M64 - 1)]
            if E.assume_le(a, ladd(ladd(q, n), tlen(t), -1), 0):
                out.append((a, q))
            return out
        if neg:
            S = CH - S
        start = E.load(s, vs[1]) if len(vs) > 1 else (M64 - 1 if last else 0)
        out = []
        if last:
            todo = []
            for s1, b in E.split_cmp(s, '<=', tlen(t), start):
                if b:
                    todo.append((s1, t, 0))
                else:
                    todo += [(s2, l, 0) for s2, l, r in cut(E, s1, t, ladd(start, 1))]
        else:
            todo = []
            for s1, b in E.split_cmp(s, '<=', start, tlen(t)):
                if not b:
                    out.append((s1, M64 - 1))
                elif start == 0:
                    todo.append((s1, t, 0))
                else:
                    todo += [(s2, r, start) for s2, l, r in cut(E, s1, t, start)]
        for s1, u, off in todo:
            for s2, q in search(E, s1, norm(E, s1, u), S, 0, e, last):
                out.append((s2, M64 - 1 if q is None else ladd(off, q)))
        return out
    return h


# ------------------------------------------------------------- operations
def t_size(E, s, e, o, vs):
    return [(s, fixed(E, s, tlen(text(E, s, o, e))))]


def t_empty(E, s, e, o, vs):
    return E.split_cmp(s, '<=', tlen(text(E, s, o, e)), 0)


def t_index(E, s, e, o, vs):
    i = E.load(s, vs[0])
    t = text(E, s, o, e)
    out = []
    for s2, c in at(E, s, t, i, e):
        saw(E, s2, o, t, i, c)
        out.append((s2, CharLV(o.a, i, c) if isinstance(o, LV) else c))
    return out


def saw(E, s, o, t, i, c):
    """a loop iteration reads the character at i of t"""
    if 'reads' in s.x:
        if len(t.p) == 1 and t.p[0][0] == 's':
            i = ladd(i, t.p[0][2])
        s.x['reads'] += ((o.a if isinstance(o, LV) else None, i, c),)


def t_back(E, s, e, o, vs):
    t = text(E, s, o, e)
    return t_index(E, s, e, o, [ladd(tlen(t), -1)])


def t_front(E, s, e, o, vs):
    return t_index(E, s, e, o, [0])


def t_substr(E, s, e, o, vs):
    t = text(E, s, o, e)
    pos, n = E.load(s, vs[0]), E.load(s, vs[1]) if len(vs) > 1 else M64 - 1
    return [(s2, m) for s2, l, m, r in part(E, s, t, pos, n, e)]


def t_erase(E, s, e, o, vs):
    t = text(E, s, o, e)
    pos = E.load(s, vs[0]) if vs else 0
    n = E.load(s, vs[1]) if len(vs) > 1 else M64 - 1
    if isinstance(pos, Pos):
        if isinstance(n, Pos):
            n = ladd(n.i, pos.i, -1)
        elif 'iterator' in e['pt'][0] and len(e['pt']) == 1:
            n = 1
        pos = pos.i
    out = []
    for s2, l, m, r in part(E, s, t, pos, n, e, 'erase'):
        put(E, s2, o, Txt(l.p + r.p))
        out.append((s2, o))
    return out


def count_states(E, s, n, e):
    """a count argument: negative counts (as unsigned) overflow"""
    out = []
    for s1, b in E.split_cmp(s, '<=', n, 1 << 62):
        if b:
            out.append(s1)
        else:
            E.abort(s1, 'length error', e)
    return out


def run(E, s, n, c, e):
    if isinstance(c, CharLV):
        c = c.v
    return Txt((('f', c, n),))


def args_text(E, s, vs, pt, e):
    """[(state, Txt)] for the tail arguments of append/assign/insert"""
    if not vs:
        return [(s, Txt())]
    x = E.load(s, vs[0])
    if len(vs) >= 2:
        y = E.load(s, vs[1])
        if isinstance(x, (int, Lin)) and 'char' in strip(pt[-1]):
            return [(s1, run(E, s1, x, y, e)) for s1 in count_states(E, s, x, e)]
        if isinstance(x, (Txt, StrV)) and isinstance(y, (int, Lin)):
            if isinstance(x, StrV):
                return [(s, Txt((('l', x.s[:y]),)))] if isinstance(y, int) else None
            if len(vs) == 2 and pt and '*' in pt[-2 if len(pt) > 1 else 0]:
                # (pointer, count); the characters after the end are not ours
                out = []
                for s1, b in E.split_cmp(s, '<=', y, tlen(x)):
                    if not b:
                        E.abort(s1, 'characters beyond the end of the text read', e)
                        continue
                    out += [(s2, m) for s2, l, m, r in part(E, s1, x, 0, y, e)]
                return out
            n = E.load(s, vs[2]) if len(vs) > 2 else M64 - 1
            return [(s2, m) for s2, l, m, r in part(E, s, x, y, n, e)]
        if isinstance(x, Pos) and isinstance(y, Pos) and x.q == y.q and x.q[0] == 'str':
            t = text(E, s, LV(x.q[1]), e)
            return [(s2, m) for s2, l, m, r in part(E, s, t, x.i, ladd(y.i, x.i, -1), e)]
        raise Broken('string arguments %r %r at %s' % (x, y, loc(e)))
    return [(s, text(E, s, vs[0], e))]


def t_append(E, s, e, o, vs):
    out = []
    for s1, u in args_text(E, s, vs, e['pt'], e):
        put(E, s1, o, Txt(text(E, s1, o, e).p + u.p))
        out.append((s1, o))
    return out


def t_assign(E, s, e, o, vs):
    out = []
    for s1, u in args_text(E, s, vs, e['pt'], e):
        put(E, s1, o, u)
        out.append((s1, o))
    return out


def rebase(E, s, o):
    """a composed text becomes a text of its own; what it is made of is kept in the state"""
    t = s.heap[o.a]
    if len(t.p) < 2 or not any(p[0] == 's' for p in t.p) or not any(p[0] != 's' for p in t.p):
        return
    E.ctr += 1
    b = ('made', E.ctr)
    u = sym_text(s, b)
    n = tlen(t)
    E.assume_le(s, ladd(n, tlen(u), -1), 0)
    E.assume_le(s, ladd(tlen(u), n, -1), 0)
    s.x['made'] = s.x.get('made', ()) + ((b, t),)
    off = 0
    for p in t.p:
        nx = ladd(off, plen(p))
        if p[0] == 'f' and isinstance(p[1], int):
            add_range(E, s, b, off, nx, (p[1],))
        elif p[0] == 'l':
            add_range(E, s, b, off, nx, {ord(c) for c in p[1]})
        elif p[0] == 's':
            add_range(E, s, b, off, nx, known_range(E, s, p[1], p[2], p[3]) or CH)
        off = nx
    s.heap[o.a] = u


def t_insert(E, s, e, o, vs):
    pos = E.load(s, vs[0])
    it = isinstance(pos, Pos)
    if it:
        pos = pos.i
    out = []
    rest, pt = vs[1:], e['pt'][1:]
    if it and len(rest) == 1:
        us = [(s, Txt(piece_of(E, s, E.charv(s, rest[0]), e)))]
    else:
        us = args_text(E, s, rest, pt, e)
    for s1, u in us:
        t = text(E, s1, o, e)
        for s2 in within(E, s1, t, pos, e, 'insert'):
            for s3, l, r in cut(E, s2, t, pos):
                put(E, s3, o, Txt(l.p + u.p + r.p))
                if E.rebase and all(p[1] == 32 if p[0] == 'f' else p[0] == 'l' and not p[1].strip() for p in u.p):
                    rebase(E, s3, o)
                out.append((s3, Pos(('str', o.a), pos) if it else o))
    return out


def t_replace(E, s, e, o, vs):
    pos, n = E.load(s, vs[0]), E.load(s, vs[1])
    out = []
    if isinstance(pos, Pos):
        pos, n = pos.i, ladd(n.i, pos.i, -1)
    for s1, u in args_text(E, s, vs[2:], e['pt'][2:], e):
        for s2, l, m, r in part(E, s1, text(E, s1, o, e), pos, n, e, 'replace'):
            put(E, s2, o, Txt(l.p + u.p + r.p))
            out.append((s2, o))
    return out


def t_clear(E, s, e, o, vs):
    s.heap[o.a] = Txt()
    return [(s, VOID)]


def t_push(E, s, e, o, vs):
    put(E, s, o, Txt(text(E, s, o, e).p + piece_of(E, s, E.charv(s, vs[0]), e)))
    return [(s, VOID)]


def t_popb(E, s, e, o, vs):
    t = text(E, s, o, e)
    out = []
    for s2, l, m, r in part(E, s, t, ladd(tlen(t), -1), M64 - 1, e, 'pop_back'):
        put(E, s2, o, l)
        out.append((s2, VOID))
    return out


def t_resize(E, s, e, o, vs):
    n = E.load(s, vs[0])
    c = E.charv(s, vs[1]) if len(vs) > 1 else 0
    t = text(E, s, o, e)
    out = []
    for s1, b in E.split_cmp(s, '<=', n, tlen(t)):
        if b:
            for s2, l, r in cut(E, s1, t, n):
                put(E, s2, o, l)
                out.append((s2, VOID))
        else:
            for s2 in count_states(E, s1, n, e):
                put(E, s2, o, Txt(t.p + (('f', c, ladd(n, tlen(t), -1)),)))
                out.append((s2, VOID))
    return out


def t_swap(E, s, e, o, vs):
    a, b = o.a, vs[0].a
    s.heap[a], s.heap[b] = s.heap[b], s.heap[a]
    return [(s, VOID)]


def t_addasg(E, s, e, o, vs):
    x = E.load(s, vs[0])
    if isinstance(x, CharLV):
        x = x.v
    u = Txt(piece_of(E, s, x, e)) if strip(e['pt'][0]) == 'char' else text(E, s, vs[0], e)
    put(E, s, o, Txt(text(E, s, o, e).p + u.p))
    return [(s, o)]


def t_add(E, s, e, o, vs):
    if o is not None:
        vs = [o] + vs
    ps = ()
    for v, pt in zip(vs, e['pt']):
        if strip(pt) == 'char':
            ps += piece_of(E, s, E.charv(s, v), e)
        else:
            ps += text(E, s, v, e).p
    return [(s, norm(E, s, Txt(ps)))]


def t_ctor(E, s, e, vs):
    if not vs:
        return [(s, Txt())]
    pt = e.get('pt') or []
    vs = [v for v, p in zip(vs, pt) if not strip(p).startswith('std::allocator')] if len(pt) == len(vs) else vs
    pt = [p for p in pt if not strip(p).startswith('std::allocator')]
    x = E.load(s, vs[0])
    if isinstance(x, Pos) and len(vs) > 1:
        return args_text(E, s, vs, pt, e)
    if len(vs) >= 2 and isinstance(E.load(s, vs[1]), (int, Lin, Tag)) or len(vs) >= 2:
        return args_text(E, s, vs, pt, e)
    move = e.get('ck') == 'move' and isinstance(vs[0], LV)
    t = text(E, s, vs[0], e)
    if move:
        s.heap[vs[0].a] = Txt()
    return [(s, t)]


def t_asg(E, s, e, o, vs):
    t = Txt(piece_of(E, s, E.charv(s, vs[0]), e)) if strip(e['pt'][0]) == 'char' else text(E, s, vs[0], e)
    if e['pt'][0].endswith('&&') and isinstance(vs[0], LV):
        s.heap[vs[0].a] = Txt()
    s.heap[o.a] = t
    return [(s, o)]


def t_begin(E, s, e, o, vs):
    return [(s, Pos(('str', o.a), 0))]


def t_end(E, s, e, o, vs):
    return [(s, Pos(('str', o.a), tlen(text(E, s, o, e))))]


def same(E, s, a, b):
    """certainly equal texts"""
    a, b = norm(E, s, a), norm(E, s, b)
    if len(a.p) != len(b.p):
        return False
    for p, q in zip(a.p, b.p):
        if p[0] != q[0]:
            return False
        if p[0] == 's' and not (p[1] == q[1] and eqv(E, s, p[2], q[2]) and eqv(E, s, p[3], q[3])):
            return False
        if p[0] == 'f' and not (p[1] == q[1] and eqv(E, s, p[2], q[2])):
            return False
        if p[0] == 'l' and p[1] != q[1]:
            return False
    return True


def cmp_text(E, s, op, a, b, e):
    if op not in ('==', '!='):
        E.ctr += 1
        return E.split(s, Sym(('scmp', E.ctr)))
    neg = op == '!='
    a, b = norm(E, s, a), norm(E, s, b)
    if same(E, s, a, b):
        return [(s, not neg)]
    if not a.p or not b.p:
        x = a if a.p else b
        return [(s1, r != neg) for s1, r in E.split_cmp(s, '<=', tlen(x), 0)]
    la, lb = tlen(a), tlen(b)
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return [(s, neg)]
        if all(p[0] == 'l' for p in a.p + b.p):
            return [(s, (a == b) != neg)]
    # a known text against one slice: compare character by character
    lit, oth = (a, b) if all(p[0] == 'l' for p in a.p) else (b, a)
    if len(lit.p) == 1 and lit.p[0][0] == 'l' and len(oth.p) == 1 and oth.p[0][0] == 's' and len(lit.p[0][1]) <= 12:
        out, cur = [], []
        for s1, r in E.split_cmp(s, '==', tlen(oth), len(lit.p[0][1])):
            if r:
                cur.append(s1)
            else:
                out.append((s1, neg))
        base, at0, pre = oth.p[0][1], oth.p[0][2], lambda u: [u]
        cased = dict(s.x.get('cased', ())).get(base)
        if cased:
            base, d, fn = cased
            at0 = ladd(at0, d)
            pre = lambda u: [x for x in CH if fn(x) == u]
        for k, c in enumerate(lit.p[0][1]):
            nx = []
            for s1 in cur:
                t = char_at(E, s1, base, ladd(at0, k))
                if t is None:
                    continue
                for s2, r in E.split_tag(s1, t, pre(ord(c))):
                    if r:
                        nx.append(s2)
                    else:
                        out.append((s2, neg))
            cur = nx
        return out + [(s1, not neg) for s1 in cur]
    k = Sym(('txteq',) + tuple(sorted((repr(a), repr(b)))))
    return [(s1, r != neg) for s1, r in E.split(s, k)]


# ------------------------------------------------------------------ bitset
def b_of(E, s, o):
    x = s.heap[o.a] if isinstance(o, LV) else o
    if not isinstance(x, Bits):
        raise Broken('not a bitset: %r' % (x,))
    return x


def b_set(val):
    def h(E, s, e, o, vs):
        x = b_of(E, s, o)
        if not vs:
            s.heap[o.a] = Bits([val] * len(x.b))
            return [(s, o)]
        i = E.load(s, vs[0])
        v = val
        out = []
        if len(vs) > 1:
            v = E.load(s, vs[1])
            for s2, r in E.split(s, v):
                l = list(b_of(E, s2, o).b)
                l[i] = r
                s2.heap[o.a] = Bits(l)
                out.append((s2, o))
            return out
        if not isinstance(i, int):
            raise Broken('bit number %r at %s' % (i, loc(e)))
        if not 0 <= i < len(x.b):
            E.abort(s, 'bit %d out of range' % i, e)
            return []
        l = list(x.b)
        l[i] = v
        s.heap[o.a] = Bits(l)
        return [(s, o)]
    return h


def b_test(E, s, e, o, vs):
    i = E.load(s, vs[0])
    return [(s, b_of(E, s, o).b[i])]


def b_index(E, s, e, o, vs):
    i = E.load(s, vs[0])
    x = b_of(E, s, o)
    if not isinstance(i, int):
        raise Broken('bit number %r at %s' % (i, loc(e)))
    if 'reference' in e.get('rt', '') and isinstance(o, LV):
        return [(s, BitRef(o.a, i))]
    return [(s, x.b[i])]


def b_refasg(E, s, e, o, vs):
    out = []
    v = E.load(s, vs[0])
    if isinstance(v, BitRef):
        v = s.heap[v.a].b[v.i]
    r0 = E.load(s, o) if not isinstance(o, BitRef) else o
    for s2, r in ([(s, v)] if isinstance(v, Sym) else E.split(s, v)):
        l = list(s2.heap[r0.a].b)
        l[r0.i] = r
        s2.heap[r0.a] = Bits(l)
        out.append((s2, r0))
    return out


def b_refbool(E, s, e, o, vs):
    r = o if isinstance(o, BitRef) else E.load(s, o)
    if isinstance(r, BitRef):
        return [(s, s.heap[r.a].b[r.i])]
    return [(s, r)]


def b_any(kind):
    def h(E, s, e, o, vs):
        x = b_of(E, s, o)
        cur = [(s, 0)]
        for b in x.b:
            cur = [(s2, n + int(r)) for s1, n in cur for s2, r in E.split(s1, b)]
        return [(s1, {'any': n > 0, 'none': n == 0, 'count': n, 'all': n == len(x.b)}[kind])
                for s1, n in cur]
    return h


# --------------------------------------------------------------- character
def ctype(fn):
    tab = {'isdigit': lambda u: 48 <= u <= 57,
           'isspace': lambda u: u in (32, 9, 10, 11, 12, 13),
           'isblank': lambda u: u in (32, 9),
           'isalpha': lambda u: 65 <= u <= 90 or 97 <= u <= 122,
           'isalnum': lambda u: 48 <= u <= 57 or 65 <= u <= 90 or 97 <= u <= 122,
           'isupper': lambda u: 65 <= u <= 90, 'islower': lambda u: 97 <= u <= 122,
           'isprint': lambda u: 32 <= u < 127, 'ispunct': lambda u: 33 <= u < 127 and not chr(u).isalnum()}
    f = tab[fn]

    def h(E, s, e, o, vs):
        x = E.charv(s, vs[0])
        if isinstance(x, int):
            return [(s, int(f(x)))]
        if isinstance(x, Tag):
            return [(s, ('tagis', x, tuple(u for u in CH if f(u))))]
        if isinstance(x, ChF):
            return [(s, ('tagis', x.t, tuple(u for u in CH if f(x.m[u]))))]
        return [(s, Sym((fn, repr(x))))]
    return h


def cmap(name):
    up = name == 'toupper'

    def g(u):
        if up and 97 <= u <= 122:
            return u - 32
        if not up and 65 <= u <= 90:
            return u + 32
        return u
    tab = {u: g(u) for u in range(-128, 256)}

    def h(E, s, e, o, vs):
        x = E.charv(s, vs[0])
        if isinstance(x, int):
            return [(s, g(x))]
        if isinstance(x, Tag):
            return [(s, ChF(x, tab, name))]
        if isinstance(x, ChF):
            return [(s, ChF(x.t, {u: g(v) for u, v in x.m.items()}, name + x.n))]
        return [(s, Sym((name, repr(x))))]
    return h


# ----------------------------------------------------------------- streams
def os_put(E, s, o, t):
    x = s.heap[o.a]
    if isinstance(x, Os):
        out = []
        if x.w:
            for s1, b in E.split_cmp(s, '<', tlen(t), x.w):
                y = t
                if b:
                    pad = (('f', 32, ladd(x.w, tlen(t), -1)),)
                    y = Txt(t.p + pad) if x.left else Txt(pad + t.p)
                s1.heap[o.a] = Os(norm(E, s1, Txt(x.p + y.p)).p, 0, x.left)
                out.append((s1, o))
            return out
        s.heap[o.a] = Os(norm(E, s, Txt(x.p + t.p)).p, 0, x.left)
    return [(s, o)]


def os_op(E, s, e, o, vs):
    if o is not None:
        vs = [o] + vs
    t = vs[0]
    if not isinstance(t, LV) or not isinstance(s.heap.get(t.a), Os):
        return [(s, t)]
    v = E.load(s, vs[1])
    if isinstance(v, tuple) and v and v[0] == 'setw':
        x = s.heap[t.a]
        s.heap[t.a] = Os(x.p, v[1], x.left)
        return [(s, t)]
    if isinstance(v, tuple) and v and v[0] == 'adj':
        x = s.heap[t.a]
        s.heap[t.a] = Os(x.p, x.w, v[1])
        return [(s, t)]
    if isinstance(v, FnRef):
        nm = v.q.rsplit('::', 1)[-1]
        if nm == 'endl':
            return os_put(E, s, t, Txt((('l', '\n'),)))
        if nm in ('left', 'right'):
            x = s.heap[t.a]
            s.heap[t.a] = Os(x.p, x.w, nm == 'left')
        return [(s, t)]
    pt = strip((e.get('pt') or ['', ''])[-1])
    if isinstance(v, (Txt, StrV)):
        return os_put(E, s, t, text(E, s, v, e))
    if isinstance(v, CharLV) or pt == 'char':
        return os_put(E, s, t, Txt(piece_of(E, s, E.charv(s, v), e)))
    if isinstance(v, int) and not isinstance(v, bool):
        return os_put(E, s, t, Txt((('l', str(v)),)))
    E.ctr += 1
    u = sym_text(s, ('printed', repr(v)), 1)
    return os_put(E, s, t, u)


def os_setf(E, s, e, o, vs):
    x = s.heap.get(o.a) if isinstance(o, LV) else None
    if isinstance(x, Os):
        f = E.load(s, vs[0])
        old = ('flags', x.left)
        left = x.left
        r = repr(f)
        if isinstance(f, tuple) and f[0] == 'flags':
            left = left or f[1] or (len(vs) > 1 and f[1])
            if e['f'].endswith('::flags'):
                left = f[1]
        elif 'ios_base::left' in r or f == ('adjf', 'left'):
            left = True
        elif 'ios_base::right' in r:
            left = False
        s.heap[o.a] = Os(x.p, x.w, left)
        return [(s, old)]
    return [(s, Sym('flags'))]


def os_unsetf(E, s, e, o, vs):
    x = s.heap.get(o.a)
    if isinstance(x, Os) and ('left' in repr(E.load(s, vs[0])) or 'adjust' in repr(E.load(s, vs[0]))):
        s.heap[o.a] = Os(x.p, x.w, False)
    return [(s, VOID)]


def os_width(E, s, e, o, vs):
    x = s.heap.get(o.a)
    if isinstance(x, Os) and vs:
        s.heap[o.a] = Os(x.p, E.load(s, vs[0]), x.left)
    return [(s, VOID)]


def os_write(E, s, e, o, vs):
    return os_put(E, s, o, text(E, s, vs[0], e))


def os_putc(E, s, e, o, vs):
    return os_put(E, s, o, Txt(piece_of(E, s, E.charv(s, vs[0]), e)))


def absnat_distance(E, s, e, o, vs):
    if len(vs) == 2:
        a, b = vs[1], vs[0]
        return absnat.f_distance(E, s, e, None, [a, b])
    raise Broken('operator- at %s' % loc(e))


class Undecided(Broken):
    pass


def join(pre, g):
    """a state that covers the states g, with the memory of pre"""
    o = pre.fork()
    if len(g) == 1:
        s = g[0]
        o.tags, o.zone, o.facts, o.x = dict(s.tags), s.zone.copy(), dict(s.facts), dict(s.x)
        return o
    o.tags = {k: frozenset().union(*(s.tags[k] for s in g))
              for k in g[0].tags if all(k in s.tags for s in g)}
    o.zone = Zone({k: max(s.zone.b[k] for s in g)
                   for k in g[0].zone.b if all(k in s.zone.b for s in g)})
    o.facts = {k: v for k, v in g[0].facts.items() if all(s.facts.get(k, None) == v for s in g)}
    o.x = {k: v for k, v in g[0].x.items() if k != 'rng' and all(k in s.x and s.x[k] == v for s in g)}
    for k in ('reads', 'ghosts'):
        if k in pre.x:
            o.x[k] = pre.x[k]
    r = [f for f in g[0].x.get('rng', ()) if all(f in s.x.get('rng', ()) for s in g)]
    if r:
        o.x['rng'] = tuple(r)
    return o


class TextEngine(Engine):
    def __init__(self, F, tu=None):
        super().__init__(F, tu)
        self._uni = CH
        self.loop_hook = havoc_loop
        self.loops = {}
        self.summarise = True
        self.monitor = None
        self.rebase = False
        self.loopdepth = 0
        n = self.nat
        for m, h in (('size', t_size), ('length', t_size), ('empty', t_empty), ('operator[]', t_index),
                     ('at', t_index), ('back', t_back), ('front', t_front), ('substr', t_substr),
                     ('erase', t_erase), ('append', t_append), ('assign', t_assign), ('insert', t_insert),
                     ('clear', t_clear), ('push_back', t_push), ('pop_back', t_popb), ('resize', t_resize),
                     ('swap', t_swap), ('operator+=', t_addasg), ('operator=', t_asg), ('begin', t_begin),
                     ('cbegin', t_begin), ('end', t_end), ('cend', t_end), ('replace', t_replace),
                     ('find_first_not_of', finder(True, False)), ('find_first_of', finder(False, False)),
                     ('find', finder(False, False)), ('rfind', finder(False, True)),
                     ('find_last_not_of', finder(True, True)), ('find_last_of', finder(False, True)),
                     ('reserve', absnat.void), ('c_str', lambda E, s, e, o, vs: [(s, text(E, s, o, e))]),
                     ('shrink_to_fit', absnat.void),
                     ('max_size', lambda E, s, e, o, vs: [(s, 1 << 62)])):
            n['std::basic_string::' + m] = h
        n[('ctor', 'std::basic_string')] = n[('ctor', 'std::string')] = t_ctor
        n['std::operator+'] = t_add
        for c, hs in (('std::bitset', (('set', b_set(True)), ('reset', b_set(False)), ('test', b_test),
                                       ('operator[]', b_index), ('any', b_any('any')),
                                       ('none', b_any('none')), ('count', b_any('count')))),
                      ('std::bitset::reference', (('operator=', b_refasg), ('operator bool', b_refbool)))):
            for m, h in hs:
                n[c + '::' + m] = h
        n[('ctor', 'std::bitset')] = self.bits_ctor
        n['std::bitset::operator='] = lambda E, s, e, o, vs: (s.heap.__setitem__(o.a, E.load(s, vs[0])),
                                                            [(s, o)])[1]
        for f in ('isdigit', 'isspace', 'isblank', 'isalpha', 'isalnum', 'isupper', 'islower', 'isprint', 'ispunct'):
            n[f] = n['std::' + f] = ctype(f)
        for f in ('toupper', 'tolower'):
            n[f] = n['std::' + f] = cmap(f)
        n['std::operator<<'] = n['std::basic_ostream::operator<<'] = os_op
        n['std::setw'] = lambda E, s, e, o, vs: [(s, ('setw', E.load(s, vs[0])))]
        n['std::setfill'] = lambda E, s, e, o, vs: [(s, ('setfill',))]
        n['std::ios_base::setf'] = n['std::ios_base::flags'] = os_setf
        n['std::ios_base::unsetf'] = os_unsetf
        n['std::ios_base::width'] = os_width
        n['std::basic_ostream::put'] = os_putc
        n['std::basic_ostream::flush'] = lambda E, s, e, o, vs: [(s, o)]
        for k in ('find', 'find_if', 'find_if_not', 'all_of', 'any_of', 'none_of', 'count_if'):
            n['std::' + k] = self.algo(k)
        n['std::transform'] = self.mapped
        n['std::back_inserter'] = back_inserter
        n['std::move'] = n['std::copy'] = copied
        n['__gnu_cxx::__normal_iterator::operator+'] = self.it_add(1)
        n['__gnu_cxx::__normal_iterator::operator-'] = self.it_add(-1)
        n['__gnu_cxx::__normal_iterator::operator+='] = self.it_add(1, True)
        n['__gnu_cxx::__normal_iterator::operator-='] = self.it_add(-1, True)
        n['__gnu_cxx::operator-'] = absnat_distance
        n['std::to_string'] = lambda E, s, e, o, vs: [(s, E.digits(s, E.load(s, vs[0])))]
        n[('ctor', 'std::runtime_error')] = n[('ctor', 'std::logic_error')] = \
            lambda E, s, e, vs: [(s, Sym('exception'))]
        for op in ('==', '!=', '<', '>', '<=', '>='):
            n['std::operator' + op] = self.cmp(op, n['std::operator' + op])

    @staticmethod
    def it_add(sg, asg=False):
        def h(E, s, e, o, vs):
            it, k = E.load(s, o), E.load(s, vs[0])
            if isinstance(it, It) and isinstance(k, int):
                p = absnat.step(E, s, it, sg * k, e)
                if p is None:
                    return []
                if asg:
                    s.heap[o.a] = p
                    return [(s, o)]
                return [(s, p)]
            if not isinstance(it, Pos) or not numeric(k):
                raise Undecided('iterator moved at %s' % loc(e))
            p = Pos(it.q, ladd(it.i, k, sg))
            if asg:
                s.heap[o.a] = p
                return [(s, o)]
            return [(s, p)]
        return h

    def bits_ctor(self, E, s, e, vs):
        if vs:
            x = E.load(s, vs[0])
            if isinstance(x, Bits):
                return [(s, x)]
        return [(s, self.native_default(strip(e['t'])))]

    @staticmethod
    def cmp(op, old):
        def h(E, s, e, o, vs):
            w = ([o] if o is not None else []) + list(vs)
            xs = [E.load(s, v) for v in w]
            if all(isinstance(x, (Txt, StrV)) for x in xs) and any(isinstance(x, Txt) for x in xs):
                return cmp_text(E, s, op, text(E, s, xs[0], e), text(E, s, xs[1], e), e)
            return old(E, s, e, o, vs)
        return h

    def digits(self, s, v):
        if isinstance(v, int):
            return Txt((('l', str(v)),))
        return sym_text(s, ('digits', repr(v)), 1)

    def native_default(self, ts):
        if ts.startswith('std::bitset<'):
            n = re.match(r'std::bitset<(\d+)', ts)
            return Bits([False] * int(n.group(1)))
        if ts.startswith(('std::basic_string<', 'std::__cxx11::basic_string<')):
            return Txt()
        return super().native_default(ts)

    # ------------------------------------------------------------ numbers
    def charv(self, s, v):
        x = self.load(s, v)
        if isinstance(x, CharLV):
            return x.v
        if isinstance(x, StrV) and len(x.s) == 1:
            return ord(x.s)
        return x

    def load(self, st, v):
        if isinstance(v, CharLV):
            return v.v
        if isinstance(v, BitRef):
            return st.heap[v.a].b[v.i]
        return super().load(st, v)

    def wrap_u(self, s, v):
        """a 64-bit unsigned result"""
        if isinstance(v, bool):
            return [(s, v)]
        if isinstance(v, int):
            return [(s, v % M64)]
        if not isinstance(v, Lin):
            return [(s, v)]
        if v.c >= M64 // 2:
            v = ladd(v, -M64)
        if isinstance(v, int):
            return [(s, v % M64)]
        if self.entails_le(s, 0, v):
            return [(s, v)]
        out = []
        for s2, b in self.split_cmp(s, '>=', v, 0):
            out.append((s2, v if b else ladd(v, M64)))
        return out

    def conv(self, s, v, t):
        t = strip(t)
        if isinstance(v, CharLV):
            v = v.v
        if isinstance(v, (LV,)):
            v = self.load(s, v)
        if t in ('unsigned long', 'unsigned long long'):
            return self.wrap_u(s, v)
        if t in ('int', 'long', 'long long', 'short'):
            if isinstance(v, bool):
                return [(s, int(v))]
            if isinstance(v, int):
                b = {'int': 32, 'short': 16}.get(t, 64)
                v &= (1 << b) - 1
                return [(s, v - (1 << b) if v >> (b - 1) else v)]
            if isinstance(v, Lin) and v.c >= M64 // 2:
                return [(s, ladd(v, -M64))]
            return [(s, v)]
        if t == 'unsigned int' and isinstance(v, int):
            return [(s, v & 0xffffffff)]
        if t == 'bool':
            return self.split(s, v)
        if t == 'char' and isinstance(v, int) and not isinstance(v, bool):
            v &= 255
            return [(s, v - 256 if v > 127 else v)]
        return [(s, v)]

    def ev(self, e, st):
        if 'cv' in e and e['k'] not in ('asg', 'mcall', 'op', 'call', 'un') or \
                ('cv' in e and e['k'] == 'un' and e['op'] in ('-', '!', '+', '~')):
            v = e['cv']
            t = strip((e.get('ic') or [e['t']])[-1])
            if v < 0 and t.startswith('unsigned long'):
                v += M64
            return [(st, v)]
        r = super().ev(e, st)
        if e.get('ic'):
            for t in e['ic']:
                nr = []
                for s, v in r:
                    x = self.load(s, v)
                    if x is UNINIT:
                        self.abort(s, 'indeterminate value used', e)
                        continue
                    nr += self.conv(s, x, t)
                r = nr
        return r

    def e_cast(self, e, st):
        out = []
        to = strip(e['to'])
        for s, v in super().e_cast(e, st):
            if to in ('int', 'long', 'unsigned long', 'unsigned int', 'char', 'short') and not isinstance(v, bool):
                out += self.conv(s, self.load(s, v), to)
            else:
                out.append((s, v))
        return out

    def arith(self, st, op, a, b, e):
        if isinstance(a, CharLV):
            a = a.v
        if isinstance(b, CharLV):
            b = b.v
        t = strip(e['t'])
        if op == '*' and isinstance(a, Lin) != isinstance(b, Lin) and isinstance(a, (int, Lin)) and \
                isinstance(b, (int, Lin)):
            l, k = (a, b) if isinstance(a, Lin) else (b, a)
            if k > 1:
                # a multiple is a quantity of its own with the bounds of its factor
                n = ('mul', k, repr(self.simp(st, l)))
                for d, c in ((l, 1), (ladd(0, l, -1), -1)):
                    m = st.zone.max(d)
                    if m is not None and m < BIG:
                        self.assume_le(st, ladd(0, symi(n), c), m * k)
                return [(st, symi(n))]
        r = super().arith(st, op, a, b, e)
        if t.startswith('unsigned long'):
            out = []
            for s, v in r:
                out += self.wrap_u(s, v)
            return out
        return r

    def e_asg(self, e, st):
        # characters and bits inside objects
        out = []
        if e['op'] != '=' or e['a'][0]['k'] not in ('op', 'mcall', 'un', 'idx'):
            return super().e_asg(e, st)
        for s, (r, l) in self.evl([e['a'][1], e['a'][0]], st):
            v = self.load(s, r)
            if isinstance(l, CharLV):
                for s2, q in self.set_char(s, l, v, e):
                    out.append((s2, q))
            elif isinstance(l, BitRef):
                out += b_refasg(self, s, e, l, [r])
            elif isinstance(l, LV):
                if isinstance(v, LV):
                    self.assign_obj(s, l.a, v.a)
                else:
                    self.store(s, l.a, v, e)
                out.append((s, l))
            else:
                raise Broken('assignment to %r at %s' % (l, loc(e)))
        return out

    def set_char(self, s, l, v, e):
        t = text(self, s, LV(l.a), e)
        out = []
        for s2, a, m, b in part(self, s, t, l.i, 1, e, 'assignment'):
            put(self, s2, LV(l.a), Txt(a.p + piece_of(self, s2, v, e) + b.p))
            out.append((s2, CharLV(l.a, l.i, v)))
        return out

    def split(self, st, v, e=None):
        v = self.load(st, v)
        if isinstance(v, CharLV):
            v = v.v
        if isinstance(v, ChF):
            return self.split_cmp(st, '!=', v, 0)
        if isinstance(v, tuple) and v and v[0] == 'flags':
            return [(st, True)]
        return super().split(st, v, e)

    def split_cmp(self, st, op, a, b):
        if isinstance(a, CharLV):
            a = a.v
        if isinstance(b, CharLV):
            b = b.v
        if isinstance(b, ChF) and not isinstance(a, ChF):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if isinstance(a, ChF) and isinstance(b, (int, bool)):
            import operator as o
            f = {'==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[op]
            return self.split_tag(st, a.t, [u for u in CH if f(a.m[u], int(b))])
        if isinstance(a, (Tag, ChF)) and isinstance(b, (Tag, ChF)):
            if a == b:
                return [(st, op in ('==', '<=', '>='))]
            return self.two_tags(st, op, a, b)
        if isinstance(a, Tag) and isinstance(b, Lin) or isinstance(b, Tag) and isinstance(a, Lin):
            return self.split(st, Sym(('tl', op, repr(a), repr(b))))
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            r = super().split_cmp(st, op, self.simp(st, ladd(a, b, -1)), 0)
            return [x for x in r if self.feasible(x[0])] if len(r) > 1 else r
        return super().split_cmp(st, op, a, b)

    def two_tags(self, st, op, a, b):
        if op not in ('==', '!='):
            return self.split(st, Sym(('ttc', op, repr(a), repr(b))))
        ta, ma = (a.t, a.m) if isinstance(a, ChF) else (a, None)
        tb, mb = (b.t, b.m) if isinstance(b, ChF) else (b, None)
        A = st.tags.get(ta.s, CH)
        B = st.tags.get(tb.s, CH)
        va = {ma[u] if ma else u for u in A}
        vb = {mb[u] if mb else u for u in B}
        com = va & vb
        out = []
        if len(com) > 12:
            k = Sym(('tt',) + tuple(sorted((repr(a), repr(b)))))
            return [(s, r if op == '==' else not r) for s, r in self.split(st, k)]
        for v in sorted(com):
            s = st.fork()
            s.tags[ta.s] = frozenset(u for u in A if (ma[u] if ma else u) == v)
            s.tags[tb.s] = frozenset(u for u in B if (mb[u] if mb else u) == v)
            out.append((s, op == '=='))
        # different
        if len(va) > 1 or len(vb) > 1 or va != vb:
            s = st
            if len(vb) == 1:
                s.tags[ta.s] = frozenset(u for u in A if (ma[u] if ma else u) not in vb)
            if len(va) == 1:
                s.tags[tb.s] = frozenset(u for u in B if (mb[u] if mb else u) not in va)
            if s.tags.get(ta.s, CH) and s.tags.get(tb.s, CH):
                if len(vb) > 1 and len(va) > 1 and len(vb) <= 3:
                    # split on the smaller set to stay exact
                    for v in sorted(vb):
                        s2 = s.fork()
                        s2.tags[tb.s] = frozenset(u for u in B if (mb[u] if mb else u) == v)
                        s2.tags[ta.s] = frozenset(u for u in A if (ma[u] if ma else u) != v)
                        if s2.tags[ta.s]:
                            out.append((s2, op == '!='))
                else:
                    out.append((s, op == '!='))
        return out

    def feasible(self, s):
        """no character contradicts what is known about its range or about an equal position"""
        if self.multi and not self.sums_ok(s):
            return False
        rng = s.x.get('rng')
        ch = {}
        for k in s.tags:
            if isinstance(k, tuple) and k[0] == 'ch':
                ch.setdefault(k[1], []).append(k)
        for base, lo, hi, S in rng or ():
            for k in ch.get(base, ()):
                if not s.tags[k] <= S and self.entails_le(s, lo, k[2]) and \
                        self.entails_le(s, ladd(k[2], 1), hi):
                    s.tags[k] = s.tags[k] & S
                    if not s.tags[k]:
                        return False
        for ks in ch.values():
            for x, y in itertools.combinations(ks, 2):
                if not (s.tags[x] & s.tags[y]) and eqv(self, s, x[2], y[2]):
                    return False
        return True

    # --------------------------------------------------- linear forms
    def simp(self, st, d):
        """the form with determined symbols replaced by their values"""
        if not isinstance(d, Lin) or len(d.t) < 2:
            return d
        b = st.zone.b
        c, t = d.c, {}
        for x, k in d.t:
            u = b.get((x, ''))
            if u is not None and b.get(('', x)) == -u:
                c += k * u
                continue
            for y in t:
                u = b.get((x, y))
                if u is not None and b.get((y, x)) == -u:
                    c += k * u
                    x = y
                    break
            t[x] = t.get(x, 0) + k
        if len(t) == len(d.t):
            return d
        return mk(c, t)

    multi = False       # keep bounds of sums of three and more quantities (engines that do not generalise loops)

    def assume_le(self, st, d, c):
        d = self.simp(st, d)
        if not self.multi or not isinstance(d, Lin):
            return super().assume_le(st, d, c)
        m = self.most(st, ladd(0, d, -1))
        if m is not None and -m > c:
            return False
        if sum(abs(k) for _, k in d.t) > 2 or len({k > 0 for _, k in d.t}) == 1 and len(d.t) > 1:
            st.x['sums'] = st.x.get('sums', ()) + ((Lin(0, d.t), c - d.c),)
        if not super().assume_le(st, d, c) or not self.sums_ok(st):
            return False
        for k in list(st.facts):
            if isinstance(k, tuple) and k and k[0] == 'ne' and k in st.facts:
                hi, lo = self.most(st, k[1]), self.most(st, ladd(0, k[1], -1))
                if hi == 0 and lo == 0:
                    return False
                if hi == 0 or lo == 0:
                    del st.facts[k]
                    if not self.assume_le(st, k[1] if hi == 0 else ladd(0, k[1], -1), -1):
                        return False
        return True

    def most(self, st, d):
        """upper bound of d from the differences and at most two known sums"""
        z = st.zone
        best = z.max(d)
        if not self.multi:
            return best
        for depth in (1, 2):
            for ls in itertools.combinations_with_replacement(st.x.get('sums', ()), depth):
                e, k = d, 0
                for l, c in ls:
                    e, k = ladd(e, l, -1), k + c
                m = z.max(e)
                if m is not None and (best is None or m + k < best):
                    best = m + k
        return best

    def sums_ok(self, st):
        ls = st.x.get('sums', ())
        for l, c in ls:
            m = st.zone.max(ladd(0, l, -1))
            if m is not None and -m > c:
                return False
        for (l, c), (l2, c2) in itertools.combinations(ls, 2):
            m = st.zone.max(ladd(0, ladd(l, l2), -1))
            if m is not None and -m > c + c2:
                return False
        return True

    def entails_le(self, st, a, b):
        d = self.simp(st, ladd(a, b, -1))
        if super().entails_le(st, d, 0):
            return True
        if self.multi and isinstance(d, Lin):
            m = self.most(st, d)
            return m is not None and m <= 0
        return False

    def call(self, st, fn, this, vs, e, closure=None):
        if not self.summarise or strip(fn.get('rt', '')) != 'bool' or closure is not None:
            return super().call(st, fn, this, vs, e, closure)
        pre = st.fork()
        keep = dict(st.heap)
        rs = []
        for s, v in super().call(st, fn, this, vs, e, closure):
            rs += self.split(s, v)
        if len(rs) <= 2 or any(s.heap.get(a) != x for s, _ in rs for a, x in keep.items()):
            return rs
        out = []
        for r in (False, True):
            g = [s for s, x in rs if bool(x) == r]
            if len(g) > (32 if r else 4):
                g = [join(pre, g)]
            out += [(s, r) for s in g]
        return out

    def pos_deref(self, s, it, e):
        if it.q[0] == 'str':
            t = text(self, s, LV(it.q[1]), e)
            out = []
            for s0, b in self.split_cmp(s, '<', it.i, tlen(t)):
                if not b:
                    self.abort(s0, 'iterator to the end of the text dereferenced', e)
                    continue
                for s1, c in at(self, s0, t, it.i, e):
                    saw(self, s1, LV(it.q[1]), t, it.i, c)
                    out.append((s1, CharLV(it.q[1], it.i, c)))
            return out
        raise Broken('element %r at %s' % (it, loc(e)))

    def s_rfor(self, n, st):
        out = []
        for s, r in self.ev(n['range'], st):
            if isinstance(r, Txt):
                r = LV(self.new(s, r))
            if not isinstance(r, LV) or not isinstance(s.heap.get(r.a), Txt):
                return super().s_rfor(n, st)
            out += self.each_char(s, r, n)
        return out

    def each_char(self, s, r, n):
        c = self.new(s, 0)
        v = n['var']

        def test(s):
            return self.split_cmp(s, '<', s.heap[c], tlen(text(self, s, r, n)))

        def body(s):
            out = []
            for s1, ch in t_index(self, s, n, r, [s.heap[c]]):
                if v['t'].endswith('&') and 'const' not in v['t']:
                    raise Undecided('characters changed through a reference at %s' % loc(n))
                a = self.new(s1, ch.v if isinstance(ch, CharLV) else ch)
                s1.env[v['id']] = a
                s1.env[('byname', v['n'])] = a
                out += self.ex(n['b'], s1)
            return out

        def inc(s):
            s.heap[c] = ladd(s.heap[c], 1)
            return [(s, None)]
        return self.loop(n, s, test, body, inc)

    def seek(self, e, s, first, last, stop):
        """[(state, position|None)]: the first element between two iterators that stop(state, character) accepts"""
        c = self.new(s, first.i)
        q = first.q
        r = LV(q[1])

        def test(s):
            return self.split_cmp(s, '<', s.heap[c], last.i)

        def body(s):
            out = []
            for s1, ch in self.pos_deref(s, Pos(q, s.heap[c]), e):
                for s2, b in stop(s1, ch.v):
                    out.append(('b' if b else 'n', s2, None))
            return out

        def inc(s):
            s.heap[c] = ladd(s.heap[c], 1)
            return [(s, None)]
        out = []
        for kind, s1, _ in self.loop(dict(e, cvar=None), s, test, body, inc):
            if kind != 'n':
                raise Undecided('%s leaves by %s' % (loc(e), kind))
            for s2, b in self.split_cmp(s1, '<', s1.heap[c], last.i):
                out.append((s2, Pos(q, s2.heap[c]) if b else None))
        return out

    def algo(self, kind):
        def h(E, s, e, o, vs):
            a, b = E.load(s, vs[0]), E.load(s, vs[1])
            if isinstance(a, It) and isinstance(b, It):
                return over_list(E, s, kind, a, b, vs[2], e)
            if not (isinstance(a, Pos) and isinstance(b, Pos) and a.q == b.q and a.q[0] == 'str'):
                raise Undecided('%s over %r at %s' % (kind, a, loc(e)))
            f = vs[2]

            def stop(s, ch):
                if kind == 'find':
                    x = E.load(s, f)
                    x = x.v if isinstance(x, CharLV) else x
                    return E.split_cmp(s, '==', ch, x)
                out = []
                for s1, v in E.call_value(s, f, [ch], e):
                    for s2, t in E.split(s1, v):
                        out.append((s2, t != (kind in ('all_of', 'find_if_not'))))
                return out
            out = []
            for s1, p in E.seek(e, s, a, b, stop):
                if kind in ('find', 'find_if', 'find_if_not'):
                    out.append((s1, p or b))
                else:
                    out.append((s1, (p is None) == (kind in ('all_of', 'none_of'))))
            return out
        return h

    def mapped(self, E, s, e, o, vs):
        """std::transform of a whole text by a function of the character into a text of the same length"""
        a, b, d = (E.load(s, v) for v in vs[:3])
        if len(vs) == 4 and all(isinstance(p, It) for p in (a, b, d)):
            return over_elements(E, s, e, a, b, d, vs[3])
        if len(vs) != 4 or not all(isinstance(p, Pos) and p.q[0] == 'str' for p in (a, b, d)) or a.q != b.q:
            raise Undecided('transform at %s' % loc(e))
        src, dst = (s.heap[p.q[1]] for p in (a, d))
        src, dst = norm(E, s, src), norm(E, s, dst)
        if not (eqv(E, s, a.i, 0) and eqv(E, s, b.i, tlen(src)) and eqv(E, s, d.i, 0) and
                eqv(E, s, tlen(src), tlen(dst))):
            raise Undecided('transform of part of a text at %s' % loc(e))
        tab = {}
        for u in range(256):
            rs = E.call_value(s.fork(), vs[3], [u if u < 128 else u - 256], e)
            if len(rs) != 1 or not isinstance(E.load(rs[0][0], rs[0][1]), int):
                raise Undecided('transform by a function that is not understood at %s' % loc(e))
            tab[u] = E.load(rs[0][0], rs[0][1]) % 256
        out = []
        for p in src.p:
            if p[0] in ('l', 'k'):
                out.append((p[0], ''.join(chr(tab[ord(c) % 256]) for c in p[1])))
            elif p[0] == 'f':
                out.append(('f', tab[p[1] % 256], p[2]))
            else:
                m = tuple(sorted((k, v) for k, v in tab.items() if k != v))
                base = ('mapped', p[1], p[2], m)
                n = ladd(p[3], p[2], -1)
                sym_text(s, base)
                out.append(('s', base, 0, n))
        s.heap[d.q[1]] = Txt(tuple(out))
        return [(s, Pos(d.q, tlen(src)))]

    def index(self, s, b, i, e):
        x = self.load(s, b)
        if isinstance(x, (Txt,)):
            return t_index(self, s, e, b, [i])
        if isinstance(i, Tag) and isinstance(x, LV) and not isinstance(s.heap[x.a], Table):
            raise Broken('index by a character at %s' % loc(e))
        return super().index(s, b, i, e)

    def declare(self, v, st):
        r = super().declare(v, st)
        return r


def over_list(E, s, kind, a, b, f, e):
    """the algorithms over the elements of a list or vector"""
    o = absnat.owner(E, s, a)
    if o is None or absnat.owner(E, s, b) != o:
        E.abort(s, 'iterators of different sequences', e)
        return []
    x = s.heap[o]
    i, j = absnat.at(s, x, a), absnat.at(s, x, b)
    if i > j:
        E.abort(s, 'reversed range', e)
        return []
    cur, out = [(s, 0)], []
    for n in x.n[i:j]:
        nxt = []
        for s1, k in cur:
            if kind == 'find':
                rs = [(s2, t) for s2, t in E.split_cmp(s1, '==', E.load(s1, LV(n)), E.load(s1, f))]
            else:
                rs = [(s3, t) for s2, v in E.call_value(s1, f, [LV(n)], e) for s3, t in E.split(s2, v)]
            for s2, t in rs:
                if kind in ('count_if', 'for_each'):
                    nxt.append((s2, k + bool(t)))
                elif t != (kind in ('all_of', 'find_if_not')):
                    out.append((s2, It(n) if kind.startswith('find') else kind == 'any_of'))
                else:
                    nxt.append((s2, k))
        cur = nxt
    for s1, k in cur:
        out.append((s1, b if kind.startswith('find') else k if kind == 'count_if' else kind != 'any_of'))
    return out


def back_inserter(E, s, e, o, vs):
    return [(s, ('back', E.obj(s, vs[0])))]


def over_elements(E, s, e, a, b, d, f):
    """std::transform of container elements"""
    x, y = (s.heap[absnat.owner(E, s, p)] for p in (a, d))
    i, j, k = absnat.at(s, x, a), absnat.at(s, x, b), absnat.at(s, y, d)
    dst = y.n[k:k + j - i]
    if len(dst) != j - i:
        E.abort(s, 'transform writes past the end', e)
        return []
    cur = [s]
    for n, m in zip(x.n[i:j], dst):
        nxt = []
        for s1 in cur:
            for s2, v in E.call_value(s1, f, [LV(n)], e):
                w = E.load(s2, v)
                if isinstance(w, LV):
                    nxt += [s3 for s3, _ in E.assign_special(s2, m, w.a, True, e)]
                else:
                    s2.heap[m] = w
                    nxt.append(s2)
        cur = nxt
    out = []
    for s1 in cur:
        p = absnat.step(E, s1, d, j - i, e) if j > i else d
        if p is not None:
            out.append((s1, p))
    return out


def copied(E, s, e, o, vs):
    """std::copy / std::move of a range of elements behind a container"""
    if len(vs) == 1:
        return absnat.f_move(E, s, e, o, vs)
    a, b, d = (E.load(s, v) for v in vs)
    if not (isinstance(a, It) and isinstance(b, It) and isinstance(d, tuple) and d[:1] == ('back',)):
        raise Undecided('copy of a range at %s' % loc(e))
    x = s.heap[absnat.owner(E, s, a)]
    cur = [s]
    for n in x.n[absnat.at(s, x, a):absnat.at(s, x, b)]:
        cur = [s2 for s1 in cur for s2, _ in absnat.l_emplace_back(E, s1, e, LV(d[1]), [LV(n)])]
    return [(s1, d) for s1 in cur]


# -------------------------------------------------------------------- loops
def numeric(v):
    return isinstance(v, (int, Lin)) and not isinstance(v, bool)


def tests(E, n, s, test):
    """[(state, outcome)] of the loop condition"""
    out = []
    if callable(test):
        return test(s)
    for s0 in (E.with_init({'cvar': n.get('cvar')}, s) if n.get('cvar') else [s]):
        out += E.cond(test, s0) if test else [(s0, True)]
    return out


def one_pass(E, n, head, test, body, inc):
    """one arbitrary iteration: (continuing states, exits from inside the body)"""
    cont, exits = [], []
    for s1, b in tests(E, n, head, test):
        if not b:
            continue
        for kind, s2, v in (body(s1) if callable(body) else E.ex(body, s1)):
            if kind in ('n', 'c'):
                cont += [s3 for s3, _ in (inc(s2) if callable(inc) else E.ev(inc, s2))] if inc else [s2]
            elif kind == 'b':
                exits.append(('n', s2, None))
            else:
                exits.append((kind, s2, v))
    return cont, exits


class Monitor:
    """a specification automaton that follows the characters a loop passes"""

    def __init__(self, classes, step, start, passing):
        self.classes = [frozenset(c) for c in classes]
        self.step, self.start, self.passing = step, start, passing
        self.bad = {}

    def split(self, E, s, v):
        """[(state, class number)] for a character value"""
        if isinstance(v, CharLV):
            v = v.v
        if isinstance(v, int):
            return [(s, k) for k, c in enumerate(self.classes) if v in c]
        if not isinstance(v, Tag):
            return [(s, None)]
        out, cur = [], [s]
        for k, c in enumerate(self.classes):
            nx = []
            for s1 in cur:
                for s2, b in E.split_tag(s1, v, c):
                    if b:
                        out.append((s2, k))
                    else:
                        nx.append(s2)
            cur = nx
        return out


class Restart(Exception):
    def __init__(self, parts):
        self.parts = parts


def havoc_loop(E, n, st, test, body, inc, do):
    if do:
        out = []
        for kind, s, v in E.ex(body, st):
            if kind in ('n', 'c'):
                out += havoc_loop(E, n, s, test, body, inc, False)
            elif kind == 'b':
                out.append(('n', s, None))
            else:
                out.append((kind, s, v))
        return out
    special = getattr(E, 'special_loop', None)
    if special:
        r = special(n, st, test, body, inc)
        if r is not None:
            return r
    where = rel(n.get('l', ''))
    E.loops[where] = E.loops.get(where, 0) + 1
    try:
        return Loop(E, n, st, test, body, inc).run()
    except Restart as r:
        out = []
        for s in r.parts:
            out += havoc_loop(E, n, s, test, body, inc, False)
        return out


class Loop:
    """the values an iteration changes become unknowns; small finite ones are
    enumerated jointly, numbers keep the relations every iteration preserves"""

    def __init__(self, E, n, st, test, body, inc):
        self.E, self.n, self.st, self.test, self.body, self.inc = E, n, st, test, body, inc
        E.ctr += 1
        self.id = E.ctr
        self.W = set()          # changed cells
        self.fin = []           # those with few values
        self.tup = {()}         # their joint values
        self.drop = set()
        self.opaque = set()
        self.ghost = None       # (cell, counter cell, index offset)
        self.fill = {}          # text cell -> (counter cell, character) | None
        self.off = {}           # counter cell -> loop-invariant part of its value
        self.lock = {}          # counter cell -> cell it moves along with
        self.free = set()
        self.where = rel(n.get('l', ''))

    def run(self):
        E = self.E
        nab = len(E.aborts)
        E.loopdepth = getattr(E, 'loopdepth', 0) + 1
        try:
            cont, exits, heads = self.fix(nab)
            if E.monitor and E.loopdepth == 1:
                g = self.watch(cont)
                if g:
                    a, d = g
                    s0 = self.st.fork()
                    v = E.monitor.start(E, s0)
                    if v is not None:
                        E.ctr += 1
                        gc = E.ctr
                        parts = []
                        if isinstance(v, Tag) and len(s0.tags.get(v.s, CH)) > 1:
                            for x in sorted(s0.tags[v.s]):
                                p = s0.fork()
                                p.tags[v.s] = frozenset((x,))
                                parts.append(p)
                            raise Restart(parts)
                        if isinstance(v, Tag):
                            v = next(iter(s0.tags[v.s]))
                        self.st.heap[gc] = v
                        self.ghost = (gc, a, d)
                        self.W.add(gc)
                        self.fin.append(gc)
                        self.tup = {tuple(self.plain(self.st.heap[x], self.st) for x in self.fin)}
                        del E.aborts[nab:]
                        cont, exits, heads = self.fix(nab)
            # characters passed over by counters that step by one
            facts = self.passed(cont)
            if facts:
                del E.aborts[nab:]
                if self.ghost:
                    E.monitor.bad.pop(self.id, None)
                cont, exits = [], []
                for h in heads:
                    h = h.fork()
                    if all([add_range(E, h, *f) for f in facts]):
                        c, x = self.iterate(h)
                        cont += c
                        exits += x
            res = []
            for s, b in tests(E, self.n, self.mark(self.st.fork(), 0), self.test):
                if not b:
                    res.append(('n', s, None))
            for kind, s, v in exits:
                for s2 in self.leave(s):
                    res.append((kind, s2, v))
            for s in cont:
                for s1, b in tests(E, self.n, self.mark(s, None), self.test) if self.test else []:
                    if not b:
                        res.append(('n', s1, None))
        finally:
            E.loopdepth -= 1
        for _, s, _ in res:
            if 'reads' in self.st.x:
                s.x['reads'] = self.st.x['reads']
            else:
                s.x.pop('reads', None)
        return self.merge(res)

    def merge(self, res):
        """exits with the same values in memory become one"""
        groups, order = {}, []
        for kind, s, v in res:
            if isinstance(v, LV) or kind == 'x':
                k = ('own', len(order))
            else:
                d = tuple((a, repr(s.heap.get(a))) for a in self.st.heap
                          if s.heap.get(a) is not self.st.heap[a])
                k = (kind, repr(v), d, repr(s.x.get('ghosts')), len(s.env))
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((kind, s, v))
        out = []
        for k in order:
            g = groups[k]
            if len(g) <= 3:
                out += g
            else:
                o = join(g[0][1], [s for _, s, _ in g])
                out.append((g[0][0], o, g[0][2]))
        return out

    # ------------------------------------------------------------ monitor
    def watch(self, cont):
        """(counter, offset): every iteration reads text[counter+offset] and steps by one"""
        best = None
        for a in sorted(self.W, key=str):
            f = self.num(self.fresh.get(a))
            if not isinstance(f, Lin) or not cont:
                continue
            if not all(numeric(self.num(s.heap.get(a))) and ladd(self.num(s.heap[a]), f, -1) == 1 for s in cont):
                continue
            ds = None
            for s in cont:
                d = {ladd(i, f, -1) for _, i, _ in s.x.get('reads', ())}
                d = {x for x in d if self.inv(x)}
                ds = d if ds is None else ds & d
            if ds:
                d = min(ds, key=lambda x: (x if isinstance(x, int) else x.c, repr(x)))
                k = d if isinstance(d, int) else d.c
                if best is None or k < best[0]:
                    best = (k, a, d)
        return best[1:] if best else None

    def value_read(self, s):
        gc, a, d = self.ghost
        v = None
        for _, i, x in s.x.get('reads', ()):
            if ladd(ladd(i, self.num(self.fresh[a]), -1), d, -1) == 0:
                v = x
        return v

    def advance(self, s, late=None):
        """states with the ghost moved over the character of this iteration"""
        E = self.E
        gc, a, d = self.ghost
        v = self.value_read(s)
        out = []
        if v is None:
            return [self.lost(s)]
        f = self.num(self.fresh[a])
        for s2, k in E.monitor.split(E, s, v):
            g = s2.heap[gc]
            if g is None or k is None:
                out.append(self.lost(s2))
                continue
            why = E.monitor.passing(E, s2, g, k, ladd(f, d))
            if late is not None:
                # the loop is left after the counter has moved: the caller may still
                # mean the character itself
                self.record(s2, ladd(f, d), g, None)
                self.record(s2, ladd(ladd(f, d), 1), E.monitor.step(g, k), why)
            elif why:
                E.monitor.bad.setdefault(self.id, []).append((self.where, why))
            s2.heap[gc] = E.monitor.step(g, k)
            out.append(s2)
        return out

    def lost(self, s):
        s.heap[self.ghost[0]] = -1
        return s

    def leave(self, s):
        if not self.ghost:
            return [s]
        gc, a, d = self.ghost
        v = self.num(s.heap.get(a))
        dl = ladd(v, self.num(self.fresh[a]), -1) if numeric(v) else None
        if dl == 1:
            return self.advance(s, True)
        if dl != 0:
            s = self.lost(s)
        return [self.mark(s, None)]

    def record(self, s, end, g, why):
        gc, a, d = self.ghost
        s.x['ghosts'] = s.x.get('ghosts', ()) + (
            (self.id, ladd(self.num(self.st.heap[a]), d), end, g, why and (self.where, why)),)

    def mark(self, s, _):
        if self.ghost:
            gc, a, d = self.ghost
            v = self.num(s.heap.get(a))
            if numeric(v):
                self.record(s, ladd(v, d), s.heap[gc], None)
        return s

    # ----------------------------------------------------------- fixpoint
    def plain(self, v, s):
        if isinstance(v, Tag):
            t = s.tags.get(v.s, CH)
            return next(iter(t)) if len(t) == 1 else None
        return v if isinstance(v, int) else None

    def iterate(self, head):
        head.x['reads'] = ()
        cont, exits = one_pass(self.E, self.n, head, self.test, self.body, self.inc)
        if self.ghost:
            cont = [y for x in cont for y in self.advance(x)]
        return cont, exits

    def fix(self, nab):
        E = self.E
        for rnd in range(60):
            del E.aborts[nab:]
            if self.ghost:
                E.monitor.bad.pop(self.id, None)
            heads = [h for t in sorted(self.tup, key=repr) for h in self.havoc(t)]
            keep = [h.fork() for h in heads]
            cont, exits = [], []
            for h in heads:
                c, x = self.iterate(h)
                cont += c
                exits += x
            if self.grow(cont):
                continue
            if self.shift(cont + [s for _, s, _ in exits]):
                continue
            if self.locked(cont):
                continue
            lost = {a for a, f in self.fill.items() if f for s in cont if not self.filled(s, a)}
            if lost:
                for a in lost:
                    self.fill[a] = None
                continue
            bad = {c for c in self.cands for s in cont if not self.holds(s, c)}
            if bad:
                self.drop |= bad
                continue
            return cont, exits, keep
        raise Undecided('loop at %s does not stabilise' % self.where)

    def inv(self, d):
        """a number that does not change from iteration to iteration"""
        return isinstance(d, int) or isinstance(d, Lin) and not any(
            isinstance(x, tuple) and x[:2] == ('h', self.id) for x, _ in d.t)

    def shift(self, ss):
        """count in the positions of the text that is read, so that bounds are differences"""
        for a in sorted(self.W, key=str):
            f, v0 = self.num(self.fresh.get(a)), self.num(self.st.heap[a])
            if a in self.off or a in self.fin or not isinstance(f, Lin) or not numeric(v0):
                continue
            o = 0
            if isinstance(v0, Lin) and len(v0.t) > 1:
                o = mk(0, {x: k for x, k in v0.t if k < 0})
            for s in ss:
                for _, i, _ in s.x.get('reads', ()):
                    d = ladd(i, f, -1)
                    if isinstance(d, Lin) and self.inv(d):
                        o = mk(0, {x: -k for x, k in d.t})
            if isinstance(o, Lin):
                self.off[a] = o
                self.drop = set()
                return True
        return False

    def locked(self, cont):
        """counters whose distance every iteration keeps, where the distance is not a known
        number, share one unknown; True when that changed"""
        def num(s, a):
            return self.num(s.heap.get(a))
        for b, a in list(self.lock.items()):
            want = ladd(self.num(self.st.heap[b]), self.num(self.st.heap[a]), -1)
            for s in cont:
                v, w = num(s, a), num(s, b)
                if not numeric(v) or not numeric(w) or not eqv(self.E, s, ladd(w, v, -1), want):
                    del self.lock[b]
                    self.free.add(b)
                    return True
        cells = [a for a in sorted(self.W, key=str) if a in self.fresh and a not in self.lock and
                 isinstance(self.num(self.fresh[a]), Lin) and numeric(self.num(self.st.heap[a]))]
        for b in cells:
            v0 = self.num(self.st.heap[b])
            if b in self.free or b in self.lock.values() or not isinstance(v0, int) or isinstance(self.fresh[b], Pos):
                continue
            for a in cells:
                w0 = self.num(self.st.heap[a])
                if a == b or isinstance(w0, int) or not cont:
                    continue
                ds = set()
                for s in cont:
                    v, w = num(s, a), num(s, b)
                    ds.add(numeric(v) and numeric(w) and
                           (ladd(v, self.num(self.fresh[a]), -1), ladd(w, self.num(self.fresh[b]), -1)))
                ds = ds.pop() if len(ds) == 1 else None
                if ds and isinstance(ds[0], int) and ds[0] == ds[1] and ds[0]:
                    self.lock[b] = a
                    self.drop = set()
                    return True
        return False

    def restart_tuples(self):
        self.tup = {tuple(self.plain(self.st.heap[x], self.st) for x in self.fin)}

    def grow(self, cont):
        """take up the changes of an iteration; True when there were new ones"""
        E, st = self.E, self.st
        again = False
        for s in cont:
            for a, v0 in st.heap.items():
                if a in self.fin or a in self.opaque or self.fill.get(a):
                    continue
                v = s.heap.get(a)
                hv = self.fresh.get(a, v0)
                if v == hv and type(v) == type(hv):
                    continue
                if a not in self.W:
                    self.W.add(a)
                    again = True
                    t0 = st.tags.get(v0.s, CH) if isinstance(v0, Tag) else None
                    if isinstance(v0, int) or t0 and len(t0) <= 8:
                        if t0 and len(t0) > 1:
                            parts = []
                            for x in sorted(t0):
                                p = st.fork()
                                p.tags[v0.s] = frozenset((x,))
                                parts.append(p)
                            raise Restart(parts)
                        self.fin.append(a)
                        self.restart_tuples()
                elif a in self.fresh and not compatible(self.fresh[a], v):
                    self.opaque.add(a)
                    again = True
        for s in cont:
            for a, v0 in st.heap.items():
                if a in self.W and a not in self.fill and isinstance(v0, Txt) and not (s.heap[a] == v0) and \
                        a not in self.fresh:
                    self.try_fill(s, a, v0, s.heap[a])
        if again:
            return True
        # joint values of the finite cells
        for s in cont:
            todo = [s]
            for a in self.fin:
                v = s.heap.get(a)
                if isinstance(v, Tag):
                    nx = []
                    for q in todo:
                        t = q.tags.get(v.s, CH)
                        if len(t) > 8:
                            self.unfin(a)
                            return True
                        for x in sorted(t):
                            p = q.fork()
                            p.tags[v.s] = frozenset((x,))
                            nx.append(p)
                    todo = nx
                elif not isinstance(v, int):
                    self.unfin(a)
                    return True
            for q in todo:
                t = tuple(self.plain(q.heap[a], q) for a in self.fin)
                if t not in self.tup:
                    self.tup.add(t)
                    again = True
        for j, a in enumerate(self.fin):
            vals = {t[j] for t in self.tup}
            if len(vals) > 8 or len(vals) > 4 and not isinstance(st.heap[a], Tag) and \
                    (not self.ghost or a != self.ghost[0]):
                self.unfin(a)
                return True
        return again

    def unfin(self, a):
        self.fin.remove(a)
        self.restart_tuples()

    def havoc(self, tup):
        E, st = self.E, self.st
        head = st.fork()
        self.fresh, self.cands = {}, []
        nums = []
        for a, v in zip(self.fin, tup):
            head.heap[a] = v
            self.fresh[a] = v
        for a in sorted(self.W, key=str):
            if a in self.fin or self.fill.get(a):
                continue
            v0 = st.heap[a]
            k = ('h', self.id, a)
            if a in self.opaque:
                if isinstance(v0, (Rec, ListV, Up, Tup, Closure)):
                    raise Undecided('a loop changes a structure (%r)' % (v0,))
                f = Sym(k)
            elif numeric(v0) and a in self.lock:
                continue
            elif numeric(v0):
                f = ladd(symi(k), self.off.get(a, 0))
                nums.append((a, f, v0))
            elif isinstance(v0, Tag):
                f = Tag(k)
                head.tags[k] = CH
            elif isinstance(v0, (Txt, StrV)):
                f = sym_text(head, k)
            elif isinstance(v0, Os):
                f = Os(sym_text(head, k).p, 0, v0.left)
            elif isinstance(v0, Bits):
                f = Bits([Sym(k + (i,)) for i in range(len(v0.b))])
            elif isinstance(v0, (bool, Sym, tuple)) or v0 is UNINIT or v0 is NULL:
                f = Sym(k)
            elif isinstance(v0, Pos):
                f = ladd(symi(k), self.off.get(a, 0))
                nums.append((a, f, v0.i))
                f = Pos(v0.q, f)
            elif hasattr(v0, 'havoc'):
                f = v0.havoc(E, head, k)
            else:
                raise Undecided('a loop changes %r' % (v0,))
            head.heap[a] = f
            self.fresh[a] = f
        for a, b in self.lock.items():
            f = ladd(self.num(self.fresh[b]), ladd(st.heap[a], self.num(st.heap[b]), -1))
            head.heap[a] = self.fresh[a] = f
        ok = True
        for a, f, v0 in nums:
            for c in (('ge', a), ('le', a)):
                self.cands.append(c)
                if c not in self.drop:
                    ok = E.assume_le(head, ladd(v0, f, -1) if c[0] == 'ge' else ladd(f, v0, -1), 0) and ok
            # bounds by the lengths of texts
            for nm in sorted({x for p in st.zone.b for x in p if isinstance(x, tuple) and x[0] == 'n'}, key=str):
                if E.entails_le(st, v0, symi(nm)):
                    c = ('len', a, nm)
                    self.cands.append(c)
                    if c not in self.drop:
                        ok = E.assume_le(head, ladd(f, symi(nm), -1), 0) and ok
            if E.entails_le(st, 0, v0):
                c = ('pos', a)
                self.cands.append(c)
                if c not in self.drop:
                    ok = E.assume_le(head, ladd(0, f, -1), 0) and ok
        for (a, f, v), (b, g, w) in itertools.combinations(nums, 2):
            d = ladd(v, w, -1)
            c = ('eq', a, b)
            self.cands.append(c)
            if c not in self.drop:
                x = ladd(ladd(f, g, -1), d, -1)
                ok = E.assume_le(head, x, 0) and E.assume_le(head, ladd(0, x, -1), 0) and ok
        self.cands = [c for c in self.cands if c not in self.drop]
        heads = [head] if ok else []
        for a, fl in self.fill.items():
            if fl:
                heads = [h2 for h in heads for h2 in self.pattern(h, a, fl)]
        return heads

    def pattern(self, h, a, fl):
        """the text with everything the counter has passed replaced"""
        E, st = self.E, self.st
        b, ch = fl
        start, cur = self.num(st.heap[b]), self.num(h.heap[b])
        if not numeric(cur) or not numeric(start) or not E.entails_le(h, start, cur):
            self.fill[a] = None
            return [h]
        out = []
        t = st.heap[a]
        for s1, ok in E.split_cmp(h, '<=', cur, tlen(t)):
            if not ok:
                continue        # the character access itself reports this
            for s2, l, r in cut(E, s1, t, cur):
                for s3, x, y in cut(E, s2, l, start):
                    s3.heap[a] = norm(E, s3, Txt(x.p + (('f', ch, ladd(cur, start, -1)),) + r.p))
                    out.append(s3)
        return out

    def filled(self, s, a):
        p = self.pattern(s.fork(), a, self.fill[a]) if self.fill[a] else []
        return bool(p) and all(same(self.E, q, s.heap[a], q.heap[a]) for q in p)

    def try_fill(self, s, a, v0, v):
        """does one iteration replace the character at a counter by a fixed one?"""
        E = self.E
        for b in sorted(self.W, key=str):
            i0, i1 = self.num(self.st.heap[b]), self.num(s.heap.get(b))
            if not numeric(i0) or not numeric(i1) or ladd(i1, i0, -1) != 1:
                continue
            for p in norm(E, s, v).p:
                c = p[1] if p[0] == 'f' else ord(p[1][0]) if p[0] == 'l' else None
                if c is None or not isinstance(c, int):
                    continue
                self.fill[a] = (b, c)
                if self.filled(s, a):
                    return True
        self.fill[a] = None
        return False

    def num(self, v):
        return v.i if isinstance(v, Pos) else v

    def holds(self, s, c):
        E, st = self.E, self.st
        v, v0 = self.num(s.heap.get(c[1])), self.num(st.heap[c[1]])
        if not numeric(v):
            return False
        if c[0] == 'ge':
            return E.entails_le(s, v0, v)
        if c[0] == 'le':
            return E.entails_le(s, v, v0)
        if c[0] == 'len':
            return E.entails_le(s, v, symi(c[2]))
        if c[0] == 'pos':
            return E.entails_le(s, 0, v)
        w, w0 = self.num(s.heap.get(c[2])), self.num(st.heap[c[2]])
        return numeric(w) and eqv(E, s, ladd(v, w, -1), ladd(v0, w0, -1))

    def passed(self, cont):
        out = []
        nab = len(self.E.aborts)
        cont = [t for s in cont for t, b in tests(self.E, self.n, s.fork(), self.test) if b]
        del self.E.aborts[nab:]
        for a, f in self.fresh.items():
            f, v0 = self.num(f), self.num(self.st.heap[a])
            if not isinstance(f, Lin) or not cont:
                continue
            st = {ladd(self.num(s.heap[a]), f, -1) if numeric(self.num(s.heap.get(a))) else None for s in cont}
            if st != {1} and st != {-1}:
                continue
            st = st.pop()
            keys = None
            for s in cont:
                ks = {}
                for k in s.tags:
                    if isinstance(k, tuple) and k[0] == 'ch' and k not in self.st.tags:
                        d = ladd(k[2], f, -1)
                        if self.inv(d):
                            ks[(k[1], d)] = s.tags[k]
                keys = ks if keys is None else {k: keys[k] | ks[k] for k in keys if k in ks}
            for (base, d), S in (keys or {}).items():
                if S != CH:
                    lo, hi = ladd(v0, d), ladd(f, d)
                    if st < 0:
                        lo, hi = ladd(hi, 1), ladd(lo, 1)
                    out.append((base, lo, hi, S))
        return out


def compatible(f, v):
    if isinstance(f, Lin):
        return isinstance(v, (int, Lin)) and not isinstance(v, bool)
    if isinstance(f, Tag):
        return isinstance(v, (int, Tag))
    if isinstance(f, Pos):
        return isinstance(v, Pos) and v.q == f.q
    return type(f) == type(v)
