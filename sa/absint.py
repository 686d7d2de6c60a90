"""Abstract interpreter over the extracted syntax trees.

A disjunctive abstract interpretation: a function is evaluated on a set of
abstract states; control flow that depends on an abstract value splits the
state and refines both halves.  Nothing of FLPR is compiled or run; no solver
is involved.  Abstract values:

  int                 known integer (also bool, char, enum)
  Lin(c, ((s,k),..))  integer  c + sum k*s  over symbolic quantities; the state
                      keeps difference bounds (a zone) between them
  Tag(s)              an unknown token tag; the state keeps the set of tags it
                      may still be
  Sym(s)              an opaque value (equal only to itself)
  Ptr(a), NULL        pointers; LV(a) denotes the object at abstract address a
  Rec, ListV, ...     objects living at an address
  Pos(seq, i)         iterator into an abstract sequence at (symbolic) index i
  It(n)               iterator to the list node n
"""
import re
from core import Broken, rel


class Lin:
    __slots__ = ('c', 't')

    def __init__(self, c, t=()):
        self.c, self.t = c, t

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        s = ''
        for v, k in self.t:
            s += ('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%d*' % abs(k)) + str(v)
        if self.c or not s:
            s += '%+d' % self.c
        return s.lstrip('+')


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        return Lin(int(x))
    if isinstance(x, int):
        return Lin(x)
    raise Broken('not a number: %r' % (x,))


def _okey(x):
    return x[0] if isinstance(x[0], str) else str(x[0])


def mk(c, d):
    t = tuple((s, k) for s, k in d.items() if k)
    if len(t) > 1:
        t = tuple(sorted(t, key=_okey))
    return Lin(c, t) if t else c


def ladd(a, b, f=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + f * b
    a, b = lin(a), lin(b)
    d = dict(a.t)
    for s, k in b.t:
        d[s] = d.get(s, 0) + f * k
    return mk(a.c + f * b.c, d)


def symi(name):
    return Lin(0, ((name, 1),))


class Tag:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Tag) and o.s == self.s

    def __hash__(self):
        return hash(('tag', self.s))

    def __repr__(self):
        return 'tag(%s)' % (self.s,)


class Sym:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Sym) and o.s == self.s

    def __hash__(self):
        return hash(('sym', self.s))

    def __repr__(self):
        return '?%s' % (self.s,)


class Const:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NULL = Const('null')
UNINIT = Const('uninit')
VOID = Const('void')


class LV:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return '&%s' % (self.a,)


class Ptr:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.a == self.a

    def __hash__(self):
        return hash(('p', self.a))

    def __repr__(self):
        return '*%s' % (self.a,)


class Rec:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __repr__(self):
        return 'Rec(%s)' % self.t


class ListV:
    """std::list / std::vector / std::deque with known nodes"""
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t, self.n = t, tuple(n)

    def __repr__(self):
        return 'List%s' % (self.n,)


class Up:
    """owning pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'Up(%s)' % (self.p,)


class Opt(Up):
    """std::optional: the contained object, if any, is its own"""
    __slots__ = ()


class RIt:
    """reverse iterator over base"""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        return isinstance(o, RIt) and o.b == self.b

    def __hash__(self):
        return hash(('rit', self.b))

    def __repr__(self):
        return 'r%r' % (self.b,)


class Tup:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = tuple(e)


class Closure:
    __slots__ = ('cls', 'caps', 'names', 'this', 'params')

    def __init__(self, cls, caps, names, this):
        self.cls, self.caps, self.names, self.this = cls, caps, names, this


class FnRef:
    __slots__ = ('fk', 'q')

    def __init__(self, fk, q):
        self.fk, self.q = fk, q

    def __repr__(self):
        return 'fn:%s' % self.q


class StrV:
    """known string"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, StrV) and o.s == self.s

    def __hash__(self):
        return hash(('s', self.s))

    def __repr__(self):
        return 'str%r' % (self.s,)


class It:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, It) and o.n == self.n

    def __hash__(self):
        return hash(('it', self.n))

    def __repr__(self):
        return 'it(%s)' % (self.n,)


class Pos:
    __slots__ = ('q', 'i')

    def __init__(self, q, i):
        self.q, self.i = q, i

    def __eq__(self, o):
        return isinstance(o, Pos) and o.q == self.q and o.i == self.i

    def __hash__(self):
        return hash(('pos', self.q, self.i))

    def __repr__(self):
        return '%s[%s]' % (self.q, self.i)


class Table:
    """constant global array"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Zone:
    """difference bounds  x - y <= c  over symbolic quantities ('' is zero)"""
    __slots__ = ('b',)

    def __init__(self, b=None):
        self.b = b or {}

    def copy(self):
        return Zone(dict(self.b))

    def add(self, x, y, c):
        """x - y <= c, keeps the closure; False when inconsistent"""
        b = self.b
        if x == y:
            return c >= 0
        if b.get((x, y), 1 << 60) <= c:
            return True
        back = b.get((y, x))
        if back is not None and back + c < 0:
            return False
        b[(x, y)] = c
        ins = [(u, k) for (u, v), k in list(b.items()) if v == x and u != y]
        outs = [(v, k) for (u, v), k in list(b.items()) if u == y and v != x]
        for u, k in ins:
            if u != y and b.get((u, y), 1 << 60) > k + c:
                b[(u, y)] = k + c
        for v, k in outs:
            if v != x and b.get((x, v), 1 << 60) > k + c:
                b[(x, v)] = k + c
        for u, k in ins:
            for v, k2 in outs:
                if u != v and b.get((u, v), 1 << 60) > k + c + k2:
                    b[(u, v)] = k + c + k2
                elif u == v and k + c + k2 < 0:
                    return False
        return True

    def upper(self, x, y):
        if x == y:
            return 0
        return self.b.get((x, y))

    def max(self, e):
        """upper bound of a linear form, or None"""
        e = lin(e)
        pos = [s for s, k in e.t for _ in range(k) if k > 0]
        neg = [s for s, k in e.t for _ in range(-k) if k < 0]
        if len(pos) + len(neg) > 6:
            return None
        while len(pos) < len(neg):
            pos.append('')
        while len(neg) < len(pos):
            neg.append('')
        best = None
        import itertools
        for pm in itertools.permutations(neg):
            tot = 0
            for x, y in zip(pos, pm):
                u = self.upper(x, y)
                if u is None:
                    break
                tot += u
            else:
                if best is None or tot < best:
                    best = tot
        return None if best is None else best + e.c


class St:
    __slots__ = ('heap', 'env', 'facts', 'tags', 'zone', 'log', 'path', 'x')

    def __init__(self):
        self.heap, self.env, self.facts, self.tags = {}, {}, {}, {}
        self.zone = Zone()
        self.log = ()
        self.path = ()
        self.x = {}

    def fork(self):
        s = St.__new__(St)
        s.heap, s.env = dict(self.heap), dict(self.env)
        s.facts, s.tags = dict(self.facts), dict(self.tags)
        s.zone = self.zone.copy()
        s.log, s.path = self.log, self.path
        s.x = dict(self.x)
        return s


SCALAR = re.compile(r'^(const )?(bool|char|unsigned|signed|int|long|short|size_t|float|double|'
                    r'unsigned (long|int|char)|.*\*( ?const)?$)')


def strip(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if t.startswith(('struct ', 'class ', 'enum ')):
            t = t.split(' ', 1)[1]
        if t == o:
            return t


class Abort(Exception):
    pass


class Engine:
    def __init__(self, F, tu=None):
        self.F, self.tu = F, tu
        self.ctr = 0
        self.nat = {}
        self.aborts = []
        self.trunc = []
        self.unroll = 4
        self.steps = 0
        self.limit = 3000000
        self.depth = 0
        self.loop_hook = None
        self.fns_done = set()
        self.on_call = None
        self.intercept = {}
        import absnat
        absnat.install(self)
        self.gl = {}
        for g in F.globals:
            self.gl.setdefault(g['q'], g)

    # ------------------------------------------------------------- memory
    def new(self, st, v):
        self.ctr += 1
        a = self.ctr
        st.heap[a] = v
        return a

    def load(self, st, v):
        """rvalue of v: scalars are fetched, objects stay where they are"""
        if isinstance(v, LV):
            if v.a not in st.heap:
                raise Broken('dangling object %r' % (v,))
            x = st.heap[v.a]
            if isinstance(x, (Rec, ListV, Up, Tup, Closure)):
                return v
            return x
        return v

    def obj(self, st, v):
        """address of an object value"""
        if isinstance(v, LV):
            return v.a
        if isinstance(v, Ptr):
            return v.a
        return self.new(st, v)

    def get(self, st, a, *path):
        for f in path:
            r = st.heap[a]
            if not isinstance(r, Rec) or f not in r.f:
                raise Broken('no field %s in %r' % (f, r))
            a = r.f[f]
        return st.heap[a]

    def addr(self, st, a, *path):
        for f in path:
            r = st.heap[a]
            if not isinstance(r, Rec) or f not in r.f:
                raise Broken('no field %s in %r' % (f, r))
            a = r.f[f]
        return a

    def fields(self, t):
        """all fields of a record type, bases first"""
        r = self.F.records.get(t)
        if r is None:
            raise Broken('no record %s' % t)
        out = []
        for b in r['bases']:
            if strip(b) in self.F.records:
                out += self.fields(strip(b))
        return out + [(f, t) for f in r['fields']]

    def default(self, st, t, zero=False):
        """address of a default-initialised object of type t"""
        ts = strip(t)
        v = self.native_default(ts)
        if v is not None:
            return self.new(st, v)
        if ts in self.F.records:
            a = self.new(st, None)
            st.heap[a] = Rec(ts, {})
            fs = {}
            for f, _ in self.fields(ts):
                if f['ref']:
                    fs[f['n']] = self.new(st, UNINIT)
                else:
                    fs[f['n']] = self.default(st, f['t'], zero)
            st.heap[a] = Rec(ts, fs)
            return a
        return self.new(st, 0 if zero else UNINIT)

    def copy(self, st, a, move=False):
        """address of a (memberwise) copy of the object at a"""
        x = st.heap[a]
        if isinstance(x, Rec):
            # user-written copy or move operations are run by the caller
            fs = {}
            for k, fa in x.f.items():
                fs[k] = self.copy(st, fa, move)
            return self.new(st, Rec(x.t, fs))
        if isinstance(x, ListV):
            if move:
                b = self.new(st, x)
                st.heap[a] = ListV(x.t, ())
                return b
            ns = []
            for n in x.n:
                e = self.copy(st, n)
                ns.append(e)
            return self.new(st, ListV(x.t, ns))
        if isinstance(x, Opt):
            return self.new(st, x if x.p is NULL else Opt(Ptr(self.copy(st, x.p.a, move))))
        if isinstance(x, Up):
            b = self.new(st, x)
            if move:
                st.heap[a] = Up(NULL)
            return b
        if isinstance(x, Tup):
            return self.new(st, Tup([self.copy(st, e, move) for e in x.e]))
        return self.new(st, x)

    def assign_obj(self, st, dst, src, move=False):
        """memberwise assignment"""
        x, y = st.heap.get(dst), st.heap[src]
        if isinstance(y, Rec) and isinstance(x, Rec):
            for k, fa in y.f.items():
                if k in x.f:
                    self.assign_obj(st, x.f[k], fa, move)
            return
        if isinstance(y, ListV):
            if move:
                st.heap[dst] = y
                if dst != src:
                    st.heap[src] = ListV(y.t, ())
            else:
                st.heap[dst] = ListV(y.t, [self.copy(st, n) for n in y.n])
            return
        if isinstance(y, Opt):
            st.heap[dst] = y if y.p is NULL else Opt(Ptr(self.copy(st, y.p.a, move)))
            return
        if isinstance(y, Up):
            st.heap[dst] = y
            if move and dst != src:
                st.heap[src] = Up(NULL)
            return
        if isinstance(y, Tup) and isinstance(x, Tup):
            for p, q in zip(x.e, y.e):
                self.assign_obj(st, p, q, move)
            return
        st.heap[dst] = y

    def native_default(self, ts):
        if ts.startswith(('std::list<', 'std::vector<', 'std::deque<',
                          'std::__cxx11::list<')):
            return ListV(ts, ())
        if ts.startswith(('std::unique_ptr<', 'std::shared_ptr<')):
            return Up(NULL)
        if ts.startswith('std::optional<'):
            return Opt(NULL)
        if ts.startswith(('std::basic_string<', 'std::__cxx11::basic_string<')) or ts == 'std::string':
            return StrV('')
        if ts.startswith(('std::_List_iterator', 'std::_List_const_iterator',
                          '__gnu_cxx::__normal_iterator', 'std::reverse_iterator<')):
            return UNINIT
        return None

    # ----------------------------------------------------------- booleans
    def split(self, st, v, e=None):
        """[(state, bool)] for the truth of v"""
        v = self.load(st, v)
        if isinstance(v, bool) or isinstance(v, int):
            return [(st, bool(v))]
        if v is NULL:
            return [(st, False)]
        if isinstance(v, Ptr):
            return [(st, True)]
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            return self.split_cmp(st, v[1], v[2], v[3])
        if isinstance(v, tuple) and v and v[0] == 'not':
            return [(s, not b) for s, b in self.split(st, v[1])]
        if isinstance(v, tuple) and v and v[0] in ('tagis',):
            return self.split_tag(st, v[1], v[2])
        if isinstance(v, Sym):
            if v in st.facts:
                return [(st, st.facts[v])]
            t, f = st, st.fork()
            t.facts[v] = True
            f.facts[v] = False
            return [(t, True), (f, False)]
        if isinstance(v, (Lin, Tag)):
            return self.split_cmp(st, '!=', v, 0)
        raise Broken('condition %r not understood%s' % (v, ' at ' + rel(e['l']) if e else ''))

    def universe(self):
        if not hasattr(self, '_uni'):
            self._uni = frozenset(self.F.tags().keys())
        return self._uni

    def split_tag(self, st, tag, vals):
        cur = st.tags.get(tag.s, self.universe())
        i, o = cur & frozenset(vals), cur - frozenset(vals)
        r = []
        if i and o:
            t, f = st, st.fork()
            t.tags[tag.s] = i
            f.tags[tag.s] = o
            return [(t, True), (f, False)]
        if i:
            return [(st, True)]
        return [(st, False)]

    def most(self, st, d):
        return st.zone.max(d)

    def split_cmp(self, st, op, a, b):
        if isinstance(a, Tag) or isinstance(b, Tag):
            if not isinstance(a, Tag):
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if isinstance(b, Tag):
                if a == b:
                    return [(st, op in ('==', '<=', '>='))]
                raise Broken('comparison of two unknown tags')
            if isinstance(b, bool):
                b = int(b)
            if isinstance(b, int):
                import operator as o
                f = {'==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[op]
                return self.split_tag(st, a, [u for u in st.tags.get(a.s, self.universe())
                                              if f(u, b)])
            raise Broken('tag compared with %r' % (b,))
        num = (int, Lin)
        if isinstance(a, num) and isinstance(b, num):
            d = ladd(a, b, -1)        # a - b
            if isinstance(d, int):
                return [(st, {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0,
                              '>': d > 0, '>=': d >= 0}[op])]
            neg = ladd(0, d, -1)
            if op in ('==', '!='):
                mx, mn = self.most(st, d), self.most(st, neg)
                if mx is not None and mx < 0 or mn is not None and mn < 0:
                    return [(st, op == '!=')]
                if mx == 0 and mn == 0:
                    return [(st, op == '==')]
                key = ('ne', d) if True else None
                if key in st.facts or ('ne', neg) in st.facts:
                    return [(st, op == '!=')]
                t = st.fork()
                out = []
                if self.assume_le(t, d, 0) and self.assume_le(t, neg, 0):
                    out.append((t, op == '=='))
                st.facts[key] = True
                # at a bound the disequality becomes strict
                if mx == 0:
                    self.assume_le(st, d, -1)
                if mn == 0:
                    self.assume_le(st, neg, -1)
                out.append((st, op == '!='))
                return out
            if op in ('>', '>='):
                d, neg = neg, d
                op = {'>': '<', '>=': '<='}[op]
            # d < 0  or d <= 0
            lim = -1 if op == '<' else 0
            mx = self.most(st, d)
            if mx is not None and mx <= lim:
                return [(st, True)]
            mn = self.most(st, neg)
            if mn is not None and -mn > lim:
                return [(st, False)]
            t = st.fork()
            out = []
            if self.assume_le(t, d, lim):
                out.append((t, True))
            if self.assume_le(st, neg, -lim - 1):
                out.append((st, False))
            return out
        if isinstance(a, Pos) and isinstance(b, Pos) and a.q == b.q:
            return self.split_cmp(st, op, a.i, b.i)
        if isinstance(a, RIt) and isinstance(b, RIt) and op in ('==', '!='):
            return self.split_cmp(st, op, a.b, b.b)
        if a is UNINIT or b is UNINIT:
            raise Broken('comparison of an indeterminate value')
        if a == b and type(a) == type(b) or a is b:
            return [(st, op in ('==', '<=', '>='))]
        if isinstance(a, Sym) or isinstance(b, Sym):
            k = Sym(('cmp', '==' if op in ('==', '!=') else op) + (tuple(sorted((repr(a), repr(b))))
                    if op in ('==', '!=') else (repr(a), repr(b))))
            return [(s, r if op != '!=' else not r) for s, r in self.split(st, k)]
        known = (int, StrV, It, Ptr, Const, FnRef)
        if isinstance(a, known) and isinstance(b, known):
            if op == '==':
                return [(st, False)]
            if op == '!=':
                return [(st, True)]
        raise Broken('comparison %r %s %r' % (a, op, b))

    def assume_le(self, st, d, c):
        """add d <= c where possible; False when contradictory"""
        d = lin(d)
        c = c - d.c
        p = [s for s, k in d.t for _ in range(k) if k > 0]
        n = [s for s, k in d.t for _ in range(-k) if k < 0]
        mn = st.zone.max(ladd(0, Lin(0, d.t), -1))
        if mn is not None and -mn > c:
            return False
        if len(p) <= 1 and len(n) <= 1:
            ok = st.zone.add(p[0] if p else '', n[0] if n else '', c)
            if ok:
                # disequalities that have become strict
                for k in list(st.facts):
                    if isinstance(k, tuple) and k and k[0] == 'ne':
                        mx = st.zone.max(k[1])
                        if mx == 0:
                            e = lin(k[1])
                            del st.facts[k]
                            if not self.assume_le(st, e, -1):
                                return False
                        else:
                            m2 = st.zone.max(ladd(0, k[1], -1))
                            if m2 == 0:
                                del st.facts[k]
                                if not self.assume_le(st, ladd(0, k[1], -1), -1):
                                    return False
            return ok
        return True

    def entails_le(self, st, a, b):
        """a <= b certainly"""
        d = ladd(a, b, -1)
        if isinstance(d, int):
            return d <= 0
        m = st.zone.max(d)
        return m is not None and m <= 0

    # --------------------------------------------------------- expressions
    def evl(self, es, st):
        """evaluate expressions in order: [(state, [values])]"""
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def rv(self, e, st):
        return [(s, self.load(s, v)) for s, v in self.ev(e, st)]

    def cond(self, e, st):
        out = []
        for s, v in self.ev(e, st):
            out += self.split(s, v, e)
        return out

    def ev(self, e, st):
        self.steps += 1
        if self.steps > self.limit:
            raise Broken('abstract interpretation does not converge (step limit)')
        if 'cv' in e and e['k'] not in ('asg', 'mcall', 'op', 'call', 'un') or \
                ('cv' in e and e['k'] == 'un' and e['op'] in ('-', '!', '+', '~')):
            return [(st, e['cv'])]
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Broken('expression kind %s at %s' % (e['k'], rel(e['l'])))
        return m(e, st)

    def e_int(self, e, st):
        return [(st, e['v'])]

    e_chr = e_int

    def e_bool(self, e, st):
        return [(st, bool(e['v']))]

    def e_null(self, e, st):
        return [(st, NULL)]

    def e_str(self, e, st):
        return [(st, StrV(e.get('v', '')))]

    def e_zero(self, e, st):
        t = strip(e['t'])
        if t in self.F.records or self.native_default(t) is not None:
            return [(st, LV(self.default(st, t, True)))]
        return [(st, NULL if t.endswith('*') else 0)]

    def e_sizeof(self, e, st):
        return [(st, Sym(('sizeof', rel(e['l']))))]

    def e_this(self, e, st):
        return [(st, Ptr(st.env['this']))]

    def e_ref(self, e, st):
        dk = e['dk']
        if dk == 'enum':
            return [(st, e['v'])]
        if dk == 'func':
            return [(st, FnRef(e['fk'], e['q']))]
        if dk == 'global':
            return [(st, LV(self.global_(e, st)))]
        i = e.get('id')
        if i in st.env:
            return [(st, LV(st.env[i]))]
        cl = st.env.get('closure')
        if cl is not None:
            if i in cl.caps:
                return [(st, LV(cl.caps[i]))]
            if e['n'] in cl.names:
                return [(st, LV(cl.names[e['n']]))]
        n = ('byname', e['n'])
        if n in st.env:
            return [(st, LV(st.env[n]))]
        raise Broken('variable %s unknown at %s' % (e['n'], rel(e['l'])))

    def global_(self, e, st):
        q = e.get('q')
        a = 'g:' + q
        if a in st.heap:
            return a
        g = self.gl.get(q)
        if q in self.intercept_globals:
            st.heap[a] = self.intercept_globals[q]
            return a
        if g is None:
            st.heap[a] = Sym(('global', q))
            return a
        st.heap[a] = UNINIT
        i = g['init']
        if i is None:
            st.heap[a] = Sym(('global', q))
            return a
        if i['k'] == 'ilist' and '[' in g['t']:
            tab = []
            for x in i['a']:
                (s2, v), = self.ev(x, st)
                tab.append(self.load(st, v))
            st.heap[a] = Table(tuple(tab))
            return a
        r = self.ev(i, st)
        if len(r) != 1:
            raise Broken('initialiser of %s' % q)
        v = r[0][1]
        if isinstance(v, LV):
            x = st.heap[v.a]
            st.heap[a] = x
        else:
            st.heap[a] = v
        return a

    intercept_globals = {}

    def e_mem(self, e, st):
        if e.get('static'):
            return [(st, LV(self.global_(dict(e, q=e['q']), st)))]
        if 'v' in e:
            return [(st, e['v'])]
        out = []
        for s, b in self.ev(e['b'], st):
            a = self.base_addr(s, b, e)
            if a is None:
                continue
            x = s.heap.get(a)
            if isinstance(x, Rec) and e['n'] in x.f:
                fa = x.f[e['n']]
                fv = s.heap.get(fa)
                if isinstance(fv, tuple) and fv and fv[0] == 'refto':
                    fa = fv[1]
                out.append((s, LV(fa)))
                continue
            h = self.nat.get(('mem', e['q']))
            if h:
                out += h(self, s, e, a)
                continue
            if isinstance(x, Sym):
                k = ('memof', x.s, e['n'])
                if k not in s.x:
                    s.x[k] = self.new(s, Sym((x.s, e['n'])))
                out.append((s, LV(s.x[k])))
                continue
            raise Broken('member %s of %r at %s' % (e['q'], x, rel(e['l'])))
        return out

    def base_addr(self, s, b, e):
        if e.get('arrow'):
            b = self.load(s, b)
            if b is NULL:
                self.abort(s, 'null pointer dereferenced', e)
                return None
            if isinstance(b, Ptr):
                return b.a
            if isinstance(b, LV):
                return b.a
            raise Broken('-> on %r at %s' % (b, rel(e['l'])))
        if isinstance(b, (LV, Ptr)):
            return b.a
        return self.new(s, b)

    def abort(self, st, why, e):
        self.aborts.append((why, rel(e.get('l', '')) if isinstance(e, dict) else str(e), st))

    def e_asg(self, e, st):
        op = e['op']
        out = []
        for s, (r, l) in [(s2, vs) for s2, vs in self.evl([e['a'][1], e['a'][0]], st)]:
            v = self.load(s, r)
            if not isinstance(l, LV):
                raise Broken('assignment to %r at %s' % (l, rel(e['l'])))
            if op == '=':
                if isinstance(v, LV):
                    self.assign_obj(s, l.a, v.a)
                else:
                    self.store(s, l.a, v, e)
                out.append((s, l))
            else:
                cur = self.load(s, l)
                for s2, nv in self.arith(s, op[:-1], cur, v, e):
                    self.store(s2, l.a, nv, e)
                    out.append((s2, l))
        return out

    def store(self, st, a, v, e):
        st.heap[a] = v

    def arith(self, st, op, a, b, e):
        num = (int, Lin)
        if a is UNINIT or b is UNINIT:
            self.abort(st, 'indeterminate value used', e)
            return []
        if isinstance(a, tuple) or isinstance(b, tuple):
            out = []
            if isinstance(a, tuple):
                for s, r in self.split(st, a):
                    out += self.arith(s, op, int(r), b, e)
            else:
                for s, r in self.split(st, b):
                    out += self.arith(s, op, a, int(r), e)
            return out
        if isinstance(a, num) and isinstance(b, num):
            if op == '+':
                return [(st, ladd(a, b))]
            if op == '-':
                return [(st, ladd(a, b, -1))]
            if isinstance(a, int) and isinstance(b, int):
                if op in ('/', '%') and b == 0:
                    self.abort(st, 'division by zero', e)
                    return []
                r = {'*': lambda: a * b, '/': lambda: int(a / b), '%': lambda: a - b * int(a / b),
                     '|': lambda: a | b, '&': lambda: a & b, '^': lambda: a ^ b,
                     '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
                return [(st, r)]
            if op == '*':
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int):
                    return [(st, mk(a.c * b, {s: k * b for s, k in a.t}))]
        if isinstance(a, Pos) and isinstance(b, num):
            return [(st, Pos(a.q, ladd(a.i, b, 1 if op == '+' else -1)))]
        if isinstance(a, Pos) and isinstance(b, Pos) and op == '-' and a.q == b.q:
            return [(st, ladd(a.i, b.i, -1))]
        if op in ('|', '&') and (isinstance(a, Sym) or isinstance(b, Sym)) and \
                strip(e['t']) in ('bool', 'int'):
            # bitwise combination of truth values
            out = []
            for s, x in self.split(st, a):
                for s2, y in self.split(s, b):
                    out.append((s2, (x or y) if op == '|' else (x and y)))
            return out
        return [(st, Sym(('arith', op, repr(a), repr(b))))]

    def e_bin(self, e, st):
        op = e['op']
        if op == '&&':
            out = []
            for s, a in self.cond(e['a'][0], st):
                if not a:
                    out.append((s, False))
                else:
                    out += [(s2, b) for s2, b in self.cond(e['a'][1], s)]
            return out
        if op == '||':
            out = []
            for s, a in self.cond(e['a'][0], st):
                if a:
                    out.append((s, True))
                else:
                    out += [(s2, b) for s2, b in self.cond(e['a'][1], s)]
            return out
        if op == ',':
            out = []
            for s, vs in self.evl(e['a'], st):
                out.append((s, vs[1]))
            return out
        out = []
        for s, (a, b) in self.evl(e['a'], st):
            a, b = self.load(s, a), self.load(s, b)
            if op in ('==', '!=', '<', '>', '<=', '>='):
                if isinstance(a, LV):
                    a = Ptr(a.a)
                if isinstance(b, LV):
                    b = Ptr(b.a)
                out += self.split_cmp_u(s, op, a, b, e)
            else:
                out += self.arith(s, op, a, b, e)
        return out

    def split_cmp_u(self, s, op, a, b, e):
        if a is UNINIT or b is UNINIT:
            self.abort(s, 'indeterminate value compared', e)
            return []
        # truth-valued operands
        if isinstance(a, tuple) or isinstance(b, tuple):
            out = []
            for s1, x in (self.split(s, a) if isinstance(a, tuple) else [(s, a)]):
                for s2, y in (self.split(s1, b) if isinstance(b, tuple) else [(s1, b)]):
                    out += self.split_cmp(s2, op, int(x) if isinstance(x, bool) else x,
                                          int(y) if isinstance(y, bool) else y)
            return out
        try:
            return self.split_cmp(s, op, a, b)
        except Broken as x:
            raise Broken('%s at %s' % (x, rel(e['l'])))

    def e_un(self, e, st):
        op = e['op']
        if op == '!':
            return [(s, not b) for s, b in self.cond(e['a'][0], st)]
        out = []
        for s, v in self.ev(e['a'][0], st):
            if op == '&':
                out.append((s, Ptr(v.a) if isinstance(v, LV) else v))
            elif op == '*':
                p = self.load(s, v)
                if p is NULL:
                    self.abort(s, 'null pointer dereferenced', e)
                    continue
                if isinstance(p, Ptr):
                    out.append((s, LV(p.a)))
                elif isinstance(p, FnRef):
                    out.append((s, p))
                elif isinstance(p, LV):
                    out.append((s, p))
                else:
                    raise Broken('dereference of %r at %s' % (p, rel(e['l'])))
            elif op in ('++', '--'):
                cur = self.load(s, v)
                for s2, nv in self.arith(s, op[0], cur, 1, e):
                    self.store(s2, v.a, nv, e)
                    out.append((s2, cur if e.get('post') else v))
            elif op == '-':
                out += self.arith(s, '-', 0, self.load(s, v), e)
            elif op == '+':
                out.append((s, self.load(s, v)))
            elif op == '~':
                x = self.load(s, v)
                out.append((s, ~x if isinstance(x, int) else Sym(('~', repr(x)))))
            else:
                raise Broken('unary %s at %s' % (op, rel(e['l'])))
        return out

    def e_cond(self, e, st):
        out = []
        for s, b in self.cond(e['a'][0], st):
            out += self.ev(e['a'][1 if b else 2], s)
        return out

    def e_cast(self, e, st):
        to = strip(e['to'])
        out = []
        for s, v in self.ev(e['a'][0], st):
            if to in ('void',):
                out.append((s, VOID))
            elif to == 'bool':
                for s2, b in self.split(s, v, e):
                    out.append((s2, b))
            else:
                out.append((s, v))
        return out

    def e_throw(self, e, st):
        out = []
        for s, _ in self.evl(e['a'], st):
            self.abort(s, 'throw', e)
        return []

    def e_lambda(self, e, st):
        caps, names, this = {}, {}, None
        for c in e['caps']:
            if c.get('this'):
                this = st.env.get('this')
                continue
            if c.get('id') in st.env:
                a = st.env[c['id']]
            elif c.get('init') is not None:
                (s2, v), = self.ev(c['init'], st)
                a = self.obj(st, v)
            else:
                cl = st.env.get('closure')
                a = cl.caps.get(c['id'], cl.names.get(c['n'])) if cl else None
            if a is None:
                raise Broken('capture %s at %s' % (c, rel(e['l'])))
            if not c['ref'] and not (c.get('init') is not None and False):
                a = self.copy(st, a)
            caps[c['id']] = a
            names[c['n']] = a
        if this is None and st.env.get('this') is not None:
            this = st.env.get('this')
        a = self.new(st, Closure(e['cls'], caps, names, this))
        return [(st, LV(a))]

    def e_ilist(self, e, st):
        t = strip(e['t'])
        if len(e['a']) == 1 and e['a'][0] and strip(e['a'][0]['t']) == t:
            return self.ev(e['a'][0], st)
        if t in self.F.records:
            fs = self.fields(t)
            a = self.default(st, t)
            out = []
            for s, vs in self.evl([x for x in e['a'] if x], st):
                r = s.heap[a] = Rec(s.heap[a].t, dict(s.heap[a].f))
                for (f, _), v in zip(fs, vs):
                    x = self.load(s, v)
                    if isinstance(x, LV):
                        r.f[f['n']] = x.a
                    else:
                        s.heap[r.f[f['n']]] = x
                out.append((s, LV(a)))
            return out
        if len(e['a']) == 1 and ('[' not in t):
            return self.ev(e['a'][0], st)
        if not e['a']:
            return self.e_zero(e, st)
        out = []
        for s, vs in self.evl(e['a'], st):
            ns = [self.obj(s, v) if isinstance(v, LV) and isinstance(self.load(s, v), LV)
                  else self.new(s, self.load(s, v)) for v in vs]
            out.append((s, LV(self.new(s, ListV('ilist', ns)))))
        return out

    def e_stdilist(self, e, st):
        return self.ev(e['a'][0], st)

    def e_new(self, e, st):
        if not e['a']:
            t = strip(e['t'])
            return [(st, Ptr(self.default(st, t.rstrip('* '))))]
        out = []
        for s, v in self.ev(e['a'][0], st):
            out.append((s, Ptr(self.obj(s, v))))
        return out

    def e_delete(self, e, st):
        return [(s, VOID) for s, _ in self.evl(e['a'], st)]

    def e_idx(self, e, st):
        out = []
        for s, (b, i) in self.evl(e['a'], st):
            out += self.index(s, b, self.load(s, i), e)
        return out

    def index(self, s, b, i, e):
        x = self.load(s, b)
        if isinstance(x, LV):
            x = s.heap[x.a]
        if isinstance(x, Table):
            if isinstance(i, Tag):
                cur = s.tags.get(i.s, self.universe())
                groups = {}
                for u in cur:
                    if 0 <= u < len(x.v):
                        groups.setdefault(x.v[u], []).append(u)
                    else:
                        groups.setdefault('oob', []).append(u)
                out = []
                for val, us in groups.items():
                    s2 = s.fork()
                    s2.tags[i.s] = frozenset(us)
                    if val == 'oob':
                        self.abort(s2, 'table index out of range (%s)' % us[:3], e)
                        continue
                    out.append((s2, val))
                return out
            if isinstance(i, int):
                if 0 <= i < len(x.v):
                    return [(s, x.v[i])]
                self.abort(s, 'table index %d out of range' % i, e)
                return []
        if isinstance(x, ListV) and isinstance(i, int):
            if 0 <= i < len(x.n):
                return [(s, LV(x.n[i]))]
            self.abort(s, 'index %d out of range' % i, e)
            return []
        if isinstance(x, StrV) and isinstance(i, int):
            if 0 <= i < len(x.s):
                return [(s, ord(x.s[i]))]
            if i == len(x.s):
                return [(s, 0)]
        if isinstance(x, Sym):
            return [(s, Sym(('idx', x.s, repr(i))))]
        raise Broken('index %r[%r] at %s' % (x, i, rel(e['l'])))

    def e_other(self, e, st):
        if e['cls'] == 'CXXRewrittenBinaryOperator' and e['a']:
            return self.ev(e['a'][0], st)
        raise Broken('expression %s at %s' % (e['cls'], rel(e['l'])))

    def e_fold(self, e, st):
        raise Broken('unexpanded fold at %s' % rel(e['l']))

    # --------------------------------------------------------------- calls
    def e_new_obj(self, e, st):
        t = strip(e['t'])
        h = self.nat.get(('ctor', self.tkind(t)))
        if h:
            out = []
            for s, vs in self.evl(e['a'], st):
                out += h(self, s, e, vs)
            return out
        fn = self.F.fn(e['fk'], self.tu)
        out = []
        if fn is None or (fn.get('defaulted') and e['ck'] in ('copy', 'move')):
            if e['ck'] in ('copy', 'move'):
                for s, vs in self.evl(e['a'], st):
                    out += self.copy_ctor(s, t, self.obj(s, vs[0]), e['ck'] == 'move')
                return out
            if e['ck'] == 'default':
                if t in self.F.records:
                    return self.implicit_default(st, t, e)
                if t.startswith('lambda') or '(lambda' in t:
                    return [(st, LV(self.new(st, Sym('closure'))))]
            raise Broken('constructor %s not available at %s' % (e['fk'], rel(e['l'])))
        for s, vs in self.evl(e['a'], st):
            a = self.default(s, t)
            for s2, _ in self.call(s, fn, a, vs, e):
                out.append((s2, LV(a)))
        return out

    def copy_ctor(self, st, t, src, move):
        """copy or move construction through a defaulted constructor: members
        with user-written operations use them"""
        x = st.heap[src]
        if not isinstance(x, Rec):
            return [(st, LV(self.copy(st, src, move)))]
        fs = {}
        outs = [(st, {})]
        for k, fa in x.f.items():
            nxt = []
            for s, d in outs:
                fv = s.heap[fa]
                if isinstance(fv, Rec):
                    uf = self.special(fv.t, 'move' if move else 'copy', True)
                    if uf is not None:
                        na = self.default(s, fv.t)
                        for s2, _ in self.call(s, uf, na, [LV(fa)], {'l': uf['l']}):
                            nxt.append((s2, dict(d, **{k: na})))
                        continue
                    for s2, v in self.copy_ctor(s, fv.t, fa, move):
                        nxt.append((s2, dict(d, **{k: v.a})))
                    continue
                nxt.append((s, dict(d, **{k: self.copy(s, fa, move)})))
            outs = nxt
        return [(s, LV(self.new(s, Rec(x.t, d)))) for s, d in outs]

    def special(self, t, kind, ctor):
        """user-written copy/move constructor or assignment of a record type"""
        r = self.F.records.get(t)
        if r is None:
            return None
        cands = [m for m in r['methods'] if m.get('ctor' if ctor else 'asg') == kind]
        if not cands and kind == 'move':
            cands = [m for m in r['methods'] if m.get('ctor' if ctor else 'asg') == 'copy']
        for m in cands:
            if m['userprov']:
                fn = self.F.fn(m['key'], self.tu)
                if fn is None:
                    raise Broken('%s has no body in the analysed program' % m['key'])
                return fn
        return None

    def implicit_default(self, st, t, e):
        a = self.default(st, t)
        r = self.F.records[t]
        outs = [st]
        # in-class initialisers
        for f, _ in self.fields(t):
            if f.get('init') is not None:
                nxt = []
                for s in outs:
                    hold = s.env
                    s.env = {'this': a}
                    for s2, v in self.ev(f['init'], s):
                        x = self.load(s2, v)
                        if isinstance(x, LV):
                            s2.heap[a].f[f['n']] = x.a
                        else:
                            s2.heap[s2.heap[a].f[f['n']]] = x
                        s2.env = hold
                        nxt.append(s2)
                outs = nxt
        res = []
        for s in outs:
            states = [s]
            for f, _ in self.fields(t):
                ft = strip(f['t'])
                if f.get('init') is None and ft in self.F.records:
                    ctor = self.default_ctor(ft)
                    nxt = []
                    for s1 in states:
                        fa = s1.heap[a].f[f['n']]
                        if ctor is not None:
                            nxt += [s2 for s2, _ in self.call(s1, ctor, fa, [], e)]
                        else:
                            nxt.append(s1)
                    states = nxt
            res += [(s1, LV(a)) for s1 in states]
        return res

    def default_ctor(self, t):
        r = self.F.records.get(t)
        for m in r['methods']:
            if m.get('ctor') == 'default' and m['userprov']:
                return self.F.fn(m['key'], self.tu)
        return None

    def tkind(self, t):
        m = re.match(r'^([\w:]+)', t)
        k = m.group(1) if m else t
        return k.replace('std::__cxx11::', 'std::')

    def native(self, f):
        h = self.nat.get(f)
        if h is None:
            from absnat import bare
            h = self.nat.get(bare(f.replace('std::__cxx11::', 'std::')))
        return h

    # hooks refined by the individual analyses
    def pos_deref(self, s, it, e):
        raise Broken('element %r at %s' % (it, rel(e['l'])))

    def pos_step(self, s, it, k, e):
        return Pos(it.q, ladd(it.i, k))

    def erased(self, s, a, n, e):
        pass

    def cmp_obj(self, s, op, a, b, e):
        return None

    def str_unknown(self, s, what, x, vs, e):
        k = (what, repr(x)) + tuple(repr(self.load(s, v)) for v in vs)
        if what in ('size', 'length'):
            nm = ('len', repr(x))
            s.zone.add('', nm, 0)
            return [(s, Lin(0, ((nm, 1),)))]
        return [(s, Sym(k))]

    def e_call(self, e, st):
        if 'fe' in e:
            out = []
            for s, (fe, *vs) in self.evl([e['fe']] + e['a'], st):
                f = self.load(s, fe)
                out += self.call_value(s, f, vs, e)
            return out
        return self.dispatch(e, st, None, e['a'])

    def call_value(self, s, f, vs, e):
        if isinstance(f, LV):
            f = s.heap[f.a]
        if isinstance(f, FnRef):
            ic = self.intercept.get(f.q)
            if ic:
                return ic(self, s, e, None, vs)
            fn = self.F.fn(f.fk, self.tu)
            if fn is None:
                n = self.native(f.q)
                if n:
                    return n(self, s, e, None, vs)
                raise Broken('function %s has no body' % f.fk)
            return self.call(s, fn, None, vs, e)
        if isinstance(f, Closure):
            return self.call_closure(s, f, None, vs, e)
        raise Broken('call of %r at %s' % (f, rel(e['l'])))

    def call_closure(self, s, f, fk, vs, e):
        fn = None
        if fk:
            fn = self.F.fn(fk, self.tu)
        if fn is None:
            # by class: a non-generic lambda has one body
            cands = [x for k, x in self.F.fns.items() if
                     (k[1] if isinstance(k, tuple) else k).startswith(f.cls + '::operator()')
                     and (x['tu'] == self.tu or self.tu is None)]
            cands = list({id(x): x for x in cands}.values())
            cands = [x for x in cands if len(x['params']) == len(vs)]
            if len(cands) > 1:
                want = self.arg_types(s, vs)
                c2 = [x for x in cands if all(w in ('?', strip(p['t'])) for p, w in
                                              zip(x['params'], want))]
                if c2:
                    cands = c2[:1]
            if len(cands) != 1:
                raise Broken('lambda body %s (%s) not found' % (f.cls, len(cands)))
            fn = cands[0]
        return self.call(s, fn, f.this, vs, e, closure=f)

    def arg_types(self, s, vs):
        out = []
        for v in vs:
            x = s.heap[v.a] if isinstance(v, LV) else v
            out.append(x.t if isinstance(x, (Rec, ListV)) else '?')
        return out

    def e_mcall(self, e, st):
        if 'f' not in e:
            raise Broken('indirect member call at %s' % rel(e['l']))
        out = []
        for s, o in self.ev(e['o'], st):
            if e.get('arrow'):
                o = self.load(s, o)
                if o is NULL:
                    self.abort(s, 'null pointer dereferenced', e)
                    continue
                o = LV(o.a) if isinstance(o, Ptr) else o
            out += self.dispatch(e, s, o, e['a'])
        return out

    def e_op(self, e, st):
        if e.get('method'):
            out = []
            for s, o in self.ev(e['a'][0], st):
                out += self.dispatch(e, s, o, e['a'][1:])
            return out
        return self.dispatch(e, st, None, e['a'])

    def dispatch(self, e, st, o, args):
        f = e.get('f', '')
        out = []
        ic = self.intercept.get(f)
        nat = self.native(f)
        fn = self.F.fn(e['fk'], self.tu) if 'fk' in e else None
        if f == '__assert_fail':
            self.abort(st, 'assertion', e)
            return []
        for s, vs in self.evl(args, st):
            if ic:
                out += ic(self, s, e, o, vs)
                continue
            if o is not None:
                x = s.heap.get(o.a) if isinstance(o, LV) else o
                if isinstance(x, Closure) and f.endswith('operator()'):
                    out += self.call_closure(s, x, e.get('fk'), vs, e)
                    continue
            if fn is not None and not fn.get('defaulted'):
                oa = None
                if o is not None:
                    oa = self.obj(s, o)
                out += self.call(s, fn, oa, vs, e)
                continue
            if nat:
                out += nat(self, s, e, o, vs)
                continue
            if f.endswith('operator=') and o is not None:
                out += self.default_assign(s, o, vs[0], e, f.rsplit('::', 1)[0])
                continue
            g = self.nat.get('*')
            r = g(self, s, e, o, vs) if g else None
            if r is None:
                raise Broken('call to %s is not modelled (%s)' % (e.get('fk', f), rel(e['l'])))
            out += r
        return out

    def default_assign(self, s, o, v, e, cls=None):
        src = self.obj(s, v)
        x = s.heap.get(o.a)
        if cls and isinstance(x, Rec) and x.t != cls and cls in self.F.records:
            # the assignment of a base class touches its own members only
            keep = {f['n'] if isinstance(f, dict) else f for f, _ in self.fields(cls)}
            move = e['pt'] and e['pt'][0].endswith('&&')
            return self.assign_special(s, o.a, src, move, e, keep)
        move = e['pt'] and e['pt'][0].endswith('&&')
        return self.assign_special(s, o.a, src, move, e)

    def assign_special(self, s, dst, src, move, e, keep=None):
        x, y = s.heap.get(dst), s.heap[src]
        if isinstance(x, Rec) and isinstance(y, Rec):
            states = [s]
            for k, fa in y.f.items():
                if k not in x.f or keep is not None and k not in keep:
                    continue
                nxt = []
                for s1 in states:
                    fv = s1.heap[fa]
                    if isinstance(fv, Rec):
                        uf = self.special(fv.t, 'move' if move else 'copy', False)
                        if uf is not None:
                            nxt += [s2 for s2, _ in self.call(s1, uf, x.f[k], [LV(fa)], e)]
                            continue
                        nxt += [s2 for s2, _ in self.assign_special(s1, x.f[k], fa, move, e)]
                        continue
                    self.assign_obj(s1, x.f[k], fa, move)
                    nxt.append(s1)
                states = nxt
            return [(s1, LV(dst)) for s1 in states]
        self.assign_obj(s, dst, src, move)
        return [(s, LV(dst))]

    def call(self, st, fn, this, vs, e, closure=None):
        """run fn: [(state, value)]"""
        self.fns_done.add(fn['q'])
        if self.depth > 200:
            raise Broken('recursion too deep in %s' % fn['q'])
        if self.on_call:
            self.on_call(fn, st, this, vs)
        hold = st.env
        st.env = {'this': this, 'closure': closure}
        if closure is not None:
            st.env['this'] = closure.this
        for p, v in zip(fn['params'], vs):
            t = p['t']
            if t.endswith('&'):
                a = v.a if isinstance(v, LV) else self.new(st, v)
            else:
                x = self.load(st, v)
                if isinstance(x, LV):
                    a = x.a
                else:
                    a = self.new(st, x)
            st.env[p['id']] = a
            if p['n']:
                st.env[('byname', p['n'])] = a
        self.depth += 1
        try:
            states = [st]
            if fn.get('ctor') is not None:
                states = self.ctor_inits(st, fn, this, e)
            out = []
            for s in states:
                for kind, s2, v in self.ex(fn['body'], s):
                    if kind == 'r':
                        out.append((s2, v))
                    elif kind == 'n':
                        out.append((s2, VOID))
                    elif kind == 'x':
                        pass
                    else:
                        raise Broken('stray %s in %s' % (kind, fn['q']))
        finally:
            self.depth -= 1
        for s2, _ in out:
            s2.env = hold
        # each surviving state gets its own copy of the caller's frame
        return [(s2 if i == 0 else self._own(s2), v) for i, (s2, v) in enumerate(out)]

    def _own(self, s):
        s.env = dict(s.env)
        return s

    def ctor_inits(self, st, fn, this, e):
        states = [st]
        rec = st.heap.get(this)
        done = set()
        for i in fn['inits']:
            nxt = []
            for s in states:
                if i['e'] is None:
                    nxt.append(s)
                    continue
                if i.get('m'):
                    done.add(i['m'])
                    fa = s.heap[this].f[i['m']]
                    ft = [f for f, _ in self.fields(s.heap[this].t) if f['n'] == i['m']]
                    if ft and ft[0]['ref']:
                        for s2, v in self.ev(i['e'], s):
                            s2.heap[fa] = ('refto', v.a if isinstance(v, LV) else self.new(s2, v))
                            nxt.append(s2)
                        continue
                    for s2, v in self.ev(i['e'], s):
                        x = self.load(s2, v)
                        r = s2.heap[this]
                        if isinstance(x, LV):
                            if x.a != r.f[i['m']]:
                                s2.heap[this] = Rec(r.t, dict(r.f, **{i['m']: x.a}))
                        elif x is not None:
                            s2.heap[r.f[i['m']]] = x
                        nxt.append(s2)
                elif i.get('base') or i.get('deleg'):
                    ie = i['e']
                    if ie['k'] == 'new_obj':
                        bfn = self.F.fn(ie['fk'], self.tu)
                        bt = strip(ie['t'])
                        for s2, vs in self.evl(ie['a'], s):
                            if bfn is not None and not (bfn.get('defaulted') and ie['ck'] in ('copy', 'move')):
                                nxt += [s3 for s3, _ in self.call(s2, bfn, this, vs, ie)]
                            elif ie['ck'] in ('copy', 'move'):
                                src = self.obj(s2, vs[0])
                                sr, dr = s2.heap[src], s2.heap[this]
                                for f, _ in self.fields(bt):
                                    self.assign_obj(s2, dr.f[f['n']], sr.f[f['n']], ie['ck'] == 'move')
                                nxt.append(s2)
                            elif ie['ck'] == 'default':
                                nxt.append(s2)
                            else:
                                raise Broken('base constructor %s' % ie['fk'])
                    else:
                        for s2, v in self.ev(ie, s):
                            nxt.append(s2)
                else:
                    raise Broken('initialiser in %s' % fn['q'])
            states = nxt
        # members without a written initialiser: default constructors
        if isinstance(rec, Rec) and not any(i.get('deleg') for i in fn['inits']):
            own = self.F.records.get(rec.t, {}).get('fields', []) if fn.get('cls') == rec.t else []
            for f in own:
                if f['n'] in done:
                    continue
                ft = strip(f['t'])
                if ft in self.F.records:
                    c = self.default_ctor(ft)
                    if c is not None:
                        nxt = []
                        for s in states:
                            nxt += [s2 for s2, _ in self.call(s, c, s.heap[this].f[f['n']], [], e)]
                        states = nxt
        return states

    # ---------------------------------------------------------- statements
    def ex(self, n, st):
        """[(kind, state, value)]; kind n(ormal) b(reak) c(ontinue) r(eturn)"""
        if n is None:
            return [('n', st, None)]
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            raise Broken('statement kind %s at %s' % (n['k'], rel(n.get('l', ''))))
        return m(n, st)

    def s_nop(self, n, st):
        return [('n', st, None)]

    def s_expr(self, n, st):
        return [('n', s, None) for s, _ in self.ev(n['e'], st)]

    def seq(self, ss, st):
        cur, out = [st], []
        for x in ss:
            nxt = []
            for s in cur:
                for r in self.ex(x, s):
                    if r[0] == 'n':
                        nxt.append(r[1])
                    else:
                        out.append(r)
            cur = self.merge(nxt)
            if not cur:
                break
        return out + [('n', s, None) for s in cur]

    def merge(self, states):
        return states

    def s_blk(self, n, st):
        before = set(st.env)
        res = self.seq(n['s'], st)
        return self.scope_end(n, res, before)

    def scope_end(self, n, res, before):
        """run user-written destructors of locals leaving scope"""
        dts = []
        for x in n.get('s', []):
            if x and x['k'] == 'decl':
                for v in x['v']:
                    if v.get('ref') or v.get('static'):
                        continue
                    r = self.F.records.get(strip(v['t']))
                    if r:
                        for m in r['methods']:
                            if m.get('dtor') and m['userprov']:
                                fn = self.F.fn(m['key'], self.tu)
                                if fn is not None:
                                    dts.append((v['id'], fn))
        if not dts:
            return res
        out = []
        for kind, s, v in res:
            if kind == 'r' and isinstance(v, LV):
                v = self.load(s, v)
            cur = [s]
            for i, fn in reversed(dts):
                nxt = []
                for s1 in cur:
                    if i in s1.env:
                        nxt += [s2 for s2, _ in self.call(s1, fn, s1.env[i], [], {'l': fn['l']})]
                    else:
                        nxt.append(s1)
                cur = nxt
            out += [(kind, s1, v) for s1 in cur]
        return out

    def s_decl(self, n, st):
        cur = [st]
        for v in n['v']:
            nxt = []
            for s in cur:
                nxt += self.declare(v, s)
            cur = nxt
        return [('n', s, None) for s in cur]

    def declare(self, v, st):
        if v.get('static'):
            a = 'sl:%s' % v['l']
            if a in st.heap:
                st.env[v['id']] = a
                return [st]
        else:
            a = None
        out = []
        if v['init'] is None:
            na = self.default(st, v['t'])
            res = [(st, LV(na))]
        else:
            res = self.ev(v['init'], st)
        for s, val in res:
            if v.get('ref') or v['t'].endswith('&'):
                addr = val.a if isinstance(val, LV) else self.new(s, val)
            else:
                x = self.load(s, val)
                addr = x.a if isinstance(x, LV) else self.new(s, x)
            if a is not None:
                s.heap[a] = s.heap[addr]
                addr = a
            s.env[v['id']] = addr
            s.env[('byname', v['n'])] = addr
            states = [s]
            for b in v.get('bindings', []):
                nxt = []
                for s1 in states:
                    if b['e'] is None:
                        raise Broken('binding %s at %s' % (b['n'], rel(v['l'])))
                    for s2, bv in self.binding(b, s1, addr, v):
                        s2.env[b['id']] = bv.a if isinstance(bv, LV) else self.new(s2, bv)
                        s2.env[('byname', b['n'])] = s2.env[b['id']]
                        nxt.append(s2)
                states = nxt
            out += states
        return out

    def binding(self, b, s, addr, v):
        e = b['e']
        if e['k'] == 'mem':
            r = s.heap[addr]
            return [(s, LV(r.f[e['n']]))]
        x = s.heap[addr]
        i = [y['n'] for y in v['bindings']].index(b['n'])
        if isinstance(x, Tup):
            return [(s, LV(x.e[i]))]
        return self.ev(e, s)

    def with_init(self, n, st):
        cur = [st]
        if n.get('init'):
            nxt = []
            for s in cur:
                nxt += [r[1] for r in self.ex(n['init'], s)]
            cur = nxt
        if n.get('cvar'):
            nxt = []
            for s in cur:
                nxt += self.declare(n['cvar'], s)
            cur = nxt
        return cur

    def s_if(self, n, st):
        out = []
        for s0 in self.with_init(n, st):
            for s, b in self.cond(n['c'], s0):
                br = n['then'] if b else n['else']
                out += self.ex(br, s)
        return out

    def loop(self, n, st, test, body, inc, do=False):
        if self.loop_hook:
            r = self.loop_hook(self, n, st, test, body, inc, do)
            if r is not None:
                return r
        out, cur = [], [st]
        for it in range(self.unroll + 1):
            nxt = []
            for s in cur:
                if do and it == 0:
                    enter = [s]
                else:
                    enter = []
                    for s1 in (self.with_init({'cvar': n.get('cvar')}, s) if n.get('cvar') else [s]):
                        for s2, b in (self.cond(test, s1) if test else [(s1, True)]):
                            if b:
                                enter.append(s2)
                            else:
                                out.append(('n', s2, None))
                if it == self.unroll:
                    for s2 in enter:
                        self.trunc.append((rel(n['l']), s2))
                    continue
                for s2 in enter:
                    for kind, s3, v in self.ex(body, s2):
                        if kind in ('n', 'c'):
                            if inc:
                                nxt += [s4 for s4, _ in self.ev(inc, s3)]
                            else:
                                nxt.append(s3)
                        elif kind == 'b':
                            out.append(('n', s3, None))
                        else:
                            out.append((kind, s3, v))
            cur = self.merge(nxt)
            if not cur:
                break
        return out

    def s_while(self, n, st):
        return self.loop(n, st, n['c'], n['b'], None)

    def s_do(self, n, st):
        return self.loop(n, st, n['c'], n['b'], None, True)

    def s_for(self, n, st):
        out = []
        for kind, s, _ in self.ex(n['init'], st):
            out += self.loop(n, s, n['c'], n['b'], n['inc'])
        return out

    def s_rfor(self, n, st):
        out = []
        for s, r in self.ev(n['range'], st):
            h = self.range_elems(s, r, n)
            cur = [s]
            for el in h:
                nxt = []
                for s1 in cur:
                    v = n['var']
                    if v['t'].endswith('&'):
                        a = el
                    else:
                        a = self.copy(s1, el)
                    s1.env[v['id']] = a
                    s1.env[('byname', v['n'])] = a
                    for b in v.get('bindings', []):
                        (s1, bv), = self.binding(b, s1, a, v)
                        s1.env[b['id']] = bv.a
                    for kind, s2, val in self.ex(n['b'], s1):
                        if kind in ('n', 'c'):
                            nxt.append(s2)
                        elif kind == 'b':
                            out.append(('n', s2, None))
                        else:
                            out.append((kind, s2, val))
                cur = nxt
            out += [('n', s1, None) for s1 in cur]
        return out

    def range_elems(self, s, r, n):
        a = self.obj(s, r)
        x = s.heap[a]
        if isinstance(x, ListV):
            return list(x.n)
        if isinstance(x, Rec):
            # a class with begin()/end() over a known list
            if 'list_' in x.f:
                l = s.heap[x.f['list_']]
                e = s.heap[x.f['my_end_']]
                ns = []
                for k in l.n:
                    if It(k) == e:
                        break
                    ns.append(k)
                return ns
        raise Broken('range for over %r at %s' % (x, rel(n['l'])))

    def s_switch(self, n, st):
        out = []
        body = n['b']['s'] if n['b'] and n['b']['k'] == 'blk' else [n['b']]
        flat, labels, dflt = [], [], None

        def put(x):
            nonlocal dflt
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    v = x['v'].get('cv', x['v'].get('v'))
                    labels.append((v, len(flat)))
                else:
                    dflt = len(flat)
                x = x['sub']
            flat.append(x)
        for x in body:
            put(x)
        for s0 in self.with_init(n, st):
            for s, v in self.rv(n['c'], s0):
                for s2, idx in self.select(s, v, labels, dflt, n):
                    if idx is None:
                        out.append(('n', s2, None))
                        continue
                    for kind, s3, val in self.seq(flat[idx:], s2):
                        out.append(('n', s3, None) if kind == 'b' else (kind, s3, val))
        return out

    def select(self, s, v, labels, dflt, n):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for k, i in labels:
                if k == v:
                    return [(s, i)]
            return [(s, dflt)]
        out, rest = [], [s]
        groups = {}
        for k, i in labels:
            groups.setdefault(i, []).append(k)
        if isinstance(v, Tag):
            for i, ks in groups.items():
                nr = []
                for s1 in rest:
                    for s2, b in self.split_tag(s1, v, ks):
                        if b:
                            out.append((s2, i))
                        else:
                            nr.append(s2)
                rest = nr
        else:
            for k, i in labels:
                nr = []
                for s1 in rest:
                    for s2, b in self.split_cmp(s1, '==', v, k):
                        if b:
                            out.append((s2, i))
                        else:
                            nr.append(s2)
                rest = nr
        return out + [(s1, dflt) for s1 in rest]

    def s_case(self, n, st):
        return self.ex(n['sub'], st)

    s_default = s_case

    def s_ret(self, n, st):
        if n['e'] is None:
            return [('r', st, VOID)]
        return [('r', s, self.load_ret(s, v)) for s, v in self.ev(n['e'], st)]

    def load_ret(self, s, v):
        return v

    def s_break(self, n, st):
        return [('b', st, None)]

    def s_continue(self, n, st):
        return [('c', st, None)]

    def s_try(self, n, st):
        return self.ex(n['b'], st)
