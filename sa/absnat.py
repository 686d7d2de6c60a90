"""Models of the standard-library operations used by FLPR (for absint).

Handlers: h(E, s, e, o, vs) -> [(state, value)]; o is the object (LV) of a
member call, vs the argument values.  Keys are qualified names without
template arguments.
"""
import re
from core import Broken, rel
from absint import (Lin, Tag, Sym, LV, Ptr, Rec, ListV, Up, Opt, RIt, Tup, Closure, FnRef,
                    StrV, It, Pos, Table, NULL, UNINIT, VOID, ladd, strip)


def targs(t):
    """top-level template arguments of a type name"""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[i + 1:]:
        if c == '<':
            d += 1
        if c == '>':
            if d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        cur += c
    out.append(cur.strip())
    return out


def bare(q):
    """qualified name without template arguments"""
    out, d, i = '', 0, 0
    while i < len(q):
        if q.startswith('operator', i) and d == 0 and (i == 0 or q[i - 1] == ':'):
            return out + q[i:]
        c = q[i]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out += c
        i += 1
    return out


# ------------------------------------------------------------- construction
def val_type(s, v):
    x = s.heap[v.a] if isinstance(v, LV) else v
    if isinstance(x, (Rec, ListV)):
        return x.t
    if isinstance(x, bool):
        return 'bool'
    if isinstance(x, (int, Lin, Tag)):
        return 'int'
    if isinstance(x, StrV):
        return 'str'
    if isinstance(x, (It, Pos)):
        return 'iter'
    if isinstance(x, Up):
        return 'up'
    return '?'


INTS = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'char', 'size_t', 'unsigned short')


def fits(pt, vt, E):
    p = strip(pt)
    if p == vt:
        return 3
    if vt in ('int', 'bool'):
        if p in INTS:
            return 2 if vt == 'int' else 1
        if p == 'bool':
            return 2 if vt == 'bool' else 1
        if p in E.F.enums or p.startswith('FLPR::Syntax_Tags'):
            return 1
        return 0
    if vt == 'str':
        return 2 if 'string' in p or p.endswith('char *') or p.startswith('char') else 0
    if vt == 'iter':
        return 2 if 'iterator' in p else 0
    if vt == '?':
        return 1
    # derived to base
    r = E.F.records.get(vt)
    if r and any(strip(b) == p for b in r['bases']):
        return 1
    return 0


def construct(E, s, t, vs, e):
    """[(state, address)]: a T built from the arguments (as emplace does)"""
    t = strip(t)
    if t not in E.F.records:
        d = E.native_default(t)
        if not vs:
            return [(s, E.default(s, t, True))]
        x = E.load(s, vs[0])
        if isinstance(x, LV):
            return [(s, E.copy(s, x.a))]
        return [(s, E.new(s, x))]
    r = E.F.records[t]
    if not vs:
        c = E.default_ctor(t)
        if c is None:
            return [(s2, v.a) for s2, v in E.implicit_default(s, t, e)]
        a = E.default(s, t)
        return [(s2, a) for s2, _ in E.call(s, c, a, [], e)]
    if len(vs) == 1 and val_type(s, vs[0]) == t:
        src = E.obj(s, vs[0])
        move = isinstance(vs[0], LV) and (src in s.x.get('moved', ()))
        if move:
            s.x['moved'] = s.x['moved'] - {src}
        kind = 'move' if move else 'copy'
        uf = E.special(t, kind, True)
        if uf is not None:
            a = E.default(s, t)
            return [(s2, a) for s2, _ in E.call(s, uf, a, [LV(src)], e)]
        return [(s2, v.a) for s2, v in E.copy_ctor(s, t, src, move)]
    best, bs = None, 0
    vts = [val_type(s, v) for v in vs]
    for m in r['methods']:
        if 'ctor' not in m or m.get('deleted'):
            continue
        fn = E.F.fn(m['key'], E.tu)
        if fn is None or len(fn['params']) < len(vs):
            continue
        if len(fn['params']) > len(vs):
            continue
        sc = [fits(p['t'], vt, E) for p, vt in zip(fn['params'], vts)]
        if all(sc) and sum(sc) > bs:
            best, bs = fn, sum(sc)
    if True:
        # constructor templates are not listed as methods
        for k, fn in E.F.fns.items():
            if isinstance(k, str) and fn.get('ctor') is not None and fn.get('cls') == t \
                    and len(fn['params']) == len(vs):
                sc = [fits(p['t'], vt, E) for p, vt in zip(fn['params'], vts)]
                if all(sc) and sum(sc) > bs:
                    best, bs = fn, sum(sc)
    if best is None:
        for i, (v, vt) in enumerate(zip(vs, vts)):
            rc = E.F.records.get(vt)
            for m in (rc['methods'] if rc else ()):
                if m['n'].startswith('operator ') and 'iterator' in m['rt'] and not m['const']:
                    fn = E.F.fn(m['key'], E.tu)
                    if fn is not None:
                        out = []
                        for s1, w in E.call(s, fn, E.obj(s, v), [], e):
                            out += construct(E, s1, t, list(vs[:i]) + [E.load(s1, w)] + list(vs[i + 1:]), e)
                        return out
        raise Broken('no constructor of %s for %s at %s' % (t, vts, rel(e['l'])))
    a = E.default(s, t)
    return [(s2, a) for s2, _ in E.call(s, best, a, vs, e)]


# ------------------------------------------------------------------- lists
def owner(E, s, it):
    """address of the list holding the node of an iterator"""
    n = it.n
    if isinstance(n, tuple) and n and n[0] == 'end':
        return n[1]
    h = s.x.get(('own', n))
    if h is not None:
        x = s.heap.get(h)
        if isinstance(x, ListV) and n in x.n:
            return h
    for a, x in s.heap.items():
        if isinstance(x, ListV) and n in x.n:
            s.x[('own', n)] = a
            return a
    return None


def step(E, s, it, k, e):
    """iterator moved by k (int); None after reporting an escape"""
    if isinstance(it, Pos):
        return E.pos_step(s, it, k, e)
    if isinstance(it, RIt):
        b = step(E, s, it.b, ladd(0, k, -1), e)
        return None if b is None else RIt(b)
    if it is UNINIT:
        E.abort(s, 'indeterminate iterator moved', e)
        return None
    if isinstance(it, It):
        o = owner(E, s, it)
        if o is None:
            E.abort(s, 'iterator to an erased element moved', e)
            return None
        ns = s.heap[o].n
        i = ns.index(it.n) if it.n in ns else len(ns)
        if not isinstance(k, int):
            raise Broken('iterator moved by %r at %s' % (k, rel(e['l'])))
        j = i + k
        if j < 0 or j > len(ns):
            E.abort(s, 'iterator moved outside its sequence', e)
            return None
        return It(ns[j]) if j < len(ns) else It(('end', o))
    raise Broken('moving %r at %s' % (it, rel(e['l'])))


def deref(E, s, it, e):
    if isinstance(it, It):
        if isinstance(it.n, tuple) and it.n and it.n[0] == 'end':
            E.abort(s, 'end iterator dereferenced', e)
            return []
        if it.n not in s.heap or owner(E, s, it) is None and not s.x.get(('free', it.n)):
            E.abort(s, 'iterator to an erased element dereferenced', e)
            return []
        return [(s, LV(it.n))]
    if isinstance(it, RIt):
        b = step(E, s, it.b, -1, e)
        return [] if b is None else deref(E, s, b, e)
    if isinstance(it, Pos):
        return E.pos_deref(s, it, e)
    if it is UNINIT:
        E.abort(s, 'indeterminate iterator dereferenced', e)
        return []
    if isinstance(it, Sym):
        k = ('deref', it.s)
        if k not in s.x:
            s.x[k] = E.new(s, Sym(('*', it.s)))
        return [(s, LV(s.x[k]))]
    raise Broken('dereference of %r at %s' % (it, rel(e['l'])))


def lst(E, s, o):
    a = E.obj(s, o)
    x = s.heap[a]
    if not isinstance(x, ListV):
        raise Broken('not a known sequence: %r' % (x,))
    return a, x


def at(s, x, it):
    return x.n.index(it.n) if it.n in x.n else len(x.n)


def put(s, a, x, i, n):
    s.heap[a] = ListV(x.t, x.n[:i] + (n,) + x.n[i:])
    s.x[('own', n)] = a


def moved(E, s, a):
    """elements of a vector that grows move: iterators and references to them end (asked for by
    engines that set relocate)"""
    x = s.heap[a]
    if not getattr(E, 'relocate', False) or not bare(x.t).startswith('std::vector'):
        return {}
    new = {}
    for n in x.n:
        if isinstance(s.heap.get(n), Rec):
            m = E.new(s, s.heap[n])
            s.x.pop(('own', n), None)
            del s.heap[n]
            s.x[('own', m)] = a
            new[n] = m
    s.heap[a] = ListV(x.t, tuple(new.get(n, n) for n in x.n))
    return new


def l_resize(E, s, e, o, vs):
    a, x = lst(E, s, o)
    k = E.load(s, vs[0])
    if not isinstance(k, int):
        raise Broken('resize to %r at %s' % (k, rel(e['l'])))
    if k <= len(x.n):
        s.heap[a] = ListV(x.t, x.n[:k])
        for n in x.n[k:]:
            s.x.pop(('own', n), None)
            E.erased(s, a, n, e)
        return [(s, VOID)]
    outs = [(s, [])]
    for _ in range(k - len(x.n)):
        outs = [(s2, acc + [c]) for s1, acc in outs for s2, c in construct(E, s1, targs(x.t)[0], vs[1:], e)]
    for s1, acc in outs:
        moved(E, s1, a)
        s1.heap[a] = ListV(x.t, s1.heap[a].n + tuple(acc))
        for c in acc:
            s1.x[('own', c)] = a
    return [(s1, VOID) for s1, _ in outs]


def l_begin(E, s, e, o, vs):
    a, x = lst(E, s, o)
    return [(s, It(x.n[0]) if x.n else It(('end', a)))]


def l_end(E, s, e, o, vs):
    a, x = lst(E, s, o)
    return [(s, It(('end', a)))]


def l_emplace(E, s, e, o, vs):
    a, x = lst(E, s, o)
    it = E.load(s, vs[0])
    t = targs(x.t)[0]
    out = []
    for s2, n in construct(E, s, t, vs[1:], e):
        p = at(s2, s2.heap[a], it)
        moved(E, s2, a)
        put(s2, a, s2.heap[a], p, n)
        out.append((s2, It(n)))
    return out


def l_insert(E, s, e, o, vs):
    a, x = lst(E, s, o)
    if len(vs) == 2:
        return l_emplace(E, s, e, o, vs)
    it = E.load(s, vs[0])
    f, l = E.load(s, vs[1]), E.load(s, vs[2])
    if isinstance(f, int) and not isinstance(f, bool):
        outs = [(s, [])]
        for _ in range(f):
            outs = [(s2, acc + [c]) for s1, acc in outs for s2, c in construct(E, s1, targs(x.t)[0], vs[2:3], e)]
        res = []
        for s1, acc in outs:
            p = at(s1, s1.heap[a], it)
            moved(E, s1, a)
            x1 = s1.heap[a]
            s1.heap[a] = ListV(x1.t, x1.n[:p] + tuple(acc) + x1.n[p:])
            for c in acc:
                s1.x[('own', c)] = a
            n1 = s1.heap[a].n
            res.append((s1, It(n1[p]) if p < len(n1) else It(('end', a))))
        return res
    if isinstance(f, It) and isinstance(l, It):
        src = s.heap[owner(E, s, f)]
        i, j = at(s, src, f), at(s, src, l)
        states = [(s, None)]
        first = None
        outs = [(s, [])]
        for n in src.n[i:j]:
            nxt = []
            for s1, acc in outs:
                for s2, c in construct(E, s1, targs(x.t)[0], [LV(n)], e):
                    nxt.append((s2, acc + [c]))
            outs = nxt
        res = []
        for s1, acc in outs:
            p = at(s1, s1.heap[a], it)
            moved(E, s1, a)
            x1 = s1.heap[a]
            s1.heap[a] = ListV(x1.t, x1.n[:p] + tuple(acc) + x1.n[p:])
            for c in acc:
                s1.x[('own', c)] = a
            n1 = s1.heap[a].n
            res.append((s1, It(n1[p]) if p < len(n1) else It(('end', a))))
        return res
    raise Broken('insert of a range at %s' % rel(e['l']))


def l_emplace_back(E, s, e, o, vs):
    a, x = lst(E, s, o)
    out = []
    for s2, n in construct(E, s, targs(x.t)[0], vs, e):
        moved(E, s2, a)
        x2 = s2.heap[a]
        put(s2, a, x2, len(x2.n), n)
        out.append((s2, LV(n)))
    return out


def l_emplace_front(E, s, e, o, vs):
    a, x = lst(E, s, o)
    out = []
    for s2, n in construct(E, s, targs(x.t)[0], vs, e):
        put(s2, a, s2.heap[a], 0, n)
        out.append((s2, LV(n)))
    return out


def l_erase(E, s, e, o, vs):
    a, x = lst(E, s, o)
    it = E.load(s, vs[0])
    if not isinstance(it, It):
        raise Broken('erase of %r' % (it,))
    i = at(s, x, it)
    if len(vs) == 1:
        if i == len(x.n):
            E.abort(s, 'erase of the end iterator or of another list\'s element', e)
            return []
        j = i + 1
    else:
        j = at(s, x, E.load(s, vs[1]))
    if i > j:
        E.abort(s, 'erase of a reversed range', e)
        return []
    s.heap[a] = ListV(x.t, x.n[:i] + x.n[j:])
    for n in x.n[i:j]:
        s.x.pop(('own', n), None)
        E.erased(s, a, n, e)
    return [(s, It(x.n[j]) if j < len(x.n) else It(('end', a)))]


def l_clear(E, s, e, o, vs):
    a, x = lst(E, s, o)
    s.heap[a] = ListV(x.t, ())
    for n in x.n:
        s.x.pop(('own', n), None)
        E.erased(s, a, n, e)
    return [(s, VOID)]


def l_front(E, s, e, o, vs):
    a, x = lst(E, s, o)
    if not x.n:
        E.abort(s, 'front() of an empty sequence', e)
        return []
    return [(s, LV(x.n[0]))]


def l_back(E, s, e, o, vs):
    a, x = lst(E, s, o)
    if not x.n:
        E.abort(s, 'back() of an empty sequence', e)
        return []
    return [(s, LV(x.n[-1]))]


def l_popb(E, s, e, o, vs):
    a, x = lst(E, s, o)
    if not x.n:
        E.abort(s, 'pop_back() of an empty sequence', e)
        return []
    s.heap[a] = ListV(x.t, x.n[:-1])
    return [(s, VOID)]


def l_popf(E, s, e, o, vs):
    a, x = lst(E, s, o)
    if not x.n:
        E.abort(s, 'pop_front() of an empty sequence', e)
        return []
    s.heap[a] = ListV(x.t, x.n[1:])
    return [(s, VOID)]


def l_swap(E, s, e, o, vs):
    a, x = lst(E, s, o)
    b, y = lst(E, s, vs[0])
    s.heap[a], s.heap[b] = ListV(x.t, y.n), ListV(y.t, x.n)
    return [(s, VOID)]


def l_splice(E, s, e, o, vs):
    a, x = lst(E, s, o)
    it = E.load(s, vs[0])
    b, y = lst(E, s, vs[1])
    if len(vs) == 2:
        mv = y.n
    elif len(vs) == 3:
        mv = (E.load(s, vs[2]).n,)
    else:
        i, j = at(s, y, E.load(s, vs[2])), at(s, y, E.load(s, vs[3]))
        mv = y.n[i:j]
    s.heap[b] = ListV(y.t, tuple(n for n in y.n if n not in mv))
    x = s.heap[a]
    p = at(s, x, it)
    s.heap[a] = ListV(x.t, x.n[:p] + tuple(mv) + x.n[p:])
    for n in mv:
        s.x[('own', n)] = a
    return [(s, VOID)]


def l_removeif(E, s, e, o, vs):
    a, x = lst(E, s, o)
    outs = [(s, ())]
    for n in x.n:
        nxt = []
        for s1, keep in outs:
            for s2, v in E.call_value(s1, vs[0], [LV(n)], e):
                for s3, b in E.split(s2, v):
                    nxt.append((s3, keep if b else keep + (n,)))
        outs = nxt
    for s1, keep in outs:
        s1.heap[a] = ListV(x.t, keep)
    return [(s1, VOID) for s1, _ in outs]


def seq_ctor(E, s, e, vs):
    t = strip(e['t'])
    if not vs:
        return [(s, LV(E.new(s, ListV(t, ()))))]
    x = vs[0]
    xv = s.heap[x.a] if isinstance(x, LV) else x
    if isinstance(xv, ListV):
        move = e['ck'] == 'move'
        if move:
            b = E.new(s, ListV(t, xv.n))
            s.heap[x.a] = ListV(xv.t, ())
            for n in xv.n:
                s.x[('own', n)] = b
            return [(s, LV(b))]
        return copy_list(E, s, t, xv, e)
    if isinstance(xv, (It, Pos)) and len(vs) >= 2:
        f, l = E.load(s, vs[0]), E.load(s, vs[1])
        if isinstance(f, It) and owner(E, s, f) is not None:
            src = s.heap[owner(E, s, f)]
            i, j = at(s, src, f), at(s, src, l)
            return copy_list(E, s, t, ListV(t, src.n[i:j]), e)
    xi = E.load(s, vs[0])
    if isinstance(xi, int) and not isinstance(xi, bool):
        outs = [(s, ())]
        fill = [v for v in vs[1:2] if not (isinstance(E.load(s, v), Rec) and 'llocator' in E.load(s, v).t or
                                           isinstance(E.load(s, v), (Sym, LV)) and len(e['a']) > 1 and
                                           'llocator' in e['a'][1].get('t', ''))]
        for _ in range(xi):
            nxt = []
            for s1, acc in outs:
                for s2, c in construct(E, s1, targs(t)[0], fill, e):
                    nxt.append((s2, acc + (c,)))
            outs = nxt
        res = []
        for s1, acc in outs:
            a = E.new(s1, ListV(t, acc))
            for c in acc:
                s1.x[('own', c)] = a
            res.append((s1, LV(a)))
        return res
    raise Broken('sequence constructor at %s' % rel(e['l']))


def copy_list(E, s, t, xv, e):
    outs = [(s, ())]
    et = targs(t)[0] if targs(t) else None
    for n in xv.n:
        nxt = []
        for s1, acc in outs:
            v = s1.heap[n]
            if isinstance(v, Rec):
                for s2, c in construct(E, s1, v.t, [LV(n)], e):
                    nxt.append((s2, acc + (c,)))
            else:
                nxt.append((s1, acc + (E.copy(s1, n),)))
        outs = nxt
    res = []
    for s1, acc in outs:
        a = E.new(s1, ListV(t, acc))
        for c in acc:
            s1.x[('own', c)] = a
        res.append((s1, LV(a)))
    return res


def seq_assign(E, s, e, o, vs):
    a = E.obj(s, o)
    x = s.heap[a]
    src = vs[0]
    y = s.heap[src.a] if isinstance(src, LV) else src
    if not isinstance(y, ListV):
        if isinstance(y, Sym) or isinstance(x, Sym):
            s.heap[a] = y
            return [(s, o)]
        raise Broken('assignment of %r at %s' % (y, rel(e['l'])))
    t = x.t if isinstance(x, ListV) else y.t
    for n in (x.n if isinstance(x, ListV) else ()):
        if n not in y.n:
            s.x.pop(('own', n), None)
    if e.get('pt') and e['pt'][0].endswith('&&'):
        s.heap[a] = ListV(t, y.n)
        if src.a != a:
            s.heap[src.a] = ListV(y.t, ())
        for n in y.n:
            s.x[('own', n)] = a
        return [(s, o)]
    out = []
    for s2, l in copy_list(E, s, t, y, e):
        s2.heap[a] = s2.heap[l.a]
        for n in s2.heap[a].n:
            s2.x[('own', n)] = a
        out.append((s2, o))
    return out


# --------------------------------------------------------------- iterators
def i_deref(E, s, e, o, vs):
    if o is None:
        o = vs[0]
    return deref(E, s, E.load(s, o), e)


def i_arrow(E, s, e, o, vs):
    if o is None:
        o = vs[0]
    return [(s2, Ptr(v.a)) for s2, v in deref(E, s, E.load(s, o), e)]


def i_inc(d):
    def h(E, s, e, o, vs):
        if o is None:
            o, vs = vs[0], vs[1:]
        cur = E.load(s, o)
        nv = step(E, s, cur, d, e)
        if nv is None:
            return []
        E.store(s, o.a, nv, e)
        if vs:
            return [(s, cur)]
        return [(s, o)]
    return h


def i_ctor(E, s, e, vs):
    if not vs:
        return [(s, UNINIT)]
    return [(s, E.load(s, vs[0]))]


def i_asg(E, s, e, o, vs):
    E.store(s, o.a, E.load(s, vs[0]), e)
    return [(s, o)]


def cmp_op(op):
    def h(E, s, e, o, vs):
        if o is not None:
            vs = [o] + vs
        a, b = E.load(s, vs[0]), E.load(s, vs[1])
        for x in (a, b):
            if x is UNINIT:
                E.abort(s, 'indeterminate value compared', e)
                return []
        if isinstance(a, LV) or isinstance(b, LV):
            xa = s.heap[a.a] if isinstance(a, LV) else a
            xb = s.heap[b.a] if isinstance(b, LV) else b
            if isinstance(xa, Up) or isinstance(xb, Up):
                xa = xa.p if isinstance(xa, Up) else xa
                xb = xb.p if isinstance(xb, Up) else xb
                return E.split_cmp_u(s, op, xa, xb, e)
            r = E.cmp_obj(s, op, xa, xb, e)
            if r is None:
                raise Broken('comparison of objects at %s' % rel(e['l']))
            return r
        return E.split_cmp_u(s, op, a, b, e)
    return h


def f_next(d):
    def h(E, s, e, o, vs):
        it = E.load(s, vs[0])
        k = E.load(s, vs[1]) if len(vs) > 1 else 1
        nv = step(E, s, it, k * d if isinstance(k, int) else ladd(0, k, d), e)
        return [] if nv is None else [(s, nv)]
    return h


def f_advance(E, s, e, o, vs):
    nv = step(E, s, E.load(s, vs[0]), E.load(s, vs[1]), e)
    if nv is None:
        return []
    E.store(s, vs[0].a, nv, e)
    return [(s, VOID)]


def f_distance(E, s, e, o, vs):
    a, b = E.load(s, vs[0]), E.load(s, vs[1])
    if isinstance(a, RIt) and isinstance(b, RIt):
        a, b = b.b, a.b
    if isinstance(a, Pos) and isinstance(b, Pos) and a.q == b.q:
        return [(s, ladd(b.i, a.i, -1))]
    if isinstance(a, It) and isinstance(b, It):
        o = owner(E, s, a)
        if o is None or owner(E, s, b) != o:
            E.abort(s, 'distance between iterators of different sequences', e)
            return []
        x = s.heap[o]
        return [(s, at(s, x, b) - at(s, x, a))]
    if a is UNINIT or b is UNINIT:
        E.abort(s, 'indeterminate iterator used', e)
        return []
    raise Broken('distance %r %r at %s' % (a, b, rel(e['l'])))


# ----------------------------------------------------------- smart pointers
def u_of(E, s, o):
    x = s.heap[o.a] if isinstance(o, LV) else o
    if not isinstance(x, Up):
        if isinstance(x, Sym):
            return x
        raise Broken('not an owning pointer: %r' % (x,))
    return x


def u_ctor(E, s, e, vs):
    if not vs:
        return [(s, LV(E.new(s, Up(NULL))))]
    v = vs[0]
    x = s.heap[v.a] if isinstance(v, LV) else v
    if isinstance(x, Up):
        a = E.new(s, x)
        if e['ck'] == 'move' or e.get('pt', [''])[0].endswith('&&'):
            if isinstance(v, LV) and 'shared' not in e['t']:
                s.heap[v.a] = Up(NULL)
        return [(s, LV(a))]
    return [(s, LV(E.new(s, Up(x))))]


def u_arrow(E, s, e, o, vs):
    x = u_of(E, s, o)
    if isinstance(x, Sym):
        return [(s, Ptr(deref(E, s, x, e)[0][1].a))]
    if x.p is NULL:
        E.abort(s, 'null pointer dereferenced', e)
        return []
    return [(s, x.p)]


def u_deref(E, s, e, o, vs):
    return [(s2, LV(p.a)) for s2, p in u_arrow(E, s, e, o, vs)]


def u_get(E, s, e, o, vs):
    return [(s, u_of(E, s, o).p)]


def u_bool(E, s, e, o, vs):
    x = u_of(E, s, o)
    if isinstance(x, Sym):
        return [(s, Sym(('nonnull', x.s)))]
    return [(s, x.p is not NULL)]


def u_reset(E, s, e, o, vs):
    p = E.load(s, vs[0]) if vs else NULL
    s.heap[o.a] = Up(p)
    return [(s, VOID)]


def u_release(E, s, e, o, vs):
    p = u_of(E, s, o).p
    s.heap[o.a] = Up(NULL)
    return [(s, p)]


def u_swap(E, s, e, o, vs):
    s.heap[o.a], s.heap[vs[0].a] = s.heap[vs[0].a], s.heap[o.a]
    return [(s, VOID)]


def u_asg(E, s, e, o, vs):
    v = vs[0]
    x = s.heap[v.a] if isinstance(v, LV) else v
    if isinstance(x, Up):
        s.heap[o.a] = x
        if isinstance(v, LV) and v.a != o.a and 'unique_ptr' in e.get('f', ''):
            s.heap[v.a] = Up(NULL)
    elif x is NULL:
        s.heap[o.a] = Up(NULL)
    else:
        s.heap[o.a] = Up(x) if isinstance(x, Ptr) else x
    return [(s, o)]


def f_make(E, s, e, o, vs):
    t = targs(strip(e['t']))[0]
    return [(s2, LV(E.new(s2, Up(Ptr(a))))) for s2, a in construct(E, s, t, vs, e)]


# ---------------------------------------------------------------- optional
def o_val(E, s, e, t, vs):
    """[(state, address)] the contained object"""
    return construct(E, s, targs(t)[0], vs, e)


def isopt(s, v):
    return isinstance(s.heap[v.a] if isinstance(v, LV) else v, Opt)


def o_ctor(E, s, e, vs):
    t = strip(e['t'])
    pt = [strip(p) for p in e.get('pt', [])]
    if not vs or pt and pt[0].endswith('nullopt_t'):
        return [(s, LV(E.new(s, Opt(NULL))))]
    if isopt(s, vs[0]):
        return [(s, LV(E.copy(s, vs[0].a)))]
    if pt and pt[0].endswith('in_place_t'):
        vs = vs[1:]
    return [(s2, LV(E.new(s2, Opt(Ptr(a))))) for s2, a in o_val(E, s, e, t, vs)]


def o_get(E, s, e, o, vs):
    x = s.heap[o.a]
    if x.p is NULL:
        E.abort(s, 'empty optional read', e)
        return []
    return [(s, LV(x.p.a))]


def o_asg(E, s, e, o, vs):
    pt = [strip(p) for p in e.get('pt', [])]
    if pt and pt[0].endswith('nullopt_t'):
        s.heap[o.a] = Opt(NULL)
        return [(s, o)]
    if isopt(s, vs[0]):
        E.assign_obj(s, o.a, E.obj(s, vs[0]))
        return [(s, o)]
    x = E.load(s, vs[0])
    a = E.copy(s, x.a) if isinstance(x, LV) else E.new(s, x)
    s.heap[o.a] = Opt(Ptr(a))
    return [(s, o)]


def o_reset(E, s, e, o, vs):
    s.heap[o.a] = Opt(NULL)
    return [(s, VOID)]


def o_bool(E, s, e, o, vs):
    return [(s, s.heap[o.a].p is not NULL)]


def o_arrow(E, s, e, o, vs):
    return [(s2, Ptr(v.a)) for s2, v in o_get(E, s, e, o, vs)]


def l_rend(which):
    def h(E, s, e, o, vs):
        return [(s2, RIt(v)) for s2, v in (l_end if which == 'rbegin' else l_begin)(E, s, e, o, vs)]
    return h


# --------------------------------------------------------------- utilities
def f_move(E, s, e, o, vs):
    v = vs[0]
    if isinstance(v, LV):
        s.x['moved'] = s.x.get('moved', frozenset()) | {v.a}
    return [(s, v)]


def f_forward(E, s, e, o, vs):
    v = vs[0]
    if isinstance(v, LV) and e['t'].endswith('&&') or isinstance(v, LV) and \
            any('&&' in p for p in e.get('pt', [])):
        s.x['moved'] = s.x.get('moved', frozenset()) | {v.a}
    return [(s, v)]


def f_swap(E, s, e, o, vs):
    a, b = vs[0].a, vs[1].a
    s.heap[a], s.heap[b] = s.heap[b], s.heap[a]
    return [(s, VOID)]


def f_minmax(op):
    def h(E, s, e, o, vs):
        a, b = E.load(s, vs[0]), E.load(s, vs[1])
        return [(s2, a if r else b) for s2, r in E.split_cmp_u(s, op, a, b, e)]
    return h


def f_apply(E, s, e, o, vs):
    t = s.heap[vs[1].a] if isinstance(vs[1], LV) else vs[1]
    if not isinstance(t, Tup):
        raise Broken('apply on %r' % (t,))
    f = vs[0]
    x = s.heap[f.a] if isinstance(f, LV) else f
    args = [LV(a) for a in t.e]
    return E.call_value(s, x, args, e)


def f_get(E, s, e, o, vs):
    t = s.heap[vs[0].a] if isinstance(vs[0], LV) else vs[0]
    m = re.search(r'get<(\d+)', e.get('fk', ''))
    if isinstance(t, Tup):
        if m:
            return [(s, LV(t.e[int(m.group(1))]))]
    raise Broken('std::get at %s' % rel(e['l']))


def t_ctor(E, s, e, vs):
    t = strip(e['t'])
    if e['ck'] in ('copy', 'move'):
        x = s.heap[vs[0].a]
        return [(s, LV(E.copy(s, vs[0].a)))]
    es = []
    for v in vs:
        x = E.load(s, v)
        es.append(x.a if isinstance(x, LV) else E.new(s, x))
    return [(s, LV(E.new(s, Tup(es))))]


def f_maketuple(E, s, e, o, vs):
    return t_ctor(E, s, dict(e, ck='other'), vs)


def f_id(E, s, e, o, vs):
    return [(s, vs[0])]


def p_ctor(E, s, e, vs):
    t = strip(e['t'])
    if e['ck'] in ('copy', 'move'):
        return [(s, LV(E.copy(s, vs[0].a)))]
    fs = {}
    for n, v in zip(('first', 'second'), vs):
        x = E.load(s, v)
        fs[n] = x.a if isinstance(x, LV) else E.new(s, x)
    if not vs:
        for n, ty in zip(('first', 'second'), targs(t)):
            fs[n] = E.default(s, ty, True)
    return [(s, LV(E.new(s, Rec(t, fs))))]


def void(E, s, e, o, vs):
    return [(s, VOID)]


def str_ctor(E, s, e, vs):
    if not vs:
        return [(s, StrV(''))]
    x = E.load(s, vs[0])
    return [(s, x)]


def str_op(E, s, e, o, vs):
    """string operations on unknown strings give unknown results"""
    return None


def str_size(E, s, e, o, vs):
    x = E.load(s, o)
    if isinstance(x, StrV):
        return [(s, len(x.s))]
    return E.str_unknown(s, 'size', x, [], e)


def str_empty(E, s, e, o, vs):
    x = E.load(s, o)
    if isinstance(x, StrV):
        return [(s, not x.s)]
    return E.str_unknown(s, 'empty', x, [], e)


def str_asg(E, s, e, o, vs):
    E.store(s, o.a, E.load(s, vs[0]), e)
    return [(s, o)]


def os_op(E, s, e, o, vs):
    return [(s, o if o is not None else vs[0])]


def install(E):
    n = E.nat
    for c in ('std::list', 'std::vector', 'std::deque'):
        n[('ctor', c)] = seq_ctor
        for m, h in (('begin', l_begin), ('cbegin', l_begin), ('end', l_end), ('cend', l_end),
                     ('emplace', l_emplace), ('insert', l_insert), ('emplace_back', l_emplace_back),
                     ('push_back', l_emplace_back), ('emplace_front', l_emplace_front),
                     ('push_front', l_emplace_front), ('erase', l_erase), ('clear', l_clear),
                     ('front', l_front), ('back', l_back), ('pop_back', l_popb), ('pop_front', l_popf),
                     ('swap', l_swap), ('splice', l_splice), ('remove_if', l_removeif),
                     ('operator=', seq_assign)):
            n[c + '::' + m] = h
        n[c + '::size'] = lambda E, s, e, o, vs: [(s, len(lst(E, s, o)[1].n))]
        n[c + '::empty'] = lambda E, s, e, o, vs: [(s, not lst(E, s, o)[1].n)]
        n[c + '::operator[]'] = lambda E, s, e, o, vs: E.index(s, o, E.load(s, vs[0]), e)
        n[c + '::at'] = n[c + '::operator[]']
        n[c + '::reserve'] = void
        n[c + '::resize'] = l_resize
        n[c + '::rbegin'] = n[c + '::crbegin'] = l_rend('rbegin')
        n[c + '::rend'] = n[c + '::crend'] = l_rend('rend')
    n[('ctor', 'std::optional')] = o_ctor
    for m, h in (('has_value', o_bool), ('operator bool', o_bool), ('value', o_get), ('operator*', o_get),
                 ('operator->', o_arrow), ('reset', o_reset), ('operator=', o_asg)):
        n['std::optional::' + m] = h
    for c in ('std::_List_iterator', 'std::_List_const_iterator', '__gnu_cxx::__normal_iterator',
              'std::reverse_iterator'):
        n[('ctor', c)] = i_ctor
        n[c + '::operator*'] = i_deref
        n[c + '::operator->'] = i_arrow
        n[c + '::operator++'] = i_inc(1)
        n[c + '::operator--'] = i_inc(-1)
        n[c + '::operator='] = i_asg
    for op in ('==', '!=', '<', '>', '<=', '>='):
        n['std::operator' + op] = cmp_op(op)
        n['__gnu_cxx::operator' + op] = cmp_op(op)
    n['std::next'], n['std::prev'] = f_next(1), f_next(-1)
    n['std::advance'], n['std::distance'] = f_advance, f_distance
    for c in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access'):
        n[('ctor', c)] = u_ctor
        n[c + '::operator->'] = u_arrow
        n[c + '::operator*'] = u_deref
        n[c + '::operator bool'] = u_bool
        n[c + '::get'] = u_get
        n[c + '::reset'] = u_reset
        n[c + '::release'] = u_release
        n[c + '::swap'] = u_swap
        n[c + '::operator='] = u_asg
    n['std::make_unique'] = n['std::make_shared'] = f_make
    n['std::move'], n['std::forward'] = f_move, f_forward
    n['std::as_const'] = f_id
    n['std::make_move_iterator'] = f_id
    n['std::swap'] = f_swap
    n['std::max'], n['std::min'] = f_minmax('>='), f_minmax('<=')
    n['std::apply'], n['std::get'] = f_apply, f_get
    n['std::make_tuple'] = n['std::tie'] = n['std::forward_as_tuple'] = f_maketuple
    n[('ctor', 'std::tuple')] = t_ctor
    n[('ctor', 'std::pair')] = p_ctor
    n[('ctor', 'std::basic_string')] = str_ctor
    n[('ctor', 'std::string')] = str_ctor
    n[('ctor', 'std::allocator')] = lambda E, s, e, vs: [(s, Sym('alloc'))]
    n['std::basic_string::size'] = n['std::basic_string::length'] = str_size
    n['std::basic_string::empty'] = str_empty
    n['std::basic_string::operator='] = str_asg
    def arr_ctor(E, s, e, vs):
        t = strip(e['t'])
        if e['ck'] in ('copy', 'move'):
            return [(s, LV(E.copy(s, vs[0].a)))]
        ty, k = targs(t)[:2]
        return [(s, LV(E.new(s, ListV(t, tuple(E.new(s, UNINIT) for _ in range(int(k)))))))]

    def arr_fill(E, s, e, o, vs):
        for x in s.heap[E.obj(s, o)].n:
            E.store(s, x, E.load(s, vs[0]), e)
        return [(s, VOID)]
    n[('ctor', 'std::array')] = arr_ctor
    n['std::array::fill'] = arr_fill
    n['std::array::size'] = lambda E, s, e, o, vs: [(s, len(s.heap[E.obj(s, o)].n))]
    n['std::array::operator[]'] = lambda E, s, e, o, vs: E.index(s, o, E.load(s, vs[0]), e)
    n['std::array::at'] = n['std::array::operator[]']
    # vector<bool>: elements are cells like any other
    n['std::_Bit_reference::operator bool'] = lambda E, s, e, o, vs: [(s, E.load(s, o))]
    def bit_asg(E, s, e, o, vs):
        E.store(s, o.a, E.load(s, vs[0]), e)
        return [(s, o)]
    n['std::_Bit_reference::operator='] = bit_asg
    n['std::operator<<'] = os_op
    n['std::basic_ostream::operator<<'] = os_op
    n['FLPR::Syntax_Tags::print'] = os_op
    n['*'] = E_star


def E_star(E, s, e, o, vs):
    f = bare(e.get('f', ''))
    if f.startswith(('std::basic_string::', 'std::operator+')):
        x = E.load(s, o) if o is not None else None
        return E.str_unknown(s, f.rsplit('::', 1)[-1], x, vs, e)
    return None
