"""P16: trees stay linked, and navigation follows the links

Shape analysis of FLPR::Tree over an opaque value type: every operation is
interpreted abstractly (list nodes, owners and links are heap cells, values are
names) on each tree shape up to a bound, and the resulting heap is compared
with the documented effect: same values in the documented places, every node
linked to itself and to its parent, both ways.
"""
import os
import traceback
from multiprocessing import Pool
import absnat
from absint import *
from core import Facts, Broken, rel

E0 = {'l': '', 'k': 'call', 't': ''}
Q = 'verif::'
_c = {}


def facts():
    if 'F' not in _c:
        _c['F'] = Facts(only=['tree.cc'])
    return _c['F']


def shapes(n):
    """ordered trees with n nodes"""
    def forests(m):
        if m == 0:
            yield ()
            return
        for k in range(1, m + 1):
            for t in shapes(k):
                for f in forests(m - k):
                    yield (t,) + f
    for f in forests(n - 1):
        yield f


def label(t, ids):
    """shape -> (value, kids...)"""
    v = next(ids)
    return (v,) + tuple(label(k, ids) for k in t)


def trees(n, base):
    out = []
    for k in range(1, n + 1):
        for t in shapes(k):
            out.append(label(t, iter(range(base, base + 20))))
    return out


def nodes(t, path=()):
    yield path, t
    for i, k in enumerate(t[1:]):
        yield from nodes(k, path + (i,))


def sub(t, path):
    for i in path:
        t = t[1 + i]
    return t


def put(t, path, f):
    if not path:
        return f(t)
    i = path[0] + 1
    return t[:i] + (put(t[i], path[1:], f),) + t[i + 1:]


def size(t):
    return 1 + sum(size(k) for k in t[1:])


def show(t):
    if t is None:
        return 'no tree'
    return '%s%s' % (t[0], '(%s)' % ' '.join(show(k) for k in t[1:]) if len(t) > 1 else '')


class Bad(Exception):
    pass


class Eng(Engine):
    def __init__(self, F):
        super().__init__(F)
        self.unroll = 16
        self.limit = 50000000
        self.escapes = []

    def fn(self, q):
        k = [f for f in self.F.fns.values() if f['q'] == Q + q and f.get('body')]
        if not k:
            raise Broken('%s not found' % q)
        return k[0]

    def do(self, s, q, *vs):
        """one outcome, or a failed assertion"""
        self.aborts, self.trunc = [], []
        rs = self.call(s, self.fn(q), None, list(vs), E0)
        if self.aborts:
            raise Bad('%s at %s' % (self.aborts[0][0], self.aborts[0][1]))
        if self.trunc:
            raise Bad('the loop at %s does not end' % (self.trunc[0],))
        if len(rs) != 1:
            raise Broken('%s: %d outcomes' % (q, len(rs)))
        s, v = rs[0]
        return s, self.load(s, v)

    def one(self, rs):
        if len(rs) != 1:
            raise Broken('%d outcomes' % len(rs))
        return rs[0]

    def build(self, s, t):
        s, a = self.do(s, 't_make', t[0])
        a = self.obj(s, a)
        for k in t[1:]:
            s, b = self.build(s, k)
            s, _ = self.do(s, 't_graft_back_m', LV(a), LV(b))
        return s, a

    def it(self, s, a, path):
        s, i = self.do(s, 'q_root', LV(a))
        for k in path:
            i = self.child(s, i, k)
        return i

    def node(self, s, it):
        (s, n), = absnat.deref(self, s, it, {'l': ''})
        return n.a

    def child(self, s, it, k):
        s, i = self.do(s, 'qn_begin', LV(self.node(s, it)))
        for _ in range(k):
            i = absnat.step(self, s, i, 1, {'l': ''})
        return i

    def value(self, s, it):
        n = self.node(s, it)
        s, v = self.do(s, 'qn_val', LV(n))
        x = s.heap[self.obj(s, v)]
        if isinstance(x, Rec):
            x = s.heap[x.f['v']]
        return x

    def read(self, s, a):
        """the tree in the heap, all links checked"""
        s, b = self.do(s, 'q_bool', LV(a))
        s, i = self.do(s, 'q_init', LV(a))
        s, e = self.do(s, 'q_empty', LV(a))
        if b in (False, 0):
            if i not in (False, 0) or e not in (True, 1):
                raise Bad('a tree without root is said to be initialized or not empty')
            s, n = self.do(s, 'q_size', LV(a))
            if n != 0:
                raise Bad('size() of an empty tree is %s' % n)
            return None
        if i in (False, 0) or e in (True, 1):
            raise Bad('a tree with a root is said to be empty')
        s, r = self.do(s, 'q_root', LV(a))
        s, r2 = self.do(s, 'q_croot', LV(a))
        if r != r2:
            raise Bad('root() and croot() differ')
        t = self.rnode(s, r, None)
        s, n = self.do(s, 'q_size', LV(a))
        if n != size(t):
            raise Bad('size() is %s for %s' % (n, show(t)))
        self.do(s, 'q_check', LV(a))
        return t

    def rnode(self, s, it, up, depth=0):
        if depth > 12:
            raise Bad('the tree has a cycle')
        n = self.node(s, it)
        v = self.value(s, it)
        s, me = self.do(s, 'qn_self', LV(n))
        if me != it:
            raise Bad('the self link of node %s is wrong' % v)
        s, tr = self.do(s, 'qn_trunk', LV(n))
        if tr != (it if up is None else up):
            raise Bad('the parent link of node %s is wrong' % v)
        s, p = self.do(s, 'qn_arrow', LV(n))
        s, ro = self.do(s, 'qn_root', LV(n))
        if bool(ro) != (up is None):
            raise Bad('is_root() of node %s is %s' % (v, ro))
        s, leaf = self.do(s, 'qn_leaf', LV(n))
        s, fork = self.do(s, 'qn_fork', LV(n))
        s, num = self.do(s, 'qn_num', LV(n))
        kids = []
        if not leaf:
            s, i = self.do(s, 'qn_begin', LV(n))
            s, last = self.do(s, 'qn_end', LV(n))
            while i != last:
                kids.append(self.rnode(s, i, it, depth + 1))
                i = absnat.step(self, s, i, 1, {'l': ''})
                if len(kids) > 20:
                    raise Bad('the branches of node %s do not end' % v)
        t = (v,) + tuple(kids)
        if bool(leaf) != (not kids) or bool(fork) != bool(kids) or num != len(kids):
            raise Bad('node %s has %d branches, is_leaf() %s, is_fork() %s, num_branches() %s'
                      % (v, len(kids), leaf, fork, num))
        s, n2 = self.do(s, 'qn_size', LV(n))
        if n2 != size(t):
            raise Bad('size() of node %s is %s' % (v, n2))
        return t

    def expect(self, s, a, want, what='the tree'):
        got = self.read(s, a)
        if got != want:
            raise Bad('%s becomes %s, expected %s' % (what, show(got), show(want)))


# ------------------------------------------------------------- the operations
# each yields (text, thunk(E) raising Bad)

def ins(kids, i, t):
    return kids[:i] + (t,) + kids[i:]


def cases(which, n):
    A, B = trees(n, 1), trees(n, 101)
    for L, b in ((A, 1), (B, 101)):       # one wide tree as well
        L.append(tuple([b] + [(b + i,) for i in range(1, n + 2)]))
    if which == 'make':
        for f, arg, want in (('t_make', (7,), (7,)), ('t_make_true', (), (0,)), ('t_make_none', (), None)):
            def go(E, f=f, arg=arg, want=want):
                s, a = E.do(St(), f, *arg)
                E.expect(s, E.obj(s, a), want)
            yield f[2:], go

        for f in ('t_make_val', 't_make_cval'):
            def go(E, f=f):
                s = St()
                (s, v) = E.one(absnat.construct(E, s, 'verif::V', [9], E0))
                s, a = E.do(s, f, LV(E.obj(s, v) if isinstance(v, LV) else v))
                E.expect(s, E.obj(s, a), (9,))
            yield f[2:], go
    if which == 'graft':
        for a in A:
            for b in B:
                for f in ('graft_back_m', 'graft_front_m', 'graft_m', 'graft_back_r', 'graft_front_r', 'graft_r'):
                    ps = range(len(a)) if f in ('graft_m', 'graft_r') else [0 if 'front' in f else len(a) - 1]
                    for p in ps:
                        def go(E, a=a, b=b, f=f, p=p):
                            s, x = E.build(St(), a)
                            s, y = E.build(s, b)
                            arg = []
                            if f in ('graft_m', 'graft_r'):
                                arg = [E.child(s, E.it(s, x, ()), p)]
                            s, r = E.do(s, 't_' + f, LV(x), LV(y), *arg)
                            E.expect(s, x, (a[0],) + ins(a[1:], p, b))
                            if E.child(s, E.it(s, x, ()), p) != r:
                                raise Bad('the returned iterator is not the new branch')
                            if f.endswith('_r'):
                                E.expect(s, y, None, 'the donor')
                        yield '%s(%s) on %s at %d' % (f[:-2], show(b), show(a), p), go
    if which == 'emplace':
        for a in A[:-1]:
            for path, nd in nodes(a):
                for b in B[-2:]:
                    for f in ('n_emplace', 'n_emplace_front', 'n_emplace_back'):
                        k = len(nd) - 1
                        for p in (range(k + 1) if f == 'n_emplace' else [0] if 'front' in f else [k]):
                            def go(E, a=a, b=b, f=f, p=p, path=path):
                                s, x = E.build(St(), a)
                                s, y = E.build(s, b)
                                it = E.it(s, x, path)
                                n = E.node(s, it)
                                arg = [E.child(s, it, p)] if f == 'n_emplace' else []
                                s, r = E.do(s, f, LV(n), *(arg + [LV(y)]))
                                E.expect(s, x, put(a, path, lambda t: (t[0],) + ins(t[1:], p, b)))
                                if E.child(s, E.it(s, x, path), p) != r:
                                    raise Bad('the returned iterator is not the new branch')
                            yield '%s(%s) on node %s of %s at %d' % (f[2:], show(b), nd[0], show(a), p), go
    if which == 'swap':
        for a in A:
            for b in B:
                for path, nd in nodes(a):
                    def go(E, a=a, b=b, path=path, nd=nd):
                        s, x = E.build(St(), a)
                        s, y = E.build(s, b)
                        s, _ = E.do(s, 'n_swap', LV(E.node(s, E.it(s, x, path))), LV(y))
                        E.expect(s, x, put(a, path, lambda t: b))
                        E.expect(s, y, nd, 'the other tree')
                    yield 'swap of node %s of %s with %s' % (nd[0], show(a), show(b)), go

                def go(E, a=a, b=b):
                    s, x = E.build(St(), a)
                    s, y = E.build(s, b)
                    s, _ = E.do(s, 't_swap', LV(x), LV(y))
                    E.expect(s, x, b)
                    E.expect(s, y, a, 'the other tree')
                yield 'swap of %s with %s' % (show(a), show(b)), go

                def go(E, a=a, b=b):
                    s, x = E.build(St(), a)
                    s, y = E.build(s, b)
                    s, _ = E.do(s, 't_move_assign', LV(x), LV(y))
                    E.expect(s, x, b)
                    E.expect(s, y, None, 'the moved-from tree')
                yield 'move of %s over %s' % (show(b), show(a)), go
        for a in A:
            for other in (False, True):
                def go(E, a=a, other=other):
                    s, x = E.build(St(), a)
                    s, y = E.do(s, 't_make_none')
                    y = E.obj(s, y)
                    s, _ = E.do(s, 't_swap', *([LV(y), LV(x)] if other else [LV(x), LV(y)]))
                    E.expect(s, x, None)
                    E.expect(s, y, a, 'the other tree')
                yield 'swap of %s with an empty tree' % show(a), go

            def go(E, a=a):
                s, x = E.build(St(), a)
                s, _ = E.do(s, 't_clear', LV(x))
                E.expect(s, x, None)
            yield 'clear of %s' % show(a), go

            def go(E, a=a):
                s, x = E.build(St(), a)
                s, y = E.do(s, 't_move', LV(x))
                E.expect(s, E.obj(s, y), a)
                E.expect(s, x, None, 'the moved-from tree')
            yield 'move of %s' % show(a), go
    if which == 'erase':
        for a in A:
            for path, nd in nodes(a):
                for p in range(len(nd) - 1):
                    def go(E, a=a, path=path, p=p, nd=nd):
                        s, x = E.build(St(), a)
                        it = E.it(s, x, path)
                        s, r = E.do(s, 'n_erase', LV(E.node(s, it)), E.child(s, it, p))
                        E.expect(s, x, put(a, path, lambda t: t[:p + 1] + t[p + 2:]))
                        s, end = E.do(s, 'qn_end', LV(E.node(s, it)))
                        if r != (E.child(s, it, p) if p < len(nd) - 2 else end):
                            raise Bad('the returned iterator is not the next branch')
                    yield 'erase of branch %d of node %s of %s' % (p, nd[0], show(a)), go
    if which == 'history':
        # one operation after another on the same tree
        ops = ('graft_back_m', 'graft_front_r', 'emplace', 'erase', 'nswap', 'move', 'tswap')
        for a in trees(2, 1):
            for o1 in ops:
                for o2 in ops:
                    for o3 in ops:
                        def go(E, a=a, seq=(o1, o2, o3)):
                            s, x = E.build(St(), a)
                            w = a
                            for j, o in enumerate(seq):
                                b = (101 + 20 * j, (102 + 20 * j,))
                                if o in ('move',):
                                    s, y = E.do(s, 't_move', LV(x))
                                    x = E.obj(s, y)
                                elif o == 'erase':
                                    if len(w) < 2:
                                        continue
                                    it = E.it(s, x, ())
                                    s, _ = E.do(s, 'n_erase', LV(E.node(s, it)), E.child(s, it, 0))
                                    w = w[:1] + w[2:]
                                else:
                                    s, y = E.build(s, b)
                                    path = (len(w) - 2,) if len(w) > 1 else ()
                                    if o == 'emplace':
                                        n = E.node(s, E.it(s, x, path))
                                        s, _ = E.do(s, 'n_emplace_back', LV(n), LV(y))
                                        w = put(w, path, lambda t: t + (b,))
                                    elif o == 'nswap':
                                        n = E.node(s, E.it(s, x, path))
                                        s, _ = E.do(s, 'n_swap', LV(n), LV(y))
                                        E.expect(s, y, sub(w, path), 'the other tree')
                                        w = put(w, path, lambda t: b)
                                    elif o == 'tswap':
                                        s, _ = E.do(s, 't_swap', LV(x), LV(y))
                                        E.expect(s, y, w, 'the other tree')
                                        w = b
                                    else:
                                        s, _ = E.do(s, 't_' + o, LV(x), LV(y))
                                        w = (w[0], b) + w[1:] if 'front' in o else w + (b,)
                                E.expect(s, x, w)
                        yield 'on %s: %s' % (show(a), ', '.join((o1, o2, o3))), go
    if which.startswith('cursor'):
        pre = which[7:]
        for a in trees(n + 1, 1):
            for path, nd in nodes(a):
                def go(E, a=a, path=path, nd=nd, pre=pre):
                    navigate(E, a, path, nd, pre)
                yield 'cursor on node %s of %s' % (nd[0], show(a)), go

        def go(E, pre=pre):
            s, c = E.do(St(), 'c_none')
            c = E.obj(s, c)
            if pre == 'cc':
                s, c = E.do(s, 'c_conv', LV(c))
                c = E.obj(s, c)
            s, b = E.do(s, pre + '_bool', LV(c))
            if b not in (False, 0):
                raise Bad('a cursor on no tree is said to be associated')
        yield 'cursor on no tree', go


def navigate(E, a, path, nd, pre):
    s0, x = E.build(St(), a)
    it = E.it(s0, x, path)
    s0, c = E.do(s0, 'c_of', it)
    c = E.obj(s0, c)
    if pre == 'cc':
        s0, c = E.do(s0, 'c_conv', LV(c))
        c = E.obj(s0, c)
    if not path:
        for f in ('c_root',) if pre == 'cu' else ('c_croot', 'c_croot2'):
            s1, d = E.do(s0.fork(), f, LV(x))
            s1, v = E.do(s1, pre + '_val', LV(E.obj(s1, d)))
            if v != a[0]:
                raise Bad('the cursor of the tree is not on its root')
    par = sub(a, path[:-1]) if path else None
    i = path[-1] if path else 0
    want = dict(root=not path, fork=len(nd) > 1, leaf=len(nd) == 1, num=len(nd) - 1, bool=True, has_up=bool(path),
                has_prev=bool(path) and i > 0, has_next=bool(path) and i < len(par) - 2, has_down=len(nd) > 1)
    for f, w in want.items():
        s, v = E.do(s0.fork(), '%s_%s' % (pre, f), LV(c))
        if (v if f == 'num' else bool(v)) != w:
            raise Bad('%s is %s' % (f if f.startswith('has') else 'is_' + f if f != 'num' else 'num_branches', v))
    for f in ('val', 'star', 'node', 'self'):
        s, v = E.do(s0.fork(), '%s_%s' % (pre, f), LV(c))
        if v != nd[0]:
            raise Bad('%s gives the value of node %s' % (f, v))

    def reach(f, k):
        p = path
        for j in range(k):
            t = sub(a, p)
            if f == 'up':
                if not p:
                    return p, j
                p = p[:-1]
            elif f == 'down':
                if len(t) == 1:
                    return p, j
                p = p + (0,)
            elif f == 'prev':
                if not p or p[-1] == 0:
                    return p, j
                p = p[:-1] + (p[-1] - 1,)
            else:
                if not p or p[-1] + 2 >= len(sub(a, p[:-1])):
                    return p, j
                p = p[:-1] + (p[-1] + 1,)
        return p, k

    def lands(f, k, s, p):
        s, v = E.do(s, pre + '_val', LV(c))
        if v != sub(a, p)[0]:
            raise Bad('%s(%d) moves to node %s, expected node %s' % (f, k, v, sub(a, p)[0]))
        s, b = E.do(s, pre + '_bool', LV(c))
        if not b:
            raise Bad('%s(%d) leaves the cursor unassociated' % (f, k))
    for f in ('up', 'prev', 'next', 'down'):
        for k in range(4):
            p, j = reach(f, k)
            if j == k:
                s, _ = E.do(s0.fork(), '%s_%s' % (pre, f), LV(c), k)
                lands(f, k, s, p)
    for f in ('next', 'down'):
        for k in range(4):
            p, j = reach(f, k)
            s, r = E.do(s0.fork(), '%s_try_%s' % (pre, f), LV(c), k)
            if bool(r) != (j == k):
                raise Bad('try_%s(%d) returns %s' % (f, k, r))
            lands('try_' + f, k, s, p)
    s, _ = E.do(s0.fork(), pre + '_clear', LV(c))
    s, b = E.do(s, pre + '_bool', LV(c))
    if b:
        raise Bad('the cursor is associated after clear()')
    E.expect(s0, x, a, 'the tree under the cursor')


GROUPS = ('make', 'graft', 'emplace', 'swap', 'erase', 'history', 'cursor:cu', 'cursor:cc')
WHAT = {'make': 'Tree construction', 'graft': 'Tree::graft', 'emplace': 'Tree_Node::emplace', 'swap': 'swap and move',
        'erase': 'erase', 'history': 'sequences of operations', 'cursor:cu': 'TN_Cursor', 'cursor:cc': 'TN_Const_Cursor'}


def job(j):
    which, n, part, parts = j
    try:
        F = facts()
        bad, und, cnt, steps, fns = [], [], 0, 0, set()
        for k, (text, go) in enumerate(cases(which, n)):
            if k % parts != part:
                continue
            E = Eng(F)
            cnt += 1
            try:
                go(E)
            except Bad as e:
                bad.append((text, str(e)))
            except Broken as e:
                und.append((text, str(e)))
            except (KeyError, AttributeError, TypeError, ValueError, IndexError) as e:
                und.append((text, traceback.format_exc().strip().replace('\n', ' ')[-300:]))
            steps += E.steps
            fns |= E.fns_done
        return j, 'ok', dict(bad=bad, und=und, n=cnt, steps=steps, fns=sorted(fns))
    except Exception:
        return j, 'broken', traceback.format_exc()


def P16(rep):
    deep = rep.tier == 'thorough'
    facts()
    J = []
    for w in GROUPS:
        n = 4 if deep else 3
        parts = 1 if w in ('make', 'erase') else 16 if deep else 4
        J += [(w, n, p, parts) for p in range(parts)]
    with Pool(min(8, os.cpu_count() or 2)) as pool:
        R = list(pool.imap_unordered(job, J, chunksize=1))
    und = 0
    tot, steps, fns = 0, 0, set()
    for j, st, r in sorted(R, key=lambda x: repr(x[0])):
        if st != 'ok':
            raise Broken(r)
        tot += r['n']
        steps += r['steps']
        fns |= set(r['fns'])
        for t, e in r['und']:
            und += 1
            rep.note('%s: not decided (%s)' % (t, e[:120]))
        rep.ok(r['n'] - len(r['bad']) - len(r['und']), '%s: %d cases' % (WHAT[j[0]], r['n']))
        for t, e in r['bad'][:2]:
            rep.bad('%s:%s' % (j[0], e[:40]), 'src/flpr/Tree.hh %s' % WHAT[j[0]],
                    'tree operations keep values, order and links; cursors move along the links',
                    '%s: %s' % (t, e))
    if und:
        print('note: %d of %d cases not decided' % (und, tot))
    rep.cov.update(cases=tot, undecided=und, steps=steps, functions_interpreted=len(fns),
                   function_names=sorted(f for f in fns if f.startswith('FLPR'))[:60])
    if und * 2 > tot:
        raise Broken('%d of %d cases could not be analysed: %s' % (und, tot, rep.notes[0]))
    return ('Each tree operation was interpreted on every ordered tree of up to %d nodes (donors likewise), at every node '
            'and position, each cursor operation on every tree of up to %d nodes; afterwards all values, links and queries '
            'of the trees involved were compared with the documented effect.' % (n, n + 1))
