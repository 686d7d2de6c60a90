"""P09: statement tags, dispatch by tag and the cached statement tree agree"""
import absnat
import comb
import c_grammar
import c_prgm
import pcomb
from absint import *
from comb import TokEngine
from core import Facts, Broken, rel

E0 = {'l': '', 'k': 'call', 't': ''}
TUS = ['stmt.cc', 'parse_stmt.cc', 'LL_Stmt.cc', 'LL_TT_Range.cc', 'TT_Stream.cc', 'Stmt_Tree.cc', 'Syntax_Tags.cc']
STMT = 'FLPR::Stmt::'


class Hook(dict):
    def get(self, q, d=None):
        x = super().get(q)
        if x is None and q.startswith(STMT) and q[len(STMT):] in self.rules:
            n = q[len(STMT):]
            x = lambda E, s, e, o, vs: E.h_rule(s, n)
        return x if x is not None else d


class Eng(TokEngine):
    """rules are not followed: each leaves its name and returns a tree"""

    def __init__(self, F, rules, shapes):
        super().__init__(F)
        h = Hook(self.intercept)
        h.rules = rules
        self.intercept = h
        self.shapes = shapes
        self.unroll = 12
        self.dispatched = None
        for q in ('FLPR::LL_Stmt::print_me', 'FLPR::Syntax_Tags::print'):
            h[q] = lambda E, s, e, o, vs: [(s, vs[0])]

    def fn(self, q):
        k = [f for f in self.F.fns.values() if f['q'] == q and f.get('body')]
        if not k:
            raise Broken('%s not found' % q)
        return k[0]

    def one(self, rs):
        if len(rs) != 1:
            raise Broken('%d outcomes; %s' % (len(rs), (self.aborts + self.escapes)[:1] or ''))
        return rs[0]

    def run(self, s, q, *vs):
        return self.call(s, self.fn(q), None, list(vs), E0)

    def h_rule(self, s, n):
        s.x['called'] = s.x.get('called', ()) + (n,)
        s, a = self.build(s, self.shapes.get(n) or (self.F.tagv('BAD'),))
        s.x['built'] = s.x.get('built', ()) + ((n, a),)
        return [(s, LV(a))]

    def build(self, s, shape):
        (s, v) = self.one(self.run(s, 'verif::s_make', shape[0]))
        a = self.obj(s, v)
        for k in shape[1:]:
            s, b = self.build(s, k)
            (s, _) = self.one(self.run(s, 'verif::s_graft', LV(a), LV(b)))
        return s, a

    def fresh(self):
        return St()

    def stmt(self, s, i='0'):
        q = ('T', i)
        s.zone.add('', 'n' + i, 0)
        (s, rg) = self.one(absnat.construct(self, s, 'FLPR::SL_Range<FLPR::Token_Text>',
                                            [Pos(q, 0), Pos(q, symi('n' + i))], E0))
        (s, a) = self.one(absnat.construct(self, s, 'FLPR::LL_Stmt', [Pos('L', i), LV(rg), 0, 0], E0))
        return s, a


def root_tag(p):
    """the tag of the root node of what a rule yields, or None"""
    if p[0] in ('seq', 'alt', 'tag'):
        return p[1] if p[1] not in ('HOIST',) else None
    if p[0] == 'first':
        ts = {root_tag(x) for x in p[1]} - {None}     # the other is an extension
        return ts.pop() if len(ts) == 1 else None
    if p[0] == 'ite':
        ts = {root_tag(p[2]), root_tag(p[3])} - {None}
        return ts.pop() if len(ts) == 1 else None
    return None


def alternatives(p):
    if p[0] == 'alt':
        return [x[1] for x in p[2] if x[0] == 'rule']
    if p[0] == 'first':
        return sum((alternatives(x) for x in p[1] if x[0] != 'rule'), [])
    return []


def P09(rep):
    cg, cp = c_grammar.load(), c_prgm.load()
    code, public = cg['code'], cg['public']
    F = Facts(only=TUS)
    names = F.tags()
    ext = F.tagv('CLIENT_EXTENSION')
    AST, UNK, BAD = F.tagv('SG_ACTION_STMT'), F.tagv('UNKNOWN'), F.tagv('BAD')
    tag_of = {}
    for n, p in code.items():
        t = root_tag(p)
        if t:
            tag_of[n] = t
    rules = set(code) | set(public)
    actions = alternatives(code['action_stmt'])
    if len(actions) < 20:
        raise Broken('only %d alternatives found in action_stmt' % len(actions))
    atags = {tag_of[a] for a in actions if a in tag_of}
    lits = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) > 1 and x[0] == 'lit':
                lits.add(x[1])
            for y in x:
                walk(y)
    for r in cp['code'].values():
        walk(r)
    lits |= {'do_stmt', 'end_do'}
    stmts = {n for n in public if n.endswith('_stmt')} | (lits & set(code))
    by_tag = {}
    for n in sorted(stmts):
        if n in tag_of:
            by_tag.setdefault(tag_of[n], []).append(n)

    def shape(n):
        t = F.tagv(tag_of[n]) if n in tag_of else BAD
        if n == 'action_stmt':
            return (t, (F.tagv('SG_PRINT_STMT'),))
        return (t,)
    shapes = {n: shape(n) for n in rules}

    def eng(sh=shapes):
        return Eng(F, rules, sh)
    W = 'src/flpr/parse_stmt.cc '
    undecided = []

    def attempt(what, f):
        try:
            f()
        except Broken as e:
            undecided.append(what)
            rep.note('%s: not decided (%s)' % (what, str(e)[:160]))

    # 1. dispatch by tag ------------------------------------------------
    def dispatch(tag, n=None, sh=shapes):
        E = eng(sh)
        s, st = E.stmt(E.fresh())
        (s, ts) = E.one(absnat.construct(E, s, 'FLPR::TT_Stream', [LV(st)], E0))
        out = []
        for s1, v in E.run(s, STMT + 'parse_stmt_dispatch', tag, LV(ts)):
            a = E.obj(s1, v)
            (s1, em) = E.one(E.run(s1, 'verif::s_empty', LV(a)))
            r = None
            if E.load(s1, em) is False or E.load(s1, em) == 0:
                (s1, r) = E.one(E.run(s1, 'verif::s_root', LV(a)))
                r = E.load(s1, r)
            out.append((s1.x.get('called', ()), r))
        return out

    def one_dispatch(t):
        got = dispatch(t)
        tn = names.get(t, 'extension tag %d' % (t - ext))
        want = by_tag.get(tn)
        if len(got) != 1:
            raise Broken('%d outcomes' % len(got))
        called, root = got[0]
        if want:
            rep.check(len(called) == 1 and called[0] in want and root == t, 'dispatch:' + tn, W + 'parse_stmt_dispatch()',
                      'dispatching a statement tag applies the rule for that statement and returns its tree',
                      'dispatch of %s applies %s and returns %s; the statement is recognised by %s'
                      % (tn, ', '.join(called) or 'no rule',
                         'no tree' if root is None else 'a tree with root %s' % names.get(root), want[0]),
                      sample='%s -> %s' % (tn, called[0] if called else ''))
        else:
            ok = not called and root is None or len(called) == 1 and tag_of.get(called[0]) == tn and root == t
            rep.check(ok, 'dispatch:' + tn, W + 'parse_stmt_dispatch()',
                      'a tag that is no statement is dispatched to no rule',
                      'dispatch of %s applies %s, which yields %s' % (tn, ', '.join(called), names.get(root)))
    alltags = [t for t in sorted(names) if 0 <= t < ext]
    for t in alltags:
        attempt('dispatch of %s' % names[t], lambda: one_dispatch(t))

    # 2. action statements ----------------------------------------------
    def one_action(t):
        E = eng()
        got = [E.load(s, v) for s, v in E.run(E.fresh(), STMT + 'is_action_stmt', t)]
        if len(got) != 1 or got[0] not in (True, False, 0, 1):
            raise Broken('is_action_stmt gives %r' % (got,))
        want = names[t] in atags
        rep.check(bool(got[0]) == want, 'action:' + names[t], W + 'is_action_stmt()',
                  'is_action_stmt holds exactly for the alternatives of action-stmt',
                  'is_action_stmt(%s) is %s, but the statement is %san alternative of action_stmt'
                  % (names[t], bool(got[0]), '' if want else 'not '))
    for t in alltags:
        attempt('is_action_stmt of %s' % names[t], lambda: one_action(t))

    # 3. the tag a statement is given, and the tree rebuilt from it -------
    def stored(n, child=None, tag=None):
        """statement matched by rule n (action statement child)"""
        sh = dict(shapes)
        if child is not None:
            sh['action_stmt'] = (AST, (child,))
        E = eng(sh)
        s, st = E.stmt(E.fresh())
        s, tr = E.build(s, sh[n])
        (s, _) = E.one(E.run(s, 'verif::s_set', LV(st), LV(tr)))
        return E, s, st, sh

    def val(E, s, f, *a):
        (s, v) = E.one(E.run(s, f, *a))
        return s, E.load(s, v)

    def rebuilt(n, child=None):
        E, s, st, sh = stored(n, child)
        want = sh[n][0] if child is None else child
        wn = names.get(want, 'an extension tag')
        s, t = val(E, s, 'verif::s_tag', LV(st))
        what = n + (' (%s)' % wn if child is not None else '')
        rep.check(t == want, 'tag:' + what, 'src/flpr/LL_Stmt.hh LL_Stmt::set_stmt_tree()',
                  'the tag of a statement is the tag of the statement that was recognised',
                  'a statement recognised by %s gets the tag %s' % (what, names.get(t, t)))
        for how, undo in (('drop_stmt_tree', 'verif::s_drop'),):
            for get in ('verif::s_tree', 'verif::s_ctree'):
                s2 = s.fork()
                (s2, _) = E.one(E.run(s2, undo, LV(st)))
                s2.x.pop('called', None)
                E.aborts = []
                rs = E.run(s2, get, LV(st))
                bad = None
                if E.aborts:
                    bad = 'the assertion at %s fails' % E.aborts[0][1]
                for s3, v in rs:
                    a = E.obj(s3, v)
                    called = s3.x.get('called', ())
                    s3, em = val(E, s3, 'verif::s_empty', LV(a))
                    if em not in (False, 0):
                        bad = 'it has no tree: %s' % (', '.join(called) or 'no rule is applied')
                        continue
                    s3, r = val(E, s3, 'verif::s_root', LV(a))
                    s3, t3 = val(E, s3, 'verif::s_tag', LV(st))
                    if t3 != want:
                        bad = 'its tag becomes %s' % names.get(t3, t3)
                    elif len(called) != 1 or not same(called[0], n, child):
                        bad = '%s is applied' % ', '.join(called)
                rep.check(bad is None, 'rebuild:' + what, 'src/flpr/LL_Stmt.cc LL_Stmt::rebuild_tree_()',
                          'a statement whose tree was dropped is parsed again by the rule that recognised it',
                          'the tree of a statement recognised by %s is dropped and asked for again: %s' % (what, bad),
                          sample='%s: rebuilt by %s' % (what, n))

    def same(m, n, child):
        if m == n:
            return True
        if m == 'action_stmt':
            return n in actions
        return tag_of.get(m) == tag_of.get(n)
    for n in sorted(lits):
        if n not in tag_of:
            if n in code:
                rep.note('%s: no single root tag' % n)
            continue
        if n == 'action_stmt':
            for a in sorted(set(actions)):
                if a in tag_of:
                    attempt('re-parsing of ' + a, lambda: rebuilt('action_stmt', F.tagv(tag_of[a])))
            attempt('re-parsing of an extension', lambda: rebuilt('action_stmt', ext + 3))
        elif tag_of[n] in atags:
            sub = F.tagv(tag_of[n])

            def plain():
                shapes2 = dict(shapes)
                shapes2['action_stmt'] = (AST, (sub,))
                hold = dict(shapes)
                shapes.update(shapes2)
                try:
                    rebuilt(n)
                finally:
                    shapes.clear()
                    shapes.update(hold)
            attempt('re-parsing of ' + n, plain)
        else:
            attempt('re-parsing of ' + n, lambda: rebuilt(n))

    # 4. what else may happen to the cached tree ---------------------------
    def cache():
        E, s, st, sh = stored('call_stmt')
        T = sh['call_stmt'][0]

        def has(s, want_tree, want_tag, what):
            a = E.addr(s, st, 'stmt_tree_')
            s, em = val(E, s, 'verif::s_empty', LV(a))
            s, t = val(E, s, 'verif::s_tag', LV(st))
            rep.check((em in (False, 0)) == want_tree and t == want_tag, 'cache:' + what,
                      'src/flpr/LL_Stmt.hh LL_Stmt::%s()' % what,
                      'the cached tree never outlives the text or the tag it was made from',
                      'after %s a statement has %s tree and tag %s; expected %s tree and tag %s'
                      % (what, 'a' if em in (False, 0) else 'no', names.get(t, t),
                         'a' if want_tree else 'no', names.get(want_tag)))
        has(s, True, T, 'set_stmt_tree')
        other = F.tagv('SG_PRINT_STMT')
        for what, f, a, tree, tag in (
                ('drop_stmt_tree', 'verif::s_drop', (), False, T),
                ('reset_stmt_tree', 'verif::s_reset', (), False, UNK),
                ('set_stmt_syntag', 'verif::s_syntag', (other,), False, other)):
            s2 = s.fork()
            (s2, _) = E.one(E.run(s2, f, LV(st), *a))
            has(s2, tree, tag, what)
        s2 = s.fork()
        s2, st2 = E.stmt(s2, '1')
        (s2, _) = E.one(E.run(s2, 'verif::s_update', LV(st), LV(st2)))
        has(s2, False, T, 'update_range')
        for get in ('verif::s_tree', 'verif::s_ctree'):
            s2 = s.fork()
            s2.x.pop('called', None)
            for s3, v in E.run(s2, get, LV(st)):
                rep.check(not s3.x.get('called'), 'cache:stmt_tree', 'src/flpr/LL_Stmt.hh LL_Stmt::stmt_tree()',
                          'a cached tree is not thrown away by looking at it',
                          'stmt_tree() parses again although the tree is there')
    attempt('cached tree', cache)

    # 5. the statement inside an IF statement ------------------------------
    def inside(child):
        ifp = code['if_stmt']
        if ifp[0] != 'seq':
            raise Broken('if_stmt is no sequence')
        kids = []
        parts = list(ifp[2])
        while parts:
            p = parts.pop(0)
            if p[0] == 'seq' and p[1] == 'HOIST':
                parts = list(p[2]) + parts
                continue
            if p[0] == 'peek':
                continue
            if p[0] == 'tok':
                kids.append((F.tagv(p[1]),))
            elif p[0] == 'rule':
                t = tag_of.get(p[1])
                if t is None:
                    raise Broken('part %s of if_stmt' % p[1])
                kids.append((AST, (child,)) if p[1] == 'action_stmt' else (F.tagv(t),))
            else:
                raise Broken('part %s of if_stmt' % (p,))
        if (AST, (child,)) not in kids:
            raise Broken('no action_stmt in if_stmt')
        E = eng()
        s, st = E.stmt(E.fresh())
        IF = F.tagv('SG_IF_STMT')
        s, tr = E.build(s, (AST, (IF,) + tuple(kids)))
        (s, _) = E.one(E.run(s, 'verif::s_set', LV(st), LV(tr)))
        for look, want in ((True, -child), (False, IF)):
            E.aborts = []
            rs = E.run(s.fork(), 'verif::s_stmt_tag', LV(st), look)
            got = [E.load(s1, v) for s1, v in rs]
            rep.check(got == [want] and not E.aborts, 'inside:%s:%s' % (names[child], look),
                      'src/flpr/LL_Stmt.cc LL_Stmt::stmt_tag()',
                      'stmt_tag(true) of an IF statement is the negated tag of the statement it controls',
                      'stmt_tag(%s) of an IF statement controlling %s gives %s, expected %s%s'
                      % (look, names[child], got, want, '; the assertion at %s fails' % E.aborts[0][1] if E.aborts else ''))
    for a in sorted(set(actions)):
        if a in tag_of:
            attempt('stmt_tag of an IF statement with ' + a, lambda: inside(F.tagv(tag_of[a])))
    for n, ch in (('call_stmt', None), ('end_if_stmt', None)):
        def out():
            E, s, st, sh = stored(n)
            for look in (True, False):
                rs = E.run(s.fork(), 'verif::s_stmt_tag', LV(st), look)
                got = [E.load(s1, v) for s1, v in rs]
                rep.check(got == [sh[n][0]], 'plain:%s' % n, 'src/flpr/LL_Stmt.cc LL_Stmt::stmt_tag()',
                          'stmt_tag of any other statement is its own tag',
                          'stmt_tag(%s) of %s gives %s' % (look, n, got))
        attempt('stmt_tag of ' + n, out)
    if undecided:
        print('note: %d item(s) not decided: %s' % (len(undecided), undecided[0]))
    rep.cov.update(tags=len(alltags), statement_rules=len(stmts), program_statements=len(lits),
                   action_alternatives=len(actions), undecided=len(undecided))
    rep.need(100, 'P09')
    return ('parse_stmt_dispatch and is_action_stmt were interpreted for each of the %d tags, and the cached statement '
            'tree (set, drop, rebuild, stmt_tag) for each statement the program grammar recognises; the expected rule '
            'and tag come from the statement grammar extracted from the source.' % len(alltags))
