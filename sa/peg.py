"""PEG terms with symbolic tags: conversion from the extracted grammar, the
specification DSL, normal forms, an interpreter (match, tree, position) and a
generator of distinguishing token sequences.

Terms (all tags are names, rule references are short names):
  ('tok',T) ('name',) ('letter',) ('lit',s) ('peek',T) ('neg',e) ('opt',e)
  ('star',e) ('seq',T,(e..)) ('alt',T,(e..)) ('rule',n) ('call',n,(T..))
  ('any1',T|None) ('fail',) ('ext',m) ('first',(e..)) ('ite',c,a,b)
Conditions: ('peekeq',k,T) ('isname',k) ('not',c) ('and',a,b) ('or',a,b)
"""
import re
from core import Broken

BUILTIN = ('consume_until_break', 'consume_parens', 'procedure_designator')


# ------------------------------------------------------------ from extraction
def from_grammar(G):
    T = G.F.tags()
    t = lambda v: T.get(v, 'TAG%s' % v)

    def cv(p):
        k = p[0]
        if k in ('tok', 'peek'):
            return (k, t(p[1]))
        if k in ('name', 'letter', 'fail'):
            return (k,)
        if k == 'lit':
            return ('lit', str(p[1]).lower())
        if k in ('neg', 'opt', 'star'):
            return (k, cv(p[1]))
        if k == 'plus':
            e = cv(p[2])
            return ('seq', t(p[1]), (e, ('star', e)))
        if k in ('seq', 'alt'):
            return (k, t(p[1]), tuple(cv(x) for x in p[2]))
        if k == 'seqif':
            return ('seq', t(p[1]), tuple(cv(x) for x in p[2]))
        if k == 'optseq':
            out = None
            for x in reversed([cv(x) for x in p[2]]):
                if out is None:
                    out = (('opt', x),)
                elif x[0] in ('opt', 'star'):
                    out = (x,) + out
                else:
                    out = (('opt', ('seq', 'HOIST', (x,) + out)),)
            return ('seq', t(p[1]), out)
        if k == 'stmt':
            return ('lit', p[1].split('(')[0].split('::')[-1])
        if k == 'eos':
            return ('peek', 'BAD')
        if k == 'do_construct':
            return ('rule', '@do')
        if k == 'tag':
            return ('tag', t(p[1]), cv(p[2]))
        if k == 'rule':
            return ('rule', G.name(p[1]))
        if k == 'call':
            return ('call', G.name(p[1]), tuple(t(c) for c in p[2]))
        if k == 'any1':
            return ('any1', t(p[1]) if p[1] >= 0 else None)
        if k == 'ext':
            return ('ext', p[1])
        if k == 'first':
            return ('first', tuple(cv(x) for x in p[1]))
        if k == 'ite':
            return ('ite', cc(p[1]), cv(p[2]), cv(p[3]))
        raise Broken('unknown PEG node %s' % (p,))

    def cc(c):
        if c[0] == 'peekeq':
            return ('peekeq', c[1], t(c[2]))
        if c[0] in ('isname', 'live', 'toplabel'):
            return c
        if c[0] == 'not':
            return ('not', cc(c[1]))
        return (c[0], cc(c[1]), cc(c[2]))

    return {G.name(k): cv(p) for k, p in G.rules.items()}


# ------------------------------------------------------------------ DSL
def show(p, top=True):
    k = p[0]
    if k == 'tok':
        return p[1]
    if k in ('name', 'letter', 'fail'):
        return k
    if k == 'lit':
        return "'%s'" % p[1]
    if k == 'peek':
        return 'eol' if p[1] == 'BAD' else '&' + p[1]
    if k == 'neg':
        return '!' + show(p[1])
    if k == 'opt':
        b = p[1]
        if b[0] == 'seq' and b[1] == 'HOIST':
            return '[ %s ]' % ' '.join(show(x) for x in b[2])
        if b[0] == 'alt' and b[1] == 'HOIST':
            return '[ %s ]' % ' | '.join(show(x) for x in b[2])
        return '[ %s ]' % show(b)
    if k == 'star':
        b = p[1]
        if b[0] == 'seq' and b[1] == 'HOIST':
            return '{ %s }' % ' '.join(show(x) for x in b[2])
        return '{ %s }' % show(b)
    if k == 'tag':
        return '%s< %s >' % (p[1], show(p[2]))
    if k == 'rule':
        return p[1]
    if k == 'call':
        return '%s(%s)' % (p[1], ','.join(p[2]))
    if k == 'any1':
        return 'any:%s' % (p[1] or 'SAME')
    if k == 'ext':
        return 'ext:' + p[1]
    if k == 'first':
        return 'first( %s )' % ' | '.join(show(x) for x in p[1])
    if k == 'ite':
        return 'if( %s ? %s : %s )' % (showc(p[1]), show(p[2]), show(p[3]))
    if k == 'seq':
        h = '' if p[1] == 'HOIST' else p[1]
        e = p[2]
        if len(e) == 2 and e[1] == ('star', ('seq', 'HOIST', (('tok', 'TK_COMMA'), e[0]))):
            return 'list:%s( %s )' % (p[1], show(e[0]))
        return '%s( %s )' % (h, ' '.join(show(x) for x in e))
    if k == 'alt':
        h = '' if p[1] == 'HOIST' else p[1]
        return '%s( %s )' % (h, ' | '.join(show(x) for x in p[2]))
    raise Broken('show %s' % (p,))


def showc(c):
    if c[0] == 'peekeq':
        return 'next%d=%s' % (c[1], c[2])
    if c[0] == 'isname':
        return 'isname%d' % c[1]
    if c[0] in ('live', 'toplabel'):
        return c[0]
    if c[0] == 'not':
        return 'not(%s)' % showc(c[1])
    return '(%s %s %s)' % (showc(c[1]), c[0], showc(c[2]))


LEX = re.compile(r"\s*(list:[A-Z_]+\(|any:\w+|ext:\w+|first\(|if\(|next\d=\w+|"
                 r"isname\d|not\(|\w+\(|\w+<|\w+|'[^']*'|[()\[\]{}<>|!&?:,])")


class DSL:
    def __init__(self, text, where='spec'):
        self.rules = {}
        cur, body = None, []
        for ln in text.split('\n'):
            ln = ln.split('#')[0].rstrip()
            if not ln:
                continue
            m = re.match(r'(\w+)\s*=\s*(.*)$', ln)
            if m and not ln[0].isspace():
                if cur:
                    self.add(cur, ' '.join(body))
                cur, body = m.group(1), [m.group(2)]
            else:
                body.append(ln)
        if cur:
            self.add(cur, ' '.join(body))

    def add(self, n, s):
        if n in self.rules:
            raise Broken('spec: duplicate rule ' + n)
        self.toks, pos = [], 0
        s = s.strip()
        while pos < len(s):
            m = LEX.match(s, pos)
            if not m:
                raise Broken('spec: %s: bad text %r' % (n, s[pos:pos + 20]))
            self.toks.append(m.group(1))
            pos = m.end()
            while pos < len(s) and s[pos].isspace():
                pos += 1
        self.i = 0
        e = self.body(None)
        if self.i != len(self.toks):
            raise Broken('spec: %s: trailing %s' % (n, self.toks[self.i:]))
        self.rules[n] = e

    def pk(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def nx(self):
        self.i += 1
        return self.toks[self.i - 1]

    def body(self, tag, wrap=True):
        """items until a closer; seq or alt with the given tag"""
        alts, cur = [], []
        while self.pk() not in (None, ')', ']', '}', '>', '?', ':'):
            if self.pk() == '|':
                self.nx()
                alts.append(cur)
                cur = []
                continue
            cur.append(self.item())
        alts.append(cur)

        def s1(c):
            return c[0] if len(c) == 1 else ('seq', 'HOIST', tuple(c))
        if len(alts) > 1:
            return ('alt', tag or 'HOIST', tuple(s1(c) for c in alts))
        if tag is None:
            return s1(cur)
        return ('seq', tag, tuple(cur))

    def item(self):
        t = self.nx()
        if t == '(':
            e = self.body('HOIST')
            self.close(')')
            return e
        if t == '[':
            e = self.body(None)
            self.close(']')
            return ('opt', e)
        if t == '{':
            e = self.body(None)
            self.close('}')
            return ('star', e)
        if t == '!':
            return ('neg', self.item())
        if t == '&':
            return ('peek', self.nx())
        if t.startswith('list:'):
            e = self.body(None)
            self.close(')')
            return ('seq', t[5:-1], (e, ('star', ('seq', 'HOIST', (('tok', 'TK_COMMA'), e)))))
        if t.startswith('any:'):
            return ('any1', None if t == 'any:SAME' else t[4:])
        if t.startswith('ext:'):
            return ('ext', t[4:])
        if t == 'first(':
            e = self.body('HOIST')
            self.close(')')
            return ('first', e[2])
        if t == 'if(':
            c = self.cond()
            self.close('?')
            a = self.body(None)
            self.close(':')
            b = self.body(None)
            self.close(')')
            return ('ite', c, a, b)
        if t.endswith('<') and len(t) > 1:
            e = self.body(None)
            self.close('>')
            return ('tag', t[:-1], e)
        if t.endswith('(') and len(t) > 1:
            n = t[:-1]
            if n.isupper() or n.startswith(('SG_', 'KW_', 'TK_')):
                e = self.body(n)
                self.close(')')
                return e
            args = []
            while self.pk() != ')':
                a = self.nx()
                if a != ',':
                    args.append(a)
            self.close(')')
            return ('call', n, tuple(args))
        if t[0] == "'":
            return ('lit', t[1:-1])
        if t == 'eol':
            return ('peek', 'BAD')
        if t in ('name', 'letter', 'fail'):
            return (t,)
        if re.match(r'(SG|KW|TK)_', t):
            return ('tok', t)
        if re.match(r'\w+$', t):
            return ('rule', t)
        raise Broken('spec: unexpected %r' % t)

    def close(self, c):
        if self.pk() != c:
            raise Broken('spec: expected %r at %s' % (c, self.toks[self.i:self.i + 5]))
        self.nx()

    def cond(self):
        t = self.nx()
        if t == '(':
            a = self.cond()
            o = self.nx()
            b = self.cond()
            self.close(')')
            return (o, a, b)
        if t == 'not(':
            a = self.cond()
            self.close(')')
            return ('not', a)
        if t.startswith('next'):
            k, v = t[4:].split('=')
            return ('peekeq', int(k), v)
        if t.startswith('isname'):
            return ('isname', int(t[6:]))
        if t in ('live', 'toplabel'):
            return (t,)
        raise Broken('spec: condition %r' % t)


# --------------------------------------------------------------- traversal
def refs(p, out=None):
    if out is None:
        out = set()
    if isinstance(p, tuple):
        if p and p[0] in ('rule', 'call') and isinstance(p[1], str):
            out.add(p[1])
            return out
        for x in p:
            refs(x, out)
    return out


class Gram:
    def __init__(self, rules):
        self.rules = dict(rules)
        self._null = {}

    def inline_rules(self, names):
        """replace references to the given rules by their bodies"""
        def go(p, st):
            if not isinstance(p, tuple):
                return p
            if p and p[0] == 'rule' and p[1] in names and p[1] in self.rules:
                if p[1] in st:
                    return p
                return ('inl', p[1], go(self.rules[p[1]], st + (p[1],)))
            return tuple(go(x, st) for x in p)
        return Gram({n: go(p, (n,)) for n, p in self.rules.items() if n not in names})

    # emptytree: may it match with no tree at all, or with an empty HOIST?
    def plain(self, p):
        """p, whenever it matches, yields a non-empty tree"""
        k = p[0]
        if k in ('tok', 'name', 'letter', 'lit', 'any1', 'seq', 'alt', 'rule', 'call', 'inl'):
            return True
        if k == 'tag':
            return self.plain(p[2])
        return False


def norm(p):
    """normal form; equal normal forms accept the same token sequences, consume
    the same tokens and build the same trees in every calling context"""
    k = p[0]
    if k == 'inl':
        b = norm(p[2])
        # a rule function is a Rule_Parser: it matches when the tree is
        # non-empty, which for seq/alt/tok bodies is the body's own verdict
        if b[0] in ('seq', 'alt', 'tok', 'name', 'letter', 'lit', 'any1', 'rule', 'call'):
            return b
        return ('inl', b)
    if k in ('neg', 'opt', 'star'):
        b = norm(p[1])
        if k == 'opt' and b[0] in ('opt', 'star'):
            return b
        if b[0] == 'alt' and b[1] == 'HOIST' and len(b[2]) == 1:
            b = b[2][0]
        return (k, b)
    if k == 'tag':
        b = norm(p[2])
        if nonempty(b):
            return norm_seq(p[1], (b,))
        return ('tag', p[1], b)
    if k == 'seq':
        return norm_seq(p[1], tuple(norm(x) for x in p[2]))
    if k == 'alt':
        out = []
        for x in p[2]:
            x = norm(x)
            if x[0] == 'alt' and x[1] == 'HOIST':
                out.extend(x[2])
            else:
                out.append(x)
        if len(out) == 1 and nonempty(out[0]):
            return norm_seq(p[1], (out[0],))
        return ('alt', p[1], tuple(out))
    if k == 'first':
        out = []
        for x in p[1]:
            x = norm(x)
            out.extend(x[1] if x[0] == 'first' else (x,))
        return ('first', tuple(out)) if len(out) > 1 else out[0]
    if k == 'ite':
        return norm_ite(p[1], norm(p[2]), norm(p[3]))
    return p


def nonempty(b):
    return b[0] in ('tok', 'name', 'letter', 'lit', 'any1', 'seq', 'alt', 'rule', 'call')


def norm_seq(tag, es):
    out = []
    for x in es:
        if x[0] == 'seq' and x[1] == 'HOIST':
            out.extend(x[2])
        else:
            out.append(x)
    if tag == 'HOIST' and len(out) == 1 and nonempty(out[0]):
        return out[0]
    return ('seq', tag, tuple(out))


def norm_ite(c, a, b):
    """decision on the look-ahead as an ordered list of atoms -> canonical"""
    if c[0] == 'not':
        return norm_ite(c[1], b, a)
    if c[0] == 'and':
        return norm_ite(c[1], norm_ite(c[2], a, b), b)
    if c[0] == 'or':
        return norm_ite(c[1], a, norm_ite(c[2], a, b))
    if a == b:
        return a
    return ('ite', c, a, b)


# ------------------------------------------------------------- interpreter
class Loop(Exception):
    pass


class Tree:
    __slots__ = ('tag', 'kids', 'tk')

    def __init__(self, tag, kids=(), tk=None):
        self.tag, self.kids, self.tk = tag, list(kids), tk

    def key(self):
        return (self.tag, self.tk, tuple(k.key() for k in self.kids))

    def text(self):
        if not self.kids:
            return self.tag
        return '%s<%s>' % (self.tag, ' '.join(k.text() for k in self.kids))


def hoist(root, t):
    if t is None:
        return
    if t.tag == 'HOIST':
        root.kids.extend(t.kids)
    else:
        root.kids.append(t)


class Interp:
    """interprets rules over a token list [(tag, text)]"""

    def __init__(self, lookup, isname):
        self.lookup, self.isname = lookup, isname
        self.fuel = 0

    def run(self, n, toks, fuel=20000, body=None):
        self.toks, self.fuel = toks, fuel
        self.memo = {}
        m, t, pos = self.rule(n, 0, body)
        return m, (t.key() if t else None), pos

    def tag(self, i):
        return self.toks[i][0] if 0 <= i < len(self.toks) else 'BAD'

    def rule(self, n, i, body=None):
        """Rule_Parser: matched iff the tree is non-empty; else rewound"""
        mk = (n, i)
        if body is None and mk in self.memo:
            r = self.memo[mk]
            if r is None:
                raise Loop()
            return r
        self.memo[mk] = None
        if body is None and n in BUILTIN:
            r = self.builtin(n, i, ())
        else:
            r = self.ev(body if body is not None else self.lookup(n), i)
        m, t, j = r
        r = (True, t, j) if t is not None else (False, None, i)
        self.memo[mk] = r
        return r

    def builtin(self, n, i, args):
        if n == 'consume_until_break':
            d, j, kids = 1, i, []
            while True:
                g = self.tag(j)
                if g in ('TK_PARENL', 'TK_BRACKETL'):
                    d += 1
                elif g in ('TK_PARENR', 'TK_BRACKETR'):
                    d -= 1
                    if d == 0:
                        break
                elif g == 'BAD':
                    if d > 1:
                        return False, None, i
                    break
                elif d == 1:
                    if g in ('TK_COMMA', 'TK_COLON'):
                        break
                    if g == 'TK_EQUAL':
                        return False, None, i
                if g == 'SG_SIGNIFICAND':
                    m, t, j2 = self.rule('real_literal_constant', j)
                    if not m:
                        return False, None, i
                    kids.append(t)
                    j = j2
                else:
                    kids.append(Tree(g, (), j))
                    j += 1
            if not kids:
                return False, None, i
            return True, Tree(args[0] if args else 'SG_EXPR', kids), j
        if n == 'consume_parens':
            if self.tag(i) != 'TK_PARENL':
                return False, None, i
            d, j, kids = 1, i + 1, [Tree('TK_PARENL', (), i)]
            while d:
                g = self.tag(j)
                if g == 'BAD':
                    return False, None, i
                d += (g == 'TK_PARENL') - (g == 'TK_PARENR')
                kids.append(Tree(g, (), j))
                j += 1
            return True, Tree('HOIST', kids), j
        if n == 'procedure_designator':
            end = len(self.toks)
            j = end
            if j > 0 and self.tag(j - 1) == 'TK_PARENR':
                d, k = 1, j - 1
                while d and k > 0:
                    k -= 1
                    g = self.tag(k)
                    d += (g == 'TK_PARENR') - (g == 'TK_PARENL')
                if d == 0 and k >= i:
                    j = k
                elif d == 0:
                    return False, None, i
                else:
                    return False, None, i
            # (part-ref %)* name, exactly up to j
            save, smemo = self.toks, self.memo
            self.toks, self.memo = self.toks[:j], {}
            try:
                pos, kids = i, []
                while True:
                    m, t, p2 = self.rule('part_ref', pos)
                    if not m or self.tag(p2) != 'TK_PERCENT':
                        break
                    kids += [t, Tree('TK_PERCENT', (), p2)]
                    pos = p2 + 1
                if self.isname(self.tag(pos)) and pos + 1 == j:
                    kids.append(Tree('TK_NAME', (), pos))
                    return True, Tree('SG_PROCEDURE_DESIGNATOR', kids), j
                return False, None, i
            finally:
                self.toks, self.memo = save, smemo
        raise Broken('builtin ' + n)

    def ev(self, p, i):
        self.fuel -= 1
        if self.fuel <= 0:
            raise Loop()
        k = p[0]
        if k == 'tok':
            if self.tag(i) == p[1]:
                return True, Tree(p[1], (), i), i + 1
            return False, None, i
        if k == 'name':
            if self.isname(self.tag(i)):
                return True, Tree('TK_NAME', (), i), i + 1
            return False, None, i
        if k == 'letter':
            if self.isname(self.tag(i)) and len(self.toks[i][1]) == 1:
                return True, Tree('TK_NAME', (), i), i + 1
            return False, None, i
        if k == 'lit':
            if self.isname(self.tag(i)) and self.toks[i][1].lower() == p[1]:
                return True, Tree('TK_NAME', (), i), i + 1
            return False, None, i
        if k == 'any1':
            if i >= len(self.toks):
                raise Loop()
            return True, Tree(p[1] or self.tag(i), (), i), i + 1
        if k == 'peek':
            return self.tag(i) == p[1], None, i
        if k == 'neg':
            m, t, j = self.ev(p[1], i)
            return (not m), None, i
        if k == 'opt':
            m, t, j = self.ev(p[1], i)
            return True, t, j
        if k == 'star':
            root, j = Tree('HOIST'), i
            while True:
                m, t, j2 = self.ev(p[1], j)
                if t is not None:
                    hoist(root, t)
                if not m:
                    j = j2
                    break
                if j2 == j:
                    raise Loop()
                j = j2
            return True, root, j
        if k == 'seq':
            root, j = Tree(p[1]), i
            for x in p[2]:
                m, t, j = self.ev(x, j)
                if t is not None:
                    hoist(root, t)
                if not m:
                    return False, None, i
            return True, root, j
        if k == 'alt':
            j = i
            for x in p[2]:
                m, t, j = self.ev(x, j)
                if m:
                    root = Tree(p[1])
                    hoist(root, t)
                    return True, root, j
            return False, None, j
        if k == 'tag':
            m, t, j = self.ev(p[2], i)
            if t is not None:
                root = Tree(p[1])
                hoist(root, t)
                t = root
            return m, t, j
        if k in ('rule',):
            return self.rule(p[1], i)
        if k == 'inl':
            m, t, j = self.ev(p[2] if len(p) == 3 else p[1], i)
            return (True, t, j) if t is not None else (False, None, i)
        if k == 'call':
            if p[1] in BUILTIN:
                m, t, j = self.builtin(p[1], i, p[2])
                return m, t, j
            raise Broken('call ' + p[1])
        if k in ('fail', 'ext'):
            return False, None, i
        if k == 'first':
            for x in p[1]:
                m, t, j = self.ev(x, i)
                if t is not None:
                    return True, t, j
            return False, None, i
        if k == 'ite':
            return self.ev(p[2] if self.cond(p[1], i) else p[3], i)
        raise Broken('interp ' + k)

    def cond(self, c, i):
        if c[0] == 'peekeq':
            return self.tag(i + c[1] - 1) == c[2]
        if c[0] == 'isname':
            return self.isname(self.tag(i + c[1] - 1))
        if c[0] == 'not':
            return not self.cond(c[1], i)
        if c[0] == 'and':
            return self.cond(c[1], i) and self.cond(c[2], i)
        return self.cond(c[1], i) or self.cond(c[2], i)


# ------------------------------------------------------- sentence generator
NAME = ('TK_NAME', 'xyz')


def tok_text(t):
    if t.startswith('KW_'):
        return (t, t[3:].lower())
    return (t, {'TK_NAME': 'xyz', 'SG_INT_LITERAL_CONSTANT': '10'}.get(t, t))


class Gen:
    """short sentences of a PEG expression: one default plus one variation per
    choice point (each-choice coverage), pairs where the product is small"""

    def __init__(self, lookup, isname, names):
        self.lookup = lookup
        self.memo = {}
        self.interp = Interp(lookup, isname)
        self.minimal(names)

    def minimal(self, names):
        """least fixpoint: one shortest sentence per nonterminal"""
        self.min = {n: v[0] for n, v in REP.items()}
        ch = True
        while ch:
            ch = False
            for n in names:
                if n in REP:
                    continue
                for s in self.shortest(self.lookup(n)):
                    old = self.min.get(n)
                    if old is not None and len(old) <= len(s):
                        continue
                    if self.accepts(n, s):
                        self.min[n] = s
                        ch = True

    def accepts(self, n, s):
        """the rule consumes exactly s, in some context"""
        for f in FOLLOW:
            try:
                m, _, pos = self.interp.run(n, s + f)
            except Loop:
                continue
            if m and pos == len(s):
                return True
        return False

    def shortest(self, p):
        """a few short candidates"""
        k = p[0]
        if k in ('tok', 'name', 'letter', 'lit', 'any1'):
            return leaf(p)
        if k in ('peek', 'neg', 'opt', 'star'):
            return [[]]
        if k == 'seq':
            out = [[]]
            for x in p[2]:
                c = self.shortest(x)[:3]
                out = [a + b for a in out for b in c][:6]
            return out
        if k == 'tag':
            return self.shortest(p[2])
        if k == 'alt' or k == 'first':
            out = []
            for x in (p[2] if k == 'alt' else p[1]):
                out += self.shortest(x)
            return sorted(out, key=len)
        if k in ('rule', 'call'):
            return [self.min[p[1]]] if p[1] in self.min else []
        if k == 'inl':
            return self.shortest(p[2] if len(p) == 3 else p[1])
        if k == 'ite':
            return self.shortest(p[2]) + self.shortest(p[3])
        return []

    def rep(self, n, depth):
        """sentences of a nonterminal, all of them accepted by it"""
        key = (n, depth)
        if key in self.memo:
            return self.memo[key]
        mn = [self.min[n]] if n in self.min else []
        self.memo[key] = mn
        if n in REP:
            r = REP[n]
        elif depth <= 0:
            r = mn
        else:
            r = []
            for s in mn + self.gen(self.lookup(n), depth - 1, 40):
                if self.accepts(n, s):
                    r.append(s)
            r = r or mn
        r = dedup(r)[:10 if depth > 1 else 4]
        self.memo[key] = r
        return r

    def gen(self, p, depth, cap=240):
        k = p[0]
        if k in ('tok', 'name', 'letter', 'lit', 'any1'):
            return leaf(p)
        if k in ('peek', 'neg'):
            return [[]]
        if k == 'opt':
            return dedup([[]] + self.gen(p[1], depth))
        if k == 'star':
            g = self.gen(p[1], depth)
            if not g:
                return [[]]
            out = [[], g[0], g[0] * 2, g[0] * 3]
            if len(g) > 1:
                out += [g[0] + g[1], g[1] + g[0]]
            return dedup(out + g)
        if k == 'seq':
            return self.prod([self.gen(x, depth) for x in p[2]], cap)
        if k == 'tag':
            return self.gen(p[2], depth)
        if k == 'alt' or k == 'first':
            parts = [self.gen(x, depth) for x in (p[2] if k == 'alt' else p[1])]
            return dedup(robin(parts))[:cap]
        if k in ('rule', 'call'):
            return self.rep(p[1], depth)
        if k == 'inl':
            return self.gen(p[2] if len(p) == 3 else p[1], depth)
        if k in ('fail', 'ext'):
            return []
        if k == 'ite':
            return dedup(robin([self.gen(p[2], depth), self.gen(p[3], depth),
                                cond_wit(p[1])]))[:cap]
        raise Broken('gen ' + k)

    def prod(self, parts, cap):
        if any(not x for x in parts):
            return []
        base = [x[0] for x in parts]
        full = [next((y for y in x if y), x[0]) for x in parts]
        out = [sum(base, []), sum(full, [])]
        cols = []
        for i, alts in enumerate(parts):
            col = []
            for a in alts:
                for b in (base, full):
                    col.append(sum(b[:i] + [a] + b[i + 1:], []))
            cols.append(dedup(col))
        out += robin(cols)
        n = len(parts)
        pairs = []
        for i in range(n):
            for j in range(i + 1, n):
                if len(parts[i]) > 1 and len(parts[j]) > 1:
                    for a in parts[i][:4]:
                        for c in parts[j][:4]:
                            b = list(base)
                            b[i], b[j] = a, c
                            pairs.append(sum(b, []))
        return dedup(out[:cap] + pairs[:cap // 2])


REP = {}


def robin(cols):
    out, i = [], 0
    while True:
        row = [c[i] for c in cols if i < len(c)]
        if not row:
            return out
        out += row
        i += 1


def leaf(p):
    k = p[0]
    if k == 'tok':
        return [[tok_text(p[1])]]
    if k == 'name':
        return [[NAME]]
    if k == 'letter':
        return [[('TK_NAME', 'i')]]
    if k == 'lit':
        return [[('TK_NAME', p[1])]]
    return [[tok_text(p[1])]] if p[1] else [[NAME]]


FOLLOW = [[], [tok_text('TK_PARENR')], [tok_text('TK_COMMA')],
          [tok_text('TK_PERCENT')], [tok_text('TK_ASTERISK')]]
REP.update({
    'consume_until_break': [[NAME], [NAME, tok_text('TK_PLUS'),
                                     tok_text('SG_INT_LITERAL_CONSTANT')]],
    'consume_parens': [[tok_text('TK_PARENL'), NAME, tok_text('TK_PARENR')]],
    'procedure_designator': [[NAME], [NAME, tok_text('TK_PERCENT'), NAME]]})


def cond_wit(c):
    """token sequences exercising a look-ahead condition"""
    ks = []

    def go(c):
        if c[0] == 'peekeq':
            ks.append((c[1], c[2]))
        elif c[0] == 'isname':
            ks.append((c[1], 'TK_NAME'))
        elif len(c) > 1:
            for x in c[1:]:
                go(x)
    go(c)
    out = []
    for k, t in ks:
        if t == 'BAD':
            out.append([NAME] * (k - 1))
        else:
            for n in (0, 1):
                out.append([NAME] * (k - 1) + [tok_text(t)] + [NAME] * n)
    return out


def dedup(l):
    seen, out = set(), []
    for x in l:
        t = tuple(x)
        if t not in seen:
            seen.add(t)
            out.append(list(x))
    return out


def alphabet(*ps):
    out = set()

    def go(p):
        if isinstance(p, tuple):
            if len(p) == 2 and p[0] in ('tok', 'peek') and p[1] != 'BAD':
                out.add(tok_text(p[1]))
            elif len(p) == 3 and p[0] == 'peekeq' and p[2] != 'BAD':
                out.add(tok_text(p[2]))
            elif len(p) == 2 and p[0] == 'lit':
                out.add(('TK_NAME', p[1]))
            else:
                for x in p:
                    go(x)
    for p in ps:
        go(p)
    out.add(NAME)
    out.add(tok_text('SG_INT_LITERAL_CONSTANT'))
    for t in ('TK_PARENL', 'TK_PARENR', 'TK_COMMA', 'TK_EQUAL'):
        out.add(tok_text(t))
    return sorted(out)


def sentences(gen_list, bodies, depth=3, mutate=True, cap=4000):
    base = []
    for g, b in zip(gen_list, bodies):
        base += g.gen(b, depth)
    base = dedup(base)
    alpha = alphabet(*bodies)
    out = list(base)
    if mutate:
        for s in base[:160]:
            for i in range(len(s)):
                out.append(s[:i] + s[i + 1:])
                out.append(s[:i + 1] + s[i:i + 1] + s[i + 1:])
                if i:
                    out.append(s[:i])
                    out.append(s[:i - 1] + [s[i], s[i - 1]] + s[i + 1:])
            for a in alpha:
                out.append(s + [a])
                out.append([a] + s)
        for s in base[:40]:
            for i in range(len(s)):
                for a in alpha:
                    out.append(s[:i] + [a] + s[i + 1:])
                    out.append(s[:i] + [a] + s[i:])
    out.append([])
    out = dedup(out)
    return out[:cap * 4]
