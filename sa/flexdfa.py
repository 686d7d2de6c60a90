"""flex scanner descriptions as labelled automata: the rules of each start
condition become one DFA whose states carry the action flex would take there
(longest match, then the earlier rule)"""
import re
from core import Broken

ALPHA = range(1, 256)       # yy_scan_string ends at NUL
CLASSES = {'alpha': lambda c: chr(c).isalpha() and c < 128, 'digit': lambda c: 48 <= c <= 57,
           'alnum': lambda c: c < 128 and chr(c).isalnum(), 'upper': lambda c: 65 <= c <= 90,
           'lower': lambda c: 97 <= c <= 122, 'space': lambda c: c in (9, 10, 11, 12, 13, 32),
           'blank': lambda c: c in (9, 32), 'punct': lambda c: 32 < c < 127 and not chr(c).isalnum(),
           'xdigit': lambda c: chr(c) in '0123456789abcdefABCDEF', 'cntrl': lambda c: c < 32 or c == 127,
           'print': lambda c: 32 <= c < 127, 'graph': lambda c: 32 < c < 127}
ESC = {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11, 'a': 7, 'b': 8}


class Unsupported(Broken):
    pass


# ------------------------------------------------------------------ regex
class Rx:
    """AST: ('set', frozenset) ('cat', [..]) ('alt', [..]) ('rep', x, lo, hi|None)"""

    def __init__(self, txt, defs, fold, where='', depth=0):
        self.t, self.i, self.defs, self.fold, self.where, self.depth = txt, 0, defs, fold, where, depth
        if depth > 20:
            raise Unsupported('recursive definition in %s' % where)

    def err(self, m):
        raise Unsupported('pattern %r (%s): %s' % (self.t, self.where, m))

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def parse(self):
        r = self.alt()
        if self.i != len(self.t):
            self.err('character %d is not understood' % self.i)
        return r

    def alt(self):
        xs = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def cat(self):
        xs = []
        while self.peek() and self.peek() not in '|)':
            xs.append(self.post())
        return ('cat', xs)

    def post(self):
        x = self.atom()
        while True:
            c = self.peek()
            if c == '*':
                x, self.i = ('rep', x, 0, None), self.i + 1
            elif c == '+':
                x, self.i = ('rep', x, 1, None), self.i + 1
            elif c == '?':
                x, self.i = ('rep', x, 0, 1), self.i + 1
            elif c == '{' and re.match(r'\{\d+(,\d*)?\}', self.t[self.i:]):
                m = re.match(r'\{(\d+)(,(\d*))?\}', self.t[self.i:])
                self.i += m.end()
                lo = int(m.group(1))
                hi = lo if m.group(2) is None else int(m.group(3)) if m.group(3) else None
                x = ('rep', x, lo, hi)
            else:
                return x

    def chars(self, cs):
        cs = set(cs)
        if self.fold:
            for c in list(cs):
                if 65 <= c <= 90:
                    cs.add(c + 32)
                if 97 <= c <= 122:
                    cs.add(c - 32)
        return ('set', frozenset(c for c in cs if c in ALPHA))

    def esc(self):
        """after a backslash"""
        c = self.peek()
        m = re.match(r'[0-7]{1,3}', self.t[self.i:])
        if m:
            self.i += m.end()
            return int(m.group(), 8)
        m = re.match(r'x[0-9a-fA-F]{1,2}', self.t[self.i:])
        if m:
            self.i += m.end()
            return int(m.group()[1:], 16)
        self.i += 1
        return ESC.get(c, ord(c))

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '(':
            if self.peek() == '?':
                self.err('(?...) is not supported')
            x = self.alt()
            if self.peek() != ')':
                self.err('unbalanced parenthesis')
            self.i += 1
            return x
        if c == '"':
            xs = []
            while self.peek() and self.peek() != '"':
                d = self.peek()
                self.i += 1
                xs.append(self.chars([self.esc() if d == '\\' else ord(d)]))
            self.i += 1
            return ('cat', xs)
        if c == '[':
            return self.cls()
        if c == '.':
            return ('set', frozenset(x for x in ALPHA if x != 10))
        if c == '\\':
            return self.chars([self.esc()])
        if c == '{':
            m = re.match(r'([A-Za-z_][A-Za-z0-9_-]*)\}', self.t[self.i:])
            if not m or m.group(1) not in self.defs:
                self.err('unknown definition')
            self.i += m.end()
            return Rx(self.defs[m.group(1)], self.defs, self.fold, self.where, self.depth + 1).parse()
        if c in '^$/<':
            self.err('anchors and trailing context are not supported')
        return self.chars([ord(c)])

    def cls(self):
        neg = False
        if self.peek() == '^':
            neg, self.i = True, self.i + 1
        cs, first = set(), True
        while self.peek() and (self.peek() != ']' or first):
            first = False
            m = re.match(r'\[:(\^?)(\w+):\]', self.t[self.i:])
            if m:
                f = CLASSES.get(m.group(2))
                if not f:
                    self.err('class ' + m.group(2))
                self.i += m.end()
                cs |= {c for c in ALPHA if f(c) != bool(m.group(1))}
                continue
            a = self.one()
            if self.peek() == '-' and self.t[self.i + 1:self.i + 2] not in (']', ''):
                self.i += 1
                b = self.one()
                cs |= set(range(a, b + 1))
            else:
                cs.add(a)
        self.i += 1
        k = self.chars(cs)[1]
        return ('set', frozenset(x for x in ALPHA if x not in k) if neg else k)

    def one(self):
        c = self.peek()
        self.i += 1
        return self.esc() if c == '\\' else ord(c)


# --------------------------------------------------------------- automata
class NFA:
    def __init__(self):
        self.eps, self.mv = [], []

    def new(self):
        self.eps.append([])
        self.mv.append([])
        return len(self.eps) - 1

    def add(self, x, a):
        """from state a; returns the end state"""
        k = x[0]
        if k == 'set':
            b = self.new()
            self.mv[a].append((x[1], b))
            return b
        if k == 'cat':
            for y in x[1]:
                a = self.add(y, a)
            return a
        if k == 'alt':
            b = self.new()
            for y in x[1]:
                s = self.new()
                self.eps[a].append(s)
                self.eps[self.add(y, s)].append(b)
            return b
        _, y, lo, hi = x
        for _ in range(lo):
            a = self.add(y, a)
        if hi is None:
            s = self.new()
            self.eps[a].append(s)
            e = self.add(y, s)
            self.eps[e].append(s)
            b = self.new()
            self.eps[s].append(b)
            return b
        end = self.new()
        for _ in range(hi - lo):
            self.eps[a].append(end)
            a = self.add(y, a)
        self.eps[a].append(end)
        return end

    def close(self, S):
        todo, S = list(S), set(S)
        while todo:
            a = todo.pop()
            for b in self.eps[a]:
                if b not in S:
                    S.add(b)
                    todo.append(b)
        return frozenset(S)


class DFA:
    """states 0..n-1, 0 is the start; trans[s][class]; acc[s] = label|None"""

    def __init__(self, rules):
        """rules: [(regex AST, label)] in order of preference"""
        n = NFA()
        start = n.new()
        fin = {}
        for k, (x, lab) in enumerate(rules):
            a = n.new()
            n.eps[start].append(a)
            fin[n.add(x, a)] = k
        labs = [l for _, l in rules]
        sets = {s for m in n.mv for s, _ in m}
        sig = {}
        for c in ALPHA:
            sig.setdefault(frozenset(i for i, s in enumerate(sorted(sets, key=sorted)) if c in s), []).append(c)
        self.cls = list(sig.values())
        self.clsof = {c: i for i, cs in enumerate(self.cls) for c in cs}
        ids, todo = {}, []
        s0 = n.close([start])
        ids[s0] = 0
        todo = [s0]
        self.trans, self.acc = [], []
        while todo:
            S = todo.pop(0)
            ks = [fin[a] for a in S if a in fin]
            self.acc.append(labs[min(ks)] if ks else None)
            row = []
            for cs in self.cls:
                T = {b for a in S for s, b in n.mv[a] if cs[0] in s}
                if not T:
                    row.append(None)
                    continue
                T = n.close(T)
                if T not in ids:
                    ids[T] = len(ids)
                    todo.append(T)
                row.append(ids[T])
            self.trans.append(row)

    def step(self, s, c):
        return None if s is None else self.trans[s][self.clsof[c]]

    def live(self):
        """labels that can be the outcome"""
        return {l for l in self.acc if l is not None}


def differ(A, B, limit=5):
    """[(text, label in A, label in B)]: shortest texts on which the automata disagree"""
    out, seen, todo = [], {(0, 0)}, [((0, 0), '')]
    reps = {}
    for c in ALPHA:
        reps.setdefault((A.clsof[c], B.clsof[c]), []).append(c)
    reps = [min(cs, key=lambda c: (not 97 <= c <= 122, not 33 <= c < 127, c)) for cs in reps.values()]
    told = set()
    while todo and len(out) < limit:
        (a, b), w = todo.pop(0)
        la = A.acc[a] if a is not None else None
        lb = B.acc[b] if b is not None else None
        if la != lb and (la, lb) not in told:
            told.add((la, lb))
            out.append((w, la, lb))
        for c in reps:
            p = (A.step(a, c), B.step(b, c))
            if p == (None, None) or p in seen:
                continue
            seen.add(p)
            todo.append((p, w + chr(c)))
    return out


# ------------------------------------------------------------- flex files
class Flex:
    """rules: [(set of start conditions, pattern, action text, line)]"""

    def __init__(self, path, txt):
        self.path = path
        self.defs, self.opts, self.excl, self.incl = {}, set(), set(), set()
        self.rules, self.eof, self.pro = [], [], ''
        txt = txt.replace('\r\n', '\n')
        parts = re.split(r'^%%.*$', txt, flags=re.M)
        if len(parts) < 2:
            raise Unsupported('%s: no rules section' % path)
        self.head(parts[0])
        self.code = parts[2] if len(parts) > 2 else ''
        self.body(parts[1], parts[0].count('\n') + 1)

    def head(self, t):
        pro = re.findall(r'^%(?:top)?\{(.*?)^%\}', t, flags=re.M | re.S)
        self.pro = '\n'.join(pro)
        t = re.sub(r'^%(?:top)?\{(.*?)^%\}', '', t, flags=re.M | re.S)
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        for l in t.split('\n'):
            if not l.strip():
                continue
            if l[0] in ' \t':
                self.pro += '\n' + l
                continue
            m = re.match(r'%option\s+(.*)', l)
            if m:
                self.opts |= set(m.group(1).split())
                continue
            m = re.match(r'%([xs])\s+(.*)', l)
            if m:
                (self.excl if m.group(1) == 'x' else self.incl).update(m.group(2).split())
                continue
            if l.startswith('%'):
                continue
            m = re.match(r'([A-Za-z_][A-Za-z0-9_-]*)\s+(.*?)\s*$', l)
            if m:
                self.defs[m.group(1)] = m.group(2)
                continue
            raise Unsupported('%s: definition %r' % (self.path, l))

    @property
    def fold(self):
        return bool(self.opts & {'case-insensitive', 'caseless'})

    def body(self, t, line):
        i, n = 0, len(t)
        stack = []          # enclosing <a,b>{ blocks
        pend = []
        while i < n:
            # start of a line
            e = t.find('\n', i)
            e = n if e < 0 else e
            l = t[i:e]
            ln = line + t.count('\n', 0, i)
            s = l.strip()
            if not s or s == '%{' or s == '%}':
                i = e + 1
                continue
            if s.startswith('/*'):
                k = t.find('*/', i)
                if k < 0:
                    raise Unsupported('%s:%d: open comment' % (self.path, ln))
                i = k + 2
                if not t[i:t.find('\n', i) if t.find('\n', i) >= 0 else n].strip():
                    i = (t.find('\n', i) + 1) or n
                continue
            if s.startswith('//'):
                i = e + 1
                continue
            if s == '}' and stack:
                stack.pop()
                i = e + 1
                continue
            if l[0] in ' \t' and not stack:
                raise Unsupported('%s:%d: code in the rules section' % (self.path, ln))
            while t[i] in ' \t':
                i += 1
            conds = None
            m = re.match(r'<([A-Za-z0-9_,* ]+)>', t[i:])
            if m:
                conds = {c.strip() for c in m.group(1).split(',')}
                i += m.end()
                if t[i] == '{' and not t[i + 1:(t.find('\n', i))].strip():
                    stack.append(conds)
                    i = t.find('\n', i) + 1
                    continue
            for c in stack:
                conds = (conds or set()) | c
            # pattern: up to unquoted white space
            j, q, br = i, False, False
            while j < n and (q or br or t[j] not in ' \t\n'):
                c = t[j]
                if c == '\\':
                    j += 1
                elif q:
                    q = c != '"'
                elif br:
                    if t.startswith('[:', j):
                        j = t.find(':]', j) + 1
                    elif c == ']' and j > br:
                        br = False
                elif c == '"':
                    q = True
                elif c == '[':
                    br = j + (2 if t.startswith('[^', j) else 1)
                j += 1
            pat = t[i:j]
            i = j
            # action
            act, i = self.action(t, i, n)
            if act.strip() == '|':
                pend.append((conds, pat, ln))
                continue
            for c, p, k in pend + [(conds, pat, ln)]:
                if p == '<<EOF>>':
                    self.eof.append((c, act, k))
                else:
                    self.rules.append((c, p, act, k))
            pend = []
        if stack or pend:
            raise Unsupported('%s: unbalanced rules' % self.path)

    def action(self, t, i, n):
        out, depth = '', 0
        while i < n:
            c = t[i]
            if t.startswith('/*', i):
                i = t.find('*/', i) + 2
                continue
            if t.startswith('//', i):
                i = t.find('\n', i)
                i = n if i < 0 else i
                continue
            if c in '"\'':
                j = i + 1
                while t[j] != c:
                    j += 2 if t[j] == '\\' else 1
                out += t[i:j + 1]
                i = j + 1
                continue
            if c == '{':
                depth += 1
            elif c == '}':
                depth -= 1
            elif c == '\n' and depth == 0:
                # a brace may follow on the next line only after a comment; flex needs it here
                return out, i + 1
            out += c
            i += 1
        return out, i

    def states(self):
        return {'INITIAL'} | self.excl | self.incl

    def of(self, state):
        """[(pattern, action, line)] active in a start condition"""
        out = []
        for conds, p, a, ln in self.rules:
            if conds is None:
                ok = state == 'INITIAL' or state in self.incl
            else:
                ok = state in conds or '*' in conds
            if ok:
                out.append((p, a, ln))
        return out

    def dfa(self, state, effect):
        """effect(action text, line) -> label"""
        rules = []
        for p, a, ln in self.of(state):
            x = Rx(p, self.defs, self.fold, '%s:%d' % (self.path, ln)).parse()
            rules.append((x, effect(a, ln)))
        rules.append((('set', frozenset(ALPHA)), 'echo'))
        d = DFA(rules)
        return d


# ------------------------------------------------------------ action texts
def helpers(code):
    """macros and small functions of the description's C++ code: name -> (parameters, body)"""
    code = re.sub(r'\\\n', ' ', re.sub(r'/\*.*?\*/', ' ', code, flags=re.S))
    code = re.sub(r'//[^\n]*', '', code)
    out = {}
    for m in re.finditer(r'^[ \t]*#[ \t]*define[ \t]+(\w+)(\(([^)]*)\))?[ \t]*(.*)$', code, re.M):
        if not m.group(1).startswith('YY'):
            out[m.group(1)] = (None if m.group(2) is None else [x.strip() for x in m.group(3).split(',') if x.strip()],
                               m.group(4).strip())
    code = re.sub(r'^[ \t]*#.*$', '', code, flags=re.M)
    for m in re.finditer(r'\b(?:void|int|auto)\s+(\w+)\s*\(([^)]*)\)\s*(?:noexcept\s*)?\{', code):
        i, d = m.end(), 1
        while i < len(code) and d:
            d += {'{': 1, '}': -1}.get(code[i], 0)
            i += 1
        ps = [re.split(r'[\s&*]+', x.strip())[-1] for x in m.group(2).split(',') if x.strip() and x.strip() != 'void']
        out.setdefault(m.group(1), (ps, code[m.end():i - 1].strip()))
    return out


def expand(t, defs, depth=4):
    if not depth or not defs:
        return t
    done = t
    for name, (ps, body) in defs.items():
        if ps is None:
            done = re.sub(r'\b%s\b(?!\s*\()' % name, lambda m: body, done)
            continue

        def put(m, ps=ps, body=body):
            args = [x.strip() for x in m.group(2).split(',')] if m.group(2).strip() else []
            if len(args) != len(ps):
                return m.group(0)
            b = body
            for p_, a_ in zip(ps, args):
                b = re.sub(r'\b%s\b' % p_, lambda _: a_, b)
            if m.group(1) and not re.search(r'\breturn\b', b):
                return 'return ' + b
            return b
        done = re.sub(r'(\breturn\s+)?(?<![\w:.])%s\s*\(([^()]*)\)' % name, put, done)
    return done if done == t else expand(done, defs, depth - 1)


def effect(text, line, path='scan_fort.l', defs=None):
    """what an action does: (token|None, characters kept, start-condition changes, position error)
    kept: 'all', a number, or ('span', characters): the prefix of these characters"""
    t = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)).strip()
    t = expand(t, defs)
    t = re.sub(r'\bdo\s*(\{[^{}]*\})\s*while\s*\(\s*(?:0|false)\s*\)', r'\1', t)
    if not re.search(r'\b(if|for|while|switch|else)\b', t):
        # only blocks and initialisers have braces
        t = re.sub(r'(\w)\s*\{([^{};]*)\}', r'\1 = \2', t)
        t = re.sub(r'[{}]', ';', t)
    ret, leng, states, pos, vars_ = None, 'all', [], [], {}
    for st in [s.strip() for s in re.split(r';', t) if s.strip()]:
        st = re.sub(r'\s+', ' ', st)
        m = re.fullmatch(r'return (?:\(?\s*(?:FLPR::)?(?:Syntax_Tags::)?(\w+)\s*\)?)', st)
        if m:
            ret = m.group(1)
            if ret == '0':
                ret = 'EOL'
            break
        m = re.fullmatch(r'(BEGIN|yy_push_state)\s*\(?\s*(\w+)\s*\)?', st)
        if m:
            states.append(('set' if m.group(1) == 'BEGIN' else 'push', {'0': 'INITIAL'}.get(m.group(2), m.group(2))))
            continue
        if re.fullmatch(r'yy_pop_state\s*\(\s*\)', st):
            states.append(('pop',))
            continue
        if re.fullmatch(r'yyterminate\s*\(\s*\)', st):
            ret = 'EOL'
            break
        m = re.fullmatch(r'(?:(?:int|size_t|std::size_t|auto)(?: const)?|const (?:int|size_t|std::size_t|auto)) (\w+) ?(?:=|\{) ?'
                         r'(?:static_cast<\w+>\()?(?:std::)?strspn\(yytext, ?"([^"]*)"\)\)?\}?', st)
        if m:
            vars_[m.group(1)] = ('span', ''.join(sorted(m.group(2))))
            continue
        m = re.fullmatch(r'yyless\s*\(\s*(\w+)\s*\)', st)
        if m:
            a = m.group(1)
            leng = int(a) if a.isdigit() else vars_.get(a)
            if leng is None:
                raise Unsupported('%s:%d: yyless(%s)' % (path, line, a))
            continue
        st = re.sub(r'^curr_line_pos = curr_line_pos - \(?(.*?)\)?$', r'curr_line_pos -= \1', st)
        m = re.fullmatch(r'curr_line_pos -= \(?yyleng(?: - (\w+))?\)?', st)
        if m:
            pos.append((leng, vars_.get(m.group(1)) if m.group(1) else None))
            continue
        if st in ('', ';') or re.fullmatch(r'\(void\) ?\w+|static_cast<void>\(.*\)', st):
            continue
        raise Unsupported('%s:%d: action %r is not understood' % (path, line, st))
    # characters counted by the position counter: all, less what was subtracted
    if not pos:
        counted = 'all'
    elif len(pos) == 1 and pos[0][0] == 'all':
        counted = 0 if pos[0][1] is None else pos[0][1]
    elif len(pos) == 1 and pos[0][0] == 0 and pos[0][1] is None:
        counted = 'all'
    else:
        raise Unsupported('%s:%d: position arithmetic is not understood' % (path, line))
    return (ret, leng, tuple(states), counted)
