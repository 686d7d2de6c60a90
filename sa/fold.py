"""Folding of functions over constant arguments: used for tables and the functions that index them"""


class NoFold(Exception):
    pass


class Goto(Exception):
    def __init__(self, n):
        self.n = n


class P:
    """pointer into an array (or to one cell)"""

    def __init__(self, a, i=0):
        self.a, self.i = a, i

    def key(self):
        return (id(self.a), self.i)


STR = {}
U = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'size_t': 64}


def cstr(s):
    if s not in STR:
        STR[s] = [ord(c) for c in s] + [0]
    return P(STR[s])


class Fold:
    def __init__(self, F, limit=20000):
        self.F, self.left, self.statics = F, limit, {}

    def call(self, q, args):
        fs = self.F.byq.get(q) or []
        if len(fs) < 1:
            raise NoFold('function %s' % q)
        f = fs[0]
        env = {p['id']: v for p, v in zip(f['params'], args)}
        kind, v = self.run(f['body'], env)
        return v

    # statements: (kind, value)
    def run(self, n, env):
        try:
            return self.st(n, env)
        except Goto as g:
            while True:
                try:
                    return self.enter(n, g.n, env)
                except Goto as h:
                    g = h

    def enter(self, n, label, env):
        """execution from a label within n"""
        path = self.find(n, label)
        if path is None:
            raise NoFold('goto %s' % label)
        kind, v = self.st(path[-1][0]['sub'], env)
        for m, i in reversed(path[:-1]):
            if kind not in ('n', 'b'):
                return kind, v
            if kind == 'b':
                if m['k'] in ('switch', 'for', 'while', 'do'):
                    kind = 'n'
                continue
            if m['k'] == 'blk':
                kind, v = self.seq(m['s'][i + 1:], env)
            elif m['k'] in ('for', 'while', 'do'):
                raise NoFold('goto into a loop')
        return kind, v

    def find(self, n, label):
        if not isinstance(n, dict):
            return None
        if n.get('k') == 'label' and n.get('n') == label:
            return [(n, 0)]
        if n.get('k') == 'blk':
            for i, c in enumerate(n['s']):
                r = self.find(c, label)
                if r:
                    return [(n, i)] + r
            return None
        for key in ('b', 'then', 'else', 'sub'):
            c = n.get(key)
            if isinstance(c, dict):
                r = self.find(c, label)
                if r:
                    return [(n, 0)] + r
        return None

    def seq(self, ss, env):
        for s in ss:
            r = self.st(s, env)
            if r[0] != 'n':
                return r
        return 'n', None

    def st(self, n, env):
        self.left -= 1
        if self.left < 0:
            raise NoFold('too long')
        if n is None:
            return 'n', None
        k = n['k']
        if k == 'blk':
            return self.seq(n['s'], env)
        if k == 'decl':
            for d in n['v']:
                self.declare(d, env)
            return 'n', None
        if k == 'expr':
            self.ev(n['e'], env)
            return 'n', None
        if k == 'ret':
            return 'r', self.ev(n['e'], env) if n.get('e') else None
        if k == 'break':
            return 'b', None
        if k == 'continue':
            return 'c', None
        if k == 'goto':
            raise Goto(n['n'])
        if k == 'label':
            return self.st(n['sub'], env)
        if k == 'nop':
            return 'n', None
        if k == 'if':
            if n.get('init'):
                self.st(n['init'], env)
            if n.get('cvar'):
                self.declare(n['cvar'], env)
            return self.st(n['then'] if self.truth(self.ev(n['c'], env)) else n.get('else'), env)
        if k == 'switch':
            v = self.ev(n['c'], env)
            flat, at, dflt = [], {}, None
            for s in n['b']['s']:
                while isinstance(s, dict) and s.get('k') in ('case', 'default'):
                    if s['k'] == 'default':
                        dflt = len(flat)
                    else:
                        at[self.ev(s['v'], env)] = len(flat)
                    s = s['sub']
                flat.append(s)
            i = at.get(v, dflt)
            if i is None:
                return 'n', None
            r = self.seq(flat[i:], env)
            return ('n', None) if r[0] == 'b' else r
        if k in ('while', 'for', 'do'):
            if n.get('init'):
                self.st(n['init'], env)
            first = k == 'do'
            while first or n.get('c') is None or self.truth(self.ev(n['c'], env)):
                first = False
                r = self.st(n['b'], env)
                if r[0] == 'b':
                    break
                if r[0] == 'r':
                    return r
                if n.get('inc'):
                    self.ev(n['inc'], env)
            return 'n', None
        raise NoFold('statement %s at %s' % (k, n.get('l')))

    def declare(self, d, env):
        if d.get('static'):
            if d['id'] not in self.statics:
                self.statics[d['id']] = self.ev(d['init'], env) if d.get('init') else 0
            env[d['id']] = self.statics[d['id']]
        else:
            env[d['id']] = self.ev(d['init'], env) if d.get('init') else None

    def truth(self, v):
        return v is not None and v != 0 if not isinstance(v, P) else True

    def lv(self, n, env):
        """(get, set)"""
        k = n['k']
        if k in ('cast', 'paren') and n.get('a'):
            return self.lv(n['a'][0] if isinstance(n['a'], list) else n['a'], env)
        if k == 'ref':
            i = n['id']
            if i not in env:
                raise NoFold('variable %s' % n.get('n'))
            return (lambda: env[i]), (lambda v: env.__setitem__(i, v))
        if k == 'idx':
            a, i = (self.ev(c, env) for c in n['a'])
            p = a if isinstance(a, P) else P(a)
            return self.cell(p, i, n)
        if k == 'un' and n['op'] == '*':
            p = self.ev(n['a'][0], env)
            return self.cell(p if isinstance(p, P) else P(p), 0, n)
        if k == 'mem':
            o = self.ev(n['b'], env)
            if isinstance(o, P):
                o = o.a[o.i]
            rec, f = o, n['n']
            if not isinstance(rec, list):
                raise NoFold('member %s' % f)
            j = self.member(n, f)
            return (lambda: rec[j]), (lambda v: rec.__setitem__(j, v))
        raise NoFold('lvalue %s at %s' % (k, n.get('l')))

    def member(self, n, f):
        for r in self.F.records.values() if isinstance(self.F.records, dict) else self.F.records:
            fs = [x['n'] for x in r.get('fields', [])]
            if r.get('q', '').endswith('Smashed') and f in fs:
                return fs.index(f)
        raise NoFold('field %s' % f)

    def cell(self, p, i, n):
        j = p.i + i
        if not (isinstance(p.a, list) and 0 <= j < len(p.a)):
            raise NoFold('access outside the array at %s' % n.get('l'))
        return (lambda: p.a[j]), (lambda v: p.a.__setitem__(j, v))

    def wrap(self, v, t):
        if isinstance(v, int) and t in U:
            return v % (1 << U[t])
        return v

    def ev(self, n, env):
        self.left -= 1
        if self.left < 0:
            raise NoFold('too long')
        k = n['k']
        if 'cv' in n:
            return n['cv']
        if k in ('int', 'bool', 'chr'):
            return int(n['v'])
        if k == 'str':
            return cstr(n['v'])
        if k == 'null' or k == 'nullptr':
            return 0
        if k == 'ilist':
            return [self.ev(c, env) for c in n['a']]
        if k == 'ref':
            if n.get('dk') == 'enum' and 'v' in n:
                return n['v']
            return self.lv(n, env)[0]()
        if k in ('idx', 'mem'):
            return self.lv(n, env)[0]()
        if k in ('cast', 'paren'):
            return self.wrap(self.ev(n['a'][0] if isinstance(n['a'], list) else n['a'], env), n.get('t'))
        if k == 'un':
            op, c = n['op'], n['a'][0]
            if op == '&':
                if c['k'] == 'idx':
                    a, i = (self.ev(x, env) for x in c['a'])
                    return P(a.a, a.i + i) if isinstance(a, P) else P(a, i)
                raise NoFold('address at %s' % n.get('l'))
            if op == '*':
                return self.lv(n, env)[0]()
            if op in ('++', '--'):
                g, s = self.lv(c, env)
                v = g()
                d = 1 if op == '++' else -1
                w = P(v.a, v.i + d) if isinstance(v, P) else self.wrap(v + d, c.get('t'))
                s(w)
                return v if n.get('post') else w
            v = self.ev(c, env)
            return {'!': lambda: int(not self.truth(v)), '-': lambda: self.wrap(-v, n.get('t')), '+': lambda: v,
                    '~': lambda: self.wrap(~v, n.get('t'))}[op]()
        if k == 'asg':
            g, s = self.lv(n['a'][0], env)
            v = self.ev(n['a'][1], env)
            if n['op'] != '=':
                v = self.bin(n['op'][:-1], g(), v, n)
            v = self.wrap(v, n['a'][0].get('t'))
            s(v)
            return v
        if k == 'bin':
            op = n['op']
            if op == '&&':
                return int(self.truth(self.ev(n['a'][0], env)) and self.truth(self.ev(n['a'][1], env)))
            if op == '||':
                return int(self.truth(self.ev(n['a'][0], env)) or self.truth(self.ev(n['a'][1], env)))
            if op == ',':
                self.ev(n['a'][0], env)
                return self.ev(n['a'][1], env)
            return self.wrap(self.bin(op, self.ev(n['a'][0], env), self.ev(n['a'][1], env), n), n.get('t'))
        if k == 'cond':
            c = n['a']
            return self.ev(c[1] if self.truth(self.ev(c[0], env)) else c[2], env)
        if k == 'call':
            f = n.get('f', '')
            args = [self.ev(a, env) for a in n['a']]
            b = f.rsplit('::', 1)[-1]
            if b in ('strcmp', 'strncmp', 'strlen') and f in (b, 'std::' + b):
                ss = [self.chars(a) for a in args[:2] if isinstance(a, P)]
                if b == 'strlen':
                    return len(ss[0])
                if b == 'strncmp':
                    ss = [x[:args[2]] for x in ss]
                return (ss[0] > ss[1]) - (ss[0] < ss[1])
            return self.call(f, args)
        raise NoFold('expression %s at %s' % (k, n.get('l')))

    def chars(self, p):
        if 0 not in p.a[p.i:]:
            raise NoFold('text without end')
        return p.a[p.i:p.a.index(0, p.i)]

    def bin(self, op, a, b, n):
        if isinstance(a, P) or isinstance(b, P):
            if op in ('+', '-') and isinstance(a, P) and not isinstance(b, P):
                return P(a.a, a.i + (b if op == '+' else -b))
            ka, kb = (x.key() if isinstance(x, P) else x for x in (a, b))
            if op in ('==', '!='):
                return int((ka == kb) == (op == '=='))
            raise NoFold('pointer %s at %s' % (op, n.get('l')))
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '==': lambda: int(a == b), '!=': lambda: int(a != b),
             '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b),
             '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b,
             '%': lambda: abs(a) % abs(b) * (1 if a >= 0 else -1), '/': lambda: int(a / b)}.get(op)
        if r is None:
            raise NoFold('operator %s' % op)
        return r()
