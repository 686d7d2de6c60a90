"""Extraction of the parser-combinator grammars from the resolved AST.

The combinator expressions are partially evaluated: builder functions (seq,
h_parens, ...) are inlined from their own bodies, local parser variables are
substituted, and objects of the primitive parser classes become PEG nodes:

  ('tok', tag) ('name',) ('letter',) ('lit', s) ('peek', tag) ('neg', e)
  ('opt', e) ('star', e) ('plus', tag, e) ('seq', tag, [e]) ('alt', tag, [e])
  ('tag', tag, e) ('rule', fn-key) ('call', fn-key, (const args))
  ('seqif', tag, [e]) ('optseq', tag, [e]) ('stmt', fn-key) ('eos',)
  ('opaque', why)
"""
from core import Broken, rel


class NotParser(Exception):
    pass


PRIM = {
    'Alternatives_Parser': 'alt', 'Letter_Parser': 'letter',
    'Literal_Parser': 'lit', 'Name_Parser': 'name', 'Negated_Parser': 'neg',
    'Optional_Parser': 'opt', 'Peek_Parser': 'peek', 'Rule_Parser': 'rule',
    'Sequence_Parser': 'seq', 'Star_Parser': 'star', 'Tag_Parser': 'tag',
    'Token_Parser': 'tok', 'Plus_Parser': 'plus',
    'Sequence_If_Parser': 'seqif', 'Opt_Sequence_Parser': 'optseq',
    'Statement_Parser': 'stmt', 'End_Of_Stream_Parser': 'eos',
    'Legacy_Do_Construct_Parser': 'do_construct',
}


def base_cls(name):
    """FLPR::Stmt::Sequence_Parser<...> -> Sequence_Parser"""
    n = name
    # strip trailing template argument list
    if n.endswith('>'):
        d = 0
        for i in range(len(n) - 1, -1, -1):
            if n[i] == '>':
                d += 1
            elif n[i] == '<':
                d -= 1
                if d == 0:
                    n = n[:i]
                    break
    # last component
    d = 0
    for i in range(len(n) - 1, -1, -1):
        c = n[i]
        if c == '>':
            d += 1
        elif c == '<':
            d -= 1
        elif c == ':' and d == 0:
            return n[i + 1:]
    return n


class Obj:
    def __init__(self, cls, fields, loc):
        self.cls, self.fields, self.loc = cls, fields, loc


class FnVal:
    def __init__(self, key, q):
        self.key, self.q = key, q


class StrVal(str):
    pass


class Stream:
    pass


STREAM = Stream()


class Evaluator:
    """partial evaluation of parser-valued expressions"""

    def __init__(self, F, stream_type):
        self.F = F
        self.stream_type = stream_type   # substring of the stream/state type
        self.depth = 0
        self.inlined = set()
        self.used_ops = {}               # primitive class -> set(op keys)

    # -------------------------------------------------------------- values
    def val(self, e, env):
        if e is None:
            raise NotParser('no expression')
        k = e['k']
        if k == 'ref':
            dk = e.get('dk')
            if dk == 'func':
                return FnVal(e['fk'], e['q'])
            if dk == 'enum':
                return e['v']
            if 'id' in e and e['id'] in env:
                return env[e['id']]
            if 'cv' in e:
                return e['cv']
            raise NotParser('variable %s' % e.get('n'))
        if k == 'mem':
            if 'this' in env and e['b'] and e['b']['k'] == 'this':
                fs = env['this'].fields
                if e['n'] in fs:
                    return fs[e['n']]
            if 'cv' in e:
                return e['cv']
            b = self.val(e['b'], env)
            if isinstance(b, Obj) and e['n'] in b.fields:
                return b.fields[e['n']]
            raise NotParser('member ' + e['n'])
        if k == 'ilist' and 'cv' in e:
            return e['cv']
        if k in ('int', 'chr', 'bool'):
            return e['v']
        if k == 'str':
            return StrVal(e.get('v', ''))
        if k == 'this':
            return env['this']
        if k == 'un' and e['op'] in ('*', '&'):
            return self.val(e['a'][0], env)
        if k == 'cast':
            return self.val(e['a'][0], env)
        if k == 'lambda':
            return ('lambda', e, env)
        if k in ('call', 'mcall', 'op') and e.get('f') in (
                'std::forward', 'std::move', 'std::cref', 'std::ref',
                'std::as_const'):
            return self.val(e['a'][0], env)
        if k == 'call' and e.get('f') in ('std::make_tuple', 'std::tie',
                                          'std::forward_as_tuple'):
            return ('tuple', [self.val(a, env) for a in e['a']])
        if k == 'call':
            fn = self.F.fn(e['fk']) if 'fk' in e else None
            if fn is None:
                raise NotParser('call of ' + str(e.get('f')))
            args = [self.val(a, env) for a in e['a']]
            self.inlined.add(fn['q'])
            return self.inline(fn, args, None)
        if k == 'mcall':
            o = self.val(e['o'], env)
            fn = self.F.fn(e['fk']) if 'fk' in e else None
            if fn is None or not isinstance(o, Obj):
                raise NotParser('method ' + str(e.get('f')))
            args = [self.val(a, env) for a in e['a']]
            return self.inline(fn, args, o)
        if k == 'op' and e['op'] == '()':
            c = self.val(e['a'][0], env)
            args = [self.val(a, env) for a in e['a'][1:]]
            if isinstance(c, tuple) and c[0] == 'lambda':
                fn = self.F.fn(e['fk'], env.get('tu'))
                if fn is None:
                    raise NotParser('lambda body')
                return self.inline(fn, args, None, outer=c[2])
            raise NotParser('application')
        if k == 'new_obj':
            return self.construct(e, env)
        if k in ('ilist', 'zero') and e.get('t'):
            r = self.F.records.get(strip_cv(e['t']))
            if k == 'ilist' and len(e['a']) == 1 and r is None:
                return self.val(e['a'][0], env)
            if r is not None:
                fs = {}
                for f, a in zip(r['fields'], e.get('a', [])):
                    try:
                        fs[f['n']] = self.val(a, env)
                    except NotParser:
                        fs[f['n']] = None
                return Obj(r['n'], fs, e['l'])
        if 'cv' in e:
            return e['cv']
        raise NotParser('expression %s' % k)

    def construct(self, e, env):
        if e['ck'] in ('copy', 'move') and len(e['a']) == 1:
            return self.val(e['a'][0], env)
        cls = e['cls']
        if cls.startswith('std::tuple<'):
            vs = [self.val(a, env) for a in e['a']]
            if len(vs) == 1 and isinstance(vs[0], tuple) and \
                    vs[0][0] == 'tuple' and 'tuple' in e['pt'][0]:
                return vs[0]
            return ('tuple', vs)
        if cls.startswith('std::basic_string') or \
                cls.startswith('std::__cxx11::basic_string'):
            return self.val(e['a'][0], env)
        rec = self.F.records.get(cls)
        if rec is None:
            # std wrappers around one value
            if len(e['a']) >= 1:
                return self.val(e['a'][0], env)
            raise NotParser('constructor of ' + cls)
        fn = self.F.fn(e['fk'])
        fields = {}
        if fn is not None:
            env2 = {}
            for p, a in zip(fn['params'], e['a']):
                try:
                    env2[p['id']] = self.val(a, env)
                except NotParser:
                    pass
            env2['tu'] = fn['tu']
            for i in fn.get('inits', []):
                if 'm' in i:
                    try:
                        v = self.val(i['e'], env2)
                    except NotParser:
                        v = None
                    # a tuple member built from packs
                    fields[i['m']] = v
        return Obj(cls, fields, e['l'])

    def inline(self, fn, args, this, outer=None):
        self.depth += 1
        if self.depth > 60:
            raise NotParser('recursion')
        try:
            env = dict(outer) if outer else {}
            env['tu'] = fn['tu']
            if this is not None:
                env['this'] = this
            for p, a in zip(fn['params'], args):
                env[p['id']] = a
            r = self.returned(fn['body'], env)
            if r is None:
                raise NotParser('no value returned by ' + fn['q'])
            return self.val(r, env)
        finally:
            self.depth -= 1

    def returned(self, body, env):
        """the single returned expression of straight-line code"""
        for s in body['s']:
            k = s['k']
            if k == 'decl':
                for v in s['v']:
                    try:
                        env[v['id']] = self.val(v['init'], env)
                    except NotParser:
                        pass
            elif k == 'ret':
                return s['e']
            elif k in ('nop',):
                continue
            elif k == 'blk':
                r = self.returned(s, env)
                if r is not None:
                    return r
            elif k == 'if' and s.get('c') and 'cv' in s['c']:
                b = s['then'] if s['c']['cv'] else s['else']
                if b is not None:
                    r = self.returned(b if b['k'] == 'blk' else
                                      {'s': [b]}, env)
                    if r is not None:
                        return r
            elif k == 'expr' and pure(s['e']):
                continue
            else:
                raise NotParser('statement %s' % k)
        return None

    # ---------------------------------------------------------------- PEG
    def peg(self, v):
        if isinstance(v, Obj):
            b = base_cls(v.cls)
            if b in PRIM:
                self.note(b, v)
                return self.prim(PRIM[b], v)
            return self.custom(v)
        if isinstance(v, FnVal):
            # a rule used directly as a parser (program grammar)
            return ('rule', v.key)
        if isinstance(v, tuple) and v[0] == 'lambda':
            raise NotParser('lambda parser')
        raise NotParser('not a parser: %r' % (v,))

    def note(self, b, v):
        self.used_ops.setdefault(b, set()).add(v.cls)

    def roles(self, o):
        tag, subs, fnv, s = None, [], None, None
        rec = self.F.records[o.cls]
        for f in rec['fields']:
            v = o.fields.get(f['n'])
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                if tag is None:
                    tag = v
                else:
                    raise NotParser('two tags in ' + o.cls)
            elif isinstance(v, tuple) and v[0] == 'tuple':
                subs += v[1]
            elif isinstance(v, StrVal):
                s = v
            elif isinstance(v, FnVal):
                fnv = v
                subs.append(v)
            elif isinstance(v, Obj) or (isinstance(v, tuple)):
                subs.append(v)
        return tag, subs, fnv, s

    def prim(self, kind, o):
        tag, subs, fnv, s = self.roles(o)
        if kind in ('name', 'letter', 'eos', 'do_construct'):
            return (kind,)
        if kind in ('tok', 'peek'):
            if tag is None:
                raise NotParser('token tag of ' + o.cls)
            return (kind, tag)
        if kind == 'lit':
            if s is None:
                raise NotParser('literal text')
            return ('lit', str(s).lower())
        if kind in ('rule', 'stmt'):
            if fnv is None:
                raise NotParser('rule function')
            return (kind, fnv.key)
        if kind in ('opt', 'star', 'neg'):
            return (kind, self.peg(subs[0]))
        if kind in ('tag', 'plus'):
            return (kind, tag, self.peg(subs[0]))
        if kind in ('seq', 'alt', 'seqif', 'optseq'):
            if tag is None or not subs:
                raise NotParser('operands of ' + o.cls)
            return (kind, tag, [self.peg(x) for x in subs])
        raise NotParser(kind)

    def custom(self, o):
        """a parser class that is not primitive: inline its operator()"""
        rec = self.F.records.get(o.cls)
        if rec is None:
            raise NotParser('class ' + o.cls)
        for m in rec['methods']:
            if m['n'] == 'operator()':
                fn = self.F.fn(m['key'])
                if fn is None:
                    continue
                return self.rule_body(fn, o)
        raise NotParser('class %s has no operator()' % o.cls)

    def rule_body(self, fn, this=None, args=None):
        """PEG of a function that applies a parser to its stream argument"""
        self.depth += 1
        if self.depth > 60:
            raise NotParser('recursion')
        try:
            env = {'tu': fn['tu']}
            if this is not None:
                env['this'] = this
            for i, p in enumerate(fn['params']):
                if self.stream_type in p['t']:
                    env[p['id']] = STREAM
                elif args and i < len(args) and args[i] is not None:
                    env[p['id']] = args[i]
            return self.imp(fn['body']['s'], env)
        finally:
            self.depth -= 1

    # ------------------------------------------- imperative rule functions
    def imp(self, ss, env):
        """PEG computed by a statement list that inspects the stream, applies
        parsers to it and returns a result.  On every path through the list
        at most one parser is applied successfully."""
        if not ss:
            raise NotParser('control falls off the end')
        s, rest = ss[0], ss[1:]
        k = s['k']
        if k == 'blk':
            return self.imp(s['s'] + rest, env)
        if k == 'nop':
            return self.imp(rest, env)
        if k == 'decl':
            env = dict(env)
            for n, v in enumerate(s['v']):
                i = v.get('init')
                if i is None:
                    continue
                if v.get('bindings'):
                    A = self.applied(i, env)
                    bs = v['bindings']
                    return self.tried(A, [b['id'] for b in bs], rest, env,
                                      True)
                pk = self.peek_of(i, env)
                if pk:
                    env[v['id']] = pk
                    continue
                if self.is_label(i, env):
                    env[v['id']] = ('curlabel',)
                    continue
                try:
                    env[v['id']] = self.val(i, env)
                    continue
                except NotParser:
                    pass
                try:
                    A = self.applied(i, env)
                except NotParser:
                    if 'Tree<' in v['t'] and empty_tree(i):
                        env[v['id']] = ('res', False)
                        continue
                    if self.touches_stream(i, env):
                        raise
                    continue
                return self.tried(A, [v['id']], rest, env)
            return self.imp(rest, env)
        if k == 'expr':
            e = s['e']
            if e['k'] in ('asg', 'op') and e.get('op') == '=' and \
                    e['a'][0]['k'] == 'ref' and \
                    e['a'][0].get('dk') == 'local':
                A = self.applied(e['a'][1], env)
                return self.tried(A, [e['a'][0]['id']], rest, env)
            if not self.touches_stream(e, env) or pure(e):
                return self.imp(rest, env)
            raise NotParser('statement on the stream')
        if k == 'if':
            c = s['c']
            pre = []
            if s.get('init'):
                pre = [s['init']]
            if s.get('cvar'):
                raise NotParser('condition variable')
            if pre:
                s2 = dict(s)
                s2['init'] = None
                return self.imp(pre + [s2] + rest, env)
            v = self.cond(c, env)
            T = [s['then']] if s['then'] else []
            E = [s['else']] if s['else'] else []
            if v is True:
                return self.imp(T + rest, env)
            if v is False:
                return self.imp(E + rest, env)
            return mk_ite(v, self.imp(T + rest, env), self.imp(E + rest, env))
        if k == 'switch':
            pk = self.peek_of(s['c'], env)
            if not pk:
                raise NotParser('switch')
            return self.switch(s, pk, rest, env)
        if k == 'ret':
            return self.ret(s['e'], env)
        raise NotParser('statement %s' % k)

    def switch(self, s, pk, rest, env):
        body = s['b']['s'] if s['b']['k'] == 'blk' else [s['b']]
        flat = []

        def add(x):
            if x['k'] in ('case', 'default'):
                flat.append(x)
                sub = x.get('sub')
                if sub:
                    add(sub)
            else:
                flat.append(x)
        for x in body:
            add(x)
        arms, default = [], None
        i = 0
        while i < len(flat):
            if flat[i]['k'] in ('case', 'default'):
                vals, isd = [], False
                while i < len(flat) and flat[i]['k'] in ('case', 'default'):
                    if flat[i]['k'] == 'default':
                        isd = True
                    else:
                        vals.append(case_value(flat[i]))
                    i += 1
                j, code = i, []
                while j < len(flat):
                    if flat[j]['k'] in ('case', 'default'):
                        j += 1
                        continue
                    if flat[j]['k'] == 'break':
                        break
                    code.append(flat[j])
                    j += 1
                    if code[-1]['k'] == 'ret':
                        break
                p = self.imp(code + rest, env)
                if isd:
                    default = p
                else:
                    arms.append((vals, p))
            else:
                i += 1
        out = default if default is not None else self.imp(rest, env)
        for vals, p in reversed(arms):
            c = None
            for v in vals:
                t = ('peekeq', pk[1], v)
                c = t if c is None else ('or', c, t)
            out = mk_ite(c, p, out)
        return out

    def tried(self, A, ids, rest, env, binding=False):
        if A == ('fail',):
            e2 = dict(env)
            for i in ids:
                e2[i] = ('res', False)
            return self.imp(rest, e2)
        eo, ef = dict(env), dict(env)
        for i in ids:
            eo[i], ef[i] = ('res', True), ('res', False)
        T, E = self.imp(rest, eo), self.imp(rest, ef)
        if T == ('it',):
            if E == ('fail',):
                return A
            return ('first', [A, E])
        raise NotParser('work after a successful parse')

    def ret(self, e, env):
        x = strip_conv(e)
        if x['k'] == 'ref' and isinstance(env.get(x.get('id')), tuple) and \
                env[x['id']][0] == 'res':
            return ('it',) if env[x['id']][1] else ('fail',)
        if x['k'] == 'mem' and x['n'] == 'parse_tree' and x['b']:
            return self.ret(x['b'], env)
        if empty_tree(e):
            return ('fail',)
        if x['k'] == 'cond':
            v = self.cond(x['a'][0], env)
            if v is True or v is False:
                return self.ret(x['a'][1 if v else 2], env)
            return mk_ite(v, self.ret(x['a'][1], env),
                          self.ret(x['a'][2], env))
        if e['k'] == 'new_obj' and 'Tree<' in e['cls'] and len(e['a']) == 2:
            try:
                tag = self.val(e['a'][0], env)
            except NotParser:
                tag = None
                if self.peek_of(e['a'][0], env) == ('pk', 1):
                    tag = -1
            d = e['a'][1]
            while d['k'] == 'new_obj' and len(d['a']) == 1:
                d = d['a'][0]
            if d['k'] == 'mcall' and d['f'].endswith('TT_Stream::digest') and \
                    self.is_stream(d['o'], env) and isinstance(tag, int):
                n = 1
                if d['a']:
                    n = self.val(d['a'][0], env)
                if n == 1:
                    return ('any1', tag)
        return self.applied(e, env)

    def peek_of(self, e, env):
        if e is None:
            return None
        if e['k'] == 'ilist' and len(e.get('a', [])) == 1:
            return self.peek_of(e['a'][0], env)
        if e['k'] == 'cast':
            return self.peek_of(e['a'][0], env)
        if e['k'] == 'mcall' and e['f'].endswith('TT_Stream::peek') and \
                self.is_stream(e['o'], env):
            k = 1
            if e['a']:
                try:
                    k = self.val(e['a'][0], env)
                except NotParser:
                    return None
            return ('pk', k)
        if e['k'] == 'ref' and isinstance(env.get(e.get('id')), tuple) and \
                env[e['id']][0] == 'pk':
            return env[e['id']]
        return None

    def cond(self, e, env):
        """True / False / predicate over upcoming tokens"""
        k = e['k']
        if k == 'cast' or (k == 'ilist' and len(e['a']) == 1):
            return self.cond(e['a'][0], env)
        if k == 'bool':
            return bool(e['v'])
        if k == 'un' and e['op'] == '!':
            return neg(self.cond(e['a'][0], env))
        if k == 'op' and e['op'] == '!' and not self.is_ss(e['a'][0], env):
            return neg(self.cond(e['a'][0], env))
        if k == 'bin' and e['op'] in ('||', '&&'):
            a, b = self.cond(e['a'][0], env), self.cond(e['a'][1], env)
            if e['op'] == '||':
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                return a if b is False else ('or', a, b)
            if a is False or b is False:
                return False
            if a is True:
                return b
            return a if b is True else ('and', a, b)
        if k == 'bin' and e['op'] in ('==', '!='):
            for x, y in (e['a'], e['a'][::-1]):
                pk = self.peek_of(x, env)
                if pk:
                    t = ('peekeq', pk[1], self.val(y, env))
                    return t if e['op'] == '==' else ('not', t)
            a, b = self.val(e['a'][0], env), self.val(e['a'][1], env)
            if isinstance(a, int) and isinstance(b, int):
                return (a == b) == (e['op'] == '==')
        if k == 'call' and e.get('f', '').endswith('Syntax_Tags::is_name'):
            pk = self.peek_of(e['a'][0], env)
            if pk:
                return ('isname', pk[1])
        if k == 'mcall' and not e['a'] and \
                e['f'].split('::')[-1] == 'operator bool' and \
                self.is_ss(e['o'], env):
            return ('live',)
        if k == 'op' and e['op'] == '!' and self.is_ss(e['a'][0], env):
            return ('not', ('live',))
        if k == 'mcall' and e['f'].split('::')[-1] == 'is_top' and \
                len(e['a']) == 1 and self.is_stack(e['o'], env) and \
                self.is_label(e['a'][0], env):
            return ('toplabel',)
        if k == 'mem' and e['n'] in ('match', 'parse_tree') and e['b']:
            return self.cond(e['b'], env)
        if k == 'mcall' and not e['a'] and e['f'].split('::')[-1] in (
                'operator bool', 'tree_initialized'):
            return self.cond(e['o'], env)
        if k == 'mcall' and not e['a'] and e['f'].split('::')[-1] == 'empty':
            return neg(self.cond(e['o'], env))
        if k == 'ref':
            v = env.get(e.get('id'))
            if isinstance(v, tuple) and v and v[0] == 'res':
                return v[1]
            if isinstance(v, (bool, int)):
                return bool(v)
        if k == 'call' and 'fk' in e:
            fn = self.F.fn(e['fk'])
            if fn is not None and fn['rt'].endswith('bool'):
                env2 = {'tu': fn['tu']}
                for p, a in zip(fn['params'], e['a']):
                    pk = self.peek_of(a, env)
                    if pk:
                        env2[p['id']] = pk
                    elif self.is_stream(a, env):
                        env2[p['id']] = STREAM
                    else:
                        env2[p['id']] = self.val(a, env)
                return self.cond_body(fn['body']['s'], env2)
        raise NotParser('condition %s' % k)

    def cond_body(self, ss, env):
        if not ss:
            raise NotParser('condition helper')
        s, rest = ss[0], ss[1:]
        if s['k'] == 'ret':
            return self.cond(s['e'], env)
        if s['k'] == 'blk':
            return self.cond_body(s['s'] + rest, env)
        if s['k'] == 'decl':
            env = dict(env)
            for v in s['v']:
                pk = self.peek_of(v['init'], env)
                env[v['id']] = pk if pk else self.val(v['init'], env)
            return self.cond_body(rest, env)
        if s['k'] == 'if' and not s.get('init') and not s.get('cvar'):
            c = self.cond(s['c'], env)
            a = self.cond_body(([s['then']] if s['then'] else []) + rest, env)
            b = self.cond_body(([s['else']] if s['else'] else []) + rest, env)
            if c is True:
                return a
            if c is False:
                return b
            return b_or(b_and(c, a), b_and(neg(c), b))
        raise NotParser('condition helper')

    def touches_stream(self, e, env):
        from core import walk
        return any(n.get('k') == 'ref' and env.get(n.get('id')) is STREAM
                   for n in walk(e))

    def applied(self, e, env):
        """e is <parser>(stream), possibly wrapped in conversions"""
        if e['k'] == 'mcall' and 'fk' in e and len(e['a']) == 1 and \
                self.is_stream(e['a'][0], env) and \
                'Parser_Exts' in e.get('f', ''):
            return ('ext', e['f'].split('::')[-1])
        while True:
            if e['k'] == 'mcall' and e['f'].split('::')[-1].startswith(
                    'operator ') and not e['a']:
                e = e['o']
                continue
            if e['k'] == 'new_obj' and len(e['a']) == 1:
                e = e['a'][0]
                continue
            if e['k'] == 'ref' and e.get('dk') == 'local' and \
                    isinstance(env.get(e['id']), tuple) and \
                    env[e['id']][0] == 'applied':
                return env[e['id']][1]
            if e['k'] == 'call' and e.get('f') == 'std::move':
                e = e['a'][0]
                continue
            break
        if e['k'] == 'op' and e['op'] == '()' and len(e['a']) == 2:
            if self.is_stream(e['a'][1], env):
                return self.peg(self.val(e['a'][0], env))
        if e['k'] == 'call' and 'fk' in e:
            fn = self.F.fn(e['fk'])
            streams = [a for a in e['a'] if self.is_stream(a, env)]
            if len(streams) == 1:
                consts = []
                for a in e['a']:
                    if self.is_stream(a, env):
                        continue
                    try:
                        consts.append(self.val(a, env))
                    except NotParser:
                        raise
                if fn is not None and consts:
                    # helper with parameters: inline if it is combinators
                    try:
                        av, ci = [], 0
                        for a in e['a']:
                            if self.is_stream(a, env):
                                av.append(None)
                            else:
                                av.append(consts[ci])
                                ci += 1
                        return self.rule_body(fn, None, av)
                    except NotParser:
                        pass
                if all(isinstance(c, int) for c in consts):
                    return ('call', e['fk'], tuple(consts)) if consts \
                        else ('rule', e['fk'])
        raise NotParser('result expression %s' % e['k'])

    # the statement position, label stack and current label of a State
    def is_ss(self, e, env):
        return e is not None and e['k'] == 'mem' and e['n'] == 'ss' and \
            e['b'] is not None and self.is_stream(e['b'], env)

    def is_stack(self, e, env):
        return e is not None and e['k'] == 'mem' and \
            e['n'] == 'do_label_stack' and self.is_stream(e['b'], env)

    def is_label(self, e, env):
        while e['k'] in ('cast', 'ilist') and len(e['a']) == 1:
            e = e['a'][0]
        if e['k'] == 'ref' and env.get(e.get('id')) == ('curlabel',):
            return True
        if e['k'] != 'mcall' or e['f'].split('::')[-1] != 'label' or e['a']:
            return False
        o = e['o']
        while o['k'] in ('cast', 'un') and len(o['a']) == 1:
            o = o['a'][0]
        return o['k'] == 'op' and o['op'] in ('->', '*') and \
            self.is_ss(o['a'][0], env)

    def is_stream(self, a, env):
        return a['k'] == 'ref' and env.get(a.get('id')) is STREAM


def strip_conv(e):
    while True:
        if e['k'] == 'mcall' and not e['a'] and \
                e['f'].split('::')[-1].startswith('operator '):
            e = e['o']
        elif e['k'] == 'new_obj' and len(e['a']) == 1 and \
                e['ck'] in ('copy', 'move'):
            e = e['a'][0]
        elif e['k'] == 'call' and e.get('f') == 'std::move':
            e = e['a'][0]
        elif e['k'] == 'cast':
            e = e['a'][0]
        else:
            return e


def empty_tree(e):
    """a default-constructed tree or result"""
    while e['k'] == 'new_obj' and len(e['a']) == 1 and e['ck'] in (
            'copy', 'move'):
        e = e['a'][0]
    if e['k'] == 'new_obj' and not e['a'] and 'Tree' in e['cls']:
        return True
    if e['k'] == 'new_obj' and 'Parser_Result' in e['cls'] and \
            len(e['a']) == 2:
        return empty_tree(e['a'][0]) and e['a'][1].get('cv') == 0
    return False


def neg(c):
    if c is True or c is False:
        return not c
    return c[1] if c[0] == 'not' else ('not', c)


def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    return a if b is True else ('and', a, b)


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    return a if b is False else ('or', a, b)


def mk_ite(c, a, b):
    return a if a == b else ('ite', c, a, b)


def case_value(s):
    for k in ('v', 'cv'):
        if isinstance(s.get(k), int):
            return s[k]
    for k in ('e', 'v', 'c'):
        if isinstance(s.get(k), dict) and 'cv' in s[k]:
            return s[k]['cv']
    raise NotParser('case label')


def strip_cv(t):
    t = t.strip()
    while True:
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                break
        else:
            break
    return t.rstrip('&* ')


def pure(e):
    """an expression statement with no effect on parsing"""
    from core import walk
    for n in walk(e):
        if n.get('k') in ('asg', 'new', 'delete', 'throw'):
            return False
        if n.get('k') == 'un' and n['op'] in ('++', '--'):
            return False
        if n.get('k') in ('call', 'mcall', 'op') and not n.get('const') and \
                n.get('f') not in ('__assert_fail', 'std::move'):
            return False
    return True


class Grammar:
    """statement grammar: rule function key -> PEG, or opaque"""

    def __init__(self, F, ns='FLPR::Stmt::', stream='TT_Stream',
                 rt='FLPR::Tree<FLPR::Stmt::ST_Node_Data', cls=None):
        self.F = F
        self.rules, self.opaque, self.why = {}, {}, {}
        self.ev = Evaluator(F, stream)
        self.short = {}
        for key, fn in F.fns.items():
            if isinstance(key, tuple):
                continue
            if cls is None:
                if not fn['q'].startswith(ns) or fn.get('cls'):
                    continue
            elif fn.get('cls') != cls or '(' not in key or \
                    '<' in key.split('(')[0][len(cls):]:
                continue
            if not fn['rt'].startswith(rt):
                continue
            if not any(stream in p['t'] for p in fn['params']):
                continue
            if cls is None and '<' in fn['key'].split('(')[0]:
                continue
            if cls is None and not fn['file'].endswith('parse_stmt.cc'):
                continue
            self.short[key] = fn['q'].split('::')[-1]
            if len(fn['params']) != 1:
                self.opaque[key] = fn
                self.why[key] = 'parameters'
                continue
            try:
                self.rules[key] = self.ev.rule_body(fn)
            except NotParser as ex:
                self.opaque[key] = fn
                self.why[key] = str(ex)

    def name(self, key):
        return self.short.get(key) or key.split('(')[0].split('::')[-1]

    def show(self, p):
        T = self.F.tags()
        k = p[0]
        t = lambda v: T.get(v, str(v))
        if k == 'tok':
            return t(p[1])
        if k in ('name', 'letter', 'eos', 'do_construct'):
            return k
        if k == 'lit':
            return repr(p[1])
        if k == 'peek':
            return 'eol' if t(p[1]) == 'BAD' else '&' + t(p[1])
        if k == 'neg':
            return '!' + self.show(p[1])
        if k == 'opt':
            return '[%s]' % self.show(p[1])
        if k == 'star':
            return '{%s}' % self.show(p[1])
        if k == 'plus':
            return '%s+{%s}' % (t(p[1]), self.show(p[2]))
        if k == 'tag':
            return '%s<%s>' % (t(p[1]), self.show(p[2]))
        if k in ('rule', 'stmt'):
            return self.name(p[1]) if k == 'rule' else '"%s"' % self.name(p[1])
        if k == 'call':
            return '%s(%s)' % (self.name(p[1]),
                               ','.join(t(c) for c in p[2]))
        if k == 'any1':
            return 'any:%s' % (t(p[1]) if p[1] >= 0 else 'SAME')
        if k in ('fail', 'it'):
            return k
        if k == 'ext':
            return 'ext:' + p[1]
        if k == 'first':
            return 'first(%s)' % ' / '.join(self.show(x) for x in p[1])
        if k == 'ite':
            return 'if(%s ? %s : %s)' % (self.showc(p[1]), self.show(p[2]),
                                         self.show(p[3]))
        sep = {'seq': ' ', 'alt': ' / ', 'seqif': ' ', 'optseq': ' '}[k]
        return '%s:%s(%s)' % (k, t(p[1]), sep.join(self.show(x) for x in p[2]))

    def showc(self, c):
        T = self.F.tags()
        if c[0] == 'peekeq':
            return 'peek%d=%s' % (c[1], T.get(c[2], c[2]))
        if c[0] == 'isname':
            return 'isname%d' % c[1]
        if c[0] in ('live', 'toplabel'):
            return c[0]
        if c[0] == 'not':
            return 'not(%s)' % self.showc(c[1])
        return '(%s %s %s)' % (self.showc(c[1]), c[0], self.showc(c[2]))
