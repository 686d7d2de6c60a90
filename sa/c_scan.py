"""P07: the scanner divides statement text into the documented tokens"""
import itertools
import os
import re
from core import Broken, Facts, REPO, VERIF, rel, walk
from fold import Fold, NoFold, P, cstr
import flexdfa
from flexdfa import Flex, DFA, Rx, differ, effect, expand, helpers, Unsupported

REL = 'src/flpr/scan_fort.l'


def load(path, name):
    return Flex(name, open(path, encoding='latin-1').read())


class Scanner:
    """a scanner description as automata, one per start condition"""

    def __init__(self, fx):
        self.fx = fx
        self.defs = helpers(fx.pro + '\n' + fx.code)
        self.eff, self.dfa, self.where = {}, {}, {}
        for s in sorted(fx.states()):
            self.dfa[s] = fx.dfa(s, lambda a, ln: effect(a, ln, fx.path, self.defs))
        self.eof = {}
        for s in fx.states():
            self.eof[s] = ('EOL', ())
            for conds, act, ln in fx.eof:
                if conds is None or s in conds or '*' in conds:
                    e = effect(act, ln, fx.path, self.defs)
                    self.eof[s] = (e[0], e[2])
                    break

    @staticmethod
    def move(state, stack, ops):
        for o in ops:
            if o[0] == 'set':
                state = o[1]
            elif o[0] == 'push':
                stack = stack + (state,)
                state = o[1]
            elif not stack:
                return 'stack underflow', ()
            else:
                state, stack = stack[-1], stack[:-1]
        return state, stack

    def run(self, text, state='INITIAL', limit=400):
        """([(tag, token text, first column counted)], state after the end of the text)"""
        out, i, stack, n, pos, start = [], 0, (), len(text), 0, 0
        for _ in range(limit):
            if i >= n:
                ret, ops = self.eof[state]
                state, stack = self.move(state, stack, ops)
                if ret is None:
                    if state == 'stack underflow':
                        return out, state
                    continue
                return out, state
            d = self.dfa[state]
            s, j, best = 0, i, None
            while j < n:
                s = d.step(s, ord(text[j]))
                if s is None:
                    break
                j += 1
                if d.acc[s] is not None:
                    best = (j, d.acc[s])
            if best is None:
                return out, 'no rule'
            j, lab = best
            if lab == 'echo':
                pos += j - i
                i = j
                continue
            tag, kept, ops, counted = lab
            state, stack = self.move(state, stack, ops)
            if state == 'stack underflow' or state not in self.dfa:
                return out, state
            tok = text[i:j]
            tok = tok[:self.span(tok, kept)]
            pos += self.span(text[i:j], counted)
            if tag is not None:
                if tag == 'EOL':
                    return out, 'ends early'
                out.append((tag, tok, pos - len(tok)))
            i += len(tok)
        return out, 'does not end'

    @staticmethod
    def span(tok, kept):
        if kept == 'all':
            return len(tok)
        if isinstance(kept, int):
            return min(kept, len(tok))
        k = 0
        while k < len(tok) and tok[k] in kept[1]:
            k += 1
        return k


def reps(A, B):
    """one character for each class of characters that the two scanners tell apart"""
    g = {}
    for c in flexdfa.ALPHA:
        k = tuple(d.clsof[c] for X in (A, B) for _, d in sorted(X.dfa.items()))
        g.setdefault(k, []).append(c)
    return [chr(min(cs, key=lambda c: (not 97 <= c <= 122, not 33 <= c < 127, c))) for cs in g.values()]


def show(r):
    toks, st = r
    t = ' '.join('%s:%s' % (t.replace('Syntax_Tags::', ''), repr(x)) for t, x, _ in toks) or 'nothing'
    if st != 'INITIAL':
        t += {'does not end': ' and does not end', 'ends early': ' and stops early', 'no rule': ' and jams',
              'stack underflow': ' and pops an empty stack'}.get(st, ' and the next line starts in <%s>' % st)
    return t


def same_structure(A, B):
    """a renaming of start conditions under which the automata are equal, or None"""
    sa, sb = sorted(A.dfa), sorted(B.dfa)
    if len(sa) != len(sb):
        return None
    ra, rb = [s for s in sa if s != 'INITIAL'], [s for s in sb if s != 'INITIAL']
    if len(ra) > 6:
        return None
    perms = sorted(itertools.permutations(rb), key=lambda p: sum(x != y for x, y in zip(ra, p)))
    for p in perms:
        m = dict(zip(ra, p), INITIAL='INITIAL')
        def rn(lab):
            if lab is None or lab == 'echo':
                return lab
            return (lab[0], lab[1], tuple((o[0], m.get(o[1], o[1])) if len(o) > 1 else o for o in lab[2]), lab[3])
        def eq(s):
            D = A.dfa[s]
            old = D.acc
            D.acc = [rn(x) for x in old]
            try:
                return not differ(D, B.dfa[m[s]], 1)
            finally:
                D.acc = old
        if all(eq(s) for s in sa) and all(
                (A.eof[s][0], tuple((o[0], m.get(o[1], o[1])) if len(o) > 1 else o for o in A.eof[s][1])) == B.eof[m[s]]
                for s in sa if s != 'INITIAL' and not (nested(A, s) and nested(B, m[s]))):
            return m
    return None


def nested(S, s):
    """a start condition that is only entered with its text known to follow: the end of
    the line is not met in it"""
    return s in ('exp_parse', 'kind_parse')


PRE = ['', '1.0', '1.', '.5', '1e5', '1.5_8', '1.5e3_k', '1', '12_k', 'a', 'a ', '(', 'x=', ".true.", ".and.", "'s'", 'end']
POST = ['', ' ', '1', 'a', '.', '_', '(', '=', 'e5', '.and.', "'", '"', '+1', '*', '/', ':', ',', ' x', '.5', '_8', 'd0']


def P07(rep):
    A = B = None
    path = os.path.join(REPO, REL)
    if not os.path.exists(path):
        raise Broken('%s is gone' % REL)
    spec = Scanner(load(os.path.join(VERIF, 'spec', 'scan.l'), 'spec/scan.l'))
    fx = load(path, REL)
    # 1. options the generated scanner depends on
    table = fx.opts & {'full', 'fast'} and not fx.opts & {'ecs'}
    rep.check(not table or '8bit' in fx.opts, 'scan:8bit', REL,
              'a scanner with full tables needs %option 8bit',
              'full tables without %option 8bit have 128 columns: a character above 127 selects an entry of '
              'another state', sample='%option: tables cover all 255 characters')
    rep.check('7bit' not in fx.opts, 'scan:7bit', REL, 'a scanner needs all 255 characters', '%option 7bit')
    m = re.search(r'#\s*define\s+YY_USER_ACTION\s+(.*?)\s*$', fx.pro, re.M)
    cnt = re.sub(r'[\s;{}]', '', expand(m.group(1), helpers(fx.pro + '\n' + fx.code))) if m else ''
    if cnt in ('curr_line_pos+=yyleng', 'curr_line_pos=curr_line_pos+yyleng', 'curr_line_pos=yyleng+curr_line_pos'):
        rep.ok(1, 'every match advances curr_line_pos by its length')
    elif not m or not cnt or ('curr_line_pos' not in cnt and '(' not in cnt):
        rep.bad('scan:user-action', REL, 'every match advances the position by its length',
                'YY_USER_ACTION is %r' % (m.group(1) if m else 'not defined'))
    else:
        rep.note('not decided: YY_USER_ACTION %s' % m.group(1))
    # 2, 3. the automata
    try:
        scan = Scanner(fx)
    except Unsupported as e:
        rep.note('not decided: the scanner (%s)' % e)
        pairs(rep, spec)
        return 'the scanner description has an action that is not understood: only the keyword pairs were decided'
    automata(rep, scan, spec, fx)
    # 4. keywords written together
    pairs(rep, scan)
    rep.need(400, 'scanner')
    return ('the scanner description is turned into one labelled automaton per start condition and compared with the '
            'automata of spec/scan.l: equal automata give the same tokens for every text; otherwise a search over '
            'texts looks for one that is divided differently')


def automata(rep, scan, spec, fx):
    # 2. the automata
    rep.cov['scanner'] = dict(rules=len(fx.rules), start_conditions=sorted(fx.states()),
                              automaton_states={s: len(d.trans) for s, d in scan.dfa.items()})
    mp = same_structure(scan, spec)
    if mp:
        n = 0
        for s, d in scan.dfa.items():
            n += len(d.trans)
        rep.ok(n, 'start condition <%s>: same longest match and same action for every text' % 'INITIAL')
        rep.cov['comparison'] = 'equal automata under the renaming %s' % mp
    else:
        search(rep, scan, spec)
    # 3. what each action leaves uncounted
    for conds, pat, act, ln in fx.rules:
        e = effect(act, ln, REL, scan.defs)
        rep.check(e[1] == e[3], 'scan:count:%s' % pat, '%s:%d' % (REL, ln),
                  'the position counter advances by the characters that were consumed',
                  'pattern %s keeps %s characters and counts %s' % (pat, e[1], e[3]))


def search(rep, scan, spec):
    cs = reps(scan, spec)
    texts = []
    wit = []
    for s in scan.dfa:
        for t in spec.dfa:
            if s == t or (s not in spec.dfa and t not in scan.dfa):
                wit += [w for w, _, _ in differ(scan.dfa[s], spec.dfa[t], 40)]
    wit = list(dict.fromkeys(wit))
    found, tried, seen = {}, 0, set()

    def look(t):
        nonlocal tried
        if t in seen:
            return
        seen.add(t)
        tried += 1
        a, b = scan.run(t), spec.run(t)
        if a != b:
            key = tuple((x[0], y[0]) for x, y in itertools.zip_longest(a[0], b[0], fillvalue=('-', '', 0)) if x != y)[:1] or (a[1], b[1])
            if key not in found or len(t) < len(found[key][0]):
                found[key] = (t, a, b)

    for w in wit[:120]:
        for p in PRE:
            for q in POST:
                look(p + w + q)
    for p in PRE:
        for q in POST:
            for r in POST:
                look(p + q + r)
    for k in (1, 2) if len(cs) > 48 else (1, 2, 3):
        for t in itertools.product(cs, repeat=k):
            look(''.join(t))
    dig = [c for c in '1.e_d+-ax "\'']
    for t in itertools.product(dig, repeat=5 if rep.tier == 'thorough' else 4):
        look(''.join(t))
    rep.cov['comparison'] = 'the automata differ; %d texts were divided by both' % tried
    if not found:
        rep.ok(tried)
        rep.note('the start conditions are organised differently from the specification: equality was searched on %d '
                 'texts, not shown for all' % tried)
        return
    rep.ok(max(0, tried - len(found)))
    for key, (t, a, b) in sorted(found.items(), key=lambda kv: len(kv[1][0]))[:6]:
        rep.bad('scan:text:%s' % t, where_of(scan, t), 'statement text is divided into the documented tokens',
                'the text %r is divided into %s; documented: %s' % (t, show(a), show(b)))


def where_of(scan, t):
    return REL


SMASH = 'FLPR::details_::Smash_Hash::in_word_set'


def pairs(rep, scan):
    """keywords written together: the table that divides them, looked up by constant folding"""
    F = Facts(only=['Logical_Line.cc'])
    if SMASH not in F.byq:
        rep.note('not decided: keywords written together (%s is gone)' % SMASH)
        return
    f = F.byq[SMASH][0]
    at = rel(f['l'])
    rows = [x.split() for x in open(os.path.join(VERIF, 'spec', 'pairs.txt')) if x.strip() and x[0] != '#']
    fold = Fold(F)
    names = F.tags()

    def look(w):
        fold.left = 20000
        r = fold.call(SMASH, [cstr(w), len(w)])
        return r.a[r.i] if isinstance(r, P) else None

    def tag(w):
        ts = scan.run(w)[0]
        return ts[0][0].rsplit('::', 1)[-1] if len(ts) == 1 else None

    try:
        words = {a + b for a, b in rows}
        for a, b in rows:
            r = look(a + b)
            if r is None:
                rep.bad('pair:%s' % (a + b), at, 'keywords written together are divided',
                        'the name %r is not found, so %s %s stays one name' % (a + b, a, b))
                continue
            for what, have, want in (('first keyword', names.get(r[1], r[1]), tag(a)),
                                     ('second keyword', names.get(r[2], r[2]), tag(b)), ('split', r[3], len(a))):
                rep.check(have == want, 'pair:%s:%s' % (a + b, what), at, 'keywords written together are divided into '
                          'the two keywords', '%r: %s is %s, documented: %s' % (a + b, what, have, want),
                          sample='%s -> %s + %s' % (a + b, a, b))
        others = {n['v'] for n in walk(f) if n.get('k') == 'str'}
        for w in words:
            for i in range(len(w) + 1):
                others.add(w[:i] + w[i + 1:])
                for c in 'as_1':
                    others.add(w[:i] + c + w[i:])
                    others.add(w[:i] + c + w[i + 1:])
        others |= {a + b for a, _ in rows for _, b in rows}
        n = 0
        for w in sorted(others - words):
            if look(w) is None:
                n += 1
            else:
                rep.bad('pair:other:%s' % w, at, 'only the documented pairs are divided', 'the name %r is divided' % w)
        rep.ok(n)
        rep.cov['keyword pairs'] = dict(documented=len(rows), names_that_are_not_pairs=n)
    except NoFold as e:
        rep.note('not decided: keywords written together (%s)' % e)
