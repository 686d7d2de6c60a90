"""P01 / P02 / P03: the statement grammar"""
import os
import re
from core import Facts, Broken, VERIF, REPO, rel
from grammar import Grammar
import peg

_cache = {}


def load():
    if 'G' not in _cache:
        F = Facts(only=['parse_stmt.cc'])
        G = Grammar(F)
        code = peg.from_grammar(G)
        spec = peg.DSL(open(os.path.join(VERIF, 'spec', 'stmt.gram')).read()).rules
        types = next((g for g in F.globals if g['q'].endswith('Syntax_Tags::types_')), None)
        if not types:
            raise Broken('Syntax_Tags::types_ not found')
        names = {'TK_NAME'}
        for i, e in enumerate(types['init']['a']):
            if e.get('cv') == 4:
                names.add(F.tags().get(i))
        hdr = open(os.path.join(REPO, 'src/flpr/parse_stmt.hh')).read()
        hdr = re.sub(r'//.*|/\*.*?\*/', '', hdr)
        public = set(re.findall(r'(\w+)\s*\(\s*TT_Stream', hdr))
        _cache.update(F=F, G=G, code=code, spec=spec, names=names, public=public)
    return _cache


def where(G, n):
    for k, s in G.short.items():
        if s == n:
            fn = G.F.fns[k]
            return '%s:%s %s()' % (rel(fn['file']), fn['l'].split(':')[-2] if ':' in str(fn['l']) else fn['l'], n)
    return n


def compare(tier='quick'):
    """-> list of (rule, kind, witness tokens, text), stats"""
    if 'cmp' in _cache:
        return _cache['cmp']
    c = load()
    G, code, spec, names, public = (c[k] for k in ('G', 'code', 'spec', 'names', 'public'))
    isname = lambda t: t in names
    opaque = {G.name(k): G.why[k] for k in G.opaque}
    builtin = set(peg.BUILTIN)
    unmodelled = {n: w for n, w in opaque.items()
                  if n in spec}
    # rules only one side knows are inlined
    extra_c = {n for n in code if n not in spec}
    extra_s = {n for n in spec if n not in code and n not in unmodelled}
    lost_public = [n for n in extra_s if n in public]
    if lost_public:
        raise Broken('statement rules declared but without definition: %s' % lost_public)
    if len(spec) - len(extra_s) < 200:
        raise Broken('only %d of %d rules found' % (len(spec) - len(extra_s), len(spec)))
    gc = peg.Gram(code).inline_rules(extra_c)
    gs = peg.Gram(spec).inline_rules(extra_s)
    stats = dict(rules=0, structural=0, searched=0, sentences=0, undecided=[])
    diff = set()
    for n in gs.rules:
        if n in unmodelled:
            stats['undecided'].append('%s: not a parser expression (%s)' % (n, unmodelled[n]))
            continue
        stats['rules'] += 1
        if peg.norm(gs.rules[n]) == peg.norm(gc.rules[n]):
            stats['structural'] += 1
        else:
            diff.add(n)
    # escalate differences of internal rules to the public rules using them
    internal = {n for n in gs.rules if n not in public}
    users = {}
    for n in set(gs.rules) & set(gc.rules):
        for m in peg.refs(gs.rules[n]) | peg.refs(gc.rules[n]):
            users.setdefault(m, set()).add(n)
    targets = {}
    for n in diff:
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in internal:
                st.extend(users.get(x, ()))
            else:
                targets.setdefault(x, set()).add(n)
    out = []
    broken = set(unmodelled)
    for n in sorted(targets):
        own_s = lambda m, n=n: gs.rules[m]
        def own_c(m, n=n):
            if (m == n or m in internal) and m in gc.rules and m not in broken:
                return gc.rules[m]
            return gs.rules[m]
        Is, Ic = peg.Interp(own_s, isname), peg.Interp(own_c, isname)
        gens = [peg.Gen(own_s, isname, gs.rules), peg.Gen(own_c, isname, gs.rules)]
        bodies = [gs.rules[n], gc.rules[n]]
        # expand the internal rules so that generation varies inside them
        exp_s = peg.Gram(gs.rules).inline_rules(internal - {n}).rules.get(n, gs.rules[n])
        exp_c = peg.Gram({**gs.rules, **{m: gc.rules[m] for m in gc.rules if m in internal or m == n}}) \
            .inline_rules(internal - {n}).rules.get(n, gc.rules[n])
        ss = peg.sentences(gens, [exp_s, exp_c], depth=4 if tier == 'thorough' else 3)
        stats['searched'] += 1
        wit = None
        for s in ss:
            stats['sentences'] += 1
            try:
                a = Is.run(n, s)
            except peg.Loop:
                a = 'does not terminate'
            try:
                b = Ic.run(n, s)
            except peg.Loop:
                b = 'does not terminate'
            if a == b:
                continue
            kind = 'accept' if (a[0] != b[0] or a[2] != b[2]) else 'tree'
            if wit is None or (wit[0] == 'tree' and kind == 'accept'):
                wit = (kind, s, a, b)
            if kind == 'accept':
                break
        if wit:
            for r in sorted(targets[n]):
                out.append((n, r, wit))
        else:
            stats['undecided'].append('%s: written differently, equal on %d sentences' % (n, len(ss)))
    _cache['cmp'] = (out, stats)
    return out, stats


def txt(s):
    return ' '.join(t[1] if not t[1].startswith(('TK_', 'SG_')) else t[0] for t in s) or '(empty)'


def verdict(r):
    if isinstance(r, str):
        return r
    if not r[0]:
        return 'rejected (stream at %d)' % r[2]
    return 'accepted, %d tokens consumed, tree %s' % (r[2], keytxt(r[1]))


def keytxt(k):
    if k is None:
        return '-'
    return k[0] if not k[2] else '%s<%s>' % (k[0], ' '.join(keytxt(x) for x in k[2]))


def check_cmp(rep, kind):
    out, stats = compare(rep.tier)
    G = load()['G']
    bad = {(n, r) for n, r, w in out if w[0] == kind}
    rep.ok(stats['rules'] - len({n for n, _ in bad}))
    for n in list(load()['spec'])[:6]:
        rep.samples.append('%s = %s' % (n, peg.show(load()['spec'][n])))
    for n, r, w in out:
        if w[0] != kind:
            continue
        rep.bad('grammar:%s:%s' % (n, r), where(G, r),
                'the rule must equal its production in spec/stmt.gram',
                'rule %s on "%s": documented: %s; code: %s'
                % (n, txt(w[1]), verdict(w[2]), verdict(w[3])))
    rep.cov.update(rules=stats['rules'], structurally_equal=stats['structural'],
                   compared_by_sentences=stats['searched'],
                   sentences=stats['sentences'])
    for u in stats['undecided']:
        rep.note(u)


# ------------------------------------------------------------------ P02
def ends_eol(rules, p, st=()):
    """every successful match leaves the stream at its end"""
    k = p[0]
    if k == 'peek':
        return p[1] == 'BAD'
    if k == 'seq':
        return any(ends_eol(rules, x, st) for x in p[2])
    if k == 'alt':
        return all(ends_eol(rules, x, st) for x in p[2])
    if k == 'first':
        return all(ends_eol(rules, x, st) for x in p[1])
    if k == 'tag':
        return ends_eol(rules, p[2], st)
    if k == 'ite':
        return ends_eol(rules, p[2], st) and ends_eol(rules, p[3], st)
    if k == 'rule':
        if p[1] in st:
            return True
        if p[1] not in rules:
            return False
        return ends_eol(rules, rules[p[1]], st + (p[1],))
    return k in ('fail', 'ext')


# a statement parser is what the dispatcher and the program grammar call for a
# whole statement
NOT_STATEMENT = set()


def P01(rep):
    check_cmp(rep, 'accept')
    import c_comb
    c_comb.combinator_problems(rep, 'accept')
    rep.need(250, 'P01')
    return ('Each of the %d rule functions of parse_stmt.cc was partially evaluated to its '
            'parsing expression and compared with the reviewed production in spec/stmt.gram '
            '(normal form; otherwise a search for a token sequence on which the two expressions '
            'differ in acceptance or in the number of tokens consumed).' % rep.cov['rules'])


def P03(rep):
    check_cmp(rep, 'tree')
    import c_comb
    c_comb.combinator_problems(rep, 'tree')
    rep.need(250, 'P03')
    return ('Same comparison as P01, for the trees: on every token sequence tried both '
            'expressions must build the same tags, nesting and leaves; %d rules have equal '
            'normal forms, which implies equal trees on every input.' % rep.cov['structurally_equal'])


def P02(rep):
    c = load()
    code, G = c['code'], c['G']
    n = 0
    for r in sorted(code):
        if r not in c['public'] or not r.endswith('_stmt'):
            continue
        n += 1
        e = ends_eol(code, code[r])
        rep.check(e, 'eol:' + r, where(G, r),
                  'every accepting path of a statement rule passes the end-of-statement test last',
                  'statement rule %s can accept without reaching the end of the statement: %s'
                  % (r, peg.show(code[r])[:300]),
                  sample='%s: ends at end of statement on every accepting path' % r)
    import c_comb
    c_comb.combinator_problems(rep, 'accept', ('v_eol', 'v_peek', 'v_seq1', 'v_seq2', 'v_seq3', 'v_alts1', 'v_alts2',
                                               'v_alts3', 'v_tag_if', 'v_rule'))
    # every alternative the dispatcher can return
    rep.cov['statement_rules'] = n
    if n < 120:
        raise Broken('only %d statement rules found' % n)
    return ('For each of the %d statement rules the extracted parsing expression was checked: '
            'every path to a match contains the end-of-statement test and nothing after it can '
            'consume.' % n)
