"""P10: the program grammar (statements -> constructs)"""
import os
import re
from core import Facts, Broken, VERIF, REPO, rel
from grammar import Grammar
import peg

CLS = 'FLPR::Prgm::Parsers<FLPR::Prgm::Prgm_Node_Data>'
_cache = {}

# statements that several statement rules accept (FLPR::Stmt::*)
OVERLAP = [
    'end_program_stmt|end_subroutine_stmt|end_function_stmt|end_module_stmt|end_mp_subprogram_stmt',
    'action_stmt|assignment_stmt|forall_assignment_stmt',
    'action_stmt|where_stmt', 'action_stmt|forall_stmt',
    'end_select_stmt|end_select_rank_stmt|end_select_type_stmt',
    'private_or_sequence|binding_private_stmt|other_specification_stmt',
    'mp_subprogram_stmt|procedure_stmt',
    'component_def_stmt|type_declaration_stmt',
    'component_def_stmt|procedure_declaration_stmt',
    'type_bound_proc_binding|procedure_stmt', 'type_bound_proc_binding|generic_stmt',
]


class PInterp(peg.Interp):
    def ev(self, p, i):
        if p[0] == 'lit':
            if i < len(self.toks) and p[1] in self.toks[i][1].rstrip('@').split('|'):
                return True, peg.Tree('S:' + p[1], (), i), i + 1
            return False, None, i
        if p == ('rule', '@do'):
            return self.ev(DO, i)
        return super().ev(p, i)

    def cond(self, c, i):
        if c[0] == 'live':
            return i < len(self.toks)
        if c[0] == 'toplabel':
            return i < len(self.toks) and self.toks[i][1].endswith('@')
        return super().cond(c, i)


DO = ('seq', 'PG_DO_CONSTRUCT', (('lit', 'do_stmt'), ('tag', 'PG_BLOCK', ('star', ('rule', 'execution_part_construct'))),
                                 ('lit', 'end_do_stmt')))


def load():
    if 'G' not in _cache:
        F = Facts(only=['Prgm_Tree.cc'])
        G = Grammar(F, stream='Parsers<FLPR::Prgm::Prgm_Node_Data>::State', rt='', cls=CLS)
        code = peg.from_grammar(G)
        spec = peg.DSL(open(os.path.join(VERIF, 'spec', 'prgm.gram')).read().replace('@do', 'AT_DO')).rules
        spec = {n: fix(p) for n, p in spec.items()}
        hdr = open(os.path.join(REPO, 'src/flpr/Prgm_Parsers.hh')).read()
        hdr = re.sub(r'//.*|/\*.*?\*/', '', hdr)
        public = set(re.findall(r'(\w+)\s*\(\s*State\s*&', hdr)) - {'other_specification_stmt'}
        _cache.update(F=F, G=G, code=code, spec=spec, public=public)
    return _cache


def fix(p):
    if p == ('rule', 'AT_DO'):
        return ('rule', '@do')
    return tuple(fix(x) for x in p) if isinstance(p, tuple) else p


def where(G, n):
    for k, s in G.short.items():
        if s == n:
            fn = G.F.fns[k]
            return '%s %s()' % (rel(fn['file']), n)
    return n


def bundles(ss):
    out = []
    for s in ss:
        for i, t in enumerate(s):
            for b in OVERLAP:
                if t[1] in b.split('|'):
                    out.append(s[:i] + [(t[0], b)] + s[i + 1:])
            if t[1] == 'action_stmt':
                out.append(s[:i] + [(t[0], t[1] + '@')] + s[i + 1:])
        # every overlapping statement at once
        f = {x: b for b in OVERLAP for x in b.split('|') if x.startswith('end_')}
        if any(t[1] in f for t in s):
            out.append([(t[0], f.get(t[1], t[1])) for t in s])
    return out


def P10(rep):
    c = load()
    G, code, spec, public = (c[k] for k in ('G', 'code', 'spec', 'public'))
    opaque = {G.name(k): G.why[k] for k in G.opaque}
    unmod = {n: w for n, w in opaque.items() if n in spec}
    extra_c = {n for n in code if n not in spec}
    extra_s = {n for n in spec if n not in code and n not in unmod}
    lost = [n for n in extra_s if n in public]
    if lost:
        raise Broken('program rules declared but not found: %s' % lost)
    gc = peg.Gram(code).inline_rules(extra_c).rules
    gs = peg.Gram(spec).inline_rules(extra_s).rules
    isname = lambda t: t != 'BAD'
    n_s = n_q = tested = 0
    for n in sorted(gs):
        if n in unmod:
            rep.note('%s: not decided, not a parser expression (%s)' % (n, unmod[n]))
            continue
        if peg.norm(gs[n]) == peg.norm(gc[n]):
            n_s += 1
            rep.ok(1, '%s = %s' % (n, peg.show(spec[n])))
            continue
        n_q += 1
        look_s = lambda m: DO if m == '@do' else gs[m]
        look_c = lambda m, n=n: DO if m == '@do' else (gc[m] if m == n else gs[m])
        Is, Ic = PInterp(look_s, isname), PInterp(look_c, isname)
        gens = [PGen(look_s, isname, list(gs) + ['@do']), PGen(look_c, isname, list(gs) + ['@do'])]
        ss = peg.sentences(gens, [gs[n], gc[n]], depth=3)
        ss = peg.dedup(ss[:6000] + bundles(ss[:1500]))
        wit = None
        for s in ss:
            tested += 1
            r = []
            for I in (Is, Ic):
                try:
                    r.append(I.run(n, s))
                except peg.Loop:
                    r.append('does not terminate')
            if r[0] != r[1]:
                wit = (s, r[0], r[1])
                break
        if wit:
            rep.bad('prgm:' + n, where(G, n), 'the rule must equal its production in spec/prgm.gram',
                    'rule %s on the statements "%s": documented: %s; code: %s'
                    % (n, ' ; '.join(t[1] for t in wit[0]) or '(none)', verdict(wit[1]), verdict(wit[2])))
        else:
            rep.ok()
            rep.note('%s: written differently, equal on %d statement sequences' % (n, len(ss)))
    rep.cov.update(rules=n_s + n_q, structurally_equal=n_s, compared_by_sentences=n_q, sentences=tested)
    if n_s + n_q < 30:
        raise Broken('only %d program rules found' % (n_s + n_q))
    return ('Each of the %d rules of Prgm_Parsers_impl.hh (instantiated for Prgm_Node_Data) was partially '
            'evaluated to a parsing expression over statement kinds and compared with the reviewed '
            'production in spec/prgm.gram.' % (n_s + n_q))


class PGen(peg.Gen):
    def __init__(self, lookup, isname, names):
        self.lookup = lookup
        self.memo = {}
        self.interp = PInterp(lookup, isname)
        self.minimal(names)


def verdict(r):
    if isinstance(r, str):
        return r
    from c_grammar import keytxt
    if not r[0]:
        return 'rejected'
    return 'accepted, %d statements consumed, tree %s' % (r[2], keytxt(r[1]))
