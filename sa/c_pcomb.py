"""P11: program-level combinators and the DO construct keep every statement
exactly once and in order (abstract interpretation, sa/pcomb.py)"""
import os
import traceback
from multiprocessing import Pool
import absint
import pcomb
from absint import *
from core import Facts, Broken, rel

TUS = ['prgm.cc', 'TT_Stream.cc', 'Stmt_Tree.cc', 'Syntax_Tags.cc', 'LL_Stmt.cc', 'LL_TT_Range.cc']
_c = {}


def facts():
    if 'F' not in _c:
        _c['F'] = Facts(only=TUS)
        _c['F'].tags()
    return _c['F']


class DoPart(pcomb.DoEng):
    second = None

    def choices(self, s, i):
        if i == ladd(pcomb.P0, 1) and self.second:
            return [self.second]
        return super().choices(s, i)


def txt(s, got):
    F = facts()
    names = F.tags()

    def tr(t):
        if t is None:
            return 'none'
        tag = t[0]
        if isinstance(tag, tuple):
            n = '%s@%s' % (names.get(tag[1], tag[1]), tag[2])
        else:
            n = names.get(tag, str(tag))
        r = n + ('(%s)' % ' '.join(tr(k) for k in t[3]) if t[3] else '')
        if t[1] is not None:
            r += '[%s,%s)' % (t[1], t[2])
        if t[4:]:
            r += '!' + ','.join(t[4])
        return r
    if len(got) < 3:
        return str(got)
    return 'verdict %s, tree %s, next statement %s%s' % (
        got[0], tr(got[1]), got[2], ', open labels %s' % got[3] if len(got) > 3 else '')


def log(s):
    W = {'F': 'fails', 'M0': 'matches nothing', 'M1': 'takes one statement', 'ME': 'returns an empty node',
         'MH0': 'returns an empty list', 'MH2': 'takes two statements'}
    K = {'D': 'do', 'L': 'do %d', 'A': 'action', 'C': 'continue', 'E': 'end do', 'X': 'other statement'}
    out = []
    for x in s.log:
        if isinstance(x[0], str):
            k = K[x[0]]
            out.append(('%d ' % x[1] if x[1] else '') + (k % x[2] if '%' in k else k))
        else:
            out.append('part %s at %s %s' % (x[0] + 1, x[2], W.get(x[1], x[1])))
    return '; '.join(out) or 'no statement is left'


def job(j):
    kind, n = j[:2]
    try:
        F = facts()
        if kind == 'comb':
            X = pcomb.PComb(F, ())
            sp, oc = pcomb.specs(X)[n]
            rs, pr, E = pcomb.run_one(F, n, sp, oc)
        else:
            first, second, count, deep = j[2:]
            hold = pcomb.DoEng
            try:
                DoPart.second = second
                pcomb.DoEng = DoPart
                rs, pr, E = pcomb.run_do(F, count, deep, first)
            finally:
                pcomb.DoEng = hold
        return (j, 'ok', dict(
            paths=len(rs), steps=E.steps, fns=sorted(E.fns_done),
            problems=[(log(p[1]), txt(p[1], p[2]), txt(p[1], p[3])) for p in pr[:3]],
            aborts=[(a[0], a[1], log(a[2])) for a in E.aborts[:3]],
            escapes=[(a[0], a[1], log(a[2])) for a in E.escapes[:3]],
            trunc=[str(t) for t in E.trunc[:3]]))
    except Broken as e:
        return (j, 'broken', str(e))
    except Exception:
        return (j, 'broken', traceback.format_exc())


def results(deep):
    if 'R' not in _c:
        F = facts()
        X = pcomb.PComb(F, ())
        J = [('comb', n) for n in pcomb.specs(X)]
        ks = pcomb.kinds(deep)
        for f in [('L', 0, 10), ('D', 0, 0)]:
            for k in ks:
                J.append(('do', 'do_construct', f, k, 5 if deep else 4, deep))
        J.append(('do', 'do_construct', ('A', 0, 0), ks[0], 2, deep))
        J.sort(key=lambda j: (j[0] == 'comb', j[-3] not in (('L', 0, 10), ('D', 0, 0), ('L', 0, 20))) if len(j) > 3 else (True, True))
        with Pool(min(8, os.cpu_count() or 2)) as p:
            _c['R'] = list(p.imap_unordered(job, J, chunksize=1))
    return _c['R']


CLS = {'p_seq': 'Sequence_Parser', 'p_h_seq': 'Sequence_Parser', 'p_seq_if': 'Sequence_If_Parser',
       'p_h_seq_if': 'Sequence_If_Parser', 'p_alts': 'Alternatives_Parser', 'p_opt': 'Optional_Parser',
       'p_star': 'Star_Parser', 'p_plus': 'Plus_Parser', 'p_opt_seq': 'Opt_Sequence_Parser',
       'p_h_opt_seq': 'Opt_Sequence_Parser', 'p_tag_if': 'Tag_Parser', 'p_stmt': 'Statement_Parser',
       'p_end_stream': 'End_Of_Stream_Parser'}


def name(j):
    if j[0] == 'do':
        return 'do_construct'
    return '%s (%s)' % (CLS.get(j[1].rstrip('123'), j[1]), j[1][2:])


def P11(rep):
    R = results(rep.tier == 'thorough')
    bad = [(j, r) for j, st, r in R if st != 'ok']
    for j, r in bad:
        rep.note('%s: not decided (%s)' % (name(j), str(r).strip().splitlines()[-1][:200]))
    if bad:
        print('note: %d item(s) not decided' % len(bad))
    if len(bad) * 3 > len(R):
        raise Broken('%d of %d items could not be analysed: %s' % (len(bad), len(R), bad[0][1][-300:]))
    fns, paths, steps = set(), 0, 0
    for j, st, r in sorted(R, key=repr):
        if st != 'ok':
            continue
        fns |= set(r['fns'])
        paths += r['paths']
        steps += r['steps']
        w = 'src/flpr/Prgm_Parsers_utils.hh %s' % name(j)
        p = r['problems'][0] if r['problems'] else None
        rep.check(p is None, 'stmts:' + j[1], w,
                  'a construct takes every statement of its range exactly once and in order, and none when it fails',
                  p and '%s when [%s] gives: %s; documented: %s' % ((name(j),) + p),
                  sample='%s: %d abstract paths agree with the documented meaning' % (name(j), r['paths']))
        e = (r['escapes'] or r['aborts'] or [None])[0]
        rep.check(e is None, 'end:%s:%s' % (j[1], e and e[0]), e and e[1] or w,
                  'no statement beyond the last one is read', e and '%s: %s when [%s]' % (name(j), e[0], e[2]))
        rep.check(not r['trunc'], 'loop:' + j[1], ', '.join(r['trunc']) or w, 'every loop over statements ends',
                  '%s: the loop at %s goes round without taking a statement' % (name(j), ', '.join(r['trunc'])))
    grammar(rep)
    rep.cov.update(abstract_paths=paths, steps=steps, functions_interpreted=len(fns),
                   function_names=sorted(f for f in fns if f.startswith('FLPR'))[:60])
    rep.need(60, 'P11')
    return ('Every program-level combinator was interpreted abstractly on a statement sequence of unknown length '
            'over sub-parsers that may fail or match in any way; the DO construct together with the rules it calls '
            'on every sequence of up to %d statements of the %d kinds that matter to it.'
            % ((5 if rep.tier == 'thorough' else 4), len(pcomb.kinds(rep.tier == 'thorough'))))


def grammar(rep):
    """repetitions over statements always advance"""
    import c_prgm
    import peg
    c = c_prgm.load()
    code, G = c['code'], c['G']
    null = {n: False for n in code}

    def nul(p):
        k = p[0]
        if k in ('opt', 'star', 'peek', 'neg'):
            return True
        if k == 'seq':
            return all(nul(x) for x in p[2])
        if k == 'alt':
            return any(nul(x) for x in p[2])
        if k == 'tag':
            return nul(p[2])
        if k == 'plus':
            return nul(p[2]) if len(p) > 2 else nul(p[1])
        if k == 'ite':
            return nul(p[2]) or nul(p[3])
        if k in ('rule', 'call'):
            return null.get(p[1], False)
        return False
    ch = True
    while ch:
        ch = False
        for n in code:
            if not null[n] and nul(code[n]):
                null[n] = ch = True

    def stars(p):
        if isinstance(p, tuple):
            if p and p[0] == 'star':
                yield p
            for x in p[1:]:
                if isinstance(x, tuple):
                    if x and isinstance(x[0], str):
                        yield from stars(x)
                    else:
                        for y in x:
                            yield from stars(y)
    for n in sorted(code):
        for st in stars(code[n]):
            rep.check(not nul(st[1]), 'star:%s:%s' % (n, peg.show(st[1])[:60]), c_prgm.where(G, n),
                      'the operand of a repetition takes at least one statement when it matches',
                      'the repetition { %s } in %s can match without taking a statement and never ends'
                      % (peg.show(st[1]), n))
