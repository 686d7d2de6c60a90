"""entry point: python3 sa/run.py P01 [--tier quick|thorough]"""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from core import Broken
from report import Report, finish

COMMON = ['clang 18 front end resolves the code as the build does (same sources, -std=c++17)',
          'tools/flprx.cc copies the resolved syntax tree faithfully']

CHECKS = {
    # property: (module, function, level, trusted base, technique, level note)
    'P01': ('c_grammar', 'P01', 'other', ['spec/stmt.gram states the documented productions'],
            'grammar extraction from the type-checked source and comparison with a reviewed specification grammar',
            'every rule is compared as a normalised grammar term; terms that differ in structure are compared by a '
            'bounded search for a distinguishing token sequence, so equivalence of rewritten rules is decided up to that bound'),
    'P02': ('c_grammar', 'P02', 'proof', [],
            'structural proof over the extracted statement grammar',
            'induction over the extracted grammar terms; holds for all inputs, given the combinator semantics that is checked separately'),
    'P03': ('c_grammar', 'P03', 'other', ['spec/stmt.gram states the documented productions'],
            'comparison of the tree-building part of the extracted grammar with a reviewed specification grammar',
            'as for P01, comparing trees instead of verdicts'),
    'P04': ('c_comb', 'P04', 'other', ['models of the standard containers used by the token stream and the trees (sa/absnat.py)'],
            'abstract interpretation (disjunctive, zone domain for positions, finite sets for token tags) of the combinators over abstract sub-parsers; induction over the grammar',
            'combinators: any token sequence, any sub-parser behaviour, up to 4 successful sub-matches per path; hand-written rules: up to 4 remaining tokens'),
    'P05': ('c_comb', 'P05', 'other', ['models of the standard containers used by the token stream and the trees (sa/absnat.py)'],
            'left-call graph and nullability over the extracted grammar; abstract interpretation of the loops',
            'recursion and repetitions: all inputs; hand-written loops: on up to 4 remaining tokens'),
    'P06': ('c_comb', 'P06', 'other', ['models of the standard containers used by the token stream and the trees (sa/absnat.py)'],
            'abstract interpretation with a zone domain (position, statement length) of every operation that reads or moves in the token stream',
            'positions and lengths are unbounded for loop-free operations; scanning loops are followed for up to 4 remaining tokens'),
    'P07': ('c_scan', 'P07', 'proof', ['flex builds the automaton its manual describes (longest match, then earlier rule)',
                                      'spec/scan.l states the documented tokens'],
            'automata built from the scanner description, compared with the automata of a reviewed specification',
            'equal automata: every text; a scanner whose start conditions are organised differently is compared on a '
            'bounded set of texts instead'),
    'P08': ('c_line', 'P08', 'other', ['models of the standard string, vector and list (sa/text.py, sa/absnat.py)',
                                      'the scanner gives some sequence of tokens with blanks around them (P07)'],
            'abstract interpretation of tokenising a line of unknown text with unknown token boundaries, on every path',
            'lines of up to three physical lines (thorough: five) and two tokens (thorough: three) of unknown text and '
            'length; any text, any places'),
    'P09': ('c_disp', 'P09', 'other', ['models of the standard containers used by the trees (sa/absnat.py)'],
            'abstract interpretation of dispatch, is_action_stmt and the tree cache for each tag, compared with the extracted statement grammar',
            'all tags and all statement rules; sub-rules are opaque (they yield a tree with their own root tag)'),
    'P10': ('c_prgm', 'P10', 'other', ['spec/prgm.gram states the documented productions'],
            'grammar extraction from the type-checked source and comparison with a reviewed specification grammar',
            'every rule is compared as a normalised grammar term; terms that differ in structure are compared by a '
            'bounded search for a distinguishing statement sequence'),
    'P11': ('c_pcomb', 'P11', 'other', ['models of the standard containers used by the program parsers and trees (sa/absnat.py)'],
            'abstract interpretation (disjunctive, zone domain for statement positions) of the program-level combinators over abstract sub-parsers and of the DO construct over statement kinds',
            'combinators: any number of statements, any sub-parser behaviour, up to 4 successful sub-matches per path; DO construct: every sequence of up to 4 (thorough: 5) statements of the kinds it distinguishes'),
    'P14': ('c_edit', 'P14', 'other', ['models of std::string, std::vector and std::list (sa/text.py, sa/absnat.py)'],
            'abstract interpretation of the edits of a tokenised line of unknown text, on every path',
            'lines of up to three physical lines and six tokens in the arrangements listed in sa/c_edit.py; texts, places, blanks and the new text unknown'),
    'P15': ('c_fedit', 'P15', 'other', ['models of std::vector, std::list, std::string (sa/text.py, sa/absnat.py)',
                                       'the text edits of a line (P14) and set_label (P22), which stand-ins replace'],
            'abstract interpretation of the edits of a file over lists of statements, positions unknown',
            'files of up to five logical lines of 18 shapes with up to four statements each'),
    'P16': ('c_tree', 'P16', 'other', ['models of std::list and std::unique_ptr (sa/absnat.py)'],
            'shape analysis of FLPR::Tree by abstract interpretation over an opaque value type',
            'every ordered tree shape up to 3 (thorough: 4) nodes per tree, one more for cursors, values opaque'),
    'P20': ('c_text', 'P20', 'proof', ['models of std::string, std::bitset, std::ostream and <cctype> (sa/text.py), "C" locale',
                                      'lines are shorter than 2^31 characters'],
            'abstract interpretation of the line analysis over an unknown text: fields are slices of one symbolic line, '
            'positions are in a zone domain, loops are generalised by inferred invariants',
            'any text of any length, any carried delimiter and last column (quick: a tab in control columns 1, 4 and 6; thorough: each of the six)'),
    'P21': ('c_file', 'P21', 'other', ['models of std::vector, std::list, std::string, std::shared_ptr (sa/text.py, sa/absnat.py)',
                                      'what the line analysis says of one line (P20, P23)'],
            'abstract interpretation of reading a file over the kinds of physical lines, texts unknown',
            'every sequence of up to three (thorough: four) physical lines of the 17 free-form and 12 fixed-form kinds, and of '
            'up to three (thorough: four) logical lines'),
    'P22': ('c_fline', 'P22', 'other', ['models of std::string and std::bitset (sa/text.py)'],
            'abstract interpretation of the field edits of a physical line of unknown text, on every path',
            'every combination of fields a line can have; texts, blanks and the column asked for are unknown (up to 2^20); '
            'labels of 1 to 5 digits and no label'),
    'P23': ('c_text', 'P23', 'proof', ['models of std::string, std::bitset, std::ostream and <cctype> (sa/text.py), "C" locale',
                                      'lines are shorter than 2^31 characters'],
            'abstract interpretation as for P20, with a specification automaton for the character context run along the scanning loops',
            'any text of any length; fixed form: lines without a tab in the control columns'),
    'P17': ('c_pfile', 'P17', 'other', [],
            'abstract interpretation of Parsed_File, LL_Stmt::set_leading_spaces and Indent_Table over trees and call sequences, compared with the documented effect',
            ''),
    'P24': ('c_conv', 'P24', 'other', ['models of std::vector, std::list, std::string, std::deque (sa/text.py, sa/absnat.py)',
                                       'what fixed-form reading records of a line (P08, P21, P23)'],
            'abstract interpretation of the conversion over the kinds of lines of a statement, texts unknown',
            'statements of up to three (thorough: four) Fortran lines with up to two other lines between'),
}


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod, fn, level, trusted = CHECKS[prop][:4]
    rep = Report(prop, tier, seed)
    try:
        m = __import__(mod)
        expl = getattr(m, fn)(rep)
    except Broken as e:
        print('ANALYSIS BROKEN (%s): %s' % (prop, e))
        if rep.viol:
            return finish(rep, level, 'analysis incomplete: %s' % e, COMMON + trusted)
        return 3
    except Exception:
        traceback.print_exc()
        print('ANALYSIS BROKEN (%s)' % prop)
        return 3
    return finish(rep, level, expl, COMMON + trusted)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
