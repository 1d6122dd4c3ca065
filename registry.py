"""What each check builds and runs. cases: total number of generated cases per tier."""

PROPS = {}

PROPS['C19'] = dict(
    rule='A case is a text (mixed \\n, \\r\\n, lone \\r, multi-unit and malformed characters) of up to 80 characters in one of 7 encodings and 3 '
         'input kinds, a counting policy, a position, later positions for anchors and an annotation range; non-trivial: the position is not on the '
         'first line of a text of more than 3 units. Oracle: single left-to-right scan of the code units.',
    units=[dict(src=['c19_location.cpp'], cfg='san', cases=dict(quick=400000, thorough=6000000)),
           dict(src=['c19_location.cpp'], cfg='rel', cases=dict(quick=800000, thorough=12000000))],
)

PROPS['C08'] = dict(
    rule='Exhaustive: a case is a block of 64 code points; all 1,114,112 code points are visited, each checked for category, case folding, '
         'classification predicates and 34 character-class rules in UTF-8 and UTF-32 against a run-length copy of UCD 15.0 taken from Perl '
         '(cross-checked against Python). Every block is non-trivial. Plus random values outside Unicode.',
    units=[dict(src=['c08_ucd.cpp'], cfg='rel', flags=['-DLEXY_HAS_UNICODE_DATABASE=1'], cases=dict(quick=2 * 17408 + 16, thorough=2 * 17408 + 16)),
           dict(src=['c08_ucd.cpp'], cfg='san', flags=['-DLEXY_HAS_UNICODE_DATABASE=1'], cases=dict(quick=2 * 17408 // 8, thorough=2 * 17408 + 16))],
)

PROPS['C07'] = dict(
    rule='Every code point (exhaustively, in blocks of 64) is encoded and decoded in UTF-8, UTF-16, UTF-32 and ASCII; plus generated code unit '
         'sequences built from lead bytes, boundary continuation bytes, surrogates and truncations, and whole texts. Oracle: table 3-7 of the '
         'Unicode standard written independently. Non-trivial: the sequence starts with a non-ASCII unit, or a text of more than 2 units.',
    units=[dict(src=['c07_codec.cpp'], cfg='san', cases=dict(quick=120000, thorough=8000000)),
           dict(src=['c07_codec.cpp'], cfg='rel', cases=dict(quick=700000, thorough=20000000))],
)

PROPS['C09'] = dict(
    rule='Generated class expressions (all predefined classes plus random nestings of union, minus, intersection, complement, renaming over ASCII, '
         'Unicode, code point range/set, literal and byte atoms; drawn from VERIF_SEED) times texts with members, non-members and malformed parts in 6 '
         'encodings; and every byte / 480 code points per expression. Oracle: an independent membership predicate (ASCII formulas, UCD 15.0 copy). '
         'Non-trivial: the text starts with a member and ends the run before the end.',
    units=[dict(src=['c09_classes.cpp'], codegen='charclass', pch='c09_support.hpp', cfg='san', flags=['-DLEXY_HAS_UNICODE_DATABASE=1', '-fconstexpr-steps=200000000'],
                cases=dict(quick=140000, thorough=4000000))],
)

PROPS['C10'] = dict(
    rule='A case is one of the generated rules (literals of 1-24 units, keywords, literal sets and symbol tables over families that share prefixes, with and '
         'without ASCII/Unicode case folding, identifiers with reservations; drawn from VERIF_SEED) on a text spliced from the literals with case variants, in 6 '
         'encodings and 3 input kinds. Oracle: linear scan for the longest listed text the (folded) input starts with. Non-trivial: a text of more than 1 unit.',
    units=[dict(src=['c10_literals.cpp'], codegen='literals', pch='c10_support.hpp', cfg='san', flags=['-DLEXY_HAS_UNICODE_DATABASE=1', '-fconstexpr-steps=200000000'],
                cases=dict(quick=300000, thorough=6000000))],
)

PROPS['C05'] = dict(
    rule='A case is 1-4 builds into the same tree object, each a random history of builder operations (tokens incl. empty and error ones, start/finish/cancel of '
         'normal, token and transparent productions, containers, set_container_production, bulk fills, fills to every offset of a memory block) over 3 kinds of '
         'iterators, 2 token kind types, default and counting memory resource. Oracle: tree of vectors with the documented effect of each operation; every '
         'navigation function of every node is compared. Non-trivial: the finished tree has more than 4 nodes.',
    units=[dict(src=['c05_builder.cpp'], cfg='san', cases=dict(quick=25000, thorough=800000)),
           dict(src=['c05_builder.cpp'], cfg='rel', cases=dict(quick=60000, thorough=2000000))],
)

_GRAMMAR_RULE = ('A case is one of the grammars generated from VERIF_SEED (2-5 productions: sequences, branches, choices, lists, terminators, brackets, loops, repetition, '
                 'lookahead, recovery, whitespace, recursion, token/transparent/void productions) and a text derived from it and mutated 0-3 times. Oracle: an independent '
                 'direct-style interpreter of the same grammar (harness/ref.hpp). Non-trivial: more than 3 code units and more than 6 parse events; distinct by grammar and text. ')


def _grammars(actions, count, profile, salt, quick, thorough, cfg='san', extra=[], flags=[]):
    return dict(src=['c01_grammars.cpp'] + extra, codegen='grammars', codegen_args=dict(count=count, per_file=2, profile=profile, salt=salt), pch='gx.hpp', cfg=cfg,
                flags=['-DGX_ACTIONS=%d' % actions] + flags, cases=dict(quick=quick, thorough=thorough))


PROPS['C01'] = dict(
    rule=_GRAMMAR_RULE + 'Compared: success/failure, the value (every lexeme, position, list, nesting), every error with range and production, match().',
    units=[_grammars(5, 96, 'general', 0, 250000, 6000000)])
PROPS['C02'] = dict(
    rule=_GRAMMAR_RULE + 'match(), validate(), parse() and parse_as_tree() are all run and have to agree on outcome, error list and error count.',
    units=[_grammars(15, 56, 'general', 11, 120000, 3000000)])
PROPS['C04'] = dict(
    rule=_GRAMMAR_RULE + 'Compared: the whole parse tree (productions, token kinds, token ranges, remaining input) with the one described by the events of the oracle; '
         'the tokens have to tile the consumed input.',
    units=[_grammars(8, 72, 'general', 21, 150000, 4000000), _grammars(8, 24, 'recovery', 22, 50000, 1000000)])
PROPS['C14'] = dict(
    rule=_GRAMMAR_RULE + 'All grammars have whitespace on the root and often other whitespace on inner productions, no_whitespace, token productions and explicit whitespace; '
         'texts get whitespace and comments between tokens. Compared: value, errors and tree.',
    units=[_grammars(12, 72, 'ws', 31, 150000, 4000000)])
PROPS['C16'] = dict(
    rule=_GRAMMAR_RULE + 'Grammars are heavy on try_, find, recover, limits, terminators and brackets. Compared: value, errors and tree.',
    units=[_grammars(12, 72, 'recovery', 41, 150000, 4000000)])

PROPS['C11'] = dict(
    rule='A case is one of the generated digit/integer rules (6 bases, 7 forms of digit tokens, 18 integer types, bounded/unbounded/user-defined, code_point_id, code_unit_id, sign; '
         'drawn from VERIF_SEED) on a digit string near the limit of the type, crossing SWAR words or random, with separators, leading zeros and odd characters, in 7 encodings and 3 input kinds. '
         'Oracle: the mathematical value of the digits in 128 bits. Non-trivial: a text of more than 2 units.',
    units=[dict(src=['c11_integers.cpp'], codegen='integers', pch='c11_support.hpp', cfg='san', cases=dict(quick=400000, thorough=8000000))],
)

PROPS['C03'] = dict(
    rule='(1) 51 lexical rules (identifiers, digits, classes, until, delimited, whitespace, literals, lists, recovery) on texts that put fragments and runs of 0-40 units at every offset of a '
         'word, with arbitrary bytes, through 5 encodings x {forward range, string, buffer, part of a buffer, string at an odd address}; the forward range (no fast path) is the oracle. '
         '(2) ' + _GRAMMAR_RULE + 'parse(), parse_as_tree() and match() run on a buffer and two more of 10 input kinds and encodings. Non-trivial in (1): more than 8 units.',
    units=[dict(src=['c03_inputs.cpp'], codegen='c03', pch='c03_support.hpp', cfg='san', flags=['-DLEXY_HAS_UNICODE_DATABASE=1', '-fconstexpr-steps=200000000'],
                cases=dict(quick=60000, thorough=2000000)),
           _grammars(32, 24, 'general', 51, 30000, 800000)],
)

PROPS['C13'] = dict(
    rule='A case is one of the generated rules (13 pairs of delimiters incl. case-folded, keyword and captured ones; 9 content classes; limits; up to 2 escape characters with symbol, capture, '
         'code unit/point and catch-all sequences; until/or_eof over literals, sets, newline, classes; lookahead; drawn from VERIF_SEED) on a text spliced from delimiters and parts of them, escapes '
         '(complete, truncated, invalid), runs of 0-36 content characters, invalid and malformed characters, in 6 encodings and 3 input kinds. Oracle: a code-unit-by-code-unit scan. '
         'Compared: value with every lexeme, errors, parse tree tokens, behaviour as a branch. Non-trivial: more than 3 units.',
    units=[dict(src=['c13_delimited.cpp'], codegen='delimited', pch='c13_support.hpp', cfg='san', cases=dict(quick=300000, thorough=8000000))],
)

PROPS['C12'] = dict(
    rule='A case is one of 96 generated binary messages (1-5 elements: 7 fixed-width integers also over range/ASCII/wrong-count tokens, byte counts with predicates, padding, bit patterns, byte literals, byte '
         'order marks, some as branches; drawn from VERIF_SEED) on bytes built to match, then mutated, truncated or extended; every byte value at one position of single-element messages. Oracle: '
         'arithmetic on the bytes. Compared: value incl. integer type, every error, tokens. Non-trivial: more than 1 byte.',
    units=[dict(src=['c12_bytes.cpp'], codegen='bytes', pch='c12_support.hpp', cfg='san', cases=dict(quick=150000, thorough=6000000))],
)

PROPS['C15'] = dict(
    rule='A case is one of the operator tables generated from VERIF_SEED (1-6 operations: left, right, list, single, prefix, postfix over 1-4 levels and groups; operators that share prefixes, are case '
         'folded, have a follow restriction, a rest, and all kinds of tags; subexpressions; limits on the nesting; atoms that recurse, fail or recover) embedded in a small grammar, and a text with the operators '
         'in random order, sometimes a chain around the nesting limit, mutated 0-3 times. Oracle: runtime precedence climbing over the table (harness/ref.hpp). Compared: value (grouping), errors, tree, match(). '
         'Non-trivial: more than 3 code units and more than 6 parse events.',
    units=[dict(src=['c01_grammars.cpp'], codegen='expressions', codegen_args=dict(count=80, per_file=2, salt=61), pch='gx.hpp', cfg='san', flags=['-DGX_ACTIONS=13', '-DGX_STATE=1'],
                cases=dict(quick=120000, thorough=4000000))],
)

PROPS['C18'] = dict(
    rule=_GRAMMAR_RULE + 'The root creates two counters, two flags and two identifiers, which the rules of all productions change (inc, dec, push, pop, set, reset, toggle, capture), test (is, equal_counts, '
         'is_set, is_reset, rematch; as rules and as branches) and produce; productions create their own that hide the outer ones. The oracle keeps them in a scope stack. Compared: value, errors, tree, match().',
    units=[_grammars(13, 72, 'ctx', 71, 150000, 4000000)])
PROPS['C25'] = dict(
    rule=_GRAMMAR_RULE + 'With combinations and partial combinations of 1-5 branches, flags over symbol tables (also flags without bits and two names for one flag), flag, and members collected into '
         'aggregates by as_aggregate as callback and as sink. Texts have the parts in random order, left out and repeated. Compared: value, errors, tree, match().',
    units=[_grammars(13, 72, 'comb', 81, 150000, 4000000)])

PROPS['C17'] = dict(
    rule=_GRAMMAR_RULE + 'Here every production is bracketed and recurses (recurse and recurse_branch, in sequences, lists, loops, options, choices, try_ and bracketed lists with recovery, with and without an '
         'error tag) into itself and the others; maximum depths 1-40 under the sanitizers and up to 1500 or the default of 1024 in a release build. Half of the texts nest up to within 2 of the limit or to a random depth, '
         'the others are wide. Compared: value, errors, tree, match().',
    units=[_grammars(13, 56, 'rec', 91, 80000, 2500000), _grammars(13, 16, 'deep', 92, 12000, 400000, cfg='rel')])

PROPS['C26'] = dict(
    rule=_GRAMMAR_RULE + 'Also with context variables, combinations, operator tables, debug rules and terminators that are productions or lookahead. Compared: the whole text written by trace_to() under random '
         'visualisation options (unicode, symbols, color, depth and width limits) with the one rendered from the event history of the oracle: nesting, order, location, token kind and text of every event.',
    units=[_grammars(16, 72, 'trace', 95, 100000, 3000000),
           dict(src=['c01_grammars.cpp'], codegen='expressions', codegen_args=dict(count=24, per_file=2, salt=96), pch='gx.hpp', cfg='san', flags=['-DGX_ACTIONS=16', '-DGX_STATE=1'],
                cases=dict(quick=30000, thorough=1000000))])

PROPS['C20'] = dict(
    rule='A case is a history of 1-12 constructions, copies, moves, assignments, releases and adoptions on three buffers in 7 encodings, with and without a checking memory '
         'resource; raw bytes with whole, cut or damaged byte order marks in every encoding and byte order, in memory, in files and pipes around the sizes of the internal '
         'buffers; command lines; parts of strings, ranges and buffers; shells fed lines of up to 2000 units through a scripted or the default prompt with random peeks, bumps '
         'and resets. Oracle: the list of code units given. Non-trivial: more than two operations with text, more than two units, or more than one line.',
    units=[dict(src=['c20_inputs.cpp'], cfg='san', cases=dict(quick=60000, thorough=2000000)),
           dict(src=['c20_inputs.cpp'], cfg='rel', cases=dict(quick=150000, thorough=5000000))],
)

PROPS['C21'] = dict(
    rule='(1) generated grammars whose productions produce watched, move-only objects, run on generated texts; a case is non-trivial if the reference produces a value of at least '
         'one nested production or an error; oracle: the reference interpreter for the value and the watch on construction, destruction and use after move. '
         '(2) sequences of up to 24 items given to every built-in callback and sink directly and through parsing, with allocators, state, binding and composition; oracle: the '
         'plain operation on the items; non-trivial: at least two items.',
    units=[dict(src=['c21_callbacks.cpp'], cfg='san', flags=['-DLEXY_HAS_UNICODE_DATABASE=1'], cases=dict(quick=60000, thorough=2000000)),
           dict(src=['c21_callbacks.cpp'], cfg='rel', flags=['-DLEXY_HAS_UNICODE_DATABASE=1'], cases=dict(quick=120000, thorough=4000000)),
           _grammars(4, 32, 'general', 101, 60000, 1500000, flags=['-DGX_TRACKED=1']),
           _grammars(4, 16, 'recovery', 102, 40000, 1000000, flags=['-DGX_TRACKED=1']),
           _grammars(4, 16, 'comb', 103, 40000, 1000000, flags=['-DGX_TRACKED=1']),
           dict(src=['c01_grammars.cpp'], codegen='expressions', codegen_args=dict(count=16, per_file=2, salt=104), pch='gx.hpp', cfg='san', flags=['-DGX_ACTIONS=4', '-DGX_STATE=1', '-DGX_TRACKED=1'],
                cases=dict(quick=40000, thorough=1000000))],
)

PROPS['C22'] = dict(
    rule='A case is a block of 256 code points (enumerated), a lexeme in 7 encodings and 2 iterator kinds, a tree (depth up to 36, all token kinds) or a sequence of 0-3 '
         'errors of every kind with arbitrary positions and ranges in a text of mixed line ends, control characters and malformed units, in 6 encodings and 3 input kinds; '
         'each with random visualisation options. Oracle: an independent renderer (harness/ref_visualize.hpp, ref_location.hpp); output also through an exactly sized '
         'buffer and a FILE; display width counted from the output; colors stripped after checking that they are reset. Non-trivial: the lexeme needs escaping, the tree '
         'has more than 5 nodes, or at least one error in a text of more than 3 units.',
    units=[dict(src=['c22_visualize.cpp'], cfg='san', cases=dict(quick=80000, thorough=3000000)),
           dict(src=['c22_visualize.cpp'], cfg='rel', cases=dict(quick=240000, thorough=8000000))],
)

PROPS['C23'] = dict(
    rule=_GRAMMAR_RULE + 'One or two productions of every grammar are scanners with 4-8 operations (parse, branch, peek, discard, capture, integer, productions; on generated rules). What a scanner does is a '
         'generated program of up to 9 steps per call (operations, errors, nested recoveries that are finished or cancelled, and what it returns), interpreted against the real scanner and against the oracle. '
         'A third of the cases run a program on lexy::scan() with a control production. Compared: after every step the result, position, state and EOF; values, errors, tree, match(), traces.',
    units=[_grammars(13, 28, 'scan', 111, 40000, 3000000, flags=['-DGX_SCAN=1']),
           _grammars(16, 8, 'scan', 112, 12000, 1000000, flags=['-DGX_SCAN=1']),
           _grammars(14, 8, 'scanstate', 113, 12000, 1000000, flags=['-DGX_SCAN=1', '-DGX_STATE=1'])])

_CT = ['-DLEXY_HAS_UNICODE_DATABASE=1']
_CTC = _CT + ['-fconstexpr-steps=2000000000', '-fconstexpr-depth=20000', '-fbracket-depth=2000']
_CTG = _CT + ['-fconstexpr-ops-limit=20000000000', '-fconstexpr-depth=20000', '-fconstexpr-loop-limit=10000000']


def _ct(cfg, flags, salt, profiles, count, rules):
    return dict(src=['c24_constexpr.cpp'], codegen='cteval', codegen_args=dict(salt=salt, profiles=profiles, count=count, rules=rules), cfg=cfg, flags=flags,
                cases=dict(quick=4000, thorough=40000))


PROPS['C24'] = dict(
    rule='A case is a generated grammar (rule combinators, whitespace, recovery, context variables, operator expressions) or a single rule (integers, symbols, identifiers, character classes, '
         'literal sets, case folding, code points, delimited and quoted text, brackets, bytes, bits) with a text derived from it, as string or range in one of 6 encodings. lexy::match, validate and parse are '
         'evaluated by the compiler and again at run time on an exactly sized copy; verdicts, value and errors have to be the same, and the evaluation has to be a constant expression. For grammars '
         'both are also compared with the reference interpreter. clang (C++20 with values that own memory, C++17) and gcc (C++17, C++20). Non-trivial: a text of more than one unit.',
    units=[_ct('san', _CTC, 1, ('general', 'expr', 'ws', 'recovery'), 12, 60), _ct('gcc17', _CTG, 2, ('general', 'ctx', 'recovery', 'expr'), 8, 36),
           _ct('san17', _CTC, 3, ('ctx', 'expr', 'general', 'ws'), 8, 36), _ct('gcc', _CTG, 4, ('expr', 'recovery', 'ctx', 'general'), 4, 36)],
)

PROPS['C06'] = dict(
    rule='A case is a document of one of 6 languages (JSON, XML, IP addresses, configuration file, arithmetic statements, binary messages; grammars after examples/) derived with every limit approached '
         '(integer bounds, nesting, escapes, separators, elisions, over-long encodings), encoded in UTF-8/16/32 or bytes, in 3 input kinds with exactly sized storage, and damaged 0-5 times (truncation, '
         'splicing, raw code units). Oracle: hand-written recursive-descent implementations of the languages on code points: verdict of match, validate, parse and parse_as_tree, value, equal errors, error '
         'positions inside the input, tree tokens spelling the text; diagnostics and tree are rendered. Non-trivial: more than 3 code units visible.',
    units=[dict(src=['c06_documents.cpp'], cfg=cfg, flags=['-DLEXY_HAS_UNICODE_DATABASE=1', '-DC06_PART=%d' % part] + (['-fconstexpr-steps=200000000'] if cfg == 'san' else []),
                cases=dict(quick=q, thorough=t))
           for cfg, q, t in [('san', 20000, 1000000), ('rel', 60000, 3000000)] for part in range(4)],
)

PROPS['C27'] = dict(
    rule='A case is one of the generated tree grammars (tnode and pnode as tokens and with rules for their text and children, captures, choices, loops, lists, until, eof, '
         'subproductions, recursion, node whitespace; drawn from VERIF_SEED) and a parse tree derived from it, mutated 0-3 times and built with the builder; the whole tree '
         'or the children of one node is the input. The reader is walked over the whole tree. Oracle: the model the tree was built from and an interpreter on that model. '
         'Compared: every node and position the reader presents, value, errors with production, productions and tokens it reports, validate() and match(). Non-trivial: at least two '
         'nodes matched in a tree of more than 3.',
    units=[dict(src=['c27_reparse.cpp'], codegen='reparse', pch='c27_support.hpp', cfg='san', cases=dict(quick=150000, thorough=3000000))])
