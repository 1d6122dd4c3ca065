#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


D = 'include/lexy/dsl/'
A = 'include/lexy/action/'

prop('C01', 'Rule combinators parse exactly as documented, for every grammar and input',
     'For every grammar composed of the documented rule combinators (tokens, sequences, branches, choices, options, loops, '
     'lists with every kind of separator, terminators/brackets, times/repeat, peek and lookahead, productions, captures, errors) and every input, '
     'parsing has exactly the outcome the reference documents: the same verdict, the same values in the same order, '
     'the same errors (kind, position and enclosing production) and the same amount of consumed input. '
     'A branch whose condition matched is committed to, and a branch that is not taken leaves no trace in values, errors or position.',
     ['programs', 'inputs'], 'all grammars generated from the combinator DSL up to a size bound, all inputs over their alphabet up to a length bound',
     'The unit tests check each combinator alone on a handful of hand-written inputs; they cannot sample the combinations of '
     'combinators (a list of choices inside an option after a peek ...) nor all inputs of one combination.',
     [D + f for f in ('sequence.hpp', 'branch.hpp', 'choice.hpp', 'option.hpp', 'loop.hpp', 'list.hpp', 'separator.hpp', 'terminator.hpp',
                      'brackets.hpp', 'times.hpp', 'repeat.hpp', 'peek.hpp', 'lookahead.hpp', 'production.hpp', 'capture.hpp', 'token.hpp',
                      'if.hpp', 'error.hpp', 'until.hpp', 'eof.hpp', 'any.hpp', 'literal.hpp', 'position.hpp', 'member.hpp')],
     [('continuation-passing parser templates: a rule calls its continuation with the values so far', D + 'base.hpp'),
      ('branch protocol try_parse / cancel / finish', D + 'branch.hpp'),
      ('list loops and terminator state machine', D + 'list.hpp')],
     observe=['lexy::parse result, its value, the errors passed to the error callback'])

prop('C02', 'All parse actions agree with each other and report a consistent result',
     'For every grammar and input, matching, validating, parsing into a value, parsing into a tree and tracing reach the same verdict, '
     'and the error-reporting actions report the same sequence of errors with the same positions and productions. '
     'A result is a success exactly if no error was reported, it is a recovered error exactly if errors were reported but parsing reached the end of the grammar, '
     'a value is available whenever parsing reached the end of the grammar, and repeating an action gives the same result.',
     ['programs', 'inputs'], 'all generated grammars (including recovering ones) and all inputs, for every action',
     'Each action has its own test file with a few inputs; no test runs two actions on the same grammar and input and compares them.',
     [A + f for f in ('base.hpp', 'match.hpp', 'validate.hpp', 'parse.hpp', 'parse_as_tree.hpp', 'trace.hpp')] + [D + 'token.hpp', D + 'whitespace.hpp'],
     [('one parse driver, event handlers per action', A + 'base.hpp'), ('result status from error count and recovery', A + 'validate.hpp')],
     observe=['bool of match, validate_result, parse_result, parse tree and trace output'])

prop('C03', 'The parse result does not depend on how the input is stored or chunked',
     'Parsing the same code units gives the same verdict, values, error positions and consumed length whether they come from a string view, '
     'an owning buffer (at every length and alignment), an iterator range, or a sub-range of another input, and, for text grammars, whether they are '
     'stored as char, char8_t, UTF-16 or UTF-32 (positions translated accordingly). The word-at-a-time fast paths used for buffers never change a result.',
     ['inputs', 'configurations'], 'all inputs (every length modulo the word size, every position of the interesting byte in a word), all input classes and encodings',
     'Tests run most rules on short string inputs only; a fast path that is wrong for one byte value, one word offset or one length class is '
     'not in the sampled handful.',
     ['include/lexy/_detail/swar.hpp', 'include/lexy/input/buffer.hpp', 'include/lexy/input/string_input.hpp', 'include/lexy/input/range_input.hpp',
      'include/lexy/input/lexeme_input.hpp', D + 'until.hpp', D + 'delimited.hpp', D + 'identifier.hpp', D + 'whitespace.hpp', D + 'literal.hpp',
      D + 'char_class.hpp', D + 'ascii.hpp', D + 'case_folding.hpp', D + 'digit.hpp', D + 'lookahead.hpp'],
     [('SWAR matchers selected for buffer readers', 'include/lexy/_detail/swar.hpp'), ('reader concept: peek/bump/position/reset', 'include/lexy/input/base.hpp')],
     observe=['parse results of the same rule over different inputs'])

prop('C04', 'A parse tree is a lossless, well-formed record of the parse',
     'For every grammar and input for which a tree is produced, the tree reproduces the parsed input exactly: its tokens in order are the consumed text without gap or overlap, '
     'its productions nest as the grammar was parsed, and untaken branches and cancelled productions leave nothing behind. '
     'Every way of walking the tree (traversal, children, parent, siblings, covering lexeme) describes that same tree, and re-parsing the tree as an input gives the same tokens.',
     ['programs', 'inputs'], 'all generated grammars and inputs, including failing and recovering parses',
     'Tests compare a few small trees against literals; they do not check losslessness or navigation on arbitrary trees.',
     ['include/lexy/parse_tree.hpp', A + 'parse_as_tree.hpp', 'include/lexy/input/parse_tree_input.hpp', 'include/lexy_ext/parse_tree_algorithm.hpp', D + 'parse_tree_node.hpp'],
     [('event handler feeding the tree builder, remaining input appended as error/any token', A + 'parse_as_tree.hpp'),
      ('compact tagged sibling/parent pointers', 'include/lexy/parse_tree.hpp')],
     observe=['lexy::parse_tree API'])

prop('C05', 'The parse-tree builder represents every build history faithfully',
     'For every sequence of builder operations (start/finish/cancel production, tokens, backtracking, operator containers, nested to any depth and of any size) the finished tree equals '
     'the tree those operations describe: same shape, kinds, token texts, node count and depth, independent of memory block boundaries, production child counts and reuse of an older tree\'s memory. '
     'Navigation from any node of it (children, parent, siblings, position in parent, last child) is consistent with that shape, and the memory is released exactly once.',
     ['histories'], 'all histories of builder calls, from empty to many thousands of nodes',
     'Tests build a few fixed trees; block-boundary, many-children and backtracking-after-growth histories are not enumerated.',
     ['include/lexy/parse_tree.hpp', 'include/lexy/_detail/memory_resource.hpp'],
     [('block allocator with unwind', 'include/lexy/parse_tree.hpp'), ('container insertion / set_container', 'include/lexy/parse_tree.hpp')],
     observe=['parse_tree::builder and parse_tree node API'])

prop('C06', 'Any input is handled safely by complete grammars, and judged correctly',
     'For complete, realistic grammars (JSON, XML, IP addresses, configuration files, binary messages, arithmetic statements) parsing any byte sequence terminates, stays inside the input, '
     'has no undefined behaviour and releases all memory, for every action and every text encoding. '
     'The verdict and value are those of an independent implementation of the same language.',
     ['inputs'], 'all byte strings, valid, nearly valid and arbitrary',
     'The example tests run a few fixed documents; malformed, truncated or deeply nested documents are not explored and nothing checks memory safety.',
     ['include/lexy/dsl.hpp', 'include/lexy/action/parse.hpp', 'include/lexy/input/buffer.hpp', 'include/lexy/callback/container.hpp', 'examples/json.cpp'],
     [('reader never moves past the end sentinel', 'include/lexy/input/base.hpp')],
     observe=['verdicts and values of whole grammars under address/undefined-behaviour sanitizers'])

prop('C07', 'Unicode text is decoded and encoded exactly as the encoding standard says',
     'In every Unicode encoding a code point rule matches exactly the well-formed encodings of scalar values, consuming exactly that sequence and yielding that value; every ill-formed, truncated, overlong, surrogate or out-of-range sequence is rejected. '
     'Encoding a code point and decoding it again is the identity for every scalar value and every encoding, appending code points to strings in callbacks included.',
     ['inputs'], 'all code points 0..10FFFF and all byte/unit sequences (exhaustive for short UTF-8 sequences and single UTF-16/32 units)',
     'Tests sample about a dozen sequences per encoding.',
     ['include/lexy/_detail/code_point.hpp', 'include/lexy/code_point.hpp', D + 'code_point.hpp', D + 'char_class.hpp', 'include/lexy/callback/string.hpp', 'include/lexy/encoding.hpp'],
     [('decode state machine', 'include/lexy/_detail/code_point.hpp'), ('encode_code_point', 'include/lexy/_detail/code_point.hpp')],
     observe=['dsl::code_point and its restrictions, lexy::as_string, error lexeme lengths'])

prop('C08', 'The Unicode character database matches Unicode 15.0',
     'For every code point the general category, the boolean character properties, the simple case folding and every Unicode character-class rule agree with version 15.0.0 of the Unicode Character Database.',
     ['inputs'], 'all 1114112 code points (exhaustive)',
     'Tests look at a few code points per property.',
     ['include/lexy/_detail/unicode_database.hpp', 'include/lexy/code_point.hpp', D + 'unicode.hpp', D + 'case_folding.hpp'],
     [('three-stage lookup tables', 'include/lexy/_detail/unicode_database.hpp')],
     observe=['lexy::code_point member functions and dsl::unicode rules'])

prop('C09', 'Character classes match exactly their set, through every combination',
     'A character class rule consumes one character exactly if the character is in the set the class denotes, for every character of the encoding; otherwise it consumes nothing and reports the expected class at that position. '
     'Union, difference, intersection and complement of classes denote exactly the corresponding set operations, however they are nested and whatever mix of ASCII, Unicode, byte, literal and range classes they combine.',
     ['programs', 'inputs'], 'generated class expressions, all characters of every encoding',
     'Tests check a few members and non-members of each predefined class and a few two-operand combinations.',
     [D + 'char_class.hpp', D + 'ascii.hpp', D + 'unicode.hpp', D + 'byte.hpp', D + 'literal.hpp', D + 'code_point.hpp', 'include/lexy/_detail/code_point.hpp'],
     [('128-entry ASCII table plus per-code-point predicate', D + 'char_class.hpp'), ('compressed ASCII table as bit tests / SWAR', D + 'char_class.hpp')],
     observe=['match verdict and consumed length'])

prop('C10', 'Literals, literal sets, symbol tables, identifiers and keywords match exactly',
     'A literal matches exactly its character sequence; a literal set or symbol table finds an entry exactly if one is a prefix of the remaining input, and then the longest one, yielding that entry\'s value; case-folded variants do the same modulo case folding. '
     'An identifier is the longest run of leading and trailing characters and is rejected exactly if it is (or, as configured, starts or ends with or contains) a reserved word; a keyword matches exactly if its literal is present and not followed by a further identifier character.',
     ['programs', 'inputs'], 'generated literal sets, symbol tables, reserved sets and all inputs over their alphabet',
     'Tests use one or two fixed sets and a few inputs; prefixes-of-prefixes and near misses are not enumerated.',
     [D + 'literal.hpp', D + 'symbol.hpp', D + 'identifier.hpp', D + 'case_folding.hpp', D + 'follow.hpp', 'include/lexy/_detail/nttp_string.hpp'],
     [('compile-time trie and generated matcher', D + 'literal.hpp'), ('symbol index lookup', D + 'symbol.hpp'), ('reserved set check on the whole lexeme', D + 'identifier.hpp')],
     observe=['verdict, consumed length, symbol value, error kind and position'])

prop('C11', 'Integers convert exactly or report overflow',
     'For every digit sequence, base, digit-group separator and bounded or unbounded integer type, the integer rule yields the exact mathematical value if it fits the type (or the stated bound), and otherwise reports overflow at the digits and recovers; it never yields a wrong value. '
     'Digit rules accept exactly the digits of their base, separators exactly where allowed, and leading zeros exactly when permitted; signs, fixed digit counts and code point ids follow the same exactness.',
     ['inputs', 'configurations'], 'all integer types of 8 to 64 bits, all radices, all digit strings up to and beyond the type limits',
     'Tests check a few boundary values for a few types.',
     [D + 'integer.hpp', D + 'digit.hpp', D + 'sign.hpp', 'include/lexy/callback/integer.hpp'],
     [('digit-wise accumulation with overflow test only near the maximum digit count', D + 'integer.hpp'), ('digit set matching with separators', D + 'digit.hpp')],
     observe=['value, error kind and range, consumed length'])

prop('C12', 'Binary rules decode every byte and bit pattern exactly',
     'For every byte sequence, fixed-width integers of each size and endianness yield exactly the value the bytes denote, byte-count and padding rules consume exactly their count and fail only on too little input or wrong padding, and a bit-field rule matches exactly the bytes with the described pattern. '
     'Byte literals and byte order marks match exactly their bytes.',
     ['inputs', 'configurations'], 'all byte sequences up to 16 bytes, all widths and endiannesses, all 256 byte values per bit pattern',
     'Tests check single example values.',
     [D + 'byte.hpp', D + 'bits.hpp', D + 'bom.hpp', D + 'literal.hpp', 'include/lexy/callback/bit_cast.hpp'],
     [('bint value callbacks', D + 'byte.hpp'), ('bit pattern matching', D + 'bits.hpp')],
     observe=['values, verdict, consumed length'])

prop('C13', 'Delimited text yields exactly the text between the delimiters',
     'For every input, a quoted or delimited rule ends at the first unescaped closing delimiter, passes on exactly the content characters and the replacement of each escape sequence in order, '
     'and reports missing delimiters, invalid characters and invalid escapes at their position while keeping the remaining content. '
     'Searching rules (until, until-or-end, lookahead) stop exactly at the first occurrence of what they search.',
     ['inputs', 'programs'], 'all inputs over delimiter, escape and content characters, for all kinds of delimiters, limits and escape tables',
     'Tests use a few fixed strings with single-character delimiters.',
     [D + 'delimited.hpp', D + 'until.hpp', D + 'lookahead.hpp', 'include/lexy/callback/string.hpp'],
     [('content scanning loop with SWAR skip', D + 'delimited.hpp'), ('escape dispatch', D + 'delimited.hpp')],
     observe=['sink contents, errors, consumed length'])

prop('C14', 'Automatic whitespace skipping changes nothing but where whitespace may appear',
     'Inserting text that matches the whitespace rule after any token, at the start or at the end leaves the verdict and the values unchanged, and removing all of it does too. '
     'Inside token productions and no-whitespace rules no whitespace is skipped, afterwards it is skipped again, including after a failure that was recovered from, and the tree contains exactly the skipped whitespace.',
     ['programs', 'inputs'], 'generated grammars with whitespace (characters, comments, several alternatives), all placements of whitespace',
     'Tests check single whitespace placements in tiny grammars.',
     [D + 'whitespace.hpp', D + 'token.hpp', D + 'production.hpp', A + 'base.hpp', D + 'capture.hpp'],
     [('every token continues with the whitespace parser', D + 'token.hpp'), ('whitespace production inheritance', A + 'base.hpp'), ('skip loop, word-at-a-time for spaces', D + 'whitespace.hpp')],
     observe=['values, verdict, whitespace tokens'])

prop('C15', 'Operator expressions group by precedence and associativity',
     'For every operator table (prefix, postfix, infix left/right/single, n-ary lists, several levels, shared operator prefixes, groups) and every token sequence, the parsed expression is the unique grouping the declared precedences and associativities define, '
     'each operator and operand is used exactly once in order, and the tree groups the same way. '
     'Sequences with no such grouping (missing operand, chained non-associative operators, disallowed mixing, operators nested deeper than the limit) are reported as the documented error at the offending position.',
     ['programs', 'inputs'], 'several operator tables, all token sequences up to a length bound',
     'Tests check a couple of expressions per operator kind.',
     [D + 'expression.hpp', D + 'operator.hpp', 'include/lexy/callback/fold.hpp', 'include/lexy/action/parse_as_tree.hpp'],
     [('precedence climbing over binding power', D + 'expression.hpp'), ('longest operator match via trie', D + 'operator.hpp')],
     observe=['value, errors, tree shape'])

prop('C16', 'Error recovery resumes exactly at the synchronisation point',
     'When a recoverable part fails, parsing resumes exactly where the recovery rule says (immediately, at the first sought token, at the first matching branch, at the next separator or terminator) and fails if a limit or the end comes first; the discarded text is reported once as an error token. '
     'Parsing after recovery behaves as if the failed part had succeeded: later errors are still found, nothing is reported twice, and the state of the parse (values collected, whitespace skipping, nesting depth, context) is that of the enclosing rule.',
     ['programs', 'inputs', 'histories'], 'generated grammars with recovery rules, inputs with any number of errors',
     'Tests inject one error into one list.',
     [D + 'recover.hpp', D + 'list.hpp', D + 'terminator.hpp', D + 'option.hpp', D + 'delimited.hpp', D + 'error.hpp'],
     [('continuation-reached flag', D + 'recover.hpp'), ('list recovery state machine', D + 'list.hpp')],
     observe=['errors, values, error tokens in the tree'])

prop('C17', 'The recursion limit is exact',
     'A recursive grammar accepts every nesting up to its declared maximum depth and rejects every deeper one with the recursion-depth error at the offending position, instead of exhausting the stack. '
     'The depth counts only currently open recursions: it does not grow with the length of the input, with siblings, with earlier errors that were recovered from, or with untaken branches.',
     ['inputs', 'histories'], 'all nesting shapes (deep, wide, with errors in between), all limits',
     'Tests check one nesting just beyond one limit.',
     [D + 'production.hpp', D + 'expression.hpp', A + 'base.hpp', D + 'scan.hpp', D + 'recover.hpp'],
     [('depth counter in the control block', D + 'production.hpp')],
     observe=['verdict and error'])

prop('C18', 'Context variables obey their scope and their model',
     'Counters, flags and remembered identifiers behave like variables local to the production that created them: every operation (increment, add length, toggle, compare, capture, re-match) acts on the innermost one of its id and is visible to child productions and never outside. '
     'A comparison, flag query or identifier re-match succeeds exactly if the model value says so, for every interleaving of operations and nestings.',
     ['histories', 'inputs'], 'all operation sequences encoded in the input, with nested scopes',
     'Tests run one straight-line sequence each.',
     [D + 'context_counter.hpp', D + 'context_flag.hpp', D + 'context_identifier.hpp', A + 'base.hpp'],
     [('intrusive list of context variables', A + 'base.hpp')],
     observe=['verdicts, values and errors of a grammar that interprets its input as context operations'])

prop('C19', 'Input locations equal counting from the start',
     'For every position of every input the reported line and column are those obtained by counting newlines and columns (code units, code points, bytes or bytes per line, as selected) from the beginning, and an anchor obtained from any earlier location gives the same answer. '
     'The line annotation computed for a location splits exactly the line that contains it, and locations order like their positions.',
     ['inputs'], 'all inputs with mixed line endings and multi-byte characters, all positions and anchors, all counting policies',
     'Tests check a few positions of a three-line text.',
     ['include/lexy/input_location.hpp'],
     [('counting policies and line search', 'include/lexy/input_location.hpp')],
     observe=['get_input_location, get_input_line_annotation'])

prop('C20', 'Inputs and buffers present exactly the given data',
     'A buffer built from any data (copied, filled, released from a builder, read from a file of any size, or decoded from raw bytes with any encoding, byte order and optional byte order mark) exposes exactly the expected code units followed by the end of input, also after copying, moving and assigning. '
     'String, range, lexeme, command-line and multi-line shell inputs likewise present exactly their documented character sequence.',
     ['inputs', 'histories'], 'all sizes from 0 to beyond the growth and word thresholds, all contents, all encodings and byte orders',
     'Tests use a few short contents.',
     ['include/lexy/input/buffer.hpp', 'include/lexy/input/file.hpp', 'src/input/file.cpp', 'include/lexy/input/argv_input.hpp', 'include/lexy/input/string_input.hpp',
      'include/lexy/input/range_input.hpp', 'include/lexy/input/lexeme_input.hpp', 'include/lexy/input/parse_tree_input.hpp', 'include/lexy/_detail/buffer_builder.hpp', 'include/lexy/encoding.hpp', 'include/lexy_ext/shell.hpp'],
     [('sentinel-terminated padded storage', 'include/lexy/input/buffer.hpp'), ('BOM detection and byte swapping', 'include/lexy/input/buffer.hpp'), ('file reading', 'src/input/file.cpp')],
     observe=['data()/size(), and the code units a reader delivers until end of input'])

prop('C21', 'Callbacks receive every value once, in order, and build exactly that result',
     'For every sequence of parsed items, the built-in callbacks and sinks (lists, collections, strings, aggregates, folds, concatenation, collecting, binding and composition, constants, integer and bit conversion) produce the result of the corresponding plain operation on those items in source order, each item used exactly once. '
     'No parsed object is leaked, destroyed twice or used after being moved from, also when parsing fails, recovers or backtracks.',
     ['inputs', 'programs'], 'all item sequences, with counted objects and failures injected at any position',
     'Tests call callbacks directly with a few values.',
     ['include/lexy/callback/' + f for f in ('container.hpp', 'string.hpp', 'aggregate.hpp', 'fold.hpp', 'bind.hpp', 'composition.hpp', 'adapter.hpp', 'forward.hpp', 'object.hpp', 'constant.hpp', 'integer.hpp', 'bit_cast.hpp', 'noop.hpp', 'base.hpp')]
     + ['include/lexy/_detail/lazy_init.hpp', 'include/lexy/grammar.hpp'],
     [('sinks created per list, finished once', D + 'list.hpp'), ('lazy_init storage of production values', 'include/lexy/_detail/lazy_init.hpp')],
     observe=['resulting values; counts of constructions and destructions'])

prop('C22', 'Diagnostics show exactly what and where',
     'For every error at every position, the rendered report names the right line and column, shows the text of that line with everything unprintable escaped and underlines exactly the reported range; visualising any code point, lexeme or tree is lossless up to the documented escaping and length limits. '
     'Rendering never fails, never reads outside the input and never writes outside the output range, for any input and encoding.',
     ['inputs'], 'all inputs (control characters, invalid encodings, long lines), all error positions and ranges, all visualisation options',
     'Tests compare a few rendered messages.',
     ['include/lexy/visualize.hpp', 'include/lexy_ext/report_error.hpp', 'include/lexy/error.hpp', 'include/lexy/input_location.hpp', A + 'trace.hpp'],
     [('escaping visualiser', 'include/lexy/visualize.hpp'), ('annotation writer', 'include/lexy_ext/report_error.hpp')],
     observe=['rendered text'])

prop('C23', 'A scanner behaves like the rules it is asked to parse',
     'For every sequence of scanner operations (parse, branch, discard, peek, position, captures, error, integer and production parsing, recovery) on any input, each call has the effect of the corresponding rule at the current position: same verdict, value, errors and advance. '
     'After a failed operation all further operations are no-ops until error recovery, and the state reported by the scanner always matches the history of calls, inside a grammar and on its own.',
     ['histories', 'inputs'], 'all sequences of scanner calls on all inputs',
     'Tests execute one short scripted sequence.',
     [D + 'scan.hpp', A + 'scan.hpp'],
     [('scanner state machine: normal, failed, recovery', D + 'scan.hpp')],
     observe=['scanner state, position, values, errors'])

prop('C24', 'Parsing at compile time and at run time gives the same result',
     'For every constant input, evaluating a parse in a constant expression yields the same verdict, value and errors as performing it at run time.',
     ['inputs', 'configurations'], 'generated grammars and inputs, evaluated by the compiler and at run time, with two compilers and language versions',
     'Tests execute a few fixed constant expressions for hand-picked rules.',
     ['include/lexy/_detail/lazy_init.hpp', 'include/lexy/_detail/tuple.hpp', 'include/lexy/_detail/string_view.hpp', A + 'parse.hpp', 'include/lexy/input/string_input.hpp', D + 'literal.hpp'],
     [('constexpr throughout; different storage in lazy_init', 'include/lexy/_detail/lazy_init.hpp')],
     observe=['static evaluation versus run-time evaluation of the same call'])

prop('C25', 'Combinations, flags and member assignment accept each part once, in any order',
     'A combination accepts its branches in every order, each at most once, requires all of them unless partial, and reports the documented error for a duplicate, an unknown or a missing part. '
     'Flag rules produce the bitwise union of the given flags and report duplicates, and member assignments set exactly the named members regardless of order.',
     ['inputs'], 'all sequences of parts, including repeated, missing and unknown ones',
     'Tests check a few orders.',
     [D + 'combination.hpp', D + 'flags.hpp', D + 'member.hpp', 'include/lexy/callback/aggregate.hpp'],
     [('handled[] bookkeeping', D + 'combination.hpp'), ('flag accumulation', D + 'flags.hpp')],
     observe=['values, errors'])

prop('C26', 'Trace and parse events describe the parse exactly',
     'For every grammar and input, the events emitted during a parse are balanced and ordered: productions nest, every production start has exactly one finish or cancel, tokens of the surviving parse are contiguous, recovery starts are closed, and the event positions are positions of the input. '
     'The rendered trace shows the same sequence with the right line and column for each event.',
     ['programs', 'inputs'], 'all generated grammars and inputs',
     'Tests compare a few traces literally.',
     [A + 'trace.hpp', D + 'base.hpp', D + 'production.hpp'],
     [('event handlers', A + 'trace.hpp')],
     observe=['trace output'])

prop('C27', 'Re-parsing a parse tree sees exactly its nodes',
     'A parse tree used as an input presents exactly the children of the chosen node in order: a token rule or production rule matches exactly a node of its kind, entering a production and leaving it again keeps the position among its siblings, '
     'and a nested rule must consume all children of the node it is parsed on. A failing match reports the documented error at the text position of the offending node, and values produced by nested rules arrive in order.',
     ['inputs', 'programs'], 'all trees up to a size bound and generated grammars of node rules over them',
     'Tests match two or three fixed trees.',
     ['include/lexy/input/parse_tree_input.hpp', D + 'parse_tree_node.hpp', 'include/lexy/parse_tree.hpp'],
     [('reader over a node and its siblings', 'include/lexy/input/parse_tree_input.hpp'), ('tnode/pnode rules', D + 'parse_tree_node.hpp')],
     observe=['values, errors and consumed nodes of a parse whose input is a parse tree'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
