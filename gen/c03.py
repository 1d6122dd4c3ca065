"""The rules of harness/c03_inputs.cpp, four per file. Format: expression, branch, needs Unicode, fragments (the first one starts most texts)."""
import os

R = [
    ('dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::word)', 1, 0, ['a', 'aZ_9', 'abcdefgh', '_______', '@', 'zzzz', '[', '`', '{', '/', ':']),
    ('dsl::identifier(dsl::ascii::alpha)', 1, 0, ['a', 'abcZ', 'aaaaaaaA', '1', '@', '[', '`', '{']),
    ('dsl::identifier(dsl::ascii::lower, dsl::ascii::alpha_digit).reserve(LEXY_LIT("abc"), LEXY_LIT("abcdefghij"))', 1, 0, ['abc', 'defghij', 'abcdefgh', '1', '_']),
    ('dsl::identifier(dsl::ascii::upper, dsl::ascii::upper / dsl::ascii::digit)', 1, 0, ['A', 'AZAZAZAZ', '@[', '09', 'a']),
    ('dsl::identifier(dsl::ascii::graph)', 1, 0, ['!', '!~!~!~!~', '\x7f', ' ', 'aa']),
    ('dsl::identifier(dsl::ascii::print, dsl::ascii::print)', 1, 0, ['a', ' ~ ~', '\x1f', '\x7f']),
    ('dsl::identifier(dsl::unicode::xid_start, dsl::unicode::xid_continue)', 1, 1, ['a', 'aZ_9', '\xc3\xa4', 'abcdefgh', '-']),
    ('LEXY_KEYWORD("while", dsl::identifier(dsl::ascii::alpha))', 1, 0, ['while', 'whilea', 'whil', 'w', '1']),
    ('dsl::digits<>', 1, 0, ['1', '0123456789', '9', '8', '/', ':', 'a']),
    ('dsl::digits<dsl::hex>', 1, 0, ['f', 'aF09', 'A', '9', 'g', '@', '`', ':']),
    ('dsl::digits<dsl::octal>', 1, 0, ['7', '01234567', '8', '/', '0']),
    ('dsl::digits<dsl::binary>', 1, 0, ['1', '01', '2', '/', '0']),
    ("dsl::digits<>.sep(dsl::digit_sep_tick).no_leading_zero()", 1, 0, ["1", "12'345", "'", '0', '12345678', "9'"]),
    ('dsl::integer<unsigned>', 1, 0, ['1', '42949672', '00000000', '9', 'a']),
    ('dsl::while_(dsl::ascii::alpha)', 0, 0, ['a', 'abcdefgh', 'Z', '@', '[']),
    ('dsl::while_one(dsl::ascii::graph)', 1, 0, ['a', '!~!~!~!~', ' ', '\x7f']),
    ('dsl::while_(dsl::ascii::space)', 0, 0, [' ', '        ', '\t\n\v\f\r', '\x1f', '\x08', '\x0e']),
    ('dsl::while_(dsl::ascii::control)', 0, 0, ['\x01', '\x00\x1f\x7f', ' ', '~']),
    ('dsl::while_(-dsl::ascii::control)', 0, 1, ['a', 'abcdefgh', '\x1f', '\x7f', '\xc3\xa4']),
    ('dsl::while_(dsl::ascii::character)', 0, 0, ['a', 'abcdefgh', '\x00', '\x7f']),
    ('dsl::until(LEXY_LIT("*/"))', 1, 0, ['', '*', '/', '*/', 'abcdefg', '********']),
    ('dsl::until(dsl::newline)', 1, 0, ['', '\n', '\r\n', '\r', 'abcdefg', '\x0b']),
    ('dsl::until(dsl::newline).or_eof()', 1, 0, ['', '\n', '\r\n', '\r', 'abcdefg']),
    ('dsl::until(LEXY_LIT("a")).or_eof()', 1, 0, ['', 'a', 'bbbbbbbb', '`b`b']),
    ('dsl::until(LEXY_LIT("abcab"))', 1, 0, ['', 'abc', 'abcab', 'ab', 'xxxxxxxx']),
    ('dsl::until(dsl::literal_set(LEXY_LIT("end"), LEXY_LIT("ende"), LEXY_LIT(";")))', 1, 0, ['', 'end', 'en', 'e', ';', 'xxxxxxxx']),
    ('dsl::quoted(dsl::ascii::print)', 1, 0, ['"', '"', 'abcdefgh', ' !#~', '\n', '\x7f']),
    ('dsl::quoted(-dsl::ascii::control)', 1, 1, ['"', '"', 'abcdefgh', '\xc3\xa4', '\n', '\x1f']),
    ('dsl::quoted(dsl::ascii::character, dsl::backslash_escape.symbol<c03::escapes>())', 1, 0, ['"', '"', 'abcdefgh', '\\', '\\"', '\\n', '\\\\', '[]!#']),
    ('dsl::quoted(dsl::ascii::print, dsl::backslash_escape.rule(LEXY_LIT("n")), dsl::dollar_escape.capture(dsl::ascii::alpha))', 1, 0, ['"', '"', 'abcdefgh', '\\n', '$a', '$', '\\', '[]!#%']),
    ('dsl::single_quoted(-dsl::ascii::control, dsl::backslash_escape.capture(LEXY_LIT("\'")), dsl::escape(dsl::ascii::case_folding(LEXY_LIT("q"))).capture(dsl::ascii::digit), dsl::dollar_escape)', 1, 1, ["'", "'", 'abcdefgh', "\\'", 'q1', 'Q2', '$', '!#%']),
    ('dsl::whitespace(dsl::ascii::blank - dsl::lit_c<\' \'>)', 0, 0, ['\t', '\t\t\t', '        ', ' ', 'a']),
    ('dsl::whitespace(dsl::lit_c<\'\\t\'> / dsl::lit_c<\'\\n\'>)', 0, 0, ['\t', '\n\n', '        ', ' ', 'a']),
    ('dsl::lookahead(LEXY_KEYWORD("end", dsl::identifier(dsl::ascii::alpha)), dsl::literal_set(LEXY_KEYWORD("b", dsl::identifier(dsl::ascii::alpha, dsl::ascii::digit)), LEXY_LIT(";"))) >> dsl::any', 1, 0, ['end', 'end1', 'endx', 'b', 'b1', 'bx', ';', 'xxxxxxxx']),
    ('dsl::delimited(LEXY_LIT("$$"))(dsl::ascii::print)', 1, 0, ['$$', '$', '$$', 'abcdefgh', '#%']),
    ('dsl::triple_quoted(dsl::ascii::character)', 1, 0, ['"""', '"', '""', '"""', 'abcdefg']),
    ('dsl::single_quoted.limit(dsl::ascii::newline)(dsl::ascii::graph)', 1, 0, ["'", "'", 'abcdefgh', '\n', '\r\n', ' ']),
    ('dsl::single_quoted.limit(dsl::ascii::newline)(dsl::ascii::print)', 1, 0, ["'", "'", 'abcdefgh', '\n', '\r\n', 'b']),
    ('dsl::single_quoted.limit<gx::errA>(dsl::ascii::control)(dsl::unicode::print)', 1, 1, ["'", "'", 'abcdefgh', '\n', '!', ':', '\xc3\xa4']),
    ('dsl::delimited(LEXY_LIT("<"), dsl::ascii::case_folding(LEXY_LIT("end")))(dsl::ascii::print)', 1, 0, ['<', 'end', 'End', 'END', 'abcdfgh', 'e']),
    ('dsl::delimited(LEXY_LIT("<"), LEXY_KEYWORD("end", gx::idt))(dsl::ascii::print, dsl::escape(dsl::ascii::case_folding(LEXY_LIT("x"))).capture(dsl::ascii::digit))', 1, 0, ['<', 'end', 'x1', 'X2', 'X', 'abcdfgh', 'enda']),
    ('dsl::delimited(LEXY_LIT("("), LEXY_LIT(")"))(dsl::ascii::graph / dsl::ascii::blank)', 1, 0, ['(', ')', 'abcdefgh', ' \t', '\n']),
    ('dsl::delimited(LEXY_LIT("("), LEXY_LIT(")"))(dsl::code_point)', 1, 1, ['(', ')', 'abcdefgh', '\xc3\xa4', '\xe2\x82\xac', '*']),
    ('dsl::whitespace(dsl::ascii::space)', 0, 0, [' ', '        ', '\t\n', 'a', '\x1f']),
    ('dsl::whitespace(dsl::ascii::blank | LEXY_LIT("//") >> dsl::until(dsl::newline))', 0, 0, [' ', '//', '\n', '/', 'abcdefgh', '\t']),
    ('dsl::whitespace(dsl::ascii::space / dsl::ascii::digit)', 0, 0, [' ', '1', '        ', 'a', '        1']),
    ('LEXY_LIT("abcdefgh")', 1, 0, ['abcdefgh', 'abcdefg', 'abcd', 'abcdefgH', 'a']),
    ('LEXY_LIT("abcdefghijklmnopq")', 1, 0, ['abcdefghijklmnopq', 'abcdefghijklmnop', 'abcdefgh', 'ijklmnopq', 'q']),
    ('LEXY_LIT("abc")', 1, 0, ['abc', 'ab', 'abd', 'c']),
    ('dsl::ascii::case_folding(LEXY_LIT("abcdefghij"))', 1, 0, ['abcdefghij', 'ABCDEFGHIJ', 'aBcD', 'EfGhIj', '@`']),
    ('dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("abcdefghi"), LEXY_LIT("abcd"), LEXY_LIT("b"))', 1, 0, ['abcdefghi', 'abcd', 'efgh', 'b', 'a']),
    ('dsl::newline', 1, 0, ['\r\n', '\n', '\r', 'a']),
    ('dsl::eol', 1, 0, ['', '\r\n', '\n', '\r', 'a']),
    ('dsl::any', 0, 0, ['', 'a', 'abcdefgh', '\n']),
    ('dsl::lookahead(LEXY_LIT("!"), LEXY_LIT(";")) >> dsl::any', 1, 0, ['abcdefgh', '!', ';', 'aaaa']),
    ('dsl::try_(LEXY_LIT("+"), dsl::find(LEXY_LIT("abc")).limit(LEXY_LIT(";")))', 0, 0, ['', 'abc', 'ab', ';', 'xxxxxxxx']),
    ('dsl::while_(dsl::code_point)', 0, 1, ['a', '\xc3\xa4', '\xe2\x82\xac', '\xf0\x9f\x98\x80', '\x80']),
    ('dsl::list(dsl::identifier(dsl::ascii::alpha), dsl::trailing_sep(dsl::while_one(dsl::ascii::blank / LEXY_LIT(","))))', 1, 0, ['a', ',', ' ', 'abcdefgh', '        ', '1']),
    ('dsl::terminator(LEXY_LIT("end")).opt_list(dsl::ascii::word)', 0, 0, ['', 'end', 'en', 'a', '+']),
    ('dsl::code_point.range<0x61, 0xFFFF>()', 1, 1, ['a', '\xc3\xa4', '`', '\xe2\x82\xac']),
]


def cstr(s):
    return 'std::string("' + ''.join('\\%03o' % ord(c) if not (32 <= ord(c) < 127) or c in '"\\' or c.isdigit() else c for c in s) + '", %d)' % len(s)


def generate(out, seed, tier):
    files = []
    for t in range(16):
        p = os.path.join(out, 'c03_%d.cpp' % t)
        with open(p, 'w') as f:
            f.write('#include <c03_support.hpp>\nnamespace {\n')
            for i, (r, b, u, fr) in list(enumerate(R))[t::16]:
                f.write('struct X%d { static constexpr bool branch = %s, unicode = %s; static constexpr auto get() { return %s; } };\nint r%d = c03::reg<X%d>(R"__(%s)__", {%s});\n' % (
                    i, 'true' if b else 'false', 'true' if u else 'false', r, i, i, r, ', '.join(map(cstr, fr))))
            f.write('}\n')
        files.append(p)
    return files
