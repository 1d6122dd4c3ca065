"""Single rules of every kind with generated texts, for evaluation in constant expressions (C24)."""
import os, random

# encoding, character type, units of a code point
def utf8(cp):
    if cp < 0x80:
        return [cp]
    if cp < 0x800:
        return [0xC0 | cp >> 6, 0x80 | cp & 63]
    if cp < 0x10000:
        return [0xE0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]
    return [0xF0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63]


def utf16(cp):
    return [cp] if cp < 0x10000 else [0xD800 | (cp - 0x10000) >> 10, 0xDC00 | (cp - 0x10000) & 0x3FF]


ENC = {'default': ('lexy::default_encoding', 'char', utf8, 0xFF), 'utf8': ('lexy::utf8_char_encoding', 'char', utf8, 0xFE), 'ascii': ('lexy::ascii_encoding', 'char', lambda c: [c & 0x7F], 0x7F),
       'utf16': ('lexy::utf16_encoding', 'char16_t', utf16, 0xFFFE), 'utf32': ('lexy::utf32_encoding', 'char32_t', lambda c: [c], 0x200000), 'byte': ('lexy::byte_encoding', 'unsigned char', lambda c: [c & 0xFF], 0xFF)}
UNI = ['utf8', 'utf16', 'utf32']
TEXT = ['default', 'ascii', 'utf8', 'utf16', 'utf32']
DIG = ['0', '1', '2', '7', '8', '9', '12', '127', '128', '255', '256', '32767', '65535', '65536', '4294967295', '4294967296', 'a', 'F', 'ff', '_', "'", '-', '+', '00', '.', ' ']
WORD = ['a', 'b', 'ab', 'abc', 'A', 'B', 'if', 'If', 'int', 'interface', 'x1', '_', ' ', '(', 'ß', 'é', 'É', 'Ω', '字', '𐐀', '𐐨', '1', '\n', '\r\n', '\\', '"', "'"]
STR = ['a', 'b', '"', '""', '"""', '\\', '\\n', '\\"', '\\u', '41', 'e9', '00', '20ac', '10ffff', "'", '%', ' ', '\n', '\r\n', 'é', '字', '\\x', '(', ')', 'end', '{', '}']


def rules(rng):
    """(definitions, rule, encodings, alphabet)"""
    c = rng.choice
    ints = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long long', 'unsigned long long', 'lexy::bounded<int, 100>', 'lexy::bounded<unsigned char, 31>', 'lexy::unbounded<unsigned>']
    base = c(['decimal', 'decimal', 'binary', 'octal', 'hex', 'hex_lower', 'hex_upper'])
    digits = c(['dsl::digits<dsl::%s>', 'dsl::digits<dsl::%s>.no_leading_zero()', 'dsl::digits<dsl::%s>.sep(dsl::digit_sep_underscore)', 'dsl::digits<dsl::%s>.sep(dsl::digit_sep_tick).no_leading_zero()']) % base
    n = rng.randint(2, 6)
    T = c(ints)
    tags = '    struct esc_tag { static constexpr auto name = "bad escape"; };\n'
    sym = 'static constexpr auto table = lexy::symbol_table<int>.map<\'n\'>(1).map<\'"\'>(2).map<\'\\\\\'>(3).map(LEXY_LIT("xy"), 4);\n'
    kw = 'static constexpr auto table = lexy::symbol_table<int>.map(LEXY_LIT("a"), 1).map(LEXY_LIT("ab"), 2).map(LEXY_LIT("abc"), 3).map(LEXY_LIT("if"), 4)%s;\n' % c(
        ['', '.case_folding(dsl::ascii::case_folding)'])
    idt = 'dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::alpha_digit_underscore)'
    uid = 'dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue)'
    cls = c(['dsl::ascii::word', 'dsl::ascii::print', 'dsl::ascii::alpha_digit / dsl::ascii::space', 'dsl::ascii::character - dsl::ascii::upper', '-dsl::ascii::digit', "dsl::lit_c<'a'> / dsl::lit_c<'b'>",
             'dsl::unicode::alpha', 'dsl::unicode::character - dsl::unicode::upper', '-dsl::unicode::control', 'dsl::code_point.range<0x40, 0x3A9>()', 'dsl::code_point.set<0xE9, 0x61, 0x5B57>()',
             'LEXY_CHAR_CLASS("mine", dsl::unicode::lower / dsl::ascii::digit)', 'dsl::unicode::alpha & dsl::unicode::lower', 'dsl::unicode::xid_continue'])
    close = c(['"', '"""', "'", 'end'])
    esc = c(['', '.limit(dsl::ascii::newline)'])
    escape = "dsl::backslash_escape" + ''.join(rng.sample([".symbol<table>()", ".rule(LEXY_LIT(\"u\") >> dsl::code_point_id<4>)", ".rule(dsl::lit_c<'x'> >> dsl::code_unit_id<lexy::utf8_char_encoding, 2>)", ".capture(dsl::lit_c<'%'>)"], rng.randint(0, 3)))
    fold = c(['dsl::ascii::case_folding', 'dsl::unicode::simple_case_folding'])
    endian = lambda: c(['dsl::bint8'] + [e % b for e in ('dsl::bint%d', 'dsl::little_bint%d', 'dsl::big_bint%d') for b in (16, 32, 64)])
    out = [
        ('int', '', 'dsl::integer<%s>(%s)' % (T, digits), TEXT, DIG),
        ('int', '', 'dsl::integer<%s>' % T if 'unbounded' not in T else 'dsl::integer<%s, dsl::decimal>' % T, TEXT, DIG),
        ('nint', '', 'dsl::integer<%s>(dsl::n_digits<%d, dsl::%s>)' % (c(ints[:8]), n, base), TEXT, DIG),
        ('sint', '', 'dsl::sign + dsl::integer<%s>' % c(ints[:8:2]), TEXT, DIG + ['-', '+', '-']),
        ('cpid', '', 'dsl::code_point_id<%d>' % c([2, 4, 5, 6]), TEXT, ['0', '1', 'd', '8', 'F', '10', 'ff', 'g', 'D800']),
        ('cuid', '', 'dsl::code_unit_id<%s, %d>' % (c(['lexy::utf8_char_encoding', 'lexy::utf16_encoding', 'lexy::ascii_encoding']), c([2, 3, 4, 5])), TEXT, ['0', '1', 'd', '8', 'F', '10', 'ff', 'g']),
        ('digits', '', 'dsl::capture(%s) + dsl::capture(dsl::any)' % digits, TEXT, DIG),
        ('sym', kw, 'dsl::symbol<table>%s + dsl::position' % c(['', '(dsl::token(dsl::while_one(dsl::ascii::alpha)))', '(%s)' % idt]), TEXT, WORD),
        ('ident', '', '%s + dsl::position' % (idt + c(['', '.reserve(LEXY_KEYWORD("if", %s), LEXY_KEYWORD("int", %s))' % (idt, idt), '.reserve_prefix(LEXY_LIT("a"))', '.reserve_containing(LEXY_LIT("b"))'])), TEXT, WORD),
        ('uident', '', '%s + dsl::position' % uid, UNI, WORD),
        ('class', '', 'dsl::capture(dsl::token(dsl::while_one(%s))) + dsl::position' % cls, UNI, WORD),
        ('set', '', 'dsl::capture(dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("ab"), LEXY_LIT("abc"), LEXY_LIT("int"), LEXY_LIT("interface"))%s) + dsl::position' % c(['', '.error<gx::errA>']), TEXT, WORD),
        ('fold', '', 'dsl::capture(dsl::literal_set(%s(LEXY_LIT("ab")), %s(LEXY_LIT("abc")), %s(LEXY_LIT("if")), %s(LEXY_LIT("int")))) + dsl::position' % (fold, fold, fold, fold), UNI, WORD),
        ('foldlit', '', 'dsl::capture(%s(LEXY_LIT("%s"))) + dsl::position' % (fold, c(['a', 'if', 'interface', 'ab'])), UNI, WORD),
        ('litcp', '', 'dsl::capture(dsl::lit_cp<%s>) + dsl::position' % c(['0x61', '0xE9', '0x5B57', '0x10400', "0x61, 0xE9"]), UNI, WORD + ['é', '字', '𐐀', 'aé'] * 3),
        ('cp', '', 'dsl::capture(dsl::code_point%s) + dsl::position' % c(['', '.ascii()', '.bmp()', '.noncharacter()', '.general_category<lexy::code_point::Ll>()']), UNI, WORD + ['é', '字', '𐐀', '\ufdd0', '\u0378'] * 2),
        ('delim', tags + sym, 'dsl::delimited(LEXY_LIT("%s"))%s(%s, %s)' % (close.replace('"', '\\"'), esc, c(['dsl::code_point', 'dsl::unicode::print', '-dsl::unicode::control', 'dsl::ascii::character']), escape), UNI, STR + [close] * 6),
        ('delim2', '', 'dsl::delimited(LEXY_LIT("("), LEXY_LIT(")"))(dsl::unicode::character)', UNI, STR + ['(', ')'] * 4),
        ('quoted', sym, 'dsl::quoted(dsl::ascii::character, %s)' % escape, TEXT, STR + ['"'] * 5),
        ('quoted', '', '%s%s(dsl::code_point)' % (c(['dsl::triple_quoted', 'dsl::single_quoted', 'dsl::backticked', 'dsl::double_backticked']), c(['', '.limit(dsl::ascii::newline)'])), UNI, STR + ['"""', "'", '`', '``'] * 3),
        ('brack', '', 'dsl::%s.%s' % (c(['round_bracketed', 'square_bracketed', 'curly_bracketed', 'angle_bracketed']), c(['list(dsl::integer<int>, dsl::sep(dsl::comma))', 'opt_list(dsl::capture(dsl::ascii::alpha), dsl::trailing_sep(dsl::comma))'])), TEXT,
         ['(', ')', '[', ']', '{', '}', '<', '>', ',', '1', '23', 'a', 'b'] * 2 + ['x']),
        ('until', '', 'dsl::capture(dsl::until(%s)%s) + dsl::position' % (c(['LEXY_LIT("end")', 'dsl::newline', "dsl::lit_c<'b'>", 'dsl::ascii::space']), c(['', '.or_eof()'])), TEXT, STR),
        ('look', '', '(dsl::lookahead(LEXY_LIT("b"), %s) >> dsl::capture(dsl::token(dsl::while_(dsl::ascii::alpha))) | dsl::else_ >> dsl::position) + dsl::position' % c(['dsl::newline', 'LEXY_LIT("end")']), TEXT, STR + ['b', '\n']),
        ('bytes', '', 'dsl::capture(dsl::bytes<%d>) + %s + dsl::position' % (rng.randint(1, 3), endian()), ['byte'], None),
        ('bytes2', '', '%s + %s + dsl::padding_bytes<%d, 0> + dsl::position' % (endian(), endian(), rng.randint(1, 2)), ['byte'], None),
        ('bits', '', 'dsl::bits(%s)' % c(['dsl::bit::_1, dsl::bit::any<7>', 'dsl::bit::nibble<5>, dsl::bit::any<4>', 'dsl::bit::_, dsl::bit::_0, dsl::bit::any<6>', 'dsl::bit::any<3>, dsl::bit::_, dsl::bit::nibble<3>']) + ' + dsl::position', ['byte'], None),
        ('bom', '', '(dsl::bom<%s> | dsl::else_ >> dsl::return_) + dsl::position' % 'lexy::utf8_encoding, lexy::encoding_endianness::little', ['byte'], None),
        ('eol', '', 'dsl::list(dsl::capture(dsl::ascii::alpha), dsl::sep(%s)) + %s' % (c(['dsl::eol', 'dsl::newline']), c(['dsl::eof', 'dsl::eol'])), TEXT, ['a', 'b', '\n', '\r\n', '\r', 'a\n'] * 2),
        ('ws', 'static constexpr auto whitespace = dsl::ascii::space / LEXY_LIT("--") >> dsl::until(dsl::newline).or_eof();\n' if False else 'static constexpr auto whitespace = dsl::ascii::space | LEXY_LIT("--") >> dsl::until(dsl::newline).or_eof();\n',
         'dsl::list(dsl::integer<short>, dsl::sep(dsl::comma)) + dsl::eof', TEXT, ['1', '22', '33333', ',', ', ', ' ', '--', '\n', 'x', '\t']),
    ]
    return out


def generate(out, rng, count, salt):
    files = []
    pool = []
    done = 0
    per = 12
    while done < count:
        path = os.path.join(out, 'ctrules_%d_%03d.cpp' % (salt, len(files)))
        with open(path, 'w') as f:
            f.write('#include "cx.hpp"\n')
            for _ in range(per):
                if not pool:
                    pool = rules(rng)
                    rng.shuffle(pool)
                kind, defs, rule, encs, alpha = pool.pop()
                name = '%s%d' % (kind, done)
                done += 1
                f.write('namespace %s\n{\n' % name)
                if 'whitespace' not in defs:
                    f.write(defs.replace('    struct', 'struct'))
                body = 'struct prod\n{\n    static constexpr auto name = "prod";\n    %sstatic constexpr auto rule = %s;\n    static constexpr auto value = gx::cb{"prod"};\n};\n' % (defs + '    ' if 'whitespace' in defs else '', rule)
                f.write(body)
                f.write('const char* const text = R"__(%s)__";\n' % (defs + body))
                es = rng.sample(encs, min(2, len(encs)))
                for i in range(6):
                    e = es[i % len(es)]
                    enc, ctype, to, mx = ENC[e]
                    if alpha is None:
                        units = [rng.choice([0, 0, 1, 0x7F, 0x80, 0xFF, 0xEF, 0xBB, 0xBF, 0x5A, rng.randrange(256)]) for _ in range(rng.randint(0, 11))]
                        if 'bom' in kind and rng.random() < .5:
                            units = [0xEF, 0xBB, 0xBF][:rng.randint(0, 3)] + units
                    else:
                        units = [u for s in (rng.choice(alpha) for _ in range(rng.randint(0 if i > 3 else 1, 7))) for ch in s for u in to(ord(ch))]
                        if kind in ('delim', 'delim2', 'quoted', 'brack') and rng.random() < .85:
                            o = {'delim': rule[24:rule.index(')', 24) - 1].replace('\\', '') if kind == 'delim' else '', 'delim2': '(', 'quoted': next((x for k, x in (('triple', '"""'), ('single', "'"), ('double_b', '``'), ('backt', '`')) if k in rule), '"'),
                                 'brack': next((x for k, x in (('round', '('), ('square', '['), ('curly', '{'), ('angle', '<')) if k in rule), '(')}[kind]
                            units = [u for ch in o for u in to(ord(ch))] + units
                        if rng.random() < .2 and units:
                            units[rng.randrange(len(units))] = rng.choice([0x80, 0xC3, 0xFF, 0xD800, 0xDC00, 0x110000, 0])
                        units = [min(u, mx) for u in units]
                    vals = ', '.join(str(u - 256 if ctype == 'char' and u > 127 else u) for u in units)
                    f.write('struct t%d { static constexpr std::size_t n = %d; static constexpr %s s[%d] = {%s}; };\n' % (i, len(units), ctype, max(1, len(units)), vals or '0'))
                    f.write('int r%d = gx::add<gx::eval_grammar<prod, %s, %s, t%d>, t%d>("%s", text, "%s");\n' % (i, enc, rng.choice(['true', 'false']), i, i, name, 'rule, ' + e))
                f.write('}\n')
        files.append(path)
    path = os.path.join(out, 'ctrules_%d_loc.cpp' % salt)
    with open(path, 'w') as f:
        f.write('#include "cx.hpp"\n')
        for i in range(count // 3):
            e = rng.choice(TEXT + ['byte'])
            enc, ctype, to, mx = ENC[e]
            units = [u for s in (rng.choice(['a', 'b', 'é', '字', '𐐀', '\n', '\r\n', '\r', '\n', '\t']) for _ in range(rng.randint(0, 20))) for u in to(ord(s) if len(s) == 1 else 10)]
            if units and rng.random() < .3:
                units[rng.randrange(len(units))] = rng.choice([0x80, 0xC3, 0xD800, 0xDC00, 0x110000])
            units = [min(u, mx) for u in units]
            cnt = rng.choice(['lexy::byte_location_counting<%d>' % rng.randint(1, 9), 'lexy::code_unit_location_counting'] if e == 'byte' else ['lexy::code_unit_location_counting', 'lexy::code_point_location_counting'] if e != 'default' else ['lexy::code_unit_location_counting'])
            if e == 'byte':
                cnt = 'lexy::byte_location_counting<%d>' % rng.randint(1, 9)
            vals = ', '.join(str(u - 256 if ctype == 'char' and u > 127 else u) for u in units)
            f.write('namespace loc%d\n{\nstruct t { static constexpr std::size_t n = %d; static constexpr %s s[%d] = {%s}; };\n' % (i, len(units), ctype, max(1, len(units)), vals or '0'))
            f.write('int r = gx::add<gx::eval_location<%s, %s, t>, t>("%s", "%s", "location, %s");\n}\n' % (cnt, enc, cnt, enc, e))
    files.append(path)
    return files
