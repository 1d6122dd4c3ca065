"""Random character class expressions: the lexy rule and an independent membership predicate."""
import os, random

ASCII = [  # rule, name, predicate on c (only c < 0x80 is ever true)
    ('control', 'ASCII.control', 'c <= 0x1F || c == 0x7F'),
    ('blank', 'ASCII.blank', "c == ' ' || c == '\\t'"),
    ('newline', 'ASCII.newline', "c == '\\n' || c == '\\r'"),
    ('other_space', 'ASCII.other-space', "c == '\\f' || c == '\\v'"),
    ('space', 'ASCII.space', "c == ' ' || (c >= 9 && c <= 13)"),
    ('lower', 'ASCII.lower', "c >= 'a' && c <= 'z'"),
    ('upper', 'ASCII.upper', "c >= 'A' && c <= 'Z'"),
    ('alpha', 'ASCII.alpha', "(c | 32) >= 'a' && (c | 32) <= 'z' && c < 128"),
    ('alpha_underscore', 'ASCII.alpha-underscore', "((c | 32) >= 'a' && (c | 32) <= 'z' && c < 128) || c == '_'"),
    ('digit', 'ASCII.digit', "c >= '0' && c <= '9'"),
    ('alpha_digit', 'ASCII.alpha-digit', "((c | 32) >= 'a' && (c | 32) <= 'z' && c < 128) || (c >= '0' && c <= '9')"),
    ('alnum', 'ASCII.alpha-digit', "((c | 32) >= 'a' && (c | 32) <= 'z' && c < 128) || (c >= '0' && c <= '9')"),
    ('word', 'ASCII.word', "((c | 32) >= 'a' && (c | 32) <= 'z' && c < 128) || (c >= '0' && c <= '9') || c == '_'"),
    ('alpha_digit_underscore', 'ASCII.word', "((c | 32) >= 'a' && (c | 32) <= 'z' && c < 128) || (c >= '0' && c <= '9') || c == '_'"),
    ('punct', 'ASCII.punct', "(c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126)"),
    ('graph', 'ASCII.graph', 'c >= 33 && c <= 126'),
    ('print', 'ASCII.print', 'c >= 32 && c <= 126'),
    ('character', 'ASCII', 'c <= 0x7F'),
]
UNI = [
    ('control', 'code-point.control', 'gc(c) == Cc'),
    ('blank', 'code-point.blank', "gc(c) == Zs || c == '\\t'"),
    ('newline', 'code-point.newline', "c == 10 || c == 13 || c == 0x85 || c == 0x2028 || c == 0x2029"),
    ('other_space', 'code-point.other-space', "c == 11 || c == 12"),
    ('space', 'code-point.whitespace', '(bits(c) & 1) != 0'),
    ('lower', 'code-point.lowercase', '(bits(c) & 2) != 0'),
    ('upper', 'code-point.uppercase', '(bits(c) & 4) != 0'),
    ('alpha', 'code-point.alphabetic', '(bits(c) & 8) != 0'),
    ('digit', 'code-point.decimal-number', 'gc(c) == Nd'),
    ('alnum', 'code-point.alphabetic-decimal', '(bits(c) & 8) || gc(c) == Nd'),
    ('word', 'code-point.word', '(bits(c) & (8 | 64)) || gc(c) == Nd || (gc(c) >= Mn && gc(c) <= Me) || gc(c) == Pc'),
    ('graph', 'code-point.graph', '!(bits(c) & 1) && gc(c) != Cc && gc(c) != Cs && gc(c) != Cn'),
    ('print', 'code-point.print', 'gc(c) != Cc && (gc(c) == Zs || (!(bits(c) & 1) && gc(c) != Cs && gc(c) != Cn))'),
    ('character', 'code-point.character', 'gc(c) != Cn'),
    ('xid_start', 'code-point.XID-start', '(bits(c) & 16) != 0'),
    ('xid_start_underscore', 'code-point.XID-start-underscore', "(bits(c) & 16) || c == '_'"),
    ('xid_continue', 'code-point.XID-continue', '(bits(c) & 32) != 0'),
]
# nodes: (kind, rule text, predicate text, name or None if a literal, is_literal)


def ch(c):
    return "'\\%s'" % chr(c) if c in (39, 92) else "'%s'" % chr(c)


def atoms(universe):
    r = [('A', 'dsl::ascii::' + n, p, name, False) for n, name, p in ASCII]
    r.append(('A', "LEXY_ASCII_ONE_OF(\"ax_9\")", "c == 'a' || c == 'x' || c == '_' || c == '9'", 'ax_9', False))
    r.append(('A', "LEXY_ASCII_ONE_OF(\"~ @\")", "c == '~' || c == ' ' || c == '@'", '~ @', False))
    if universe == 'U':
        r += [('U', 'dsl::unicode::' + n, p, name, False) for n, name, p in UNI]
        r += [('U', 'dsl::code_point', 'true', 'code-point', False),
              ('U', 'dsl::code_point.ascii()', 'c < 0x80', 'code-point.ASCII', False),
              ('U', 'dsl::code_point.bmp()', 'c < 0x10000', 'code-point.BMP', False),
              ('U', 'dsl::code_point.noncharacter()', '(c >= 0xFDD0 && c <= 0xFDEF) || (c & 0xFFFE) == 0xFFFE', 'code-point.non-character', False),
              ('U', 'dsl::code_point.general_category<lexy::code_point::Lu>()', 'gc(c) == Lu', 'code-point.uppercase-letter', False),
              ('U', 'dsl::code_point.general_category<lexy::code_point::Cn>()', 'gc(c) == Cn', 'code-point.not-assigned', False),
              ('U', 'dsl::code_point.general_category<lexy::code_point::Cc>()', 'gc(c) == Cc', 'code-point.control', False),
              ('U', 'dsl::code_point.general_category<lexy::code_point::Co>()', 'gc(c) == Co', 'code-point.private-use', False),
              ('U', 'dsl::code_point.general_category<lexy::code_point::punctuation>()', 'gc(c) >= Pc && gc(c) <= Po', 'code-point.punctuation', False)]
    return r


def random_atom(rng, universe):
    k = rng.randrange(10)
    if universe == 'U' and k < 3:
        if rng.random() < .5:
            lo = rng.choice([0, 0x20, 0x41, 0x61, 0x7F, 0x80, 0xC0, 0x3B1, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x1F600, rng.randrange(0xD000)])
            hi = min(0x10FFFF, lo + rng.choice([0, 1, 5, 30, 0x80, 0x1000, 0x10FFFF]))
            return ('U', 'dsl::code_point.range<0x%X, 0x%X>()' % (lo, hi), 'c >= 0x%Xu && c <= 0x%Xu' % (lo, hi), 'code-point.range', False)
        s = [rng.choice([ord('a'), ord('_'), 0xE4, 0x85, 0x20AC, 0x1F600, 0x10FFFF, 0x7F, 0x80, rng.randrange(0xD000)]) for _ in range(rng.randint(1, 4))]
        return ('U', 'dsl::code_point.set<%s>()' % ', '.join(map(hex, s)), ' || '.join('c == 0x%Xu' % x for x in s), 'code-point.set', False)
    if universe == 'U' and k < 5:
        c = rng.choice([0xE4, 0xB5, 0x3B1, 0x80, 0x7FF, 0x800, 0xFFFF, 0x1F600, 0x10000, 0x10FFFF, 0x41, 0x7F, 0])
        if rng.random() < .3:
            return ('U' if c > 0x7F else 'A', 'dsl::lit_c<char32_t(0x%X)>' % c, 'c == 0x%Xu' % c, None, True)
        return ('U' if c > 0x7F else 'A', 'dsl::lit_cp<0x%X>' % c, 'c == 0x%Xu' % c, None, True)
    if universe == 'B' and k < 6:
        c = rng.choice([0x80, 0xFF, 0xFE, 0xC3, 0xA4, rng.randrange(0x80, 0x100), rng.randrange(0x80, 0x100), rng.randrange(0x80)])
        return ('B' if c > 0x7F else 'A', 'dsl::lit_b<0x%X>' % c, 'c == 0x%Xu' % c, None, True)
    if k == 6:
        c = rng.choice(list(range(33, 127)))
        return ('A', 'dsl::lit_c<%s>' % ch(c), 'c == %d' % c, None, True)
    return rng.choice(atoms(universe))


def random_expr(rng, universe, depth):
    if depth == 0:
        return random_atom(rng, universe)
    op = rng.choice(['|', '|', '-', '~', '&', '-', 'w'])
    if op == 'w':
        a = random_expr(rng, universe, depth - 1)
        if a[4]:
            return random_expr(rng, universe, depth)
        n = 'named%d' % rng.randrange(1000)
        return (a[0], 'LEXY_CHAR_CLASS("%s", (%s))' % (n, a[1]), a[2], n, False)
    if op == '~':
        a = random_expr(rng, universe, depth - 1)
        if universe == 'B' and a[0] != 'B':
            return random_expr(rng, universe, depth)
        if a[3] == 'complement' or a[1] == 'dsl::unicode::control':
            name = None  # double complement is simplified
        else:
            name = 'complement'
        return ('B' if a[0] == 'B' else 'U', '(-(%s))' % a[1], '!(%s)' % a[2], name, False)
    a = random_expr(rng, universe, depth - 1)
    b = random_expr(rng, universe, rng.randint(0, depth - 1))
    if op == '|':
        k = 'B' if 'B' in (a[0], b[0]) else 'U' if 'U' in (a[0], b[0]) else 'A'
        return (k, '(%s / %s)' % (a[1], b[1]), '(%s) || (%s)' % (a[2], b[2]), 'union', False)
    if op == '&':
        k = 'B' if 'B' in (a[0], b[0]) else 'U' if 'U' in (a[0], b[0]) else 'A'
        return (k, '(%s & %s)' % (a[1], b[1]), '(%s) && (%s)' % (a[2], b[2]), 'intersection', False)
    if a[4] or (a[0] == 'A' and b[0] == 'B'):
        return random_expr(rng, universe, depth)
    return (a[0] if a[0] != 'A' else 'A', '(%s - %s)' % (a[1], b[1]), '(%s) && !(%s)' % (a[2], b[2]), 'minus', False)


def generate(out, seed, tier, tus=8, per_tu=18):
    if tier == 'thorough':
        per_tu *= 3
    rng = random.Random(seed * 7919 + 1)
    exprs = []
    for a in atoms('U'):
        exprs.append(a)
    fixed = len(exprs)
    seen = set(e[1] for e in exprs)
    total = fixed + tus * per_tu
    while len(exprs) < total:
        u = 'B' if rng.random() < .25 else 'U'
        e = random_expr(rng, u, rng.choice([1, 1, 2, 2, 3]))
        if e[4] or e[1] in seen or len(e[1]) > 400 or (e[3] is None and e[4]):
            continue
        seen.add(e[1])
        exprs.append(e)
    files = []
    for t in range(tus):
        p = os.path.join(out, 'charclass_%d.cpp' % t)
        with open(p, 'w') as f:
            f.write('#include <c09_support.hpp>\nnamespace {\n')
            for i, e in enumerate(exprs):
                if i % tus != t:
                    continue
                kind, rule, pred, name, _ = e
                f.write('struct X%d { static constexpr auto get() { return %s; } static bool in([[maybe_unused]] std::uint32_t c) { return %s; }\n'
                        '  static constexpr const char* text = R"__(%s)__"; static constexpr const char* name = %s; };\n'
                        'const reg<X%d, \'%s\'> r%d;\n' % (i, rule, pred, rule, '"%s"' % name if name else 'nullptr', i, kind, i))
            f.write('}\n')
        files.append(p)
    return files
