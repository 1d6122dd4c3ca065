"""Random digit and integer rules: bases, separators, leading zeros, digit counts, integer types."""
import os, random

BASES = {2: 'dsl::binary', 8: 'dsl::octal', 10: 'dsl::decimal', 16: 'dsl::hex', 17: 'dsl::hex_lower', 18: 'dsl::hex_upper'}
SEPS = ['dsl::digit_sep_underscore', 'dsl::digit_sep_tick', 'LEXY_LIT("--")', 'dsl::ascii::blank']
TYPES = {  # name: max
    'char': 127, 'signed char': 127, 'unsigned char': 255, 'wchar_t': 2**31 - 1, 'char8_t': 255, 'char16_t': 2**16 - 1, 'char32_t': 2**32 - 1,
    'short': 2**15 - 1, 'unsigned short': 2**16 - 1, 'int': 2**31 - 1, 'unsigned': 2**32 - 1, 'long': 2**63 - 1, 'unsigned long': 2**64 - 1,
    'long long': 2**63 - 1, 'unsigned long long': 2**64 - 1, '__int128_t': 2**127 - 1, '__uint128_t': 2**128 - 1, 'lexy::code_point': 0x10FFFF}
WIDTH = {'unsigned char': 8, 'unsigned short': 16, 'unsigned': 32, 'unsigned long': 64, '__uint128_t': 128, 'char32_t': 32}
SIGNED = ['signed char', 'short', 'int', 'long', 'long long', '__int128_t']
ENC_CHAR = [('lexy::utf8_char_encoding', 127), ('lexy::utf8_encoding', 255), ('lexy::utf16_encoding', 65535), ('lexy::utf32_encoding', 2**32 - 1), ('lexy::byte_encoding', 255), ('lexy::ascii_encoding', 127)]


def lit128(v):
    return '(u128(%dull) << 64 | %dull)' % (v >> 64, v & (2**64 - 1))


def make(rng, i, kind=None):
    kind = kind or rng.choice('DDIIIIIIISCU')
    base = rng.choice([2, 8, 10, 10, 10, 10, 16, 16, 17, 18])
    radix = min(base, 16)
    form = rng.choice('dtsxsxnmk' if kind == 'I' else 'dtsx' if kind == 'S' else 'dtsxnm')
    sep = rng.randrange(4)
    mx, bits, ty = 0, 0, 'void'
    n = 0
    if kind in 'ISD':
        r = rng.random()
        pool = SIGNED if kind == 'S' else list(TYPES)
        ty = rng.choice(pool)
        mx = TYPES[ty]
        t = ty
        if kind == 'I' and r < .25 and ty != 'lexy::code_point':
            hi = rng.choice([mx, mx - 1, rng.randint(16, mx), rng.randint(16, min(mx, 5000)), 100, 127, min(mx, 10**rng.randint(2, 9)), min(mx, 10**rng.randint(2, 9) - 1), min(mx, 16**rng.randint(2, 5))])
            mx = max(16, hi)
            t = 'lexy::bounded<%s, static_cast<%s>(%s)>' % (ty, ty, lit128(mx))
        elif kind == 'I' and r < .38:
            ty = rng.choice(list(WIDTH))
            mx, bits, t = 0, WIDTH[ty], 'lexy::unbounded<%s>' % ty
        elif kind == 'I' and r < .46:
            mx, bits, t = 0, 0, 'digit_list'
    if mx == 0 and form in 'nm':      # does not compile
        form = 's'
    if form in 'nm':
        dc, v = 0, mx
        while v:
            dc, v = dc + 1, v // radix
        n = max(2, rng.choice([dc - 1, dc, dc + 1, dc, rng.randint(2, 12)]))
        n = min(n, 40)
    if kind in 'CU':
        form = 'n'
        if kind == 'C':
            mx = 0x10FFFF
        else:
            enc, mx = rng.choice(ENC_CHAR)
        dc, v = 0, mx
        while v:
            dc, v = dc + 1, v // radix
        n = max(2, rng.choice([dc - 1, dc, dc, dc + 1, rng.randint(2, 9)]))
    B = BASES[base]
    digits = {'d': 'dsl::digits<%s>' % B, 't': 'dsl::digits<%s>.no_leading_zero()' % B, 's': 'dsl::digits<%s>.sep(%s)' % (B, SEPS[sep]),
              'x': rng.choice(['dsl::digits<%s>.sep(%s).no_leading_zero()', 'dsl::digits<%s>.no_leading_zero().sep(%s)']) % (B, SEPS[sep]),
              'n': 'dsl::n_digits<%d, %s>' % (n, B), 'm': 'dsl::n_digits<%d, %s>.sep(%s)' % (n, B, SEPS[sep]),
              'k': 'dsl::token(dsl::while_one(dsl::ascii::graph))'}[form]
    if kind == 'D':
        rule = 'dsl::capture(%s)' % digits
    elif kind == 'I':
        if form == 'k':
            rule = 'dsl::integer<%s, %s>(%s)' % (t, B, digits)
        elif form == 'd' and rng.random() < .5:
            rule = 'dsl::integer<%s, %s>' % (t, B) if base != 10 or rng.random() < .5 else 'dsl::integer<%s>' % t
        else:
            rule = 'dsl::integer<%s>(%s)' % (t, digits)
    elif kind == 'S':
        rule = 'dsl::sign + dsl::integer<%s>(%s)' % (t, digits)
    elif kind == 'C':
        rule = 'dsl::code_point_id<%d, %s>' % (n, B) if base != 16 or rng.random() < .5 else 'dsl::code_point_id<%d>' % n
    else:
        rule = 'dsl::code_unit_id<%s, %d, %s>' % (enc, n, B) if base != 16 or rng.random() < .5 else 'dsl::code_unit_id<%s, %d>' % (enc, n)
    runs = []
    for e, h in [(rng.randrange(7), 'buffer_holder'), (rng.randrange(7), 'buffer_holder'), (rng.randrange(7), 'string_holder'), (rng.randrange(7), 'range_holder')]:
        runs.append('make_run<X%d, %s, %d>()' % (i, h, e))
    return '''struct X%d { static constexpr bool is_signed = %s; using type = %s; static constexpr auto get() { return %s; }
  static rule_desc desc() { return {R"__(%s)__", '%s', '%s', %d, %d, %d, %s, %d, {}}; } };
const reg<X%d> r%d(%s);
''' % (i, 'true' if kind == 'S' else 'false', ty if kind == 'S' else 'void', rule, rule, kind, form, base, sep, n, lit128(mx), bits, i, i, ', '.join(runs))


def generate(out, seed, tier, tus=8, per_tu=16):
    if tier == 'thorough':
        per_tu *= 3
    rng = random.Random(seed * 7919 + 11)
    kinds = 'DISCUIII'
    files = []
    for t in range(tus):
        p = os.path.join(out, 'integers_%d.cpp' % t)
        with open(p, 'w') as f:
            f.write('#include <c11_support.hpp>\nnamespace {\n')
            for k in range(per_tu):
                i = t * per_tu + k
                f.write(make(rng, i, kinds[i % 8] if i < 16 else None))
            f.write('}\n')
        files.append(p)
    return files
