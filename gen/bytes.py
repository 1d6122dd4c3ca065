"""Random binary messages: sequences of fixed-width integers, byte counts, padding, bit patterns, byte literals and byte order marks."""
import os, random


def element(rng, force=None):
    k = force or rng.choice('iiiiiibbbpptttll')
    e = dict(kind=k, n=0, order=0, token=0, a=0, b=0, bytes=[], opt=rng.random() < .15)
    if k == 'i':
        n = rng.choice([1, 2, 4, 8])
        order = rng.choice(['', 'little_', 'big_']) if n > 1 else ''
        e['n'], e['order'] = n, 1 if order == 'big_' else 0
        r = 'dsl::%sbint%d' % (order, 8 * n)
        t = rng.choice([0, 0, 0, 1, 2, 3])
        e['token'] = t
        if t == 1:
            e['a'], e['b'] = 0x20, rng.randint(0x21, 255)
            r += '(dsl::bytes<%d>.range<%d, %d>())' % (n, e['a'], e['b'])
        elif t == 2:
            m = n + rng.choice([1, 2]) if n == 1 or rng.random() < .5 else n - 1
            e['a'] = m
            r += '(dsl::bytes<%d>)' % m
        elif t == 3:
            r += '(dsl::bytes<%d>.ascii())' % n
    elif k == 'b':
        n = rng.choice([1, 2, 3, 5, 8, 9, 17])
        t = rng.randrange(5)
        e['n'], e['token'] = n, t
        r = 'dsl::bytes<%d>' % n if n > 1 else 'dsl::byte'
        if t == 1:
            e['a'] = rng.randint(0, 200)
            e['b'] = rng.randint(e['a'], 255)
            r += '.range<%d, %d>()' % (e['a'], e['b'])
        elif t == 2:
            e['bytes'] = rng.sample(range(256), rng.randint(1, 5))
            r += '.set<%s>()' % ', '.join(map(str, e['bytes']))
        elif t == 3:
            r += '.ascii()'
        elif t == 4:
            r += '.if_<odd_byte>()'
        r = 'dsl::capture(%s)' % r
    elif k == 'p':
        n = rng.choice([1, 2, 3, 7, 8])
        e['n'], e['a'] = n, rng.choice([0, 0, 255, 0x20, rng.randrange(256)])
        r = 'dsl::padding_bytes<%d, %d>' % (n, e['a']) if e['a'] or rng.random() < .5 else 'dsl::padding_bytes<%d>' % n
    elif k == 't':
        left, mask, val, parts = 8, 0, 0, []
        while left:
            c = rng.choice(['0', '1', '_', 'n', 'a'])
            if c == 'n' and left >= 4:
                v = rng.randrange(16)
                parts.append('dsl::bit::nibble<%d>' % v)
                mask, val, left = mask << 4 | 15, val << 4 | v, left - 4
            elif c == 'a' and left >= 2:
                w = rng.randint(2, min(left, 5))
                parts.append('dsl::bit::any<%d>' % w)
                mask, val, left = mask << w, val << w, left - w
            elif c in '01':
                parts.append('dsl::bit::_%s' % c)
                mask, val, left = mask << 1 | 1, val << 1 | int(c), left - 1
            else:
                parts.append('dsl::bit::_')
                mask, val, left = mask << 1, val << 1, left - 1
        e['a'], e['b'] = mask, val
        r = 'dsl::capture(dsl::bits(%s))' % ', '.join(parts)
    else:
        boms = [('utf8', 'little', [0xEF, 0xBB, 0xBF]), ('utf8', 'big', [0xEF, 0xBB, 0xBF]), ('utf8_char', 'big', [0xEF, 0xBB, 0xBF]), ('utf16', 'little', [0xFF, 0xFE]), ('utf16', 'big', [0xFE, 0xFF]),
                ('utf32', 'little', [0xFF, 0xFE, 0, 0]), ('utf32', 'big', [0, 0, 0xFE, 0xFF])]
        if rng.random() < .5:
            a, b, e['bytes'] = rng.choice(boms)
            r = 'dsl::capture(dsl::bom<lexy::%s_encoding, lexy::encoding_endianness::%s>)' % (a, b)
        else:
            e['bytes'] = [rng.choice([0, 255, 0x7F, 0x80, rng.randrange(256)]) for _ in range(rng.choice([1, 2, 3, 4, 8, 9]))]
            r = 'dsl::capture(dsl::lit_b<%s>)' % ', '.join(map(str, e['bytes']))
    if e['opt']:
        r = 'dsl::opt(%s)' % r if k != 'p' else 'dsl::if_(%s)' % r
    return r, e


def generate(out, seed, tier, tus=8, per_tu=12):
    if tier == 'thorough':
        per_tu *= 3
    rng = random.Random(seed * 12553 + 12)
    b = lambda x: 'true' if x else 'false'
    files = []
    for t in range(tus):
        p = os.path.join(out, 'bytes_%d.cpp' % t)
        with open(p, 'w') as f:
            f.write('#include <c12_support.hpp>\nnamespace {\n')
            for k in range(per_tu):
                i = t * per_tu + k
                els = [element(rng, 'iibtpl'[i % 6] if j == 0 and i < 48 else None) for j in range(rng.choice([1, 1, 2, 3, 4, 5]))]
                rule = ' + '.join(r for r, _ in els)
                d = ', '.join("{'%s', %d, %d, %d, %d, %d, {%s}, %s}" % (e['kind'], e['n'], e['order'], e['token'], e['a'], e['b'], ', '.join(map(str, e['bytes'])), b(e['opt'])) for _, e in els)
                f.write('struct X%d { static constexpr auto get() { return %s; } static rule_desc desc() { return {R"__(%s)__", {%s}, {}}; } };\nconst reg<X%d> r%d;\n' % (i, rule, rule, d, i, i))
            f.write('}\n')
        files.append(p)
    return files
