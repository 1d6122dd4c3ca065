"""Random delimited(), until() and lookahead() rules."""
import os, random

CLS = ['dsl::ascii::print', 'dsl::ascii::character', '-dsl::ascii::control', 'dsl::code_point', 'dsl::ascii::graph / dsl::ascii::blank', 'dsl::ascii::alpha', "dsl::ascii::print - dsl::lit_c<'x'>",
       'dsl::ascii::word', 'dsl::ascii::lower / dsl::ascii::digit']
UNI = {2, 3}
LIMITABLE = {1: [0, 2, 4, 5, 6, 7, 8], 2: [0, 2, 5, 6, 7, 8]}   # limit -> classes that do not contain it
DELIM = [('"', '"'), ("'", "'"), ('"""', '"""'), ('`', '`'), ('(', ')'), ('$$', '$$'), ('/*', '*/'), ('<', '>>'), ('ab', 'ba'), ('<', 'end'), ('[', 'abcabd'), ('[=', '=]'), ('``', '``')]


def cstr(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def vec(l):
    return '{' + ', '.join(cstr(x) for x in l) + '}'


def word(s):
    """^ and ~ are keywords of two kinds of identifiers"""
    return 'LEXY_KEYWORD(%s, kw_id)' % cstr(s[1:]) if s[0] == '^' else 'LEXY_KEYWORD(%s, kw2_id)' % cstr(s[1:]) if s[0] == '~' else 'LEXY_LIT(%s)' % cstr(s)


def make(rng, i, kind=None):
    kind = kind or rng.choice('DDDDDUUL')
    b = lambda x: 'true' if x else 'false'
    o = c = ''
    cf = ck = oc = cc = ws = oreof = False
    cls = lim = uk = 0
    esc, needles, ends = [], [], []
    uni = False
    as_branch = True
    if kind == 'D':
        o, c = rng.choice(DELIM)
        cls = rng.randrange(len(CLS))
        uni = cls in UNI
        lim = rng.choice([0, 0, 1, 2])
        if lim and cls not in LIMITABLE[lim]:
            lim = 0
        ws = rng.random() < .4
        oc, cc = rng.random() < .15, rng.random() < .15
        if c.isalpha() and rng.random() < .5:
            cf = rng.random() < .5
            ck = not cf
        L = lambda s: 'LEXY_LIT(%s)' % cstr(s)
        O = L(o)
        C = 'dsl::ascii::case_folding(%s)' % L(c) if cf else 'LEXY_KEYWORD(%s, kw_id)' % cstr(c) if ck else L(c)
        if oc:
            O = 'dsl::capture(%s)' % O
        if cc:
            C = 'dsl::capture(%s)' % C
        pre = {'"': 'dsl::quoted', "'": 'dsl::single_quoted', '"""': 'dsl::triple_quoted', '`': 'dsl::backticked', '``': 'dsl::double_backticked'}
        if o in pre and not (oc or cc) and rng.random() < .6:
            d = pre[o]
        elif o == c and not (oc or cc or cf or ck) and rng.random() < .6:
            d = 'dsl::delimited(%s)' % O
        else:
            d = 'dsl::delimited(%s, %s)' % (O, C)
        d += ['', '.limit(dsl::ascii::newline)', '.limit<my_limit>(dsl::ascii::control)'][lim]
        es = ''
        for ch in rng.sample(['\\', '$', '%', 'q'], rng.choice([0, 0, 1, 1, 1, 2])):
            if ch in o + c:
                continue
            fold = ch == 'q' and rng.random() < .6
            br = ''.join(rng.sample('sdxue', rng.randint(0, 4)))
            if rng.random() < .1:
                br += 'E'
            e = 'dsl::backslash_escape' if ch == '\\' and rng.random() < .7 else 'dsl::dollar_escape' if ch == '$' and rng.random() < .7 else \
                "dsl::escape(dsl::ascii::case_folding(LEXY_LIT(%s)))" % cstr(ch) if fold else rng.choice(['dsl::escape(LEXY_LIT(%s))' % cstr(ch), "dsl::escape(dsl::lit_c<%s>)" % ("'\\\\'" if ch == '\\' else "'%s'" % ch)])
            for k in br:
                e += {'s': '.symbol<symbols>()', 'd': '.capture(dsl::ascii::digit)', 'x': ".rule(dsl::lit_c<'x'> >> dsl::code_unit_id<lexy::utf8_encoding, 2>)",
                      'u': ".rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>)", 'e': '.capture(LEXY_LIT(%s))' % cstr(ch), 'E': '.rule(dsl::else_ >> dsl::position)'}[k]
            es += ', ' + e
            esc.append("{%s, %s, %s}" % ("'\\\\'" if ch == '\\' else "'%s'" % ch, b(fold), cstr(br)))
        rule = '%s(%s%s)' % (d, CLS[cls], es)
    elif kind == 'U':
        uk = rng.randrange(5)
        needles = {0: [rng.choice(['*/', 'a', 'aab', 'abcab', ';', '"', 'abababac', '\\'])], 1: rng.choice([['ab', 'abc', 'c'], ['end', 'ende', ';'], ['aa', 'b'], ['^end', '~ab', ';'], ['~end', '^endx', 'a']]), 2: ['\n', '\r\n'], 3: [], 4: [rng.choice(['end', 'a', 'aab'])]}[uk]
        L = word
        cond = {0: lambda: L(needles[0]), 1: lambda: 'dsl::literal_set(%s)' % ', '.join(map(L, needles)), 2: lambda: 'dsl::newline', 3: lambda: 'dsl::ascii::digit', 4: lambda: 'dsl::ascii::case_folding(%s)' % L(needles[0])}[uk]()
        oreof = rng.random() < .5
        rule = 'dsl::capture(dsl::until(%s)%s)' % (cond, '.or_eof()' if oreof else '')
        as_branch = not oreof
    else:
        needles = rng.choice([['!'], ['end'], ['ab', 'ac'], ['aab'], ['abcab', '\r'], ['^end'], ['~ab', '^ac'], ['^aab', '!']])
        ends = rng.choice([[';'], ['}', ';;'], ['bb'], ['(x)'], ['~bb'], ['^x', '~z'], ['~x', ';', '^z']])
        L = lambda s: "dsl::lit_c<'\\r'>" if s == '\r' else word(s)
        n = 'dsl::literal_set(%s)' % ', '.join(map(L, needles)) if len(needles) > 1 else L(needles[0])
        e = 'dsl::literal_set(%s)' % ', '.join(map(L, ends)) if len(ends) > 1 else L(ends[0])
        tag = rng.random() < .5
        lim = 2 if tag else 0
        rule = 'dsl::lookahead(%s, %s)%s' % (n, e, '.error<my_limit>' if tag else '')
    encs = [0, 1, 2, 3] if uni else [0, 1, 2, 3, 4, 5]
    e1, e2 = rng.sample(encs, 2)
    runs = ['make_run<X%d, buffer_holder, %d>()' % (i, e1), 'make_run<X%d, buffer_holder, %d>()' % (i, e2), 'make_run<X%d, string_holder, %d>()' % (i, e1), 'make_run<X%d, range_holder, %d>()' % (i, e2)]
    esc_nl = lambda l: vec(l).replace('\n', '\\n').replace('\r', '\\r')
    return '''struct X%d { static constexpr bool ws = %s, as_branch = %s; static constexpr auto get() { return %s; }
  static rule_desc desc() { return {R"__(%s)__", '%s', %s, %s, %s, %s, %s, %s, %d, %d, {%s}, %s, %s, %s, %d, %s, {}}; } };
const reg<X%d> r%d(%s);
''' % (i, b(ws), b(as_branch), rule, rule, kind, cstr(o), cstr(c), b(cf), b(ck), b(oc), b(cc), cls, lim, ', '.join(esc), b(ws), esc_nl(needles), esc_nl(ends), uk, b(oreof), i, i, ', '.join(runs))


def generate(out, seed, tier, tus=8, per_tu=9):
    if tier == 'thorough':
        per_tu *= 3
    rng = random.Random(seed * 6151 + 13)
    files = []
    for t in range(tus):
        p = os.path.join(out, 'delimited_%d.cpp' % t)
        with open(p, 'w') as f:
            f.write('#include <c13_support.hpp>\nnamespace {\n')
            for k in range(per_tu):
                i = t * per_tu + k
                f.write(make(rng, i, 'DUDL'[i % 4] if i < 16 else None))
            f.write('}\n')
        files.append(p)
    return files
