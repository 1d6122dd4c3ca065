"""Random literals, literal sets, symbol tables, identifiers with reservations and keywords."""
import os, random

ENCS = ['utf8_char', 'utf8', 'utf16', 'utf32', 'ascii', 'default']
HOLD = ['string_holder', 'buffer_holder', 'range_holder']
UNI = [0xE4, 0x3C3, 0xE5, 0x1F600, 0x10428, 0x2D00, 0x2C65, 0x3B8, 0x6B, 0x73, 0x61]   # all case folded


def text(rng, uni, ident=None, maxlen=14):
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 11, 12, 15, 16, 17, 21]) if rng.random() < .6 else rng.choice([1, 2, 2, 3, 4])
    n = min(n, maxlen) if maxlen else n
    if uni:
        return [rng.choice(UNI + [0x61, 0x62]) for _ in range(min(n, 6))]
    if ident is None:
        al = rng.choice(['ab', 'ab', 'abc', 'az_09', 'xy+-', 'abAB'])
        return [ord(rng.choice(al)) for _ in range(n)]
    lead, trail = {0: ('abz_', 'abz_09'), 1: ('abz', 'abz'), 2: ('abz_', 'abz_0'), 3: ('abz', 'abz-'), 4: ('abz_', 'abz_-*9')}[ident]
    return [ord(rng.choice(lead))] + [ord(rng.choice(trail)) for _ in range(n - 1)]


def cstr(cps, prefix=''):
    s = prefix + '"'
    for c in cps:
        assert c < 0x80
        s += '\\\\'[0:2] if c == 92 else chr(c)
    return s + '"'


def lit_rule(rng, cps, enc):
    if any(c > 0x7F for c in cps):
        return 'dsl::lit_cp<%s>' % ', '.join(hex(c) for c in cps)
    k = rng.randrange(8)
    if k == 0:
        return 'dsl::lit_cp<%s>' % ', '.join(hex(c) for c in cps)
    if k == 1 and len(cps) == 1:
        return "dsl::lit_c<'%s'>" % chr(cps[0])
    if k == 2:
        return 'dsl::lit_b<%s>' % ', '.join(hex(c) for c in cps)
    if k == 3:
        return 'LEXY_LIT(%s)' % cstr(cps, rng.choice(['u', 'U']))
    return 'LEXY_LIT(%s)' % cstr(cps)


def lower(cps):
    return [c + 32 if 65 <= c <= 90 else c for c in cps]


def fold_wrap(fold, r):
    return {0: '%s', 1: 'dsl::ascii::case_folding(%s)', 2: 'dsl::unicode::simple_case_folding(%s)'}[fold] % r


def desc_lits(lits):
    return '{' + ', '.join('{{%s}, %s}' % (', '.join('%du' % c for c in cps), 'true' if kw else 'false') for cps, kw in lits) + '}'


def distinct(lits):
    seen, out = set(), []
    for l in lits:
        if tuple(l) not in seen:
            seen.add(tuple(l))
            out.append(l)
    return out


def prefix_family(rng, uni, ident):
    """texts that share prefixes, so that the longest match needs backtracking"""
    base = text(rng, uni, ident, 16)
    r = [base]
    for _ in range(rng.randint(1, 6)):
        b = rng.choice(r)
        k = rng.randrange(4)
        if k == 0:
            r.append(b[:rng.randint(1, len(b))])
        elif k == 1:
            r.append(b + text(rng, uni, ident, 5))
        elif k == 2:
            c = list(b)
            c[-1] = text(rng, uni, ident, 1)[0]
            r.append(c)
        else:
            r.append(text(rng, uni, ident, 9))
    rng.shuffle(r)
    return distinct(r)


def make(rng, i, force=None):
    t = force or rng.choice('LLLKKSSSSSYYTIDDD')
    fold = rng.choice([0, 0, 1, 2])
    ident = rng.randrange(5)
    if t == 'I' and fold:
        ident = rng.choice([0, 1] if fold == 1 else [0, 1, 2])
    uni = (t in 'LS' and rng.random() < .35) or (fold == 2 and t in 'LS')
    need_u = uni or fold == 2 or (ident == 2 and t in 'KID')
    pre, res, rfold = '', [[], [], [], []], [0, 0, 0, 0]
    encs = [0, 1, 2, 3] if need_u else [0, 1, 2, 3, 4, 5]
    if t in 'KID' and ident == 2:
        encs = [0, 1, 2, 3]
    lits = []
    fl = (lambda c: lower(c)) if fold else (lambda c: c)
    if t == 'L':
        cps = fl(text(rng, uni, None, 24))
        lits = [(cps, False)]
        rule = fold_wrap(fold, lit_rule(rng, cps, None))
    elif t == 'K':
        cps = text(rng, False, ident, 20)
        lits = [(cps, True)]
        rule = fold_wrap(fold, 'LEXY_KEYWORD(%s, id%d)' % (cstr(cps), ident))
    elif t == 'S':
        kws = rng.random() < .4
        fam = distinct([fl(x) for x in prefix_family(rng, uni, ident if kws and not uni else None)])
        if kws and ident == 2:
            encs = [0, 1, 2, 3]
        parts = []
        for f in fam:
            kw = kws and not uni and rng.random() < .6
            lits.append((f, kw))
            r = 'LEXY_KEYWORD(%s, id%d)' % (cstr(f), ident) if kw else lit_rule(rng, f, None)
            if fold and rng.random() < .7:
                r = fold_wrap(fold, r)
            parts.append(r)
        if fold and not any('folding' in p for p in parts):
            parts[0] = fold_wrap(fold, parts[0])
        k = rng.randrange(4)
        if k == 0 and len(parts) > 1:
            m = rng.randint(1, len(parts) - 1)
            if fold:     # both halves need not carry it: it applies to the whole set
                rule = 'LEXY_LITERAL_SET(%s) / dsl::literal_set(%s)' % (', '.join(parts[:m]), ', '.join(parts[m:]))
            else:
                rule = 'dsl::literal_set(%s) / LEXY_LITERAL_SET(%s)' % (', '.join(parts[:m]), ', '.join(parts[m:]))
        elif k == 1 and len(parts) > 1:
            rule = 'dsl::literal_set(%s) / %s' % (', '.join(parts[:-1]), parts[-1])
        elif k == 2 and not kws and not uni:
            pre = 'static constexpr auto tab = lexy::symbol_table<int>%s%s;' % (
                ''.join('.map<LEXY_SYMBOL(%s)>(%d)' % (cstr(f), n) for n, (f, _) in enumerate(lits)), {0: '', 1: '.case_folding(dsl::ascii::case_folding)', 2: '.case_folding(dsl::unicode::simple_case_folding)'}[fold])
            rule = 'dsl::literal_set(tab)'
        else:
            rule = 'LEXY_LITERAL_SET(%s)' % ', '.join(parts) if rng.random() < .5 else 'dsl::literal_set(%s)' % ', '.join(parts)
    elif t in 'YTI':
        fam = distinct([fl(x) for x in prefix_family(rng, False, ident if t == 'I' else 0 if t == 'T' else None)])
        lits = [(f, False) for f in fam]
        tab = 'lexy::symbol_table<int>'
        where = rng.choice(['', 'first', 'last'])
        cf = {0: '', 1: '.case_folding(dsl::ascii::case_folding)', 2: '.case_folding(dsl::unicode::simple_case_folding)'}[fold]
        if where == 'first' and fold:
            m = len(fam) // 2
        else:
            m = len(fam)
        for n, f in enumerate(fam):
            if n == m:
                tab += cf
            k = rng.randrange(3)
            tab += '.map<LEXY_SYMBOL(%s)>(%d)' % (cstr(f), n) if k == 0 else ".map<'%s'>(%d)" % (chr(f[0]), n) if k == 1 and len(f) == 1 else '.map(LEXY_LIT(%s), %d)' % (cstr(f), n)
        if m == len(fam):
            tab += cf
        pre = 'static constexpr auto tab = %s;' % tab
        rule = 'dsl::symbol<tab>' + {'Y': '', 'T': '(dsl::token(dsl::while_one(dsl::ascii::word)))', 'I': '(id%d)' % ident}[t]
        if t == 'I' and ident == 2:
            encs = [0, 1, 2, 3]
    else:
        rule = 'id%d' % ident
        for n, what in enumerate(['reserve', 'reserve_prefix', 'reserve_containing', 'reserve_suffix']):
            if rng.random() < .5 or (n == 3 and not any(res)):
                rf = rng.choice([0, 0, 0, 1, 2 if (ident == 2) else 1])
                rfold[n] = rf
                fam = distinct([x[:rng.choice([1, 2, 3, 9])] for x in prefix_family(rng, False, ident)])[:4]
                if rf:
                    fam = distinct([lower(f) for f in fam])
                if rf == 2:
                    encs = [0, 1, 2, 3]
                parts = []
                for m, f in enumerate(fam):
                    kw = rng.random() < .4 and n == 0
                    r = 'LEXY_KEYWORD(%s, id%d)' % (cstr(f), ident) if kw else lit_rule(rng, f, None)
                    parts.append(fold_wrap(rf, r))
                    res[n].append((f, False))
                if rng.random() < .3 and not any('KEYWORD' in p for p in parts):
                    parts = ['dsl::literal_set(%s)' % ', '.join(parts)]
                rule += '.%s(%s)' % (what, ', '.join(parts))
        fold = 0
    if 'lit_cp' in rule:
        encs = [e for e in encs if e != 5]
    ne = 2
    es = rng.sample(encs, min(ne, len(encs)))
    runs = []
    for e in es:
        hs = ['buffer_holder', rng.choice(['string_holder', 'range_holder'])]
        for h in hs:
            runs.append('make_run<X%d, %s, %d>()' % (i, h, e))
    return '''struct X%d { %s static constexpr auto get() { return %s; }
  static rule_desc desc() { return {R"__(%s)__", '%s', %d, %s, %d, {%s}, {%s}, {}}; } };
const reg<X%d> r%d(%s);
''' % (i, pre, rule, (pre + ' ' + rule).strip(), t, fold, desc_lits(lits), ident, ', '.join(desc_lits(r) for r in res), ', '.join(map(str, rfold)), i, i, ', '.join(runs))


def generate(out, seed, tier, tus=8, per_tu=16):
    if tier == 'thorough':
        per_tu *= 3
    rng = random.Random(seed * 104729 + 10)
    kinds = 'LKSYTID'
    files = []
    for t in range(tus):
        p = os.path.join(out, 'literals_%d.cpp' % t)
        with open(p, 'w') as f:
            f.write('#include <c10_support.hpp>\nnamespace {\n')
            for k in range(per_tu):
                i = t * per_tu + k
                f.write(make(rng, i, kinds[i % 7] if i < 28 else None))
            f.write('}\n')
        files.append(p)
    return files
