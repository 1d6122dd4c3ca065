"""Random grammars that parse parse trees (tnode, pnode) and their description for the reference interpreter of C27."""
import os, random, json

KINDS = ['a', 'b', 'num', 'literal', 'whitespace', 'identifier']
CPPK = {'a': 'rp::tk::a', 'b': 'rp::tk::b', 'num': 'rp::tk::num', 'literal': 'lexy::literal_token_kind', 'whitespace': 'lexy::whitespace_token_kind', 'identifier': 'lexy::identifier_token_kind'}
PRODS = ['P0', 'P1', 'P2']


def q(s):
    return json.dumps(s)


def mk(op, s='', k=()):
    return 'rn{%s, %s, {%s}}' % (q(op), q(s), ', '.join(k))


class G:
    def __init__(self, rng, nq):
        self.rng, self.nq, self.later, self.inside = rng, nq, [], 0

    def kind(self):
        return self.rng.choice(KINDS[:5] if self.rng.random() < .9 else KINDS)

    # a token rule that consumes exactly one node
    def node(self):
        if self.rng.random() < .65:
            k = self.kind()
            return 'dsl::tnode<%s>' % CPPK[k], mk('tn', k)
        p = self.rng.choice(PRODS)
        return 'dsl::pnode<rp::%s>' % p, mk('pn', p)

    # a branch that consumes a node; vals: may produce values
    def branch(self, d, vals):
        r = self.rng.random()
        if d <= 0 or r < .25:
            c, m = self.node()
            if vals and self.rng.random() < .5:
                return 'dsl::capture(%s)' % c, mk('cap', '', [m])
            return c, m
        if r < .5:
            k = self.kind()
            c, m = self.lexeme(2, vals)
            return 'dsl::tnode<%s>(%s)' % (CPPK[k], c), mk('tnr', k, [m])
        if r < .85:
            p = self.rng.choice(PRODS)
            self.inside += 1
            c, m = self.rule(d - 1, vals)
            self.inside -= 1
            return 'dsl::pnode<rp::%s>(%s)' % (p, c), mk('pnr', p, [m])
        if r < .95:
            b = self.branch(d - 1, vals)
            c = self.rule(d - 1, vals)
            return '(%s >> %s)' % (b[0], c[0]), mk('br', '', [b[1], c[1]])
        n = self.node()
        b = self.branch(d - 1, vals)
        return '(dsl::peek(%s) >> %s)' % (n[0], b[0]), mk('peekbr', '', [n[1], b[1]])

    def rule(self, d, vals):
        r = self.rng
        o = ['branch'] * 4 + ['pos'] * vals
        if d > 0:
            o += ['seq'] * 4 + ['opt'] * (2 * vals) + ['if'] * 2 + ['alt'] * 3 + ['while', 'any', 'eof', 'until', 'eofif']
            if vals:
                o += ['list'] * 2 + ['capany']
                if self.later:
                    o += ['p'] * 3
                if self.inside and self.nq:
                    o += ['rec'] * 2
        k = r.choice(o)
        if k == 'branch':
            return self.branch(d, vals)
        if k == 'pos':
            return 'dsl::position', mk('pos')
        if k == 'seq':
            l = [self.rule(d - 1, vals) for _ in range(r.randint(2, 3))]
            return '(%s)' % ' + '.join(x[0] for x in l), mk('seq', '', [x[1] for x in l])
        if k == 'opt':
            b = self.branch(d - 1, vals)
            return 'dsl::opt(%s)' % b[0], mk('opt', '', [b[1]])
        if k == 'if':
            b = self.branch(d - 1, vals)
            return 'dsl::if_(%s)' % b[0], mk('if', '', [b[1]])
        if k == 'alt':
            l = [self.branch(d - 1, vals) for _ in range(r.randint(2, 3))]
            cs, ms = [x[0] for x in l], [x[1] for x in l]
            if r.random() < .3:
                e = self.rule(d - 1, vals)
                cs.append('dsl::else_ >> %s' % e[0])
                ms.append(mk('else', '', [e[1]]))
            return '(%s)' % ' | '.join(cs), mk('alt', '', ms)
        if k == 'while':
            b = self.branch(d - 1, False)
            return 'dsl::while_(%s)' % b[0], mk('while', '', [b[1]])
        if k == 'any':
            return 'dsl::any', mk('any')
        if k == 'capany':
            return 'dsl::capture(dsl::any)', mk('cap', '', [mk('any')])
        if k == 'eof':
            return 'dsl::eof', mk('eof')
        if k == 'eofif':
            return 'dsl::if_(dsl::eof)', mk('if', '', [mk('eof')])
        if k == 'until':
            n = self.node()
            return 'dsl::until(%s)' % n[0], mk('until', '', [n[1]])
        if k == 'list':
            b = self.branch(d - 1, True)
            if r.random() < .5:
                return 'dsl::list(%s)' % b[0], mk('list', '', [b[1]])
            s = self.node()
            return 'dsl::list(%s, dsl::sep(%s))' % (b[0], s[0]), mk('list', '', [b[1], s[1]])
        if k == 'p':
            n = r.choice(self.later)
            return 'dsl::p<%s>' % n, mk('p', n)
        n = 'Q%d' % r.randrange(self.nq)
        return 'dsl::recurse<%s>' % n, mk('p', n)

    # rules for the text of a token
    def lexeme(self, d, vals):
        r = self.rng
        o = ['lit'] * 2 + ['digits', 'any'] + (['int', 'id', 'id', 'int', 'cap', 'pq'] if vals else [])
        if d > 0:
            o += ['seq'] * 2 + ['alt', 'eof'] + (['opt'] if vals else [])
        k = r.choice(o)
        if k == 'lit':
            s = r.choice(['a', 'ab', 'abc', '1', 'x', ' '])
            return 'LEXY_LIT(%s)' % q(s), mk('lit', s)
        if k == 'digits':
            return 'dsl::digits<>', mk('digits')
        if k == 'any':
            return 'dsl::any', mk('any')
        if k == 'cap':
            return 'dsl::capture(dsl::any)', mk('cap', '', [mk('any')])
        if k == 'int':
            return 'dsl::integer<int>', mk('int')
        if k == 'id':
            return 'dsl::identifier(dsl::ascii::alpha)', mk('id')
        if k == 'pq':
            return 'dsl::p<QL>', mk('p', 'QL')
        if k == 'eof':
            return 'dsl::eof', mk('eof')
        if k == 'seq':
            l = [self.lexeme(d - 1, vals) for _ in range(2)]
            return '(%s)' % ' + '.join(x[0] for x in l), mk('seq', '', [x[1] for x in l])
        if k == 'opt':
            s = r.choice(['a', 'x', '1'])
            e = self.lexeme(d - 1, vals)
            return 'dsl::opt(LEXY_LIT(%s) >> %s)' % (q(s), e[0]), mk('opt', '', [mk('br', '', [mk('lit', s), e[1]])])
        s, t = r.sample(['a', 'x', '12', ' '], 2)
        return '(LEXY_LIT(%s) | LEXY_LIT(%s))' % (q(s), q(t)), mk('alt', '', [mk('lit', s), mk('lit', t)])


def emit(rng, i):
    nq = rng.randint(0, 2)
    g = G(rng, nq)
    out, desc = [], []
    out.append('struct QL { static constexpr auto name = "QL"; static constexpr auto rule = dsl::integer<int>; static constexpr auto value = rp::make; };')
    desc.append(('QL', mk('int')))
    for n in range(nq):
        out.append('struct Q%d;' % n)
    for n in reversed(range(nq)):
        c, m = g.rule(2, True)
        out.append('struct Q%d { static constexpr auto name = "Q%d"; static constexpr auto rule = [] { return %s; }(); static constexpr auto value = rp::make; };' % (n, n, c))
        desc.append(('Q%d' % n, m))
        g.later.append('Q%d' % n)
    ws = []
    if rng.random() < .6:
        ws = rng.sample(['whitespace', 'literal', 'num', 'P2'], rng.choice([1, 1, 2]))
    c, m = g.rule(3, True)
    while m.startswith('rn{"pos"'):
        c, m = g.rule(3, True)
    w = 'static constexpr auto whitespace = %s; ' % ' | '.join('dsl::pnode<rp::P2>' if x == 'P2' else 'dsl::tnode<%s>' % CPPK[x] for x in ws) if ws else ''
    out.append('struct Root { static constexpr auto name = "Root"; %sstatic constexpr auto rule = [] { return %s; }(); static constexpr auto value = rp::make; };' % (w, c))
    desc.append(('Root', m))
    text = '\n'.join(out)
    return '''namespace g%d {
%s
}
const reg r%d(grammar{R"__(%s)__", {%s}, {%s}, &rp::run<g%d::Root>});
''' % (i, text, i, text, ',\n '.join('{%s, %s}' % (q(n), d) for n, d in reversed(desc)), ', '.join(map(q, ws)), i)


def generate(out, seed, tier, tus=8, per_tu=8):
    if tier == 'thorough':
        per_tu *= 4
    rng = random.Random(seed * 9176 + 27)
    files = []
    for t in range(tus):
        p = os.path.join(out, 'reparse_%d.cpp' % t)
        with open(p, 'w') as f:
            f.write('#include <c27_support.hpp>\nusing namespace rp;\nnamespace {\n')
            for k in range(per_tu):
                f.write(emit(rng, t * per_tu + k))
            f.write('}\n')
        files.append(p)
    return files
