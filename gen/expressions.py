"""Random operator tables, as expression productions inside small grammars (see gen/grammars.py)."""
import os, random, json
from gen.grammars import Gen, P, R, emit, q, lits

POST = ['+', '-', '*', '/', '**', '==', '=', '<', '<<', '<=', '->', '?', '[', '!', '!!', '++', 'and', 'or', 'mod', '&', '&&', '|', '^', ',', '.', '@', '~', 'x', 'andalso']
PRE = ['+', '-', '*', '!', '!!', '~', '&', '&&', 'not', '++', '--', '?', 'no', '@', '=']
KINDS = {'left': 3, 'right': 2, 'list': 1.5, 'single': 1.5, 'prefix': 2, 'postfix': 2}
FOLLOW = [('dsl::ascii::punct', 'ASCII.punct'), ('dsl::ascii::alpha', 'ASCII.alpha'), ('dsl::ascii::digit', 'ASCII.digit')]


class Expr:
    def __init__(self, g, name):
        self.g, self.r, self.name = g, g.rng, name
        self.post, self.pre = POST[:], PRE[:]
        self.structs = ''
        self.ops = []    # (name, kind, level, group, ref of the operators)
        self.count = 0
        self.groups = 0
        self.fold = g.rng.random() < .4

    def op(self, kind, close):
        r, pool = self.r, self.pre if kind == 'prefix' else self.post
        if r.random() < .45:
            # an operator that shares a prefix with another one
            used = [o for o in (PRE if kind == 'prefix' else POST) if o not in pool]
            near = [o for o in pool if any(o.startswith(u) or u.startswith(o) for u in used)]
        else:
            near = None
        s = r.choice(near or pool)
        pool.remove(s)
        cpp, fold, nf = 'LEXY_LIT(%s)' % q(s), False, ''
        if s.isalpha() and self.fold:
            # the folding of one operator applies to all operators it is looked for together with: use it for all of them
            cpp, fold = 'dsl::ascii::case_folding(%s)' % cpp, True
        if r.random() < .2 and kind != 'list':
            f = r.choice(FOLLOW)
            cpp, nf = 'dsl::not_followed_by(%s, %s)' % (cpp, f[0]), f[1]
        rest = ''
        if r.random() < .18:
            k = r.choice(['close', 'cap', 'expr', 'sub'])
            if k == 'close':
                cpp, rest = '(%s >> LEXY_LIT("]"))' % cpp, 'mk(K::lit, {}, "]")'
            elif k == 'cap':
                cpp, rest = '(%s >> dsl::capture(dsl::digits<>) + dsl::opt(dsl::lit_c<\':\'>))' % cpp, 'mk(K::cap, {mk(K::digits)}), mk(K::opt, {mk(K::lit, {}, ":")})'
            elif kind != 'prefix' or k == 'expr':
                cpp, rest = '(%s >> dsl::recurse<struct %s> + LEXY_LIT(":"))' % (cpp, self.name), 'with_prod(K::rec, %s), mk(K::lit, {}, ":")' % self.name
            else:
                cpp, rest = '(%s >> dsl::if_(LEXY_LIT(":")))' % cpp, 'mk(K::ift, {mk(K::lit, {}, ":")})'
        t = r.choice(['num', 'num', 'num', 'pos', 'plain', 'auto', 'void', 'state'])
        n = r.randrange(1000)
        cpp = {'num': 'dsl::op<%d>(%s)' % (n, cpp), 'pos': 'dsl::op<gx::tag_pos>(%s)' % cpp, 'plain': 'dsl::op<gx::tag_plain>(%s)' % cpp,
               'auto': 'dsl::op(%s)' % cpp, 'void': 'dsl::op<void>(%s)' % cpp, 'state': 'dsl::op<gx::tag_state>(%s)' % cpp}[t]
        tag = {'num': '#%d' % n, 'pos': '@', 'plain': 'tag', 'auto': 'op', 'void': '', 'state': '@'}[t]
        return cpp, '{%s, %s, %s, %s, {%s}}' % (q(s), 'true' if fold else 'false', q(nf), q(tag), rest)

    def operation(self, level, group, operand):
        r = self.r
        ks = [k for k in KINDS if (self.pre if k == 'prefix' else self.post)]
        kind = self.g.choose('operation', {k: KINDS[k] for k in ks})
        n = r.choice([1, 1, 2, 2, 3])
        n = min(n, len(self.pre if kind == 'prefix' else self.post))
        ops = [self.op(kind, None) for _ in range(n)]
        name = 'O%d' % self.count
        self.count += 1
        base = {'left': 'infix_op_left', 'right': 'infix_op_right', 'list': 'infix_op_list', 'single': 'infix_op_single', 'prefix': 'prefix_op', 'postfix': 'postfix_op'}[kind]
        cpp = ' / '.join(o[0] for o in ops)
        if n == 3 and r.random() < .5:
            cpp = '%s / (%s / %s)' % tuple(o[0] for o in ops)
        self.structs += '    struct %s : dsl::%s\n    {\n        static constexpr auto name = "%s";\n        static constexpr auto op = %s;\n        using operand = %s;\n    };\n' % (name, base, name, cpp, operand)
        self.ops.append((name, kind, level, group, [o[1] for o in ops]))
        return name

    def chain(self, depth, level, group, may_group):
        """Name of the operation of a chain of that many levels, or of what is below it."""
        if depth == 0:
            if may_group and self.r.random() < .35:
                names = []
                for _ in range(self.r.choice([2, 2, 3])):
                    self.groups += 1
                    names.append(self.chain(self.r.choice([1, 1, 2]), level, self.groups, False))
                return 'dsl::groups<%s>' % ', '.join(names)
            return 'dsl::atom'
        below = self.chain(depth - 1, level + 1, group, may_group)
        return self.operation(level, group, below)

    def build(self):
        r, g = self.r, self.g
        depth = r.choice([0, 1, 2, 2, 3, 3, 4])
        root = self.chain(depth, 1, 0, True)
        if root == 'dsl::atom':
            root = self.chain(1, 1, 0, False)
        nest = r.choice([None, None, None, 1, 2, 3, 4, 6])
        p = P()
        p.name, p.token, p.transparent, p.ws, p.br, p.cons, p.cost, p.recursive = self.name, False, False, None, False, True, 20, True
        p.void = r.random() < .12
        members = ''
        setup = '    {\n        ref::expr_t e;\n'
        atoms = [('dsl::capture(dsl::digits<>)', 'mk(K::cap, {mk(K::digits)})'),
                 ('(dsl::parenthesized(dsl::recurse<struct %s>) | dsl::capture(dsl::digits<>))' % self.name,
                  'mk(K::alt, {mk(K::br, {mk(K::lit, {}, "("), with_prod(K::rec, %s), mk(K::lit, {}, ")")}), mk(K::cap, {mk(K::digits)})})' % self.name),
                 ('(dsl::parenthesized.try_(dsl::recurse<struct %s>) | dsl::capture(dsl::digits<>))' % self.name,
                  'mk(K::alt, {mk(K::br, {mk(K::lit, {}, "("), with_extra(mk(K::term_try, {with_prod(K::rec, %s)}), mk(K::lit, {}, ")"))}), mk(K::cap, {mk(K::digits)})})' % self.name),
                 ('(LEXY_LIT("(") >> dsl::recurse<struct %s> + LEXY_LIT(")") | gx::idt | dsl::capture(dsl::digits<>))' % self.name,
                  'mk(K::alt, {mk(K::br, {mk(K::lit, {}, "("), with_prod(K::rec, %s), mk(K::lit, {}, ")")}), mk(K::ident), mk(K::cap, {mk(K::digits)})})' % self.name),
                 ('(LEXY_LIT("{") >> dsl::position + dsl::capture(dsl::ascii::digit) + dsl::opt(LEXY_LIT("%")) | dsl::capture(dsl::ascii::digit) | dsl::error<gx::errB>)',
                  'mk(K::alt, {mk(K::br, {mk(K::lit, {}, "{"), mk(K::pos), mk(K::cap, {mk(K::cls, {}, "ASCII.digit")}), mk(K::opt, {mk(K::lit, {}, "%")})}), mk(K::cap, {mk(K::cls, {}, "ASCII.digit")}), mk(K::err, {}, "errB")})'),
                 ('dsl::must(dsl::capture(dsl::digits<>)).error<gx::errC>', 'with_extra(mk(K::must, {mk(K::cap, {mk(K::digits)})}), mk(K::err, {}, "errC"))'),
                 ('dsl::try_(dsl::capture(dsl::digits<>), LEXY_LIT("$"))', 'with_extra(mk(K::tryr, {mk(K::cap, {mk(K::digits)})}), mk(K::lit, {}, "$"))')]
        aps = g.usable(lambda x: not x.void and x.cons)
        if aps:
            x = r.choice(aps)
            atoms.append(('dsl::p<%s>' % x.name, 'with_prod(K::prod, %s)' % x.name))
        atom = r.choice(atoms)
        if nest:
            members += '    static constexpr auto max_operator_nesting = %d;\n' % nest
            setup += '        e.max_nesting = %d;\n' % nest
        for e, v in [('operator_nesting_error', 'nesting_error'), ('operator_chain_error', 'chain_error'), ('operator_group_error', 'group_error')]:
            if r.random() < .2:
                members += '    using %s = gx::errA;\n' % e
                setup += '        e.%s = "errA";\n' % v
        if r.random() < .35:
            p.ws = g.whitespace()
            members += '    static constexpr auto whitespace = %s;\n' % p.ws[0]
        operation = '    using operation = %s;\n' % root if root != 'O0' or root.startswith('dsl') else '    using operation = O0;\n'
        value = '    static constexpr auto value = %s;\n' % ('lexy::noop' if p.void else 'gx::cb{"%s"}' % self.name)
        # nested classes have to be declared before they are used as operands: build order is innermost first
        p.text = 'struct %s : lexy::expression_production\n{\n    static constexpr auto name = "%s";\n%s%s%s    static constexpr auto atom = %s;\n%s};\n' % (
            self.name, self.name, members, self.structs, operation, atom[0], value)
        table = ''
        for name, kind, level, group, ops in self.ops:
            table += '        e.operations.push_back({"%s", O::%s, %d, %d, {%s}});\n' % (name, kind, level, group, ', '.join(ops))
        setup += table + '        e.atom = %s;\n' % atom[1]
        p.setup = setup + '        %s->ex = std::make_shared<ref::expr_t>(std::move(e));\n    }\n' % self.name
        p.cpp, p.ref = self.structs + atom[0], 'mk(K::expr)'
        p.expr = self
        g.prods.append(p)
        # a subexpression
        tops = [o for o in self.ops if o[3] == 0]
        if tops and r.random() < .5:
            s = P()
            s.__dict__.update(p.__dict__)
            s.name = 'S' + self.name
            o = r.choice(tops)
            s.ws = None
            s.text = 'struct %s : lexy::subexpression_production<%s, %s::%s>\n{\n    static constexpr auto name = "%s";\n    static constexpr auto value = %s;\n};\n' % (
                s.name, self.name, self.name, o[0], s.name, 'lexy::noop' if p.void else 'gx::cb{"%s"}' % s.name)
            s.setup = '    {\n        auto e = *%s->ex;\n        e.root_level = %d;\n        e.root_left = %s;\n        %s->ex = std::make_shared<ref::expr_t>(std::move(e));\n        %s->ws = %s->ws;\n    }\n' % (
                self.name, o[2], 'true' if o[1] in ('left', 'list', 'single') else 'false', s.name, s.name, self.name)
            s.cpp = ''
            g.prods.append(s)


def grammar(rng, counts):
    g = Gen(rng, counts, {'rootws': .5})
    for i in range(rng.choice([0, 0, 1])):
        g.production('P%d' % i, [], False)
        if len(g.prods[-1].cpp) > 300:
            g.prods.pop()
    first = len(g.prods)
    Expr(g, 'E').build()
    r = P()
    r.name, r.token, r.transparent, r.void, r.ws, r.br, r.cons, r.cost, r.recursive = 'Root', False, False, False, None, False, True, 1, False
    es = g.prods[first:]
    e = rng.choice(es)
    ep, er = 'dsl::p<%s>' % e.name, 'with_prod(K::prod, %s)' % e.name
    o = rng.choice(es)
    k = rng.choice(['plain', 'plain', 'plain', 'eof', 'list', 'term', 'two', 'try'])
    if k == 'plain':
        r.cpp, r.ref = ep, er
    elif k == 'eof':
        r.cpp, r.ref = '%s + dsl::eof' % ep, 'mk(K::seq, {%s, mk(K::eof)})' % er
    elif k == 'list':
        r.cpp, r.ref = 'dsl::list(%s, dsl::sep(LEXY_LIT(";")))' % ep, 'with_sep(mk(K::list, {%s}), 1, mk(K::lit, {}, ";"))' % er
        if e.void:
            r.cpp, r.ref = ep, er
    elif k == 'term':
        r.cpp, r.ref = 'dsl::terminator(LEXY_LIT(";")).try_(%s)' % ep, 'with_extra(mk(K::term_try, {%s}), mk(K::lit, {}, ";"))' % er
    elif k == 'two':
        r.cpp, r.ref = '%s + LEXY_LIT(";") + dsl::p<%s>' % (ep, o.name), 'mk(K::seq, {%s, mk(K::lit, {}, ";"), with_prod(K::prod, %s)})' % (er, o.name)
    else:
        r.cpp, r.ref = 'dsl::try_(%s, dsl::find(LEXY_LIT(";"))) + dsl::if_(LEXY_LIT(";"))' % ep, 'mk(K::seq, {with_extra(mk(K::tryr, {%s}), mk(K::find, {}, "", {";"})), mk(K::ift, {mk(K::lit, {}, ";")})})' % er
    if rng.random() < .5:
        r.ws = g.whitespace()
    g.prods.append(r)
    g.max_depth = rng.choice([None, None, None, 3])
    g.max_len = 1100
    return g


def generate(out, seed, tier, count=64, per_file=2, salt=0):
    if tier == 'thorough':
        count *= 4
    rng = random.Random(seed * 7919 + salt)
    counts = {}
    files = []
    os.makedirs(out, exist_ok=True)
    k = 0
    while k < count:
        path = os.path.join(out, 'expressions_%d_%03d.cpp' % (salt, len(files)))
        with open(path, 'w') as f:
            f.write('#include "gx.hpp"\n')
            for _ in range(per_file):
                emit(f, 'g%d' % k, grammar(rng, counts))
                k += 1
        files.append(path)
    return files
