"""Random lexy grammars: C++ text and, side by side, their description for the reference interpreter (harness/ref.hpp)."""
import os, random, json

LITS = ['a', 'b', 'ab', 'abc', 'x', '(', ')', '[', ']', ',', ';', '+', '-', '->', '<', '<=', '=', '==', '0', '01', 'if', 'i', '.', '..', 'longer literal', ':']
OPEN = ['(', '[', '<', '{', 'do']
CLOSE = {'(': ')', '[': ']', '<': '>', '{': '}', 'do': 'end'}
CLS = [('dsl::ascii::digit', 'ASCII.digit'), ('dsl::ascii::alpha', 'ASCII.alpha'), ('dsl::ascii::lower', 'ASCII.lower'), ('dsl::ascii::upper', 'ASCII.upper'),
       ('dsl::ascii::alpha_digit', 'ASCII.alpha-digit'), ('dsl::ascii::punct', 'ASCII.punct'), ('dsl::digit<>', 'digit.decimal')]
KWS = ['if', 'else', 'a', 'ab', 'do', 'x0']
TAGS = ['errA', 'errB', 'errC']


def q(s):
    return json.dumps(s)


def lits(l):
    return '{' + ', '.join(q(x) for x in l) + '}'


class R:
    # forks: how often the compiler instantiates what follows; cost: parsers it instantiates for this rule
    def __init__(self, cpp, ref, br=False, vals=False, cons=False, forks=1, tok=False, cost=1):
        self.cpp, self.ref, self.br, self.vals, self.cons, self.forks, self.tok, self.cost = cpp, ref, br, vals, cons, forks, tok, cost


def cost(*parts):
    c, f = 0, 1
    for p in parts:
        c += p.cost * f
        f *= p.forks
    return dict(cost=c, forks=f)


class P:
    pass


class Gen:
    def __init__(self, rng, counts, profile):
        self.rng, self.counts, self.profile = rng, counts, profile
        self.prods = []       # finished
        self.in_token = 0     # no productions here
        self.targets = None   # names of recursion targets
        self.scope = None
        self.pre = []         # declarations
        self.ctx = profile.get('ctx', 0)
        self.comb = profile.get('comb', 0)
        self.subgrammars = []

    def choose(self, scope, options):
        """options: kind -> weight; kinds used less often are preferred."""
        ks = list(options)
        w = [options[k] / (1 + self.counts.get((scope, k), 0)) for k in ks]
        k = self.rng.choices(ks, w)[0]
        self.counts[(scope, k)] = self.counts.get((scope, k), 0) + 1 / max(options[k], .01)
        return k

    def ch(self, p):
        return self.rng.random() < p

    # tokens; all of them consume something
    def lit(self, s=None):
        s = s or self.rng.choice(LITS)
        cpp = 'LEXY_LIT(%s)' % q(s)
        if len(s) == 1 and self.ch(.3):
            cpp = "dsl::lit_c<'%s'>" % s
        return R(cpp, 'mk(K::lit, {}, %s)' % q(s), br=True, cons=True, tok=True)

    def lset(self, n=None):
        l = self.rng.sample(LITS, n or self.rng.randint(1, 4))
        if len(l) > 1 and self.ch(.3):
            cpp = '(dsl::literal_set(LEXY_LIT(%s)) / ' % q(l[0]) + ' / '.join('LEXY_LIT(%s)' % q(x) for x in l[1:]) + ')'
        else:
            cpp = 'dsl::literal_set(%s)' % ', '.join('LEXY_LIT(%s)' % q(x) for x in l)
        return R(cpp, 'mk(K::lset, {}, "", %s)' % lits(l), br=True, cons=True, tok=True)

    def token(self, d=1, simple=False):
        k = self.choose('tok', {'lit': 6, 'cls': 4, 'lset': 2, 'kw': 2, 'idpat': 1.5, 'nl': .6} if simple or d <= 0 else
                        {'lit': 6, 'cls': 4, 'lset': 2, 'kw': 2, 'idpat': 1.5, 'nl': .6, 'until': 1, 'digits': 1, 'nfollow': 1, 'terr': 1.5, 'tkind': 1, 'tok': 2})
        r = self.rng
        if k == 'lit':
            return self.lit()
        if k == 'cls':
            c = r.choice(CLS)
            return R(c[0], 'mk(K::cls, {}, %s)' % q(c[1]), br=True, cons=True, tok=True)
        if k == 'lset':
            return self.lset()
        if k == 'kw':
            s = r.choice(KWS)
            return R('LEXY_KEYWORD(%s, gx::idt)' % q(s), 'mk(K::kw, {}, %s)' % q(s), br=True, cons=True, tok=True)
        if k == 'idpat':
            return R('gx::idt.pattern()', 'mk(K::idpat)', br=True, cons=True, tok=True)
        if k == 'nl':
            return R('dsl::newline', 'mk(K::nl, {}, "", {"\\n", "\\r\\n"})', br=True, cons=True, tok=True)
        if k == 'until':
            c = r.choice([self.lit, self.lset])()
            return R('dsl::until(%s)' % c.cpp, 'mk(K::until, {%s})' % c.ref, br=True, cons=True, tok=True)
        if k == 'digits':
            return R('dsl::digits<>', 'mk(K::digits)', br=True, cons=True, tok=True)
        if k in ('follow', 'nfollow'):
            s, c = r.choice(LITS), r.choice(CLS[:6])
            return R('dsl::%s(LEXY_LIT(%s), %s)' % ('followed_by' if k == 'follow' else 'not_followed_by', q(s), c[0]),
                     'with_n(mk(K::nfollow, {}, %s, {%s}), %d)' % (q(s), q(c[1]), k == 'follow'), br=True, cons=True, tok=True)
        if k == 'terr':
            t, tag = self.token(d - 1), r.choice(TAGS)
            return R('(%s).error<gx::%s>' % (t.cpp, tag), 'mk(K::terr, {%s}, %s)' % (t.ref, q(tag)), br=True, cons=True, tok=True)
        if k == 'tkind':
            t, n = self.token(0), r.randrange(3)
            return R('(%s).kind<gx::kind::k%d>' % (t.cpp, n), 'with_n(mk(K::tkind, {%s}), %d)' % (t.ref, n), br=True, cons=True, tok=True)
        if k == 'tok':
            self.in_token += 1
            t = self.seq(1, False, n=r.randint(1, 3), first=self.token(0))
            self.in_token -= 1
            if t.tok:
                return R('dsl::token(%s)' % t.cpp, t.ref, br=True, cons=True, tok=True)
            return R('dsl::token(%s)' % t.cpp, 'mk(K::tok, {%s})' % t.ref, br=True, cons=True, tok=True)

    # conditional branches
    def usable(self, pred):
        return [p for p in self.prods if pred(p)] if not self.in_token else []

    def branch(self, d, vals, cons=True):
        r = self.rng
        o = {'token': 5, 'br': 6}
        if d > 0:
            o.update({'br': 7, 'alt': 2, 'must': 1, 'brackets': 3 * self.profile.get('brackets', 1), 'peekbr': 2, 'nows': 1, 'posr': 0, 'list': 0, 'try': self.profile.get('try', 1)})
            if vals:
                o.update({'cap': 2, 'ident': 2, 'posr': .7, 'list': 1.5})
        elif vals:
            o.update({'cap': 1, 'ident': 1})
        if not cons:
            o.update({'eof': .4, 'eol': .7, 'peek': .4})
        ps = self.usable(lambda p: p.br and (vals or p.void) and (p.cons or not cons))
        if ps:
            o['prod'] = 5
        ts = self.usable(lambda p: p.token and p.br and not p.recursive and (p.cons or not cons))
        if ts and vals:
            o['capp'] = 1.5
        if not self.in_token and d > 0:
            o['pas'] = self.profile.get('pas', .7)
        if self.in_token:
            for k in ('nows', 'must', 'try', 'posr'):
                o.pop(k, None)
        elif self.ctx:
            o['ctx'] = self.ctx * (3 if d > 0 else 1)
        k = self.choose('branch', o)
        if k == 'ctx':
            return self.ctx_branch(d, vals, cons)
        if k == 'token':
            return self.token(1)
        if k == 'br':
            c = self.branch(d - 2, vals, cons) if self.ch(.4) else self.token(1)
            t = self.seq(d - 1, vals, n=r.choice([1, 1, 2, 3]))
            return R('(%s >> %s)' % (c.cpp, t.cpp), 'mk(K::br, {%s, %s})' % (c.ref, t.ref), br=True, vals=c.vals or t.vals, cons=c.cons or t.cons, **cost(c, t))
        if k == 'peekbr':
            c = self.peek()
            t = self.token(1) if cons else self.seq(d - 1, vals)
            u = self.seq(d - 1, vals, n=1)
            return R('(%s >> %s + %s)' % (c.cpp, t.cpp, u.cpp), 'mk(K::br, {%s, %s, %s})' % (c.ref, t.ref, u.ref), br=True, vals=t.vals or u.vals, cons=True, **cost(c, t, u))
        if k == 'peek':
            return self.peek()
        if k == 'alt':
            n = r.choice([2, 2, 3, 4])
            bs = [self.branch(d - 2, vals, cons) for _ in range(n)]
            return R('(%s)' % ' | '.join(b.cpp for b in bs), 'mk(K::alt, {%s})' % ', '.join(b.ref for b in bs), br=True, vals=any(b.vals for b in bs), cons=all(b.cons for b in bs), forks=sum(b.forks for b in bs), cost=1 + sum(b.cost for b in bs))
        if k == 'must':
            return self.must(d, vals, cons)
        if k == 'brackets':
            return self.brackets(d, vals)
        if k == 'nows':
            self.in_token += 1
            b = self.branch(d - 1, vals, cons)
            self.in_token -= 1
            return R('dsl::no_whitespace(%s)' % b.cpp, 'mk(K::nows, {%s})' % b.ref, br=True, vals=b.vals, cons=b.cons, forks=b.forks, cost=b.cost + 1)
        if k == 'pas':
            return self.parse_as(self.branch(d - 1, vals, cons), vals)
        if k == 'posr':
            self.in_token += 1
            b = self.branch(d - 1, vals, cons)
            self.in_token -= 1
            return R('dsl::position(%s)' % b.cpp, 'mk(K::posr, {%s})' % b.ref, br=True, vals=True, cons=b.cons, forks=b.forks, cost=b.cost + 1)
        if k == 'list':
            return self.list(d, True)
        if k == 'try':
            b = self.branch(d - 1, vals, cons)
            return self.try_(b, d, vals)
        if k == 'cap':
            t = self.token(1)
            return R('dsl::capture(%s)' % t.cpp, 'mk(K::cap, {%s})' % t.ref, br=True, vals=True, cons=True)
        if k == 'capp':
            p = r.choice(ts)
            return R('dsl::capture(dsl::p<%s>)' % p.name, 'mk(K::capp, {with_prod(K::prod, %s)})' % p.name, br=True, vals=True, cons=p.cons)
        if k == 'ident':
            if self.ch(.5):
                l = r.sample(KWS, r.randint(1, 3))
                return R('gx::idt.reserve(%s)' % ', '.join('LEXY_KEYWORD(%s, gx::idt)' % q(x) for x in l), 'mk(K::ident, {}, "", %s)' % lits(l), br=True, vals=True, cons=True)
            return R('gx::idt', 'mk(K::ident)', br=True, vals=True, cons=True)
        if k == 'eof':
            return R('dsl::eof', 'mk(K::eof)', br=True)
        if k == 'eol':
            return R('dsl::eol', 'mk(K::eol)', br=True)
        if k == 'prod':
            p = r.choice(ps)
            return R('dsl::p<%s>' % p.name, 'with_prod(K::prod, %s)' % p.name, br=True, vals=not p.void, cons=p.cons)
        raise Exception(k)

    def peek(self):
        r = self.rng
        k = self.choose('peek', {'peek': 1, 'peekn': 1, 'look': 1})
        tag = r.choice(TAGS) if self.ch(.4) else ''
        if k == 'look':
            l1, l2 = self.rng.sample(LITS, 2), self.rng.sample(LITS, 2)
            n1, n2 = r.randint(1, 2), r.randint(1, 2)
            l1, l2 = l1[:n1], l2[:n2]
            if set(l1) & set(l2):
                l2 = [x for x in LITS if x not in l1][:1]
            lc = lambda l: 'dsl::literal_set(%s)' % ', '.join('LEXY_LIT(%s)' % q(x) for x in l)
            cpp, ref = 'dsl::lookahead(%s, %s)' % (lc(l1), lc(l2)), 'mk(K::look, {}, %s, %s, %s)' % (q(tag), lits(l1), lits(l2))
        else:
            self.in_token += 1
            t = self.seq(1, False, n=r.randint(1, 2), first=self.token(1) if self.ch(.8) else None)
            self.in_token -= 1
            cpp, ref = 'dsl::%s(%s)' % ('peek' if k == 'peek' else 'peek_not', t.cpp), 'mk(K::%s, {mk(K::tok, {%s})}, %s)' % (k, t.ref, q(tag))
        if tag:
            cpp += '.error<gx::%s>' % tag
        return R(cpp, ref, br=True)

    def must(self, d, vals, cons):
        b = self.branch(d - 1, vals, cons)
        tag = self.rng.choice(TAGS)
        cpp, e = 'dsl::must(%s).error<gx::%s>' % (b.cpp, tag), 'mk(K::err, {}, %s)' % q(tag)
        if self.ch(.4):
            self.in_token += 1
            t = self.seq(0, False, n=1)
            self.in_token -= 1
            cpp += '(%s)' % t.cpp
            e = 'mk(K::err, {%s}, %s)' % (t.ref, q(tag))
        return R(cpp, 'with_extra(mk(K::must, {%s}), %s)' % (b.ref, e), br=True, vals=b.vals, cons=b.cons, forks=b.forks, cost=b.cost + 1)

    def sep(self, vals, kinds=(1, 2)):
        """C++ text, kind, ref, tag"""
        k = self.rng.choice(kinds)
        s = self.lit(self.rng.choice([',', ';', 'ab', '->', '.']))
        if vals and self.ch(.25):
            s = R('dsl::capture(%s)' % s.cpp, 'mk(K::cap, {%s})' % s.ref, vals=True)
        elif self.ch(.15):
            t = self.token(0)
            s = R('(%s >> dsl::if_(%s))' % (s.cpp, t.cpp), 'mk(K::br, {%s, mk(K::ift, {%s})})' % (s.ref, t.ref))
        tag = ''
        cpp = 'dsl::%s(%s)' % ({1: 'sep', 2: 'trailing_sep', 3: 'ignore_trailing_sep'}[k], s.cpp)
        if k == 1 and self.ch(.4):
            tag = self.rng.choice(TAGS)
            cpp += '.trailing_error<gx::%s>' % tag
        return cpp, k, s.ref, tag

    def list(self, d, branch):
        if branch or self.ch(.7):
            item = self.branch(d - 1, True)
            sep = self.sep(True) if self.ch(.7) else None
        else:
            item = self.item(d - 1, True)
            sep = self.sep(True, (1,))
        cpp, ref = 'dsl::list(%s)' % item.cpp, 'mk(K::list, {%s})' % item.ref
        if sep:
            cpp, ref = 'dsl::list(%s, %s)' % (item.cpp, sep[0]), 'with_sep(%s, %d, %s, %s)' % (ref, sep[1], sep[2], q(sep[3]))
        return R(cpp, ref, br=item.br, vals=True, cons=item.cons, cost=2 * item.cost + 4)

    def item(self, d, vals):
        """A rule that is no branch."""
        t = self.token(1)
        u = self.seq(d - 1, vals, n=1)
        return R('(%s + %s)' % (t.cpp, u.cpp), 'mk(K::seq, {%s, %s})' % (t.ref, u.ref), vals=u.vals, cons=True, **cost(t, u))

    def try_(self, rule, d, vals):
        r = self.rng
        rf, rc = 1, 4
        k = self.choose('recovery', {'none': 1.5, 'find': 2, 'reco': 2, 'rule': 1})
        if k == 'none':
            return R('dsl::try_(%s)' % rule.cpp, 'mk(K::tryr, {%s})' % rule.ref, br=rule.br, vals=rule.vals, cons=False if not rule.br else rule.cons, forks=rule.forks + rf, cost=rule.cost + rc)
        if k == 'find':
            l, m = r.sample(LITS, r.randint(1, 3)), []
            c = 'dsl::find(%s)' % ', '.join('LEXY_LIT(%s)' % q(x) for x in l)
            if self.ch(.5):
                m = [x for x in r.sample(LITS, 2) if x not in l]
                if m:
                    c += '.limit(%s)' % ', '.join('LEXY_LIT(%s)' % q(x) for x in m)
            e = 'mk(K::find, {}, "", %s, %s)' % (lits(l), lits(m))
        elif k == 'reco':
            n = r.choice([1, 1, 2])
            bs = [self.token(1) if self.ch(.6) else self.branch(d - 2, vals) for _ in range(n)]
            rf, rc = sum(b.forks for b in bs), 4 + sum(b.cost for b in bs)
            c = 'dsl::recover(%s)' % ', '.join(b.cpp for b in bs)
            m = []
            if self.ch(.5):
                m = r.sample(LITS, r.randint(1, 2))
                c += '.limit(%s)' % ', '.join('LEXY_LIT(%s)' % q(x) for x in m)
            e = 'mk(K::reco, {%s}, "", %s)' % (', '.join(b.ref for b in bs), lits(m))
        else:
            s = self.seq(d - 2, vals, n=1)
            c, e = s.cpp, s.ref
            rf, rc = s.forks, s.cost + 4
        return R('dsl::try_(%s, %s)' % (rule.cpp, c), 'with_extra(mk(K::tryr, {%s}), %s)' % (rule.ref, e), br=rule.br, vals=True, cons=False if not rule.br else rule.cons, forks=rule.forks + rf, cost=rule.cost + rc)

    def term(self, d, vals, t_cpp, t_ref):
        """Rule with a terminator."""
        r = self.rng
        o = {'call': 1, 'try': 1.5 * self.profile.get('try', 1)}
        if vals:
            o.update({'opt': 1, 'list': 1.5, 'opt_list': 1.5})
            if self.profile.get('dbg'):
                o.update({'list': 3, 'opt_list': 3})
        if self.in_token:
            o.pop('try')
        k = self.choose('term', o)
        m = []
        if k != 'call' and self.ch(.35):
            m = r.sample([x for x in LITS if x not in (')', ']')], r.randint(1, 2))
            if self.ch(.5) and len(m) > 1:
                t_cpp += '.limit(LEXY_LIT(%s)).limit(LEXY_LIT(%s))' % (q(m[0]), q(m[1]))
            else:
                t_cpp += '.limit(%s)' % ', '.join('LEXY_LIT(%s)' % q(x) for x in m)
        if k in ('list', 'opt_list'):
            item = self.branch(d - 1, True) if self.ch(.6) else self.item(d - 1, True)
            ref = 'mk(K::term_%s, {%s}, "", %s)' % (k.replace('_', ''), item.ref, lits(m))
            cpp = item.cpp
            if self.ch(.7):
                s = self.sep(True, (1, 2, 3))
                cpp += ', ' + s[0]
                ref = 'with_sep(%s, %d, %s, %s)' % (ref, s[1], s[2], q(s[3]))
            return R('%s.%s(%s)' % (t_cpp, k, cpp), 'with_extra(%s, %s)' % (ref, t_ref), vals=True, cons=True, forks=2 if k == 'opt_list' else 1, cost=4 * item.cost + 12)
        x = self.branch(d - 1, vals) if self.ch(.5) else self.seq(d - 1, vals)
        if k == 'call':
            return R('%s(%s)' % (t_cpp, x.cpp), 'mk(K::%s, {%s, %s})' % ('br' if x.br else 'seq', x.ref, t_ref), br=x.br, vals=x.vals, cons=True, forks=x.forks, cost=x.cost + x.forks)
        if k == 'try':
            return R('%s.try_(%s)' % (t_cpp, x.cpp), 'with_extra(mk(K::term_try, {%s}, "", %s), %s)' % (x.ref, lits(m), t_ref), vals=x.vals, cons=True, forks=1 + x.forks, cost=x.cost + 5)
        return R('%s.opt(%s)' % (t_cpp, x.cpp), 'with_extra(mk(K::term_opt, {%s}, "", %s), %s)' % (x.ref, lits(m), t_ref), vals=True, cons=True, forks=2 + x.forks, cost=x.cost + 6)

    def brackets(self, d, vals):
        o = self.rng.choice(OPEN)
        close = self.lit(CLOSE[o])
        op = self.lit(o)
        named = {'(': 'dsl::parenthesized', '[': 'dsl::square_bracketed', '<': 'dsl::angle_bracketed', '{': 'dsl::curly_bracketed'}
        if o in named and self.ch(.5):
            b = named[o]
        else:
            b = 'dsl::brackets(%s, %s)' % (op.cpp, close.cpp)
        t = self.term(d - 1, vals, b, close.ref)
        return R(t.cpp, 'mk(K::br, {%s, %s})' % (op.ref, t.ref), br=True, vals=t.vals, cons=True, forks=t.forks, cost=t.cost + 1)

    def terminated(self, d, vals):
        r = self.rng
        c = self.token(0)
        if self.ch(.2) and not self.in_token:
            c = R('dsl::eof', 'mk(K::eof)')
        elif self.ch(.15):
            t = self.token(0)
            c = R('(%s >> %s)' % (c.cpp, t.cpp), 'mk(K::br, {%s, %s})' % (c.ref, t.ref))
        elif self.profile.get('dbg') and self.ch(.8) and not self.in_token:
            # a terminator that leaves events when it is not there
            ps = self.usable(lambda p: p.br and p.void and p.cons)
            if ps and self.ch(.6):
                p = r.choice(ps)
                c = R('dsl::p<%s>' % p.name, 'with_prod(K::prod, %s)' % p.name)
            else:
                x = self.peek()
                c = R('(%s >> %s)' % (x.cpp, c.cpp), 'mk(K::br, {%s, %s})' % (x.ref, c.ref))
        return self.term(d, vals, 'dsl::terminator(%s)' % c.cpp, c.ref)

    # context variables; the root creates all of them
    def condition(self):
        r = self.rng
        k = self.choose('cond', {'is': 3, 'eq': 2, 'flag': 3})
        if k == 'is':
            c, n = r.choice(['c0', 'c1']), r.choice([0, 0, 0, 1, 2, 2, 3, -1])
            return R('gx::%s.is_zero()' % c if n == 0 and self.ch(.7) else 'gx::%s.is<%d>()' % (c, n), 'with_n(mk(K::cis, {}, "%s"), %d)' % (c, n), br=True)
        if k == 'eq':
            return R('dsl::equal_counts(gx::c0, gx::c1)', 'mk(K::ceq, {}, "", {"c0", "c1"})', br=True)
        f, n = r.choice(['f0', 'f1']), r.randrange(2)
        return R('gx::%s.%s()' % (f, 'is_set' if n else 'is_reset'), 'with_n(mk(K::cis, {}, "%s"), %d)' % (f, n), br=True)

    def ctx_branch(self, d, vals, cons):
        r = self.rng
        k = self.choose('ctxbr', {'cond': 5 if d > 0 else 0, 'bare': 0 if cons else 1, 'cap': 2 if vals else 0, 'rem': 2, 'push': 2})
        if k == 'bare':
            return self.condition()
        if k == 'cond':
            c = self.condition()
            t = self.token(1) if cons else self.seq(d - 1, vals, n=1)
            u = self.seq(d - 1, vals, n=1)
            return R('(%s >> %s + %s)' % (c.cpp, t.cpp, u.cpp), 'mk(K::br, {%s, %s, %s})' % (c.ref, t.ref, u.ref), br=True, vals=t.vals or u.vals, cons=t.cons or u.cons, **cost(c, t, u))
        if k == 'push':
            b = self.branch(d - 1, vals, cons)
            c, sign = r.choice(['c0', 'c1']), r.choice([1, 1, -1])
            return R('gx::%s.%s(%s)' % (c, 'push' if sign > 0 else 'pop', b.cpp), 'with_n(mk(K::cpush, {%s}, "%s"), %d)' % (b.ref, c, sign), br=True, vals=b.vals, cons=b.cons, forks=b.forks, cost=b.cost + 1)
        i = r.choice(['i0', 'i1'])
        if k == 'cap':
            return R('gx::%s.capture()' % i, 'mk(K::icap, {}, "%s")' % i, br=True, vals=True, cons=True)
        tag = r.choice(TAGS) if self.ch(.4) else ''
        return R('gx::%s.rematch()%s' % (i, '.error<gx::%s>' % tag if tag else ''), 'mk(K::irem, {}, "%s", {%s})' % (i, q(tag) if tag else ''), br=True, cons=True)

    def ctx_rule(self, d, vals):
        r = self.rng
        k = self.choose('ctxrule', {'add': 5, 'push': 3, 'value': 5 if vals else 0, 'fset': 4, 'cond': 2, 'branch': 3, 'fvalue': 3 if vals else 0})
        c, f = r.choice(['c0', 'c1']), r.choice(['f0', 'f1'])
        if k == 'add':
            n = r.choice([1, 1, -1])
            return R('gx::%s.%s()' % (c, 'inc' if n > 0 else 'dec'), 'with_n(mk(K::cadd, {}, "%s"), %d)' % (c, n))
        if k == 'push':
            x = self.seq(d - 1, vals, n=r.choice([1, 2]))
            sign = r.choice([1, 1, -1])
            return R('gx::%s.%s(%s)' % (c, 'push' if sign > 0 else 'pop', x.cpp), 'with_n(mk(K::cpush, {%s}, "%s"), %d)' % (x.ref, c, sign), br=x.br, vals=x.vals, cons=x.cons, forks=x.forks, cost=x.cost + 1)
        if k == 'value':
            return R('gx::%s.value()' % c, 'mk(K::cvalue, {}, "%s")' % c, vals=True)
        if k == 'fvalue':
            return R('gx::%s.value()' % f, 'mk(K::cvalue, {}, "%s")' % f, vals=True)
        if k == 'fset':
            n = r.randrange(3)
            return R('gx::%s.%s()' % (f, ['reset', 'set', 'toggle'][n]), 'with_n(mk(K::fset, {}, "%s"), %d)' % (f, n))
        if k == 'cond':
            return self.condition()
        return self.ctx_branch(d, vals, False)

    def creates(self, names):
        parts = []
        for nm in names:
            n = self.rng.choice([0, 0, 1, 2, -3] if nm[0] == 'c' else [0, 1]) if nm[0] != 'i' else 0
            arg = '' if n == 0 and self.ch(.7) or nm[0] == 'i' else '<%d>' % n if nm[0] == 'c' else '<%s>' % ('true' if n else 'false')
            parts.append(R('gx::%s.create%s()' % (nm, arg), 'with_n(mk(K::ccreate, {}, "%s"), %d)' % (nm, n)))
        return parts

    # combinations
    def flags(self):
        r = self.rng
        syms = r.sample(['a', 'ab', 'abc', 'b', 'x', 'rw', 'r', 'const', '+', '++', '#1'], r.randint(1, 4))
        scoped = self.ch(.5)
        enum = 'gx::sfl' if scoped else 'gx::fl'
        kind = r.choice(['bits', 'bits', 'bits', 'zero'])
        values = [1 << i for i in r.sample(range(8), len(syms))]
        if kind == 'zero':
            values[r.randrange(len(values))] = 0
        elif self.ch(.15) and len(values) > 1:
            values[1] = values[0]   # two names of the same flag
        name = 'tab%d' % len(self.pre)
        self.pre.append('constexpr auto %s = lexy::symbol_table<%s>%s;\n' % (name, enum, ''.join('.map<LEXY_SYMBOL(%s)>(%s(%d))' % (q(s_), enum, v) for s_, v in zip(syms, values))))
        dflt = r.choice([0, 0, 0, values[0], 64])
        tag = r.choice(TAGS) if self.ch(.4) else ''
        cpp = 'dsl::flags%s(dsl::symbol<%s>)%s' % ('<%s(%d)>' % (enum, dflt) if dflt or self.ch(.2) else '', name, '.error<gx::%s>' % tag if tag else '')
        return R(cpp, 'with_n(mk(K::flags, {}, %s, %s, %s), %d)' % (q(tag), lits(syms), lits([str(v) for v in values]), dflt), vals=True, cost=3)

    def flag(self, d, vals):
        b = self.branch(d - 1, vals, cons=False)
        k = self.rng.choice(['bool', 'int', 'def', 'enum'])
        cpp, a, c = {'bool': ('dsl::flag', '1', '0'), 'int': ('dsl::flag<7, -2>', '7', '-2'), 'def': ('dsl::flag<5>', '5', '0'), 'enum': ('dsl::flag<gx::sfl(3), gx::sfl(4)>', '#3', '#4')}[k]
        return R('%s(%s)' % (cpp, b.cpp), 'mk(K::flag, {%s}, "", {"%s", "%s"})' % (b.ref, a, c), vals=True, forks=1 + b.forks, cost=b.cost + 1)

    def combination(self, d, items):
        r = self.rng
        partial = self.ch(.5)
        if len(items) == 1:
            partial = True  # a combination of one reports the error of the branch itself
        dup, miss = (r.choice(TAGS) if self.ch(.4) else ''), (r.choice(TAGS) if self.ch(.4) and not partial else '')
        cpp = 'dsl::%s(%s)' % ('partial_combination' if partial else 'combination', ', '.join(i.cpp for i in items))
        post = ['.duplicate_error<gx::%s>' % dup] * bool(dup) + ['.missing_error<gx::%s>' % miss] * bool(miss)
        r.shuffle(post)
        return R(cpp + ''.join(post), 'with_n(mk(K::comb, {%s}, %s, {%s}), %d)' % (', '.join(i.ref for i in items), q(dup), q(miss) if miss else '', partial), vals=True, cons=not partial, cost=3 + sum(i.cost for i in items))

    def comb_rule(self, d):
        r = self.rng
        k = self.choose('comb', {'comb': 4, 'flags': 3, 'flag': 2})
        if k == 'flags':
            return self.flags()
        if k == 'flag':
            return self.flag(d, True)
        while True:
            items = [self.branch(d - 1, True) for _ in range(r.choice([1, 2, 3, 3, 4, 5]))]
            if sum(i.cost for i in items) < 40:
                return self.combination(d, items)

    def member(self, d, branch=False):
        r = self.rng
        m = r.choice('abc')
        o = {'cap': 3, 'ident': 2, 'prod': 3}
        if not branch:
            o.update({'flag': 2, 'flags': 2, 'pos': 1, 'opt': 1, 'list': 0})
        ps = self.usable(lambda p: not p.void and (p.br and p.cons if branch else True))
        if not ps:
            o.pop('prod')
        k = self.choose('member', o)
        if k == 'cap':
            x = self.token(1)
            x = R('dsl::capture(%s)' % x.cpp, 'mk(K::cap, {%s})' % x.ref, br=True)
        elif k == 'ident':
            x = R('gx::idt', 'mk(K::ident)', br=True)
        elif k == 'prod':
            p = r.choice(ps)
            x = R('dsl::p<%s>' % p.name, 'with_prod(K::prod, %s)' % p.name, br=p.br)
        elif k == 'flag':
            x = self.flag(1, False)
        elif k == 'flags':
            x = self.flags()
        elif k == 'pos':
            x = R('dsl::position', 'mk(K::pos)')
        else:
            t = self.token(1)
            x = R('dsl::opt(dsl::capture(%s))' % t.cpp, 'mk(K::opt, {mk(K::cap, {%s})})' % t.ref, forks=2)
        if branch and self.ch(.5):
            t = self.token(0)
            x = R('(%s >> %s)' % (t.cpp, x.cpp), 'mk(K::br, {%s, %s})' % (t.ref, x.ref), br=True)
        name = 'LEXY_MEM(%s)' % m if self.ch(.5) else 'dsl::member<&gx::agg::%s>' % m
        return R('(%s = %s)' % (name, x.cpp), 'mk(K::mem, {%s}, "%s")' % (x.ref, m), br=x.br, vals=True, cons=branch, cost=x.cost + 1, forks=x.forks)

    def aggregate(self):
        # the rule of a production that has an aggregate as value
        r = self.rng
        k = self.choose('agg', {'seq': 2, 'comb': 3, 'both': 2, 'opt': .5, 'br': 1.5})
        def mems():
            l = []
            for _ in range(r.randint(1, 4)):
                if self.ch(.3):
                    l.append(self.token(1))
                m = self.member(1)
                if cost(*l, m)['forks'] <= 6:
                    l.append(m)
            return l if any(m.vals for m in l) else l + [self.member(0, True)]
        if k == 'opt':
            m = self.member(1, True)
            # nullopt is an empty aggregate
            return R('dsl::opt(%s)' % m.cpp, 'mk(K::opt, {%s})' % m.ref, vals=True, forks=2, cost=m.cost)
        if k == 'br':
            t, l = self.token(1), mems()
            return R('(%s >> %s)' % (t.cpp, ' + '.join(m.cpp for m in l)), 'mk(K::br, {%s})' % ', '.join(m.ref for m in [t] + l), br=True, cons=True, vals=True, **cost(t, *l))
        parts = []
        if k in ('comb', 'both'):
            parts.append(self.combination(1, [self.member(1, True) for _ in range(r.randint(2, 5))]))
        if k in ('seq', 'both'):
            parts += mems()
        if len(parts) == 1:
            return parts[0]
        return R('(%s)' % ' + '.join(p.cpp for p in parts), 'mk(K::seq, {%s})' % ', '.join(p.ref for p in parts), vals=True, **cost(*parts))

    # recursion: every production but the root starts with an opening token, recursion is always optional
    def recursion(self, t, branch=False):
        tag = self.rng.choice(TAGS) if self.ch(.25) else ''
        b = branch or self.ch(.4)
        return R('dsl::%s<%s>%s' % ('recurse_branch' if b else 'recurse', t, '.max_depth_error<gx::%s>' % tag if tag else ''),
                 'with_rec(%s, %d, %s)' % (t, b, q(tag)), br=b, vals=not self.void_of[t], cons=True, cost=2)

    def rec_part(self):
        r = self.rng
        k = self.choose('rec', {'if': 2, 'opt': 2, 'while': 2, 'list': 2, 'ifrule': 2, 'optlist': 2, 'alt': 2, 'try': 3, 'nested': 2, 'tryopt': 1.5, 'plain': 2, 'prod': 1.5, 'loop': 1})
        t = r.choice(self.targets)
        b = self.recursion(t, True)
        def body():
            return self.recursion(t)
        if k == 'while' or k == 'loop':
            vt = [x for x in self.targets if self.void_of[x]]
            if not vt:
                k = 'opt'
            else:
                b = self.recursion(r.choice(vt), True)
        if k == 'if':
            return R('dsl::if_(%s)' % b.cpp, 'mk(K::ift, {%s})' % b.ref, vals=b.vals, forks=2)
        if k == 'opt':
            return R('dsl::opt(%s)' % b.cpp, 'mk(K::opt, {%s})' % b.ref, vals=True, forks=2)
        if k == 'while':
            return R('dsl::while_(%s)' % b.cpp, 'mk(K::whl, {%s})' % b.ref)
        if k == 'loop':
            return R('dsl::loop(%s | dsl::break_)' % b.cpp, 'mk(K::loop, {mk(K::alt, {%s, mk(K::brk)})})' % b.ref)
        if k == 'list':
            s = self.sep(True) if self.ch(.5) else None
            cpp, ref = 'dsl::list(%s%s)' % (b.cpp, ', ' + s[0] if s else ''), 'mk(K::list, {%s})' % b.ref
            if s:
                ref = 'with_sep(%s, %d, %s, %s)' % (ref, s[1], s[2], q(s[3]))
            return R('dsl::opt(%s)' % cpp, 'mk(K::opt, {%s})' % ref, vals=True, forks=2)
        l = self.lit()
        if k == 'ifrule':
            x = body()
            u = self.token(0)
            if self.ch(.5):
                return R('dsl::if_(%s >> %s + %s)' % (l.cpp, x.cpp, u.cpp), 'mk(K::ift, {mk(K::br, {%s, %s, %s})})' % (l.ref, x.ref, u.ref), vals=x.vals, forks=2)
            return R('dsl::if_(%s >> %s)' % (l.cpp, x.cpp), 'mk(K::ift, {mk(K::br, {%s, %s})})' % (l.ref, x.ref), vals=x.vals, forks=2)
        if k == 'optlist':
            op = r.choice(OPEN)
            o_, c_ = self.lit(op), self.lit(CLOSE[op])
            x = body()
            cpp, ref = x.cpp, 'mk(K::term_optlist, {%s})' % x.ref
            if self.ch(.6):
                s = self.sep(True, (1, 2, 3))
                cpp += ', ' + s[0]
                ref = 'with_sep(%s, %d, %s, %s)' % (ref, s[1], s[2], q(s[3]))
            return R('dsl::if_(dsl::brackets(%s, %s).opt_list(%s))' % (o_.cpp, c_.cpp, cpp), 'mk(K::ift, {mk(K::br, {%s, with_extra(%s, %s)})})' % (o_.ref, ref, c_.ref), vals=True, forks=2, cost=12)
        if k == 'alt':
            u = self.token(0)
            w = self.lit()
            return R('(%s | %s | dsl::else_ >> dsl::if_(%s))' % (b.cpp, u.cpp, w.cpp), 'mk(K::alt, {%s, %s, mk(K::br, {mk(K::els), mk(K::ift, {%s})})})' % (b.ref, u.ref, w.ref), vals=b.vals, forks=3)
        if k == 'nested':
            x, y = body(), self.recursion(r.choice(self.targets), True)
            return R('dsl::if_(%s >> %s + dsl::if_(%s))' % (l.cpp, x.cpp, y.cpp), 'mk(K::ift, {mk(K::br, {%s, %s, mk(K::ift, {%s})})})' % (l.ref, x.ref, y.ref), vals=x.vals or y.vals, forks=3)
        if k == 'try':
            # an error inside is recovered from
            x = body()
            u = self.token(0)
            inner = R('(%s >> %s + %s)' % (l.cpp, x.cpp, u.cpp), 'mk(K::br, {%s, %s, %s})' % (l.ref, x.ref, u.ref), br=True, vals=x.vals, cons=True)
            t_ = self.try_(inner, 0, False)
            return R('dsl::if_(%s)' % t_.cpp, 'mk(K::ift, {%s})' % t_.ref, vals=t_.vals, forks=2 * t_.forks, cost=t_.cost)
        if k == 'tryopt':
            t_ = self.try_(b, 0, False)
            return R('dsl::opt(%s)' % t_.cpp, 'mk(K::opt, {%s})' % t_.ref, vals=True, forks=2 * t_.forks, cost=t_.cost)
        if k == 'prod' and self.prods:
            p = r.choice(self.prods)
            return R('dsl::if_(dsl::p<%s>)' % p.name, 'mk(K::ift, {with_prod(K::prod, %s)})' % p.name, vals=not p.void, forks=2)
        return self.rule(1, True)

    def recursive(self):
        r = self.rng
        op = r.choice(OPEN)
        o_, c_ = self.lit(op), self.lit(CLOSE[op])
        while True:
            parts = [self.rec_part() for _ in range(r.choice([1, 2, 2, 3]))]
            c = cost(*parts)
            if c['forks'] <= 8 and c['cost'] <= 70:
                break
        body = parts[0] if len(parts) == 1 else R('(%s)' % ' + '.join(p.cpp for p in parts), 'mk(K::seq, {%s})' % ', '.join(p.ref for p in parts))
        k = self.choose('recshape', {'seq': 3, 'try': 1.5, 'close': 1})
        if k == 'try':
            return R('dsl::brackets(%s, %s).try_(%s)' % (o_.cpp, c_.cpp, body.cpp), 'mk(K::br, {%s, with_extra(mk(K::term_try, {%s}), %s)})' % (o_.ref, body.ref, c_.ref), br=True, vals=True, cons=True, cost=c['cost'] + 5)
        if k == 'close':
            return R('(%s >> %s + dsl::if_(%s))' % (o_.cpp, body.cpp, c_.cpp), 'mk(K::br, {%s, %s, mk(K::ift, {%s})})' % (o_.ref, body.ref, c_.ref), br=True, vals=True, cons=True, cost=c['cost'] + 2)
        return R('(%s >> %s + %s)' % (o_.cpp, body.cpp, c_.cpp), 'mk(K::br, {%s, %s, %s})' % (o_.ref, body.ref, c_.ref), br=True, vals=True, cons=True, cost=c['cost'] + 2)

    def parse_as(self, x, vals):
        if any(k in x.ref for k in ('K::mem', 'K::ccreate', 'K::ret', 'K::ccr')):
            return x
        t = 'gx::packed' if vals else 'void'
        return R('dsl::parse_as<%s>(%s)' % (t, x.cpp), 'mk(K::pas, {%s}, %s)' % (x.ref, q('v' if vals else '')), br=x.br, vals=vals, cons=x.cons, forks=x.forks, cost=2 * x.cost + 1)

    # any rule
    def rule(self, d, vals):
        r = self.rng
        prof = self.profile
        o = {'token': 5, 'branch': 4 if d > 0 else 1, 'if': 1.5}
        if vals:
            o.update({'opt': 2, 'cap': 2 if d <= 0 else 1, 'pos': .7, 'nullopt': .3, 'ident': 1})
        if d > 0:
            o.update({'alt': 2, 'while': 2, 'loop': 1.5, 'term': 2 * prof.get('brackets', 1), 'times': 1.5, 'peek': 1, 'nows': 1.5, 'try': 1.5 * prof.get('try', 1), 'while_one': .5, 'do_while': .5,
                      'ws': prof.get('ws', .5), 'error': .3})
            if vals:
                o.update({'list': 2, 'repeat': 1, 'eol': .5})
        if not self.in_token:
            ps = self.usable(lambda p: vals or p.void)
            if ps:
                o['prod'] = 6
            if ps and not self.ctx and self.profile.get('subg', 1):
                o['subg'] = 1
            if d > 0:
                o['pas'] = self.profile.get('pas', 1)
            if self.targets and vals:
                o['recurse'] = 3
            tp = self.usable(lambda p: p.token and not p.recursive)
            if tp and vals:
                o['capp'] = 1
        else:
            for k in ('nows', 'try', 'ws', 'error', 'repeat'):
                o.pop(k, None)
        if self.ctx and not self.in_token:
            o['ctx'] = self.ctx * (6 if d > 0 else 3)
        if self.profile.get('dbg') and not self.in_token:
            o['dbg'] = 1
        if self.comb and vals and d > 0 and not self.in_token:
            o['comb'] = self.comb * 4
        k = self.choose('rule', o)
        if k == 'ctx':
            return self.ctx_rule(d, vals)
        if k == 'comb':
            return self.comb_rule(d)
        if k == 'dbg':
            t = r.choice(['here', 'x y', 'a: b', '!'])
            return R('LEXY_DEBUG(%s)' % q(t), 'mk(K::dbg, {}, %s)' % q(t))
        if k == 'token':
            return self.token(1)
        if k == 'branch':
            return self.branch(d, vals, cons=False)
        if k == 'if':
            b = self.branch(d - 1, vals, cons=False)
            return R('dsl::if_(%s)' % b.cpp, 'mk(K::ift, {%s})' % b.ref, vals=b.vals, forks=1 + b.forks, cost=b.cost + 1)
        if k == 'opt':
            b = self.branch(d - 1, vals, cons=False)
            return R('dsl::opt(%s)' % b.cpp, 'mk(K::opt, {%s})' % b.ref, vals=True, forks=1 + b.forks, cost=b.cost + 1)
        if k == 'cap':
            t = self.token(1)
            if self.ch(.15):
                t = r.choice([R('dsl::any', 'mk(K::any)'), R('dsl::until(LEXY_LIT(";")).or_eof()', 'mk(K::until_eof, {mk(K::lit, {}, ";")})')])
            return R('dsl::capture(%s)' % t.cpp, 'mk(K::cap, {%s})' % t.ref, br=True, vals=True, cons=t.cons)
        if k == 'ident':
            return R('gx::idt', 'mk(K::ident)', br=True, vals=True, cons=True)
        if k == 'pos':
            return R('dsl::position', 'mk(K::pos)', vals=True)
        if k == 'nullopt':
            return R('dsl::nullopt', 'mk(K::nullopt)', vals=True)
        if k == 'alt':
            n = r.choice([1, 2, 2, 3])
            bs = [self.branch(d - 1, vals, cons=False) for _ in range(n)]
            bs = [b for b in bs if b.ref != 'mk(K::eof)']
            e = r.choice(['else', 'any', 'none', 'error', 'elserule'])
            extra = {'else': R('(dsl::else_ >> dsl::if_(LEXY_LIT("b")))', 'mk(K::br, {mk(K::els), mk(K::ift, {mk(K::lit, {}, "b")})})'), 'any': R('dsl::any', 'mk(K::any)'), 'error': R('dsl::error<gx::errA>', 'mk(K::err, {}, "errA")')}.get(e)
            if e == 'elserule':
                t = self.seq(d - 1, vals, n=1)
                extra = R('(dsl::else_ >> %s)' % t.cpp, 'mk(K::br, {mk(K::els), %s})' % t.ref, vals=t.vals, forks=t.forks)
            unc = extra is not None
            if extra:
                bs.append(extra)
            if len(bs) < 2:
                bs.insert(0, self.token(1))
            if len(bs) < 2:
                return bs[0]
            return R('(%s)' % ' | '.join(b.cpp for b in bs), 'mk(K::alt, {%s})' % ', '.join(b.ref for b in bs), br=not unc, vals=any(b.vals for b in bs), cons=all(b.cons for b in bs), forks=sum(b.forks for b in bs), cost=1 + sum(b.cost for b in bs))
        if k == 'while':
            b = self.branch(d - 1, False)
            return R('dsl::while_(%s)' % b.cpp, 'mk(K::whl, {%s})' % b.ref, cost=b.cost + 1)
        if k == 'while_one':
            b = self.branch(d - 1, False)
            return R('dsl::while_one(%s)' % b.cpp, 'mk(K::br, {%s, mk(K::whl, {%s})})' % (b.ref, b.ref), br=True, cons=True, cost=2 * b.cost + 1)
        if k == 'do_while':
            t = self.token(1)
            c = self.token(0)
            return R('dsl::do_while(%s, %s)' % (t.cpp, c.cpp), 'mk(K::br, {%s, mk(K::whl, {mk(K::br, {%s, %s})})})' % (t.ref, c.ref, t.ref), br=True, cons=True)
        if k == 'loop':
            bs = [self.branch(d - 1, False) for _ in range(r.randint(1, 2))]
            if self.ch(.5):
                bs.append(R('dsl::break_', 'mk(K::brk)'))
            else:
                t = self.token(0) if self.ch(.7) else R('dsl::else_', 'mk(K::els)')
                bs.append(R('(%s >> dsl::break_)' % t.cpp, 'mk(K::br, {%s, mk(K::brk)})' % t.ref))
            if self.ch(.3):
                # break in the middle of a sequence
                t, u = self.token(0), self.token(0)
                return R('dsl::loop(%s + (%s))' % (t.cpp, ' | '.join(b.cpp for b in bs)), 'mk(K::loop, {mk(K::seq, {%s, mk(K::alt, {%s})})})' % (t.ref, ', '.join(b.ref for b in bs)), cons=True, cost=3 + sum(b.cost for b in bs))
            return R('dsl::loop(%s)' % ' | '.join(b.cpp for b in bs), 'mk(K::loop, {mk(K::alt, {%s})})' % ', '.join(b.ref for b in bs), cost=3 + sum(b.cost for b in bs))
        if k == 'term':
            return self.terminated(d, vals)
        if k == 'times':
            n = r.choice([1, 2, 2, 3, 4])
            x = self.branch(d - 2, vals) if self.ch(.5) else self.seq(d - 2, vals, n=1)
            while x.forks > 2:
                x = self.token(1)
            name = 'dsl::twice' if n == 2 and self.ch(.6) else 'dsl::times<%d>' % n
            cpp, ref = '%s(%s)' % (name, x.cpp), 'with_n(mk(K::times, {%s}), %d)' % (x.ref, n)
            if self.ch(.5):
                s = self.sep(vals, (1, 2, 3))
                cpp, ref = '%s(%s, %s)' % (name, x.cpp, s[0]), 'with_sep(%s, %d, %s, %s)' % (ref, s[1], s[2], q(s[3]))
            return R(cpp, ref, vals=True, cons=x.cons, forks=2 * x.forks ** n, cost=2 * n * x.cost * x.forks ** n)
        if k == 'repeat':
            kind = self.choose('repeat', {'repeat': 1, 'rep_list': 1, 'rep_cap': 1})
            v = kind == 'rep_list'
            x = self.branch(d - 2, v) if self.ch(.5) else self.item(d - 2, v)
            cpp, ref = x.cpp, 'with_extra(mk(K::%s, {%s}), mk(K::digits))' % (kind, x.ref)
            if self.ch(.5):
                s = self.sep(v, (1, 2, 3))
                cpp += ', ' + s[0]
                ref = 'with_sep(%s, %d, %s, %s)' % (ref, s[1], s[2], q(s[3]))
            return R('dsl::repeat(dsl::integer<std::size_t>(dsl::digits<>))%s(%s)' % ({'repeat': '', 'rep_list': '.list', 'rep_cap': '.capture'}[kind], cpp), 'mk(K::seq, {%s})' % ref, vals=kind != 'repeat', cons=True, cost=2 * x.cost + 4)
        if k == 'peek':
            return self.peek()
        if k == 'nows':
            self.in_token += 1
            x = self.seq(d - 1, vals, n=r.choice([1, 2, 3]))
            self.in_token -= 1
            return R('dsl::no_whitespace(%s)' % x.cpp, 'mk(K::nows, {%s})' % x.ref, br=x.br, vals=x.vals, cons=x.cons, forks=x.forks, cost=x.cost + 1)
        if k == 'try':
            x = self.branch(d - 1, vals) if self.ch(.5) else self.seq(d - 1, vals)
            return self.try_(x, d, vals)
        if k == 'ws':
            c = r.choice([('dsl::ascii::space', 'mk(K::cls, {}, "ASCII.space")'), ('dsl::ascii::blank', 'mk(K::cls, {}, "ASCII.blank")'), ('LEXY_LIT("ab")', 'mk(K::lit, {}, "ab")')])
            return R('dsl::whitespace(%s)' % c[0], 'mk(K::ws, {%s})' % c[1])
        if k == 'error':
            # behind a branch, otherwise the rest would be dead
            t = self.token(1)
            tag = r.choice(TAGS)
            return R('dsl::if_(%s >> dsl::error<gx::%s>)' % (t.cpp, tag), 'mk(K::ift, {mk(K::br, {%s, mk(K::err, {}, %s)})})' % (t.ref, q(tag)), forks=2)
        if k == 'list':
            return self.list(d, False)
        if k == 'eol':
            return R('dsl::eol', 'mk(K::eol)', br=True)
        if k == 'prod':
            p = r.choice(ps)
            return R('dsl::p<%s>' % p.name, 'with_prod(K::prod, %s)' % p.name, br=p.br, vals=not p.void, cons=p.cons)
        if k == 'pas':
            return self.parse_as(self.seq(d - 1, vals, n=r.choice([1, 1, 2, 3])), vals)
        if k == 'subg':
            p = r.choice(ps)
            if p.name not in self.subgrammars:
                self.subgrammars.append(p.name)
            return R('dsl::subgrammar<%s, %s>' % (p.name, 'void' if p.void else 'gx::val'), 'with_prod(K::subg, %s)' % p.name, vals=not p.void, cons=p.cons)
        if k == 'capp':
            p = r.choice(tp)
            return R('dsl::capture(dsl::p<%s>)' % p.name, 'mk(K::capp, {with_prod(K::prod, %s)})' % p.name, br=p.br, vals=True, cons=p.cons)
        if k == 'recurse':
            t = r.choice(self.targets)
            op = r.choice(OPEN)
            o_, c_ = self.lit(op), self.lit(CLOSE[op])
            return R('dsl::if_(%s >> dsl::recurse<%s> + %s)' % (o_.cpp, t, c_.cpp), 'mk(K::ift, {mk(K::br, {%s, with_prod(K::rec, %s), %s})})' % (o_.ref, t, c_.ref), vals=True, forks=2)
        raise Exception(k)

    def seq(self, d, vals, n=None, first=None):
        n = n or self.rng.choice([1, 2, 2, 3, 4])
        parts = [first] if first else []
        while len(parts) < n:
            for _ in range(20):
                x = self.rule(d, vals)
                c = cost(*parts, x)
                if c['forks'] <= 6 and c['cost'] <= 60:
                    break
            else:
                x = self.token(0)
            parts.append(x)
        if len(parts) == 1:
            return parts[0]
        return R('(%s)' % ' + '.join(p.cpp for p in parts), 'mk(K::seq, {%s})' % ', '.join(p.ref for p in parts), vals=any(p.vals for p in parts), cons=any(p.cons for p in parts), **cost(*parts))

    def whitespace(self):
        r = self.rng
        k = self.choose('whitespace', {'space': 3, 'blank': 1, 'lit': .5, 'set': 1, 'line': 2, 'block': 2, 'both': 2, 'tokseq': 1, 'tab': 1, 'tabnl': 1})
        space = ('dsl::ascii::space', 'mk(K::cls, {}, "ASCII.space")')
        line = ('LEXY_LIT("#") >> dsl::until(LEXY_LIT(";")).or_eof()', 'mk(K::br, {mk(K::lit, {}, "#"), mk(K::until_eof, {mk(K::lit, {}, ";")})})')
        block = ('LEXY_LIT("/*") >> dsl::until(LEXY_LIT("*/"))', 'mk(K::br, {mk(K::lit, {}, "/*"), mk(K::until, {mk(K::lit, {}, "*/")})})')
        def alt(*l):
            return ' | '.join(x[0] for x in l), 'mk(K::alt, {%s})' % ', '.join(x[1] for x in l)
        if k == 'space':
            return space
        if k == 'blank':
            return 'dsl::ascii::blank', 'mk(K::cls, {}, "ASCII.blank")'
        if k == 'tab':
            return "dsl::ascii::blank - dsl::lit_c<' '>", 'mk(K::cls, {}, "tab")'
        if k == 'tabnl':
            return "dsl::lit_c<'\\t'> / dsl::lit_c<'\\n'>", 'mk(K::cls, {}, "tabnl")'
        if k == 'lit':
            return 'LEXY_LIT(" ")', 'mk(K::lit, {}, " ")'
        if k == 'set':
            return 'dsl::literal_set(LEXY_LIT(" "), LEXY_LIT("\\t "), LEXY_LIT("\\n"))', 'mk(K::lset, {}, "", {" ", "\\t ", "\\n"})'
        if k == 'tokseq':
            return 'dsl::token(LEXY_LIT(" ") + dsl::if_(LEXY_LIT("\\n")))', 'mk(K::tok, {mk(K::seq, {mk(K::lit, {}, " "), mk(K::ift, {mk(K::lit, {}, "\\n")})})})'
        if k == 'line':
            return alt(space, line)
        if k == 'block':
            return alt(space, block)
        return alt(space, line, block)

    # scanners
    def scan_op(self, i):
        """C++ statements of the operation, kind, reference of the rule"""
        r = self.rng
        o = {'parsev': 2, 'parse': 4, 'branchv': 2, 'branch': 4, 'peek': 1.5, 'discard': 2, 'capture': 2, 'integer': 1, 'prod': 0, 'prodbr': 0, 'capturep': 0}
        ps, bs = self.usable(lambda p: True), self.usable(lambda p: p.br and not p.void)
        if ps:
            o['prod'] = 4
        if bs:
            o['prodbr'] = 3
        tp = self.usable(lambda p: p.token and not p.recursive and p.void)
        if tp:
            o['capturep'] = 1.5
        k = self.choose('scanop', o)
        T = 'lexy::scan_result<gx::sres>'
        if k in ('parsev', 'parse'):
            while True:
                x = self.rule(2, k == 'parse') if self.ch(.5) else self.seq(1, k == 'parse')
                if x.cost < 25 and x.forks <= 4:
                    break
            if k == 'parsev':
                return 's.parse(%s);\n return std::string("parse");' % x.cpp, k, x.ref
            if self.ch(.5):
                return 'return "parse " + gx::show(s.template parse<gx::sres>(%s));' % x.cpp, k, x.ref
            return '%s r; s.parse(r, %s); return "parse " + gx::show(r);' % (T, x.cpp), k, x.ref
        if k in ('branchv', 'branch'):
            while True:
                x = self.branch(2, k == 'branch', cons=False)
                if x.cost < 25 and x.forks <= 4:
                    break
            if k == 'branchv':
                return 'return std::string(s.branch(%s) ? "taken" : "not taken");' % x.cpp, k, x.ref
            return '%s r; bool b = s.branch(r, %s); return (b ? "taken " : "not taken ") + gx::show(r);' % (T, x.cpp), k, x.ref
        if k == 'peek':
            self.in_token += 1
            t = self.seq(1, False, n=r.randint(1, 2), first=self.token(1))
            self.in_token -= 1
            return 'return std::string(s.peek(%s) ? "peek yes" : "peek no");' % t.cpp, k, 'mk(K::tok, {%s})' % t.ref
        if k == 'discard':
            t = self.token(1)
            return 'return std::string(s.discard(%s) ? "discard yes" : "discard no");' % t.cpp, k, t.ref
        if k == 'capture':
            t = self.token(1)
            return 'return "parse " + gx::show(s.capture(%s));' % t.cpp, k, 'mk(K::cap, {%s})' % t.ref
        if k == 'capturep':
            p = r.choice(tp)
            return 'return "parse " + gx::show(s.capture(dsl::p<%s>));' % p.name, k, 'mk(K::capp, {with_prod(K::prod, %s)})' % p.name
        if k == 'integer':
            return 'auto r = s.template integer<std::uint16_t%s>(dsl::digits<>); return "integer " + gx::show(r);' % r.choice(['', ', dsl::decimal']), k, 'mk(K::digits)'
        if k == 'prod':
            p = r.choice(ps)
            return 'return "parse " + gx::show(%s);' % r.choice(['s.parse(%s{})', 's.template parse<%s>()']) % p.name, k, 'with_prod(K::prod, %s)' % p.name
        p = r.choice(bs)
        return 'lexy::scan_result<gx::val> r; bool b = %s; return (b ? "taken " : "not taken ") + gx::show(r);' % r.choice(['s.branch(r, %s{})', 's.template branch<%s>(r)']) % p.name, k, 'with_prod(K::prod, %s)' % p.name

    def scanner(self, p, later):
        """A production with a scanner."""
        r = self.rng
        self.targets = [p.name] + later[:-1]
        ops = [self.scan_op(i) for i in range(r.randint(4, 8))]
        self.targets = []
        p.scan_void = self.ch(.2)
        p.scan_ref = 'with_n(mk(K::scan, {%s}, "", {%s}), %d)' % (', '.join(o[2] for o in ops), ', '.join(q(o[1]) for o in ops), p.scan_void)
        scan = R('dsl::scan', p.name + '_scan', vals=True)
        k = self.choose('scanat', {'alone': 2, 'seq': 3, 'br': 4, 'if': 1.5, 'alt': 1.5, 'twice': 1})
        pre = lambda: self.seq(1, True, n=r.choice([1, 1, 2]))
        if k == 'alone':
            x = scan
        elif k == 'seq':
            a, b = pre(), pre()
            x = R('(%s + dsl::scan + %s)' % (a.cpp, b.cpp), 'mk(K::seq, {%s, %s, %s})' % (a.ref, scan.ref, b.ref), cons=a.cons or b.cons)
        elif k == 'br':
            a, b = self.branch(1, True), pre()
            x = R('(%s >> dsl::scan + %s)' % (a.cpp, b.cpp), 'mk(K::br, {%s, %s, %s})' % (a.ref, scan.ref, b.ref), br=True, cons=True)
        elif k == 'if':
            a, b = self.branch(1, True), pre()
            x = R('(dsl::if_(%s >> dsl::scan) + %s)' % (a.cpp, b.cpp), 'mk(K::seq, {mk(K::ift, {mk(K::br, {%s, %s})}), %s})' % (a.ref, scan.ref, b.ref), cons=b.cons)
        elif k == 'list':
            a, s = self.token(1), self.sep(True)
            x = R('dsl::list(%s >> dsl::scan, %s)' % (a.cpp, s[0]), 'with_sep(mk(K::list, {mk(K::br, {%s, %s})}), %d, %s, %s)' % (a.ref, scan.ref, s[1], s[2], q(s[3])), br=True, cons=True)
        elif k == 'alt':
            a, b = self.branch(1, True), self.branch(1, True)
            x = R('(%s | %s >> dsl::scan)' % (a.cpp, b.cpp), 'mk(K::alt, {%s, mk(K::br, {%s, %s})})' % (a.ref, b.ref, scan.ref), br=True, cons=True)
        elif k == 'try':
            a = self.token(1)
            x = self.try_(R('(%s >> dsl::scan)' % a.cpp, 'mk(K::br, {%s, %s})' % (a.ref, scan.ref), br=True, vals=True, cons=True), 1, True)
        else:
            a = self.token(1)
            x = R('(dsl::scan + dsl::opt(%s >> dsl::scan))' % a.cpp, 'mk(K::seq, {%s, mk(K::opt, {mk(K::br, {%s, %s})})})' % (scan.ref, a.ref, scan.ref))
        if self.ch(.2):
            p.ws = self.whitespace()
            x.br = False
        state = ', gx::state_t& st' if self.profile.get('state') else ''
        s = 'struct %s%s\n{\n    static constexpr auto name = "%s";\n' % (p.name, ' : lexy::token_production' if p.token else ' : lexy::transparent_production' if p.transparent else '', p.name)
        s += '    static constexpr unsigned op_count = %d;\n    template <typename Scanner>\n    static std::string op(Scanner& s, unsigned i);\n' % len(ops)
        s += '    using scan_result = lexy::scan_result<%s>;\n' % ('void' if p.scan_void else 'gx::val')
        s += '    template <typename Context, typename Reader, typename... Args>\n    static scan_result scan(lexy::rule_scanner<Context, Reader>& s%s, Args&&... args)\n    {\n        %sreturn gx::run_scan<%s>(s, args...);\n    }\n' % (state, '++st.dummy; ' if state else '', p.name)
        if p.ws:
            s += '    static constexpr auto whitespace = %s;\n' % p.ws[0]
        s += '    static constexpr auto rule = %s;\n' % x.cpp
        s += '    static constexpr auto value = %s;\n};\n' % ('lexy::noop' if p.void else 'gx::cb{"%s"}' % p.name)
        p.text = s
        s = 'template <typename Scanner>\nstd::string %s::op(Scanner& s, unsigned i)\n{\n    switch (i)\n    {\n' % p.name
        for i, o in enumerate(ops):
            s += '    case %d: { %s }\n' % (i, o[0])
        s += '    default: return "";\n    }\n}\n'
        p.post = s
        p.br, p.cons, p.cost = x.br, x.cons, 40
        p.cpp, p.ref = x.cpp, x.ref
        p.recursive = True
        self.prods.append(p)
        return p

    def production(self, name, later, root):
        r = self.rng
        p = P()
        p.name = name
        p.token = not root and self.ch(.25)
        p.transparent = not root and not p.token and self.ch(.15)
        p.void = not root and self.ch(.25)
        p.ws = None
        p.agg = not root and self.comb > 0 and self.ch(.45)
        if p.agg:
            p.void = False
        if self.profile.get('scan') and not root and name in self.scanners:
            return self.scanner(p, later)
        self.targets = [name] + [l for l in later[:-1]] if not root else []
        if p.token and self.ch(.5):
            self.targets = []
        if self.profile.get('rec') and not root:
            p.void = self.void_of[name]
            self.targets = [name] + later[:-1] + [q_.name for q_ in self.prods]
        if root:
            if self.profile.get('rec') and self.ch(.7):
                q_ = r.choice(self.prods)
                x = R('dsl::p<%s>' % q_.name, 'with_prod(K::prod, %s)' % q_.name)
            else:
                x = self.seq(2, True, n=r.choice([1, 2, 3, 3]))
            for q_ in [q_ for q_ in self.prods if not any('<%s>' % q_.name in t.cpp for t in self.prods) and '<%s>' % q_.name not in x.cpp]:
                y = R('dsl::p<%s>' % q_.name, 'with_prod(K::prod, %s)' % q_.name)
                if q_.br and x.forks <= 8:
                    y = r.choice([y, R('dsl::if_(%s)' % y.cpp, 'mk(K::ift, {%s})' % y.ref, forks=2)])
                l = [x, y]
                r.shuffle(l)
                x = R('(%s + %s)' % (l[0].cpp, l[1].cpp), 'mk(K::seq, {%s, %s})' % (l[0].ref, l[1].ref), **cost(*l))
            if self.ch(.6):
                x = R('(%s + dsl::eof)' % x.cpp, 'mk(K::seq, {%s, mk(K::eof)})' % x.ref)
            if self.ch(.15):
                t = self.token(1)
                x = R('dsl::if_(%s >> dsl::return_) + %s' % (t.cpp, x.cpp), 'mk(K::seq, {mk(K::ift, {mk(K::br, {%s, mk(K::ret)})}), %s})' % (t.ref, x.ref))
            if self.ctx:
                cs = self.creates(['c0', 'c1', 'f0', 'f1', 'i0', 'i1'])
                x = R('%s + %s' % (' + '.join(c.cpp for c in cs), x.cpp), 'mk(K::seq, {%s, %s})' % (', '.join(c.ref for c in cs), x.ref))
            if self.ch(self.profile.get('rootws', .4)):
                p.ws = self.whitespace()
        elif self.profile.get('rec'):
            x = self.recursive()
        elif p.agg:
            x = self.aggregate()
        elif self.ch(.6):
            x = self.branch(2, True)
        else:
            x = self.seq(2, True)
            if self.ch(self.profile.get('prodws', .1)) and not p.token:
                p.ws = self.whitespace()
                if x.br:
                    # productions with whitespace of their own are used as rules only
                    x = R('(%s + dsl::if_(LEXY_LIT("+")))' % x.cpp, 'mk(K::seq, {%s, mk(K::ift, {mk(K::lit, {}, "+")})})' % x.ref, cons=x.cons)
            if self.ctx and self.ch(.5):
                # variables of its own that hide the outer ones
                cs = self.creates(r.sample(['c0', 'c1', 'f0', 'f1', 'i0', 'i1'], r.randint(1, 3)))
                x = R('(%s + %s)' % (' + '.join(c.cpp for c in cs), x.cpp), 'mk(K::seq, {%s, %s})' % (', '.join(c.ref for c in cs), x.ref), cons=x.cons, cost=x.cost + len(cs))
        p.br, p.cons, p.cost = x.br, x.cons, x.cost
        p.cpp, p.ref = x.cpp, x.ref
        p.recursive = 'recurse' in p.cpp or any(q_.recursive and '<%s>' % q_.name in p.cpp for q_ in self.prods)
        self.prods.append(p)
        return p

    def grammar(self):
        n = self.rng.randint(2, 5)
        names = ['P%d' % i for i in range(n)]
        if self.profile.get('scan'):
            self.scanners = [names[-2]] + ([self.rng.choice(names[:-1])] if self.ch(.3) else [])
            self.control_ws = self.whitespace() if self.ch(.6) else None
            self.control_depth = self.rng.choice([None, 1, 3])
        self.void_of = {nm: self.ch(.4) for nm in names}
        for i, nm in enumerate(names):
            self.production(nm, names[i + 1:], i == n - 1)
        self.max_depth = self.rng.choice([None, None, 2, 3, 6])
        if self.profile.get('rec'):
            self.max_depth = self.rng.choice(self.profile['rec'])
            self.max_len = 12000 if not self.max_depth or self.max_depth > 50 else 800


def emit(f, ns, g):
    text = ''
    f.write('namespace %s\n{\n' % ns)
    for p in g.prods:
        f.write('struct %s;\n' % p.name)
    subs = [x for x in getattr(g, 'subgrammars', [])]
    if subs:
        f.write('}\n' + ''.join('LEXY_DECLARE_SUBGRAMMAR(%s::%s)\n' % (ns, x) for x in subs) + 'namespace %s\n{\n' % ns)
    for t in getattr(g, 'pre', []):
        f.write(t)
        text += t
    for p in g.prods:
        if getattr(p, 'text', None):
            f.write(p.text)
            text += p.text
            continue
        s = 'struct %s%s\n{\n    static constexpr auto name = "%s";\n' % (p.name, ' : lexy::token_production' if p.token else ' : lexy::transparent_production' if p.transparent else '', p.name)
        if p is g.prods[-1] and g.max_depth:
            s += '    static constexpr auto max_recursion_depth = %d;\n' % g.max_depth
        if p.ws:
            s += '    static constexpr auto whitespace = %s;\n' % p.ws[0]
        s += '    static constexpr auto rule = %s;\n' % p.cpp
        s += '    static constexpr auto value = %s;\n};\n' % ('lexy::noop' if p.void else 'gx::%s{"%s"}' % ('agg_cb' if getattr(p, 'agg', False) else 'cb', p.name))
        f.write(s)
        text += s
    for p in g.prods:
        if getattr(p, 'post', None):
            f.write(p.post)
            text += p.post
    if subs:
        f.write('}\n' + ''.join('LEXY_DEFINE_SUBGRAMMAR(%s::%s)\n' % (ns, x) for x in subs) + 'namespace %s\n{\n' % ns)
    f.write('ref::grammar make()\n{\n    ref::grammar g;\n')
    b = lambda x: 'true' if x else 'false'
    for p in g.prods:
        f.write('    auto %s = g.add("%s", %s, %s, %s);\n' % (p.name, p.name, b(p.token), b(p.transparent), b(p.void)))
    for p in g.prods:
        if getattr(p, 'scan_ref', None):
            f.write('    auto %s_scan = %s;\n' % (p.name, p.scan_ref))
        f.write('    %s->rule = %s;\n' % (p.name, p.ref))
        f.write(getattr(p, 'setup', ''))
        if getattr(p, 'agg', False):
            f.write('    %s->agg = true;\n' % p.name)
        if p.ws:
            f.write('    %s->ws = %s;\n' % (p.name, p.ws[1]))
    if g.max_depth:
        f.write('    g.max_depth = %d;\n' % g.max_depth)
    sc = [p for p in g.prods if getattr(p, 'scan_ref', None)]
    if sc:
        f.write('    g.control = std::make_unique<prod_t>();\n    g.control->name = "control";\n    g.control->is_void = true;\n    g.control->rule = %s_scan;\n' % sc[-1].name)
        if g.control_ws:
            f.write('    g.control->ws = %s;\n' % g.control_ws[1])
        if g.control_depth:
            f.write('    g.control_depth = %d;\n' % g.control_depth)
    if getattr(g, 'max_len', None):
        f.write('    g.max_len = %d;\n' % g.max_len)
    f.write('    return g;\n}\n')
    num = int(''.join(c for c in ns if c.isdigit()))
    if sc:
        s = 'struct control\n{\n    static constexpr auto name = "control";\n    static constexpr auto rule = dsl::eof;\n'
        if g.control_ws:
            s += '    static constexpr auto whitespace = %s;\n' % g.control_ws[0]
        if g.control_depth:
            s += '    static constexpr auto max_recursion_depth = %d;\n' % g.control_depth
        s += '};\n'
        f.write(s)
        text += s
    f.write('int reg = gx::reg<%s, %d>("%s", R"__(%s)__", make)' % (g.prods[-1].name, num, ns, text))
    if sc:
        f.write(' + gx::reg_scan<%s, control, %d>()' % (sc[-1].name, num))
    f.write(';\n}\n')


PROFILES = {
    'general': {},
    'ws': {'rootws': 1, 'prodws': .4, 'ws': 1.5},
    'trace': {'dbg': 1, 'rootws': .5, 'try': 2, 'comb': .5, 'ctx': .3, 'brackets': 2},
    'ctx': {'ctx': 1.5, 'rootws': .3},
    'scan': {'scan': 1, 'rootws': .5, 'prodws': .2},
    'scanstate': {'scan': 1, 'state': 1, 'rootws': .5},
    'comb': {'comb': 1.5, 'rootws': .3},
    'rec': {'rec': [1, 2, 3, 4, 5, 7, 12, 40], 'rootws': .25},
    'deep': {'rec': [None, None, 60, 300, 700, 1500], 'rootws': .25},
    'recovery': {'try': 4, 'brackets': 2, 'rootws': .4},
}


def generate(out, seed, tier, count=64, per_file=4, profile='general', salt=0):
    if tier == 'thorough':
        count *= 4
    rng = random.Random(seed * 7919 + salt)
    counts = {}
    files = []
    os.makedirs(out, exist_ok=True)
    k = 0
    while k < count:
        path = os.path.join(out, 'grammars_%s_%d_%03d.cpp' % (profile, salt, len(files)))
        with open(path, 'w') as f:
            f.write('#include "gx.hpp"\n')
            for _ in range(per_file):
                while True:
                    g = Gen(rng, counts, PROFILES[profile])
                    g.grammar()
                    if sum(len(p.cpp) for p in g.prods) < 2200 and sum(p.cost for p in g.prods) < 150 and max(p.cost for p in g.prods) < 80:
                        break
                emit(f, 'g%d' % k, g)
                k += 1
        files.append(path)
    return files


if __name__ == '__main__':
    import sys
    generate(sys.argv[1], int(sys.argv[2]), 'quick', int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
