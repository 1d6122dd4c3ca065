// Reference interpreter for lexy grammars: a direct-style recursive descent over a runtime description of the grammar.
// It records events (productions, tokens, errors, recovery) and the produced values as text.
#ifndef HARNESS_REF_HPP
#define HARNESS_REF_HPP
#include <common.hpp>
#include <functional>
#include <map>
#include <memory>

namespace ref
{
using hc::units;

enum class K
{
    // tokens
    lit,
    cls,
    any,
    lset,
    kw,
    idpat,
    nl,
    until,
    until_eof,
    tok,
    digits,
    nfollow,
    terr,  // token with a different error
    tkind, // token with a different kind
    // other branches
    eof,
    eol,
    peek,
    peekn,
    look,
    cap,
    capp,
    pos,
    posr,
    prod,
    rec,
    err,
    must,
    ident,
    els,
    // rules
    seq,
    br,
    alt,
    opt,
    whl,
    loop,
    brk,
    ift,
    list,
    tryr,
    term_try,
    term_opt,
    term_list,
    term_optlist,
    times,
    repeat,
    rep_list,
    rep_cap,
    nows,
    pas,  // parse_as
    subg, // subgrammar
    ws,
    nullopt,
    ret,
    // recovery rules
    find,
    reco,
    dbg, // text: what is shown
    // context variables; text: name of the variable
    ccreate, // n: initial value, also of flags and identifiers
    cadd,    // n: delta
    cpush,   // n: sign
    cis,     // n: value; branch
    cvalue,
    ceq,     // lits: names; branch
    fset,    // n: 0, 1 or 2 to toggle
    icap,    // branch
    irem,    // branch; lits: tag
    // combinations
    comb,  // kids: branches, n: partial, text: duplicate tag, lits: missing tag
    flags, // lits: symbols, lits2: values, n: default, text: tag
    flag,  // kids: branch, lits: text if it is there, and if not
    mem,   // text: name
    // the whole rule of an expression production
    expr,
    // scanner; kids: rules of the operations, lits: kinds of the operations
    scan,
};

struct node;
using N = std::shared_ptr<const node>;
struct prod_t;

struct node
{
    K                        k;
    std::string              text; // literal, class, tag
    std::vector<std::string> lits, lits2;
    std::vector<N>           kids;
    N                        sep, extra;
    int                      sepkind = 0; // 0: none, 1: sep, 2: trailing_sep, 3: ignore_trailing_sep
    int                      n = 0;
    const prod_t*            p = nullptr;
};
// Expressions: one entry per operation, in the order of the levels.
enum class O
{
    left,
    right,
    list,
    single,
    prefix,
    postfix,
};
struct op_t
{
    std::string lit;
    bool        fold = false;  // ASCII case folding
    std::string not_follow;    // class
    std::string tag;           // text of the tag value, "@" for the position, empty for none
    std::vector<N> rest;
};
struct operation_t
{
    std::string       name;
    O                 kind;
    int               level, group;
    std::vector<op_t> ops;
};
struct expr_t
{
    std::vector<operation_t> operations;
    N                        atom;
    int                      max_nesting = 256;
    int                      root_level  = 0; // lowest level that takes part
    bool                     root_left   = true;
    std::string              nesting_error = "maximum operator nesting level exceeded", chain_error = "operator cannot be chained",
                group_error = "operator cannot be mixed with previous operators";
};
struct prod_t
{
    std::shared_ptr<const expr_t> ex;
    std::string name;
    bool        token = false, transparent = false, is_void = false, agg = false;
    N           ws;
    N           rule;
};
struct grammar
{
    std::vector<std::unique_ptr<prod_t>> prods;
    const prod_t*                        root = nullptr;
    int                                  max_depth = 1024;
    std::unique_ptr<prod_t>              control; // for lexy::scan()
    int                                  control_depth = 1024;
    std::string                          text; // C++ text for messages
    std::size_t                          max_len = 400;

    prod_t* add(const char* name, bool token = false, bool transparent = false, bool is_void = false)
    {
        prods.push_back(std::make_unique<prod_t>());
        auto p         = prods.back().get();
        p->name        = name;
        p->token       = token;
        p->transparent = transparent;
        p->is_void     = is_void;
        root           = p;
        return p;
    }
};

//=== builders ===//
using L = std::vector<N>;
using S = std::vector<std::string>;
inline N mk(node n)
{
    return std::make_shared<const node>(std::move(n));
}
inline N mk(K k, L kids = {}, std::string text = "", S lits = {}, S lits2 = {})
{
    node n;
    n.k     = k;
    n.kids  = std::move(kids);
    n.text  = std::move(text);
    n.lits  = std::move(lits);
    n.lits2 = std::move(lits2);
    return mk(n);
}
inline N with_n(N x, int v)
{
    auto c = *x;
    c.n    = v;
    return mk(c);
}
inline N with_sep(N x, int kind, N sep, std::string tag = "")
{
    auto c    = *x;
    c.sepkind = kind;
    c.sep     = sep;
    if (!tag.empty())
        c.text = tag;
    return mk(c);
}
inline N with_extra(N x, N e)
{
    auto c  = *x;
    c.extra = e;
    return mk(c);
}
inline N with_prod(K k, const prod_t* p)
{
    node n;
    n.k = k;
    n.p = p;
    return mk(n);
}
inline N with_rec(const prod_t* p, int branch, std::string tag)
{
    node n;
    n.k    = K::rec;
    n.p    = p;
    n.n    = branch;
    n.text = std::move(tag);
    return mk(n);
}

inline bool in_class(const std::string& c, std::uint32_t u)
{
    if (u > 0x7F)
        return false;
    bool d = u >= '0' && u <= '9', lo = u >= 'a' && u <= 'z', up = u >= 'A' && u <= 'Z';
    if (c == "ASCII.digit")
        return d;
    if (c == "ASCII.alpha")
        return lo || up;
    if (c == "ASCII.lower")
        return lo;
    if (c == "ASCII.upper")
        return up;
    if (c == "ASCII.alpha-digit")
        return lo || up || d;
    if (c == "ASCII.space")
        return u == ' ' || (u >= 9 && u <= 13);
    if (c == "tab")
        return u == '\t';
    if (c == "tabnl")
        return u == '\t' || u == '\n';
    if (c == "ASCII.blank")
        return u == ' ' || u == '\t';
    if (c == "ASCII.punct")
        return (u >= 0x21 && u <= 0x7E) && !(d || lo || up);
    if (c == "digit.decimal")
        return d;
    pbt::fail("unknown class " + c);
}
inline bool is_token(const node& n)
{
    return n.k <= K::tkind;
}
inline bool is_branch(const node& n)
{
    switch (n.k)
    {
    case K::br:
    case K::eof:
    case K::eol:
    case K::peek:
    case K::peekn:
    case K::look:
    case K::cap:
    case K::err:
    case K::must:
    case K::ident:
    case K::els:
    case K::brk:
    case K::cis:
    case K::ceq:
    case K::icap:
    case K::irem:
        return true;
    case K::alt:
        for (auto& k : n.kids)
        {
            const node* c = k.get();
            while (c->k == K::br)
                c = c->kids[0].get();
            if (c->k == K::els || c->k == K::err || c->k == K::brk || c->k == K::until_eof || c->k == K::any)
                return false;
        }
        return true;
    case K::capp:
    case K::posr:
    case K::list:
    case K::tryr:
    case K::nows:
    case K::pas:
    case K::cpush:
    case K::mem:
        return is_branch(*n.kids[0]);
    case K::prod:
        return !n.p->ws && is_branch(*n.p->rule);
    case K::rec:
        return n.n == 1; // recurse_branch
    default:
        return is_token(n);
    }
}

//=== events ===//
enum class E
{
    pstart,
    pfinish,
    pcancel,
    token,
    error,
    rstart,
    rfinish,
    rcancel,
    backtrack,
    cstart,
    cop,
    cfinish,
    debug,
};
struct event
{
    E             e;
    std::string   text; // production name, token kind, error text
    std::size_t   b = 0, end = 0;
    const prod_t* p = nullptr;
};

using vals = std::vector<std::string>;

struct bstate
{
    bool                ok = false;
    std::size_t         begin = 0, end = 0;
    std::size_t         idx = 0;
    std::vector<bstate> sub;
};

struct budget_exceeded
{};

//=== scanner programs ===//
struct scan_step
{
    enum kind_t
    {
        op,
        error,
        fatal,
        recover,
    } kind = op;
    unsigned               arg = 0; // which operation, or error
    std::vector<scan_step> nested;
    bool                   finish = true; // of the recovery
};
struct scan_call
{
    std::vector<scan_step> steps;
    int                    ret = 0; // 0: value unless failed, 1: never a value, 2: always
};
using scan_program = std::vector<scan_call>;
struct scan_env
{
    const scan_program*      prog  = nullptr;
    std::size_t              calls = 0;
    std::vector<std::string> log;
    const scan_call*         next()
    {
        ++calls;
        return calls > 60 ? nullptr : &(*prog)[(calls - 1) % prog->size()];
    }
};
inline scan_program gen_program(pbt::gen& g)
{
    std::function<std::vector<scan_step>(std::size_t, int)> steps = [&](std::size_t max, int depth) {
        std::vector<scan_step> r(g.below(max + 1));
        for (auto& s : r)
        {
            s.arg  = unsigned(g.below(64));
            auto k = g.weighted({16, 1, 1, depth > 0 ? 6u : 0u});
            s.kind = scan_step::kind_t(k);
            if (s.kind == scan_step::recover)
            {
                s.nested = steps(3, depth - 1);
                s.finish = g.chance(3, 4);
            }
        }
        return r;
    };
    scan_program p(1 + g.below(4));
    for (auto& c : p)
    {
        c.steps = steps(9, 2);
        c.ret   = int(g.weighted({6, 1, 2}));
    }
    return p;
}
inline std::string show(const std::vector<scan_step>& v)
{
    std::string r;
    for (auto& s : v)
        switch (s.kind)
        {
        case scan_step::op:
            r += " op" + std::to_string(s.arg);
            break;
        case scan_step::error:
            r += " error" + std::to_string(s.arg % 4);
            break;
        case scan_step::fatal:
            r += " fatal" + std::to_string(s.arg % 4);
            break;
        case scan_step::recover:
            r += " recover{" + show(s.nested) + " }" + (s.finish ? "finish" : "cancel");
            break;
        }
    return r;
}
inline std::string show(const scan_program& p)
{
    std::string r;
    for (auto& c : p)
        r += "[" + show(c.steps) + " ret" + std::to_string(c.ret) + " ]";
    return r;
}

struct interp
{
    const units&       u;
    std::size_t        pos = 0;
    int                max_depth = 1024, depth = 0;
    bool               ws_enabled = true;
    const node*        ws         = nullptr; // current whitespace
    std::vector<event> events;
    std::size_t        nerrors = 0;
    enum mode_t
    {
        full,
        errors_only,
        quiet
    } mode = full;
    struct frame
    {
        const prod_t* p;
        std::size_t   begin;
    };
    std::vector<frame> stack;
    bool               broke = false, returned = false;
    std::size_t        steps = 0, furthest = 0, stalled = 0;

    // The variables in scope, innermost last. Of identifiers, the lexeme.
    struct var_t
    {
        std::string name;
        long        value;
        std::size_t b, e;
    };
    std::vector<var_t> vars;
    var_t&             var(const std::string& name)
    {
        for (auto i = vars.size(); i != 0; --i)
            if (vars[i - 1].name == name)
                return vars[i - 1];
        pbt::fail("variable not in scope");
    }
    bool equal_counts(const node& n)
    {
        for (auto& v : n.lits)
            if (var(v).value != var(n.lits[0]).value)
                return false;
        return true;
    }
    bool same_identifier(const std::string& name, std::size_t b, std::size_t e)
    {
        auto& v = var(name);
        if (v.e - v.b != e - b)
            return false;
        for (std::size_t i = 0; i != e - b; ++i)
            if (u[b + i] != u[v.b + i])
                return false;
        return true;
    }

    explicit interp(const units& u) : u(u) {}

    //=== reporting ===//
    void on(E e, std::string text, std::size_t b, std::size_t end, const prod_t* p = nullptr)
    {
        if (mode == full)
            events.push_back({e, std::move(text), b, end, p});
    }
    void token(const std::string& kind, std::size_t b, std::size_t e)
    {
        on(E::token, kind, b, e);
    }
    void error(std::string text, std::size_t b, std::size_t e)
    {
        ++nerrors;
        if (mode == quiet)
            return;
        std::string s = text + "[" + std::to_string(b) + "," + std::to_string(e) + ")";
        if (!stack.empty())
        {
            auto i = stack.size() - 1;
            while (stack[i].p->transparent && i != 0)
                --i;
            s += "in " + stack[i].p->name;
            // The position of the context is the start of the production itself.
            if (!stack.back().p->transparent)
                s += "@" + std::to_string(stack.back().begin);
        }
        events.push_back({E::error, std::move(s), b, e, nullptr});
    }
    void step()
    {
        // A loop that goes on without consuming anything never ends; lexy would not either.
        if (pos > furthest)
        {
            furthest = pos;
            stalled  = steps;
        }
        if (++steps > 200000 || steps - stalled > 5000 + 20 * u.size())
            throw budget_exceeded{};
    }
    bool at_end() const
    {
        return pos >= u.size();
    }

    //=== tokens ===//
    bool has(std::size_t p, const std::string& s) const
    {
        if (u.size() - p < s.size())
            return false;
        for (std::size_t i = 0; i != s.size(); ++i)
            if (u[p + i] != static_cast<unsigned char>(s[i]))
                return false;
        return true;
    }
    std::size_t common(std::size_t p, const std::string& s) const
    {
        std::size_t i = 0;
        while (i < s.size() && p + i < u.size() && u[p + i] == static_cast<unsigned char>(s[i]))
            ++i;
        return i;
    }
    bool cls(std::size_t p, const std::string& c) const
    {
        return p < u.size() && in_class(c, u[p]);
    }
    // longest literal; npos if none
    std::size_t longest(std::size_t p, const std::vector<std::string>& l) const
    {
        std::size_t best = std::size_t(-1);
        for (auto& s : l)
            if (has(p, s) && (best == std::size_t(-1) || s.size() > best))
                best = s.size();
        return best;
    }
    std::size_t ident_end(std::size_t p) const
    {
        if (!cls(p, "ASCII.alpha"))
            return p;
        while (cls(p, "ASCII.alpha-digit"))
            ++p;
        return p;
    }
    // Does it match at p; end is the end of what has been matched (also partially)
    bool match(const node& n, std::size_t p, std::size_t& end)
    {
        step();
        end = p;
        switch (n.k)
        {
        case K::lit:
            end = p + common(p, n.text);
            return end - p == n.text.size();
        case K::cls:
            if (!cls(p, n.text))
                return false;
            end = p + 1;
            return true;
        case K::any:
            end = u.size();
            return true;
        case K::nl:
        case K::lset: {
            auto l = longest(p, n.lits);
            if (l == std::size_t(-1))
                return false;
            end = p + l;
            return true;
        }
        case K::kw:
            // the literal has to be there completely, but a mismatch does not consume anything
            if (!has(p, n.text))
                return false;
            end = p + n.text.size();
            return !cls(end, "ASCII.alpha-digit");
        case K::idpat:
            end = ident_end(p);
            return end != p;
        case K::digits:
            while (cls(end, "ASCII.digit"))
                ++end;
            return end != p;
        case K::nfollow: {
            if (!has(p, n.text))
                return false;
            end = p + n.text.size();
            bool c = cls(end, n.lits[0]);
            return n.n ? c : !c; // n: followed_by
        }
        case K::until:
        case K::until_eof:
            while (true)
            {
                std::size_t e;
                if (n.k == K::until_eof && p >= u.size())
                {
                    end = p;
                    return true;
                }
                if (match(*n.kids[0], p, e))
                {
                    end = e;
                    return true;
                }
                if (p >= u.size())
                {
                    end = p;
                    return false;
                }
                ++p;
            }
        case K::tok: {
            interp sub(u);
            sub.pos       = p;
            sub.mode      = match_mode();
            sub.max_depth = 0;
            vals v;
            bool ok = sub.parse(*n.kids[0], v);
            end     = sub.pos;
            steps += sub.steps;
            step();
            return ok && sub.nerrors == 0;
        }
        case K::terr:
        case K::tkind:
            return match(*n.kids[0], p, end);
        default:
            pbt::fail("not a token");
        }
    }
    static mode_t match_mode()
    {
        return quiet;
    }
    void token_error(const node& n, std::size_t p, std::size_t end)
    {
        switch (n.k)
        {
        case K::lit:
            error("literal<" + n.text + ">#" + std::to_string(end - p), p, p);
            break;
        case K::cls:
            error("class<" + n.text + ">", p, p);
            break;
        case K::lset:
            error("expected literal set", p, p);
            break;
        case K::nl:
            error("expected newline", p, p);
            break;
        case K::kw:
            error("keyword<" + n.text + ">", p, ident_end(p));
            break;
        case K::idpat:
            error("class<ASCII.alpha>", p, p);
            break;
        case K::digits:
            error("class<digit.decimal>", p, p);
            break;
        case K::nfollow:
            if (!has(p, n.text))
                error("literal<" + n.text + ">#" + std::to_string(common(p, n.text)), p, p);
            else
                error("follow restriction", end, end);
            break;
        case K::until: {
            std::size_t e;
            match(*n.kids[0], end, e);
            token_error(*n.kids[0], end, e);
            break;
        }
        case K::tok:
            error("missing token", p, end);
            break;
        case K::terr:
            error(n.text, p, end);
            break;
        case K::tkind:
            token_error(*n.kids[0], p, end);
            break;
        default:
            pbt::fail("token cannot fail");
        }
    }
    static std::string kind(const node& n)
    {
        switch (n.k)
        {
        case K::lit:
        case K::lset:
        case K::nl:
        case K::kw:
        case K::nfollow:
            return "literal";
        case K::any:
        case K::until:
        case K::until_eof:
            return "any";
        case K::idpat:
            return "identifier";
        case K::digits:
            return "digits";
        case K::cls:
            return n.text == "digit.decimal" ? "digits" : "token";
        case K::terr:
            return kind(*n.kids[0]);
        case K::tkind:
            return "kind" + std::to_string(n.n);
        default:
            return "token";
        }
    }
    // Parses the token without whitespace.
    bool token_parse(const node& n)
    {
        std::size_t end;
        if (!match(n, pos, end))
        {
            token("error token", pos, end);
            token_error(n, pos, end);
            pos = end;
            return false;
        }
        token(kind(n), pos, end);
        pos = end;
        return true;
    }

    //=== whitespace ===//
    bool skip_ws_of(const node* w)
    {
        if (!w)
            return true;
        auto begin = pos;
        if (is_token(*w))
        {
            std::size_t end;
            while (match(*w, pos, end))
                pos = end;
            token("whitespace", begin, pos);
            return true;
        }
        auto old_mode = mode;
        auto old_ws   = ws;
        bool old_en   = ws_enabled;
        if (mode == full)
            mode = errors_only;
        ws         = nullptr;
        ws_enabled = true;
        bool ok    = true;
        while (true)
        {
            step();
            auto s = tryb(*w);
            if (!s.ok)
            {
                cancel(*w, s);
                break;
            }
            vals v;
            if (!finish(*w, s, v))
            {
                ok = false;
                break;
            }
        }
        mode       = old_mode;
        ws         = old_ws;
        ws_enabled = old_en;
        token(ok ? "whitespace" : "error token", begin, pos);
        return ok;
    }
    bool skip_ws()
    {
        return ws_enabled ? skip_ws_of(ws) : true;
    }

    //=== branches ===//
    bstate tryb(const node& n)
    {
        step();
        bstate s;
        s.begin = s.end = pos;
        if (is_token(n))
        {
            s.ok = match(n, pos, s.end);
            return s;
        }
        switch (n.k)
        {
        case K::eof:
            s.ok = at_end();
            break;
        case K::eol: {
            s.ok = at_end() || longest(pos, {"\n", "\r\n"}) != std::size_t(-1);
            break;
        }
        case K::peek:
        case K::peekn: {
            bool r = match(*n.kids[0], pos, s.end);
            s.ok   = r == (n.k == K::peek);
            break;
        }
        case K::look: {
            auto p = pos;
            while (true)
            {
                auto a = longest(p, n.lits), b = longest(p, n.lits2);
                auto none = std::size_t(-1);
                if (a != none || b != none)
                {
                    bool needle = b == none || (a != none && a > b);
                    s.ok        = needle;
                    s.end       = p + (needle ? a : b);
                    break;
                }
                if (p >= u.size())
                {
                    s.ok  = false;
                    s.end = p;
                    break;
                }
                ++p;
            }
            break;
        }
        case K::cap:
            s.ok = match(*n.kids[0], pos, s.end);
            break;
        case K::ident:
            s.end = ident_end(pos);
            s.ok  = s.end != pos && !reserved(n, pos, s.end);
            break;
        case K::els:
        case K::err:
        case K::brk:
            s.ok = true;
            break;
        case K::cis:
            s.ok = var(n.text).value == n.n;
            break;
        case K::ceq:
            s.ok = equal_counts(n);
            break;
        case K::icap:
            s.end = ident_end(pos);
            s.ok  = s.end != pos;
            break;
        case K::irem:
            s.end = ident_end(pos);
            s.ok  = s.end != pos && same_identifier(n.text, pos, s.end);
            break;
        case K::br:
        case K::capp:
        case K::posr:
        case K::list:
        case K::tryr:
        case K::nows:
        case K::pas:
        case K::must:
        case K::cpush:
        case K::mem:
            s.sub.push_back(tryb(*n.kids[0]));
            s.ok = s.sub[0].ok;
            break;
        case K::prod:
        case K::rec:
            s.sub.push_back(tryb(*n.p->rule));
            s.ok = s.sub[0].ok;
            break;
        case K::alt:
            for (std::size_t i = 0; i != n.kids.size(); ++i)
            {
                s.sub.push_back(tryb(*n.kids[i]));
                if (s.sub.back().ok)
                {
                    s.ok  = true;
                    s.idx = i;
                    break;
                }
            }
            break;
        default:
            pbt::fail("not a branch");
        }
        return s;
    }
    void cancel(const node& n, const bstate& s)
    {
        switch (n.k)
        {
        case K::peek:
        case K::peekn:
        case K::look:
            on(E::backtrack, "", s.begin, s.end);
            break;
        case K::br:
        case K::capp:
        case K::posr:
        case K::list:
        case K::tryr:
        case K::nows:
        case K::pas:
        case K::must:
        case K::cpush:
        case K::mem:
            cancel(*n.kids[0], s.sub[0]);
            break;
        case K::prod:
        case K::rec:
            on(E::pstart, n.p->name, s.begin, s.begin, n.p);
            cancel(*n.p->rule, s.sub[0]);
            on(E::pcancel, n.p->name, s.begin, s.begin, n.p);
            break;
        case K::alt:
            for (std::size_t i = 0; i != s.sub.size(); ++i)
                cancel(*n.kids[i], s.sub[i]);
            break;
        default:
            break;
        }
    }
    bool reserved(const node& n, std::size_t b, std::size_t e)
    {
        for (auto& r : n.lits)
            if (r.size() == e - b && has(b, r))
                return true;
        return false;
    }
    bool rest(const node& n, std::size_t from, vals& v)
    {
        for (auto i = from; i < n.kids.size(); ++i)
        {
            if (!parse(*n.kids[i], v))
                return false;
            if (broke || returned)
                return true;
        }
        return true;
    }
    bool finish(const node& n, const bstate& s, vals& v)
    {
        step();
        if (is_token(n))
        {
            token(kind(n), pos, s.end);
            pos = s.end;
            return skip_ws();
        }
        switch (n.k)
        {
        case K::eof:
            token("EOF", pos, pos);
            return true;
        case K::eol:
            if (at_end())
            {
                token("EOF", pos, pos);
                return true;
            }
            return parse_nl();
        case K::peek:
        case K::peekn:
        case K::look:
            on(E::backtrack, "", s.begin, s.end);
            return true;
        case K::cap: {
            auto b = pos;
            token(kind(*n.kids[0]), pos, s.end);
            pos = s.end;
            v.push_back(lexeme(b, s.end));
            return skip_ws();
        }
        case K::ident: {
            auto b = pos;
            token("identifier", b, s.end);
            pos = s.end;
            v.push_back(lexeme(b, s.end));
            return skip_ws();
        }
        case K::els:
        case K::cis:
        case K::ceq:
            return true;
        case K::err:
        case K::brk:
            return parse(n, v);
        case K::icap: {
            auto& x = var(n.text);
            token("identifier", pos, s.end);
            v.push_back(lexeme(pos, s.end));
            auto b = pos;
            pos    = s.end;
            if (!skip_ws())
                return false;
            x.b = b;
            x.e = s.end;
            return true;
        }
        case K::irem:
            token("identifier", pos, s.end);
            pos = s.end;
            return skip_ws();
        case K::cpush: {
            auto b = pos;
            if (!finish(*n.kids[0], s.sub[0], v))
                return false;
            var(n.text).value += n.n * long(pos - b);
            return true;
        }
        case K::mem:
            v.push_back("&" + n.text);
            return finish(*n.kids[0], s.sub[0], v);
        case K::br:
            if (!finish(*n.kids[0], s.sub[0], v))
                return false;
            if (returned)
                return true;
            return rest(n, 1, v);
        case K::must:
            return finish(*n.kids[0], s.sub[0], v);
        case K::capp: {
            auto at = v.size();
            auto b  = pos;
            no_ws_after = true;
            if (!finish(*n.kids[0], s.sub[0], v))
                return false;
            v.insert(v.begin() + std::ptrdiff_t(at), lexeme(b, pos));
            return skip_ws();
        }
        case K::posr:
            token("position", pos, pos);
            v.push_back("@" + std::to_string(pos));
            return finish(*n.kids[0], s.sub[0], v);
        case K::pas: {
            vals x;
            if (!finish(*n.kids[0], s.sub[0], x))
                return false;
            pack(n, x, v);
            return true;
        }
        case K::nows: {
            bool old   = ws_enabled;
            ws_enabled = false;
            bool ok    = finish(*n.kids[0], s.sub[0], v);
            ws_enabled = old;
            return ok && skip_ws();
        }
        case K::list: {
            vals list;
            vals item;
            if (!finish(*n.kids[0], s.sub[0], item))
                return false;
            sink(list, item);
            if (!list_loop(n, list))
                return false;
            push_list(v, list);
            return true;
        }
        case K::tryr: {
            auto at = v.size();
            auto d  = depth;
            bool en = ws_enabled;
            if (finish(*n.kids[0], s.sub[0], v))
                return true;
            v.resize(at);
            depth      = d;
            ws_enabled = en;
            return recover(n.extra, v);
        }
        case K::rec: {
            if (!enter(n))
                return false;
            auto d  = depth++;
            bool ok = run_prod(*n.p, v, &s.sub[0]);
            depth   = d;
            return ok;
        }
        case K::prod:
            return run_prod(*n.p, v, &s.sub[0]);
        case K::alt:
            for (std::size_t i = 0; i != s.idx; ++i)
                cancel(*n.kids[i], s.sub[i]);
            return finish(*n.kids[s.idx], s.sub[s.idx], v);
        default:
            pbt::fail("not a branch");
        }
    }

    static void pack(const node& n, const vals& x, vals& v)
    {
        if (n.text.empty())
            return;
        // A single value that already has the type is kept as it is.
        if (x.size() == 1 && x[0].substr(0, 1) == "<")
        {
            v.push_back(x[0]);
            return;
        }
        std::string r;
        for (auto& i : x)
            r += (r.empty() ? "" : ",") + i;
        v.push_back("<" + r + ">");
    }

    //=== productions ===//
    bool no_ws_after = false;
    bool enter(const node& n)
    {
        if (depth >= max_depth)
        {
            error(n.text.empty() ? "maximum recursion depth exceeded" : n.text, pos, pos);
            return false;
        }
        return true;
    }
    bool run_prod(const prod_t& p, vals& v, const bstate* s)
    {
        bool skip_after = !no_ws_after;
        no_ws_after     = false;
        auto old_ws     = ws;
        if (p.ws)
            ws = p.ws.get();
        else if (p.token)
            ws = nullptr;
        auto begin = pos;
        stack.push_back({&p, begin});
        on(E::pstart, p.name, begin, begin, &p);
        vals args;
        bool ok    = true;
        auto scope = vars.size();
        if (p.ws && !s)
            ok = skip_ws();
        if (ok)
            ok = s ? finish(*p.rule, *s, args) : parse(*p.rule, args);
        returned = false;
        vars.resize(scope);
        on(ok ? E::pfinish : E::pcancel, p.name, pos, pos, &p);
        stack.pop_back();
        ws = old_ws;
        if (!ok)
            return false;
        if (!p.is_void)
            v.push_back(p.ex ? args.at(0) : prod_value(p, args));
        if (p.token && skip_after)
            return skip_ws();
        return true;
    }
    bool run_root(const prod_t& p, vals& v)
    {
        ws = p.ws ? p.ws.get() : nullptr;
        stack.push_back({&p, pos});
        on(E::pstart, p.name, pos, pos, &p);
        vals args;
        bool ok = skip_ws() && parse(*p.rule, args);
        on(ok ? E::pfinish : E::pcancel, p.name, pos, pos, &p);
        stack.pop_back();
        if (ok && !p.is_void)
            v.push_back(p.ex ? args.at(0) : prod_value(p, args));
        return ok;
    }

    //=== scanners ===//
    scan_env* env = nullptr;
    enum class scan_state
    {
        normal,
        failed,
        recovery
    };
    void scan_log(scan_state s, const std::string& what)
    {
        env->log.push_back(what + (s == scan_state::normal ? " ok @" : " not ok @") + std::to_string(pos) + (at_end() ? " EOF" : ""));
    }
    static std::string scanned(bool has, const vals& v, bool wrap)
    {
        if (!has)
            return "none";
        std::string r;
        for (auto& x : v)
            r += (r.empty() ? "" : ",") + x;
        return wrap ? "R(" + r + ")" : v.empty() ? "void" : r;
    }
    std::string scan_op(const node& n, std::size_t i, scan_state& st)
    {
        auto& kind   = n.lits[i];
        auto& rule   = *n.kids[i];
        bool  failed = st == scan_state::failed;
        bool  wrap   = kind != "capture" && kind != "prod" && kind != "prodbr" && kind != "integer" && kind != "capturep";
        vals  v;
        if (kind == "parsev" || kind == "parse" || kind == "prod" || kind == "capture" || kind == "capturep")
        {
            bool ok = !failed && parse(rule, v);
            if (!ok)
                st = scan_state::failed;
            return kind == "parsev" ? "parse" : "parse " + scanned(ok, v, wrap);
        }
        if (kind == "branchv" || kind == "branch" || kind == "prodbr")
        {
            if (failed)
                return "not taken" + std::string(kind == "branchv" ? "" : " none");
            auto s = tryb(rule);
            if (!s.ok)
            {
                cancel(rule, s);
                return "not taken" + std::string(kind == "branchv" ? "" : " none");
            }
            bool ok = finish(rule, s, v);
            if (!ok)
                st = scan_state::failed;
            return "taken" + (kind == "branchv" ? "" : " " + scanned(ok, v, wrap));
        }
        if (kind == "peek")
        {
            if (failed)
                return "peek no";
            std::size_t end;
            bool        ok = match(rule, pos, end);
            on(E::backtrack, "", pos, end);
            return ok ? "peek yes" : "peek no";
        }
        if (kind == "discard")
        {
            if (failed)
                return "discard no";
            std::size_t end;
            bool        ok = match(rule, pos, end);
            if (ok)
            {
                token("error token", pos, end);
                pos = end;
            }
            else
                token("error token", pos, pos);
            return ok ? "discard yes" : "discard no";
        }
        if (kind == "integer")
        {
            auto b  = pos;
            bool ok = !failed && token_parse(rule);
            auto e  = pos;
            unsigned long long x = 0;
            bool               over = false;
            if (ok)
            {
                for (auto k = b; k != e; ++k)
                {
                    x = x * 10 + (u[k] - '0');
                    if (x > 65535)
                    {
                        over = true;
                        x    = 0;
                    }
                }
                if (over)
                    error("integer overflow", b, e);
                ok = skip_ws();
            }
            if (!ok)
                st = scan_state::failed;
            return !ok ? "integer none" : over ? "integer overflow" : "integer " + std::to_string(x);
        }
        pbt::fail("unknown scanner operation " + kind);
    }
    void scan_error(unsigned which, std::size_t begin)
    {
        static const char* names[] = {"errA", "errB", "message", "other message"};
        auto               b       = which % 2 == 0 ? pos : begin;
        error(names[which % 4], b, pos);
    }
    void scan_steps(const node& n, const std::vector<scan_step>& steps, scan_state& st, std::size_t begin)
    {
        for (auto& s : steps)
        {
            step();
            switch (s.kind)
            {
            case scan_step::op: {
                auto what = scan_op(n, s.arg % n.kids.size(), st);
                scan_log(st, "op" + std::to_string(s.arg % n.kids.size()) + " " + what);
                break;
            }
            case scan_step::error:
            case scan_step::fatal:
                scan_error(s.arg, begin);
                if (s.kind == scan_step::fatal)
                    st = scan_state::failed;
                scan_log(st, "error");
                break;
            case scan_step::recover:
                if (st != scan_state::failed)
                {
                    scan_log(st, "not failed");
                    break;
                }
                on(E::rstart, "", pos, pos);
                st = scan_state::recovery;
                scan_log(st, "recovery");
                scan_steps(n, s.nested, st, begin);
                on(s.finish ? E::rfinish : E::rcancel, "", pos, pos);
                st = s.finish ? scan_state::normal : scan_state::failed;
                scan_log(st, s.finish ? "finished" : "cancelled");
                break;
            }
        }
    }
    bool scan(const node& n, vals& v)
    {
        auto c     = env->next();
        auto calls = std::to_string(env->calls);
        auto st    = scan_state::normal;
        scan_log(st, "scan " + calls + " depth " + std::to_string(depth));
        auto value = "S" + calls + "(" + scanned(true, v, true) + ")";
        v.clear();
        if (!c)
            return false;
        scan_steps(n, c->steps, st, pos);
        scan_log(st, "end");
        if (c->ret == 1 || (c->ret == 0 && st != scan_state::normal))
            return false;
        if (!n.n) // void
            v.push_back(value);
        return true;
    }

    //=== expressions ===//
    struct exstate
    {
        int group     = 0; // of the first operator that is in one
        int enclosing = 0; // operators whose right operand is being parsed
    };
    // What was parsed so far.
    struct exvalue
    {
        bool        has = false;
        std::string v;
        int         height = 0; // levels of operators in it
    };
    static bool lower_eq(std::uint32_t a, unsigned char b)
    {
        auto lo = [](std::uint32_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; };
        return lo(a) == lo(b);
    }
    bool op_at(const op_t& o) const
    {
        if (u.size() - pos < o.lit.size())
            return false;
        for (std::size_t i = 0; i != o.lit.size(); ++i)
        {
            auto c = static_cast<unsigned char>(o.lit[i]);
            if (o.fold ? !lower_eq(u[pos + i], c) : u[pos + i] != c)
                return false;
        }
        return o.not_follow.empty() || !cls(pos + o.lit.size(), o.not_follow);
    }
    struct found_op
    {
        const operation_t* operation = nullptr;
        const op_t*        op        = nullptr;
    };
    template <typename Pred>
    found_op find_op(const expr_t& e, Pred pred) const
    {
        found_op r;
        for (auto& operation : e.operations)
            if (pred(operation))
                for (auto& o : operation.ops)
                    if (op_at(o) && (!r.op || o.lit.size() > r.op->lit.size()))
                        r = {&operation, &o};
        return r;
    }
    static bool left_kind(O k)
    {
        return k == O::left || k == O::list || k == O::single;
    }
    // May the operation appear in an operand of this level? same: also left associative ones of that very level.
    static bool takes_part(const operation_t& o, int level, bool same)
    {
        return o.level > level || (o.level == level && (same || !left_kind(o.kind)));
    }
    bool ex_right(const prod_t& p, const operation_t& o, exstate& st, exvalue& x)
    {
        ++st.enclosing;
        bool ok = ex_parse(p, o.level, o.kind == O::right, st, x);
        --st.enclosing;
        return ok;
    }
    // Token, whitespace and the rest of the operator.
    bool ex_op(const op_t& o, vals& args)
    {
        auto b = pos;
        token("literal", pos, pos + o.lit.size());
        pos += o.lit.size();
        if (o.tag == "@")
            args.push_back("T@" + std::to_string(b));
        else if (!o.tag.empty())
            args.push_back(o.tag);
        if (!skip_ws())
            return false;
        for (auto& r : o.rest)
            if (!parse(*r, args))
                return false;
        return true;
    }
    // Applies the operator at the current position; x is the left operand and becomes the result.
    bool ex_apply(const prod_t& p, found_op f, exstate& st, exvalue& x)
    {
        auto& e    = *p.ex;
        auto& o    = *f.operation;
        auto  oend = pos + f.op->lit.size();
        if (st.enclosing + x.height >= e.max_nesting)
        {
            error(e.nesting_error, pos, oend);
            return false;
        }
        if (o.group != 0)
        {
            if (st.group == 0)
                st.group = o.group;
            else if (st.group != o.group)
                error(e.group_error, pos, oend);
        }
        vals args;
        if (!ex_op(*f.op, args))
            return false;
        auto value = [&](const exvalue* l, const exvalue* r) {
            vals all;
            if (l)
                all.push_back(l->v);
            all.insert(all.end(), args.begin(), args.end());
            if (r)
                all.push_back(r->v);
            return prod_value(p, all);
        };
        switch (o.kind)
        {
        case O::postfix:
            x.v = value(&x, nullptr);
            ++x.height;
            break;
        case O::prefix: {
            exvalue r;
            if (!ex_right(p, o, st, r))
            {
                x = r;
                return false;
            }
            x.has    = true;
            x.v      = value(nullptr, &r);
            x.height = r.height + 1;
            break;
        }
        case O::left:
        case O::right:
        case O::single: {
            exvalue r;
            if (!ex_right(p, o, st, r))
                return false;
            x.v      = value(&x, &r);
            x.height = std::max(x.height, r.height) + 1;
            if (o.kind == O::single)
            {
                auto n = find_op(e, [&](const operation_t& q) { return &q == &o; });
                if (n.op)
                    error(e.chain_error, pos, pos + n.op->lit.size());
            }
            break;
        }
        case O::list: {
            vals list;
            int  height = x.height;
            bool ok     = true;
            sink(list, {x.v});
            sink(list, args);
            while (true)
            {
                step();
                exvalue r;
                ok = ex_right(p, o, st, r);
                if (!ok)
                    break;
                height = std::max(height, r.height);
                sink(list, {r.v});
                auto n = find_op(e, [&](const operation_t& q) { return &q == &o; });
                if (!n.op)
                    break;
                vals more;
                ok = ex_op(*n.op, more);
                if (!ok)
                    break;
                sink(list, more);
            }
            x.v      = list_value(list);
            x.height = height + 1;
            if (!ok)
                return false;
            break;
        }
        }
        on(E::cop, o.name, pos, pos);
        return true;
    }
    bool ex_operand(const prod_t& p, int level, bool same, exstate& st, exvalue& x)
    {
        auto& e = *p.ex;
        auto  f = find_op(e, [&](const operation_t& o) { return o.kind == O::prefix && takes_part(o, level, same); });
        if (f.op)
        {
            on(E::cstart, "", pos, pos);
            bool ok = ex_apply(p, f, st, x);
            on(E::cfinish, "", pos, pos);
            return ok;
        }
        vals args;
        if (!parse(*e.atom, args))
            return false;
        x.has = true;
        x.v   = prod_value(p, args);
        return true;
    }
    bool ex_parse(const prod_t& p, int level, bool same, exstate& st, exvalue& x)
    {
        step();
        auto& e    = *p.ex;
        auto  post = [&](const operation_t& o) { return o.kind != O::prefix && takes_part(o, level, same); };
        bool  any  = false;
        for (auto& o : e.operations)
            any = any || post(o);
        if (any)
            on(E::cstart, "", pos, pos);
        bool ok = ex_operand(p, level, same, st, x);
        while (ok)
        {
            step();
            auto f = find_op(e, post);
            if (!f.op)
                break;
            ok = ex_apply(p, f, st, x);
        }
        if (any)
            on(E::cfinish, "", pos, pos);
        return ok;
    }
    bool run_expr(vals& v)
    {
        auto&   p = *stack.back().p;
        exstate st;
        exvalue x;
        ex_parse(p, p.ex->root_level, p.ex->root_left, st, x);
        if (!x.has)
            return false;
        v.push_back(x.v);
        return true;
    }

    static std::string lexeme(std::size_t b, std::size_t e)
    {
        return "[" + std::to_string(b) + "," + std::to_string(e) + ")";
    }
    static std::string join(const vals& v)
    {
        std::string r;
        for (auto& s : v)
            r += (r.empty() ? "" : ",") + s;
        return r;
    }
    static std::string prod_value(const prod_t& p, const vals& args)
    {
        if (p.agg)
        {
            // pairs of a member and its value; the last one counts
            std::string m[3] = {"-", "-", "-"};
            for (std::size_t i = 0; i + 1 < args.size(); i += 2)
                m[args[i].at(1) - 'a'] = args[i + 1];
            return p.name + "<" + m[0] + ";" + m[1] + ";" + m[2] + ">";
        }
        return p.name + "(" + join(args) + ")";
    }
    static void sink(vals& list, const vals& item)
    {
        if (!item.empty())
            list.push_back("(" + join(item) + ")");
    }
    // The sink of a production without value has no value.
    void push_list(vals& v, const vals& list)
    {
        if (stack.empty() || !stack.back().p->is_void)
            v.push_back(list_value(list));
    }
    static std::string list_value(const vals& list)
    {
        std::string r = "{";
        for (auto& s : list)
            r += s;
        return r + "}";
    }

    bool parse_nl()
    {
        static const node nl = *mk(K::nl, {}, "", {"\n", "\r\n"});
        return token_parse(nl) && skip_ws();
    }

    //=== rules ===//
    bool list_loop(const node& n, vals& list)
    {
        auto& item = *n.kids[0];
        while (true)
        {
            step();
            auto sep_begin = pos;
            if (n.sepkind)
            {
                auto s = tryb(*n.sep);
                if (!s.ok)
                {
                    cancel(*n.sep, s);
                    return true;
                }
                vals v;
                if (!finish(*n.sep, s, v))
                    return false;
                sink(list, v);
            }
            auto sep_end = pos;
            vals v;
            if (is_branch(item))
            {
                auto s = tryb(item);
                if (!s.ok)
                {
                    cancel(item, s);
                    if (n.sepkind == 1)
                        error(n.text.empty() ? "unexpected trailing separator" : n.text, sep_begin, sep_end);
                    return true;
                }
                if (!finish(item, s, v))
                    return false;
            }
            else if (!parse(item, v))
                return false;
            sink(list, v);
        }
    }
    // kids: item; extra: terminator; lits: limit
    bool term_list(const node& n, vals& v)
    {
        auto& item = *n.kids[0];
        auto& term = *n.extra;
        enum
        {
            st_term,
            st_sep,
            st_check,
            st_item,
            st_recover
        } state;
        vals   list;
        bstate ts;
        {
            vals iv;
            auto d  = depth;
            bool en = ws_enabled;
            bool ok = parse(item, iv);
            if (ok)
                sink(list, iv);
            depth      = d;
            ws_enabled = en;
            state      = ok ? st_term : st_recover;
        }
        auto        d0      = depth;
        bool        en0     = ws_enabled;
        std::size_t sep_pos = pos;
        bool        done    = false;
        while (!done)
        {
            step();
            depth      = d0;
            ws_enabled = en0;
            vals iv;
            switch (state)
            {
            case st_term:
                ts = tryb(term);
                if (ts.ok)
                {
                    done = true;
                    break;
                }
                cancel(term, ts);
                state = st_sep;
                break;
            case st_sep:
                if (!n.sepkind)
                {
                    state = st_item;
                    break;
                }
                sep_pos = pos;
                if (parse(*n.sep, iv))
                {
                    sink(list, iv);
                    state = st_check;
                }
                else if (pos == sep_pos && is_branch(item))
                {
                    auto s = tryb(item);
                    iv.clear();
                    if (s.ok && finish(item, s, iv))
                    {
                        sink(list, iv);
                        state = st_term;
                    }
                    else
                    {
                        if (!s.ok)
                            cancel(item, s);
                        state = st_recover;
                    }
                }
                else
                    state = st_recover;
                break;
            case st_check:
                ts = tryb(term);
                if (ts.ok)
                {
                    if (n.sepkind == 1)
                        error(n.text.empty() ? "unexpected trailing separator" : n.text, sep_pos, pos);
                    done = true;
                }
                else
                {
                    cancel(term, ts);
                    state = st_item;
                }
                break;
            case st_item:
                if (parse(item, iv))
                {
                    sink(list, iv);
                    state = st_term;
                }
                else
                    state = st_recover;
                break;
            case st_recover: {
                auto begin = pos;
                on(E::rstart, "", begin, begin);
                while (true)
                {
                    step();
                    const node* b = n.sepkind ? n.sep.get() : is_branch(item) ? &item : nullptr;
                    if (b)
                    {
                        sep_pos = pos;
                        auto s  = tryb(*b);
                        if (s.ok)
                        {
                            token("error token", begin, pos);
                            on(E::rfinish, "", pos, pos);
                            iv.clear();
                            if (finish(*b, s, iv))
                            {
                                sink(list, iv);
                                state = n.sepkind ? st_check : st_term;
                            }
                            else
                                state = st_recover;
                            break;
                        }
                        cancel(*b, s);
                    }
                    ts = tryb(term);
                    if (ts.ok)
                    {
                        token("error token", begin, pos);
                        on(E::rfinish, "", pos, pos);
                        done = true;
                        break;
                    }
                    cancel(term, ts);
                    if (longest(pos, n.lits) != std::size_t(-1) || at_end())
                    {
                        token("error token", begin, pos);
                        on(E::rcancel, "", pos, pos);
                        return false;
                    }
                    ++pos;
                }
                break;
            }
            }
        }
        push_list(v, list);
        return finish(term, ts, v);
    }
    bool do_find(const node& n)
    {
        auto begin = pos;
        on(E::rstart, "", begin, begin);
        while (true)
        {
            auto a = longest(pos, n.lits), b = longest(pos, n.lits2);
            auto none = std::size_t(-1);
            if (a != none && (b == none || a > b))
            {
                token("error token", begin, pos);
                on(E::rfinish, "", pos, pos);
                return true;
            }
            if (b != none || at_end())
            {
                token("error token", begin, pos);
                on(E::rcancel, "", pos, pos);
                return false;
            }
            ++pos;
        }
    }
    // kids: branches, lits: limits
    bool do_reco(const std::vector<N>& branches, const std::vector<std::string>& limit, vals& v)
    {
        auto begin = pos;
        on(E::rstart, "", begin, begin);
        while (true)
        {
            step();
            std::vector<bstate> st;
            std::size_t         hit = branches.size();
            for (std::size_t i = 0; i != branches.size(); ++i)
            {
                st.push_back(tryb(*branches[i]));
                if (st.back().ok)
                {
                    hit = i;
                    break;
                }
            }
            if (hit != branches.size())
            {
                token("error token", begin, pos);
                on(E::rfinish, "", pos, pos);
                for (std::size_t i = 0; i != hit; ++i)
                    cancel(*branches[i], st[i]);
                return finish(*branches[hit], st[hit], v);
            }
            for (std::size_t i = 0; i != st.size(); ++i)
                cancel(*branches[i], st[i]);
            if (longest(pos, limit) != std::size_t(-1) || at_end())
            {
                token("error token", begin, pos);
                on(E::rcancel, "", pos, pos);
                return false;
            }
            ++pos;
        }
    }
    bool recover(const N& r, vals& v)
    {
        if (r && r->k == K::find)
            return do_find(*r);
        if (r && r->k == K::reco)
            return do_reco(r->kids, r->lits, v);
        on(E::rstart, "", pos, pos);
        if (r && !parse(*r, v))
        {
            on(E::rcancel, "", pos, pos);
            return false;
        }
        if (!skip_ws())
        {
            on(E::rcancel, "", pos, pos);
            return false;
        }
        on(E::rfinish, "", pos, pos);
        return true;
    }
    bool trailing(const node& n, vals& v)
    {
        if (n.sepkind == 1 || n.sepkind == 2)
        {
            auto b = pos;
            auto s = tryb(*n.sep);
            if (!s.ok)
            {
                cancel(*n.sep, s);
                return true;
            }
            if (!finish(*n.sep, s, v))
                return false;
            if (n.sepkind == 1)
                error(n.text.empty() ? "unexpected trailing separator" : n.text, b, pos);
        }
        return true;
    }
    // items of times/repeat; values to v or to a sink
    bool repeat_items(const node& n, std::size_t count, vals& v, vals* list)
    {
        auto one = [&](const node& x) {
            vals iv;
            if (!parse(x, list ? iv : v))
                return false;
            if (list)
                sink(*list, iv);
            return true;
        };
        if (count == 0)
            return true;
        for (std::size_t i = 0; i != count; ++i)
        {
            step();
            if (i != 0 && n.sepkind && !one(*n.sep))
                return false;
            if (!one(*n.kids[0]))
                return false;
        }
        if (!n.sepkind)
            return true;
        vals iv;
        if (!trailing(n, list ? iv : v))
            return false;
        if (list)
            sink(*list, iv);
        return true;
    }

    bool parse(const node& n, vals& v)
    {
        step();
        if (is_token(n))
            return token_parse(n) && skip_ws();
        switch (n.k)
        {
        case K::scan:
            return scan(n, v);
        case K::eof:
            if (at_end())
                token("EOF", pos, pos);
            else
                error("expected EOF", pos, pos);
            return true;
        case K::eol:
            if (at_end())
            {
                token("EOF", pos, pos);
                return true;
            }
            return parse_nl();
        case K::peek:
        case K::look: {
            auto s = tryb(n);
            if (!s.ok)
                error(!n.text.empty() ? n.text : n.k == K::peek ? "peek failure" : "lookahead failure", s.begin, s.end);
            on(E::backtrack, "", s.begin, s.end);
            return true;
        }
        case K::peekn: {
            auto s = tryb(n);
            if (!s.ok)
            {
                error(n.text.empty() ? "unexpected" : n.text, s.begin, s.end);
                on(E::rstart, "", s.begin, s.begin);
                token("error token", s.begin, s.end);
                on(E::rfinish, "", s.end, s.end);
                pos = s.end;
            }
            else
                on(E::backtrack, "", s.begin, s.end);
            return true;
        }
        case K::cap: {
            auto b = pos;
            if (!token_parse(*n.kids[0]))
                return false;
            v.push_back(lexeme(b, pos));
            return skip_ws();
        }
        case K::ident: {
            static const node pat = *mk(K::idpat);
            auto              b   = pos;
            if (!token_parse(pat))
                return false;
            if (reserved(n, b, pos))
                error("reserved identifier", b, pos);
            v.push_back(lexeme(b, pos));
            return skip_ws();
        }
        case K::capp: {
            auto at     = v.size();
            auto b      = pos;
            no_ws_after = true;
            if (!parse(*n.kids[0], v))
                return false;
            v.insert(v.begin() + std::ptrdiff_t(at), lexeme(b, pos));
            return skip_ws();
        }
        case K::pos:
            token("position", pos, pos);
            v.push_back("@" + std::to_string(pos));
            return true;
        case K::posr:
            token("position", pos, pos);
            v.push_back("@" + std::to_string(pos));
            return parse(*n.kids[0], v);
        case K::prod:
            return run_prod(*n.p, v, nullptr);
        case K::rec: {
            if (!enter(n))
                return false;
            auto d  = depth++;
            bool ok = run_prod(*n.p, v, nullptr);
            depth   = d;
            return ok;
        }
        case K::err: {
            auto end = pos;
            if (!n.kids.empty())
            {
                interp sub(u);
                sub.pos       = pos;
                sub.mode      = match_mode();
                sub.max_depth = 0;
                vals sv;
                sub.parse(*n.kids[0], sv);
                end = sub.pos;
                steps += sub.steps;
            }
            error(n.text, pos, end);
            return false;
        }
        case K::must: {
            auto s = tryb(*n.kids[0]);
            if (s.ok)
                return finish(*n.kids[0], s, v);
            cancel(*n.kids[0], s);
            vals dummy;
            parse(*n.extra, dummy);
            return false;
        }
        case K::els:
            return true;
        case K::brk:
            broke = true;
            return true;
        case K::ret:
            returned = true;
            return true;
        case K::seq:
        case K::br:
            return rest(n, 0, v);
        case K::alt: {
            for (auto& k : n.kids)
            {
                auto s = tryb(*k);
                if (s.ok)
                    return finish(*k, s, v);
                cancel(*k, s);
            }
            error("exhausted choice", pos, pos);
            return false;
        }
        case K::opt:
        case K::ift: {
            auto s = tryb(*n.kids[0]);
            if (s.ok)
                return finish(*n.kids[0], s, v);
            cancel(*n.kids[0], s);
            if (n.k == K::opt)
                v.push_back("none");
            return true;
        }
        case K::whl:
            while (true)
            {
                auto s = tryb(*n.kids[0]);
                if (!s.ok)
                {
                    cancel(*n.kids[0], s);
                    return true;
                }
                vals w;
                if (!finish(*n.kids[0], s, w))
                    return false;
            }
        case K::loop:
            while (true)
            {
                vals w;
                if (!parse(*n.kids[0], w))
                    return false;
                if (broke)
                {
                    broke = false;
                    return true;
                }
            }
        case K::list: {
            vals list, item;
            if (!parse(*n.kids[0], item))
                return false;
            sink(list, item);
            if (!list_loop(n, list))
                return false;
            push_list(v, list);
            return true;
        }
        case K::tryr:
        case K::term_try: {
            auto at = v.size();
            auto d  = depth;
            bool en = ws_enabled;
            if (parse(*n.kids[0], v))
                return n.k == K::tryr ? true : parse(*n.extra, v);
            v.resize(at);
            depth      = d;
            ws_enabled = en;
            if (n.k == K::tryr)
                return recover(n.extra, v);
            return do_reco({n.extra}, n.lits, v);
        }
        case K::term_opt:
        case K::term_optlist: {
            auto s = tryb(*n.extra);
            if (s.ok)
            {
                v.push_back("none");
                return finish(*n.extra, s, v);
            }
            cancel(*n.extra, s);
            auto c = n;
            c.k    = n.k == K::term_opt ? K::term_try : K::term_list;
            return parse(c, v);
        }
        case K::term_list:
            return term_list(n, v);
        case K::times:
            return repeat_items(n, std::size_t(n.n), v, nullptr);
        case K::repeat:
        case K::rep_list:
        case K::rep_cap: {
            auto b = pos;
            if (!token_parse(*n.extra))
                return false;
            std::size_t count = 0;
            for (auto i = b; i != pos; ++i)
            {
                count = count * 10 + (u[i] - '0');
                if (count > 1000000)
                    throw budget_exceeded{};
            }
            if (!skip_ws())
                return false;
            auto start = pos;
            vals list;
            if (!repeat_items(n, count, v, n.k == K::rep_list ? &list : nullptr))
                return false;
            if (n.k == K::rep_list)
                push_list(v, list);
            else if (n.k == K::rep_cap)
                v.push_back(lexeme(start, pos));
            return true;
        }
        case K::pas: {
            vals x;
            if (!parse(*n.kids[0], x))
                return false;
            pack(n, x, v);
            return true;
        }
        case K::subg: {
            // Like a parse of its own: it starts with its own whitespace, and does not see variables.
            auto old_ws = ws;
            bool ok     = run_root(*n.p, v);
            returned    = false;
            ws          = old_ws;
            return ok;
        }
        case K::nows: {
            bool old   = ws_enabled;
            ws_enabled = false;
            bool ok    = parse(*n.kids[0], v);
            ws_enabled = old;
            return ok && skip_ws();
        }
        case K::ws:
            return skip_ws_of(n.kids[0].get());
        case K::nullopt:
            v.push_back("none");
            return true;
        case K::dbg:
            on(E::debug, n.text, pos, pos);
            return true;
        case K::ccreate:
            vars.push_back({n.text, n.n, 0, 0});
            return true;
        case K::cadd:
            var(n.text).value += n.n;
            return true;
        case K::cpush: {
            auto b = pos;
            if (!parse(*n.kids[0], v))
                return false;
            var(n.text).value += n.n * long(pos - b);
            return true;
        }
        case K::cis:
            return true;
        case K::cvalue:
            v.push_back(std::to_string(var(n.text).value));
            return true;
        case K::ceq:
            if (!equal_counts(n))
                error("unequal counts", pos, pos);
            return true;
        case K::fset:
            var(n.text).value = n.n == 2 ? !var(n.text).value : n.n;
            return true;
        case K::icap:
        case K::irem: {
            static const node pattern = *mk(K::idpat);
            auto              b       = pos;
            if (!token_parse(pattern))
                return false;
            auto e = pos;
            if (n.k == K::icap)
                v.push_back(lexeme(b, e));
            if (!skip_ws())
                return false;
            if (n.k == K::icap)
            {
                var(n.text).b = b;
                var(n.text).e = e;
            }
            else if (!same_identifier(n.text, b, e))
                error(n.lits.empty() ? "different identifier" : n.lits[0], b, e);
            return true;
        }
        case K::comb: {
            vals              list;
            std::vector<bool> handled(n.kids.size());
            for (std::size_t count = 0; count < n.kids.size();)
            {
                step();
                auto                begin = pos;
                std::vector<bstate> st;
                std::size_t         hit = n.kids.size();
                for (std::size_t i = 0; i != n.kids.size() && hit == n.kids.size(); ++i)
                {
                    st.push_back(tryb(*n.kids[i]));
                    if (st.back().ok)
                        hit = i;
                }
                for (std::size_t i = 0; i != st.size() && i != hit; ++i)
                    cancel(*n.kids[i], st[i]);
                if (hit == n.kids.size())
                {
                    if (n.n)
                        break;
                    error(n.lits.empty() ? "exhausted choice" : n.lits[0], pos, pos);
                    return false;
                }
                vals iv;
                if (!finish(*n.kids[hit], st[hit], iv))
                    return false;
                if (handled[hit])
                    error(n.text.empty() ? "combination duplicate" : n.text, begin, pos);
                else
                {
                    handled[hit] = true;
                    ++count;
                    if (stack.back().p->agg)
                        v.insert(v.end(), iv.begin(), iv.end());
                    else
                        sink(list, iv);
                }
            }
            if (!stack.back().p->agg)
                push_list(v, list);
            return true;
        }
        case K::flags: {
            auto result = n.n;
            while (true)
            {
                step();
                std::size_t best = n.lits.size();
                for (std::size_t i = 0; i != n.lits.size(); ++i)
                    if (has(pos, n.lits[i]) && (best == n.lits.size() || n.lits[i].size() > n.lits[best].size()))
                        best = i;
                if (best == n.lits.size())
                    break;
                auto begin = pos;
                token("identifier", pos, pos + n.lits[best].size());
                pos += n.lits[best].size();
                if (!skip_ws())
                    return false;
                auto f = std::stoi(n.lits2[best]);
                if ((result & f) != 0)
                    error(n.text.empty() ? "duplicate flag" : n.text, begin, pos);
                result |= f;
            }
            v.push_back("#" + std::to_string(result));
            return true;
        }
        case K::flag: {
            auto s = tryb(*n.kids[0]);
            v.push_back(n.lits[s.ok ? 0 : 1]);
            if (s.ok)
                return finish(*n.kids[0], s, v);
            cancel(*n.kids[0], s);
            return true;
        }
        case K::mem:
            v.push_back("&" + n.text);
            return parse(*n.kids[0], v);
        case K::expr:
            return run_expr(v);
        default:
            pbt::fail("rule not supported by the reference");
        }
    }
};

struct outcome
{
    bool                     ok = false; // parsing reached the end
    std::string              value;
    bool                     has_value = false;
    std::vector<std::string> errors;
    std::vector<event>       events;
    std::size_t              end = 0;
    bool                     success() const
    {
        return ok && errors.empty();
    }
};
inline outcome run(const grammar& g, const units& u, scan_env* env = nullptr, const prod_t* control = nullptr)
{
    interp i(u);
    i.max_depth = g.max_depth;
    i.env       = env;
    vals    v;
    outcome o;
    if (control)
    {
        // lexy::scan()
        i.max_depth      = g.control_depth;
        i.ws             = control->ws.get();
        i.stack.push_back({control, 0});
        auto st = interp::scan_state::normal;
        auto c  = env->next();
        i.scan_steps(*control->rule, c->steps, st, 0);
        i.scan_log(st, "end");
        o.ok = st == interp::scan_state::normal;
    }
    else
        o.ok = i.run_root(*g.root, v);
    o.end = i.pos;
    if (o.ok && !v.empty())
    {
        o.value     = v[0];
        o.has_value = true;
    }
    o.events = std::move(i.events);
    for (auto& e : o.events)
        if (e.e == E::error)
            o.errors.push_back(e.text);
    return o;
}

//=== the tree described by the events ===//
struct tnode
{
    std::string        text; // production name or token kind
    bool               token = false;
    std::size_t        b = 0, e = 0;
    std::vector<tnode> kids;
};
inline void add_token(tnode& parent, const std::string& kind, std::size_t b, std::size_t e)
{
    if (b == e && (kind == "token" || kind == "error token" || kind == "whitespace"))
        return;
    if (kind == "error token" && !parent.kids.empty() && parent.kids.back().token && parent.kids.back().text == "error token")
    {
        parent.kids.back().e = e;
        return;
    }
    tnode t;
    t.token = true;
    t.text  = kind;
    t.b     = b;
    t.e     = e;
    parent.kids.push_back(t);
}
inline tnode tree_of(const outcome& o)
{
    struct fr
    {
        tnode       n;
        bool        transparent;
        std::size_t begin, at;
        std::vector<std::size_t> chains; // where the open operation chains start
    };
    std::vector<fr> st;
    tnode           root;
    for (auto& ev : o.events)
    {
        auto active = [&]() -> tnode& {
            auto i = st.size() - 1;
            while (st[i].transparent && i != 0)
                --i;
            return st[i].n;
        };
        switch (ev.e)
        {
        case E::pstart: {
            std::size_t at = 0;
            if (!st.empty())
                at = active().kids.size();
            fr f;
            f.n.text      = ev.p->name;
            f.transparent = ev.p->transparent && !st.empty();
            f.begin       = ev.b;
            f.at          = at;
            st.push_back(f);
            break;
        }
        case E::pfinish: {
            if (active().kids.empty())
                add_token(active(), "position", st.back().begin, st.back().begin);
            if (st.size() == 1)
            {
                root = st[0].n;
                st.pop_back();
                break;
            }
            auto f = std::move(st.back());
            st.pop_back();
            if (!f.transparent)
            {
                auto i = st.size() - 1;
                while (st[i].transparent && i != 0)
                    --i;
                st[i].n.kids.push_back(std::move(f.n));
            }
            break;
        }
        case E::pcancel: {
            if (st.size() == 1)
            {
                st.pop_back();
                break;
            }
            auto f = std::move(st.back());
            st.pop_back();
            auto i = st.size() - 1;
            while (st[i].transparent && i != 0)
                --i;
            if (f.transparent)
                st[i].n.kids.resize(f.at);
            add_token(st[i].n, "error token", f.begin, ev.b);
            break;
        }
        case E::token:
            add_token(active(), ev.text, ev.b, ev.end);
            break;
        case E::cstart:
            st.back().chains.push_back(active().kids.size());
            break;
        case E::cop: {
            auto& kids = active().kids;
            auto  from = kids.begin() + std::ptrdiff_t(st.back().chains.back());
            tnode n;
            n.text = ev.text;
            n.kids.assign(std::make_move_iterator(from), std::make_move_iterator(kids.end()));
            kids.erase(from, kids.end());
            kids.push_back(std::move(n));
            break;
        }
        case E::cfinish:
            st.back().chains.pop_back();
            break;
        default:
            break;
        }
    }
    return root;
}
inline void show_tree(const tnode& t, std::string& s)
{
    if (t.token)
    {
        s += t.text + "[" + std::to_string(t.b) + "," + std::to_string(t.e) + ") ";
        return;
    }
    s += t.text + "{ ";
    for (auto& k : t.kids)
        show_tree(k, s);
    s += "} ";
}

//=== texts of the language ===//
struct deriver
{
    pbt::gen&   g;
    units       out;
    int         budget = 120;
    int         deep = 0; // recursions still to be nested
    bool        spaces, chained = false;
    const node* ws = nullptr;
    std::map<std::string, units> idents; // captured last
    std::vector<std::size_t> gaps; // positions after tokens (where whitespace may be)

    const scan_program* prog  = nullptr;
    std::size_t         calls = 0;

    explicit deriver(pbt::gen& g, bool spaces) : g(g), spaces(spaces) {}
    void scan_steps(const node& n, const std::vector<scan_step>& steps)
    {
        for (auto& s : steps)
            if (s.kind == scan_step::op)
            {
                auto i = s.arg % n.kids.size();
                if (n.lits[i] == "branchv" || n.lits[i] == "branch" || n.lits[i] == "prodbr" ? g.chance(2, 3) : n.lits[i] == "peek" ? g.chance(1, 3) : g.chance(14, 15))
                {
                    rule(*n.kids[i]);
                    if (n.lits[i] == "integer" && g.chance(1, 4))
                        put("99999");
                    if (n.lits[i] == "integer")
                        gap();
                }
            }
            else if (s.kind == scan_step::recover && g.chance(1, 3))
                scan_steps(n, s.nested);
    }
    void scan(const node& n)
    {
        if (++calls < 60 && budget > -200)
            scan_steps(n, (*prog)[(calls - 1) % prog->size()].steps);
    }
    void put(const std::string& s)
    {
        for (unsigned char c : s)
            out.push_back(c);
    }
    char cls_char(const std::string& c)
    {
        if (c == "ASCII.digit" || c == "digit.decimal")
            return char('0' + g.below(10));
        if (c == "ASCII.alpha" || c == "ASCII.lower")
            return "abcxyzief"[g.below(9)];
        if (c == "ASCII.upper")
            return "ABXY"[g.below(4)];
        if (c == "ASCII.alpha-digit")
            return "abx019A"[g.below(7)];
        if (c == "ASCII.space")
            return " \n\t\r"[g.below(4)];
        if (c == "ASCII.blank")
            return " \t"[g.below(2)];
        return "+-*,;()[]=.#"[g.below(12)];
    }
    void gap()
    {
        gaps.push_back(out.size());
        if (spaces && g.chance(1, 3))
            put(g.pick(std::vector<std::string>{" ", "  ", "\n", "\t ", "\t", "\t\t\n", "\t        ", "#c;", "/*c*/", " #;", "         ", "          \n  "}));
    }
    void token(const node& n)
    {
        switch (n.k)
        {
        case K::lit:
        case K::kw:
            put(n.text);
            break;
        case K::nfollow:
            put(n.text);
            if (n.n)
                out.push_back(static_cast<unsigned char>(cls_char(n.lits[0])));
            break;
        case K::cls:
            out.push_back(static_cast<unsigned char>(cls_char(n.text)));
            break;
        case K::any:
            put(g.boolean() ? "" : "ab");
            break;
        case K::lset:
        case K::nl:
            put(g.pick(n.lits));
            break;
        case K::idpat:
            ident();
            break;
        case K::digits:
            for (auto i = g.below(3) + 1; i != 0; --i)
                out.push_back('0' + std::uint32_t(g.below(10)));
            break;
        case K::until:
        case K::until_eof:
            for (auto i = g.below(4); i != 0; --i)
                out.push_back("ab (*"[g.below(5)]);
            if (n.k == K::until || g.chance(3, 4))
                token(*n.kids[0]);
            break;
        case K::tok:
        case K::terr:
        case K::tkind: {
            bool old = spaces;
            spaces   = false;
            rule(*n.kids[0]);
            spaces = old;
            break;
        }
        default:
            break;
        }
    }
    void ident()
    {
        out.push_back("abcxyzie"[g.below(8)]);
        for (auto i = g.below(3); i != 0; --i)
            out.push_back("abfx01"[g.below(6)]);
    }
    void rule(const node& n)
    {
        if (n.k == K::scan)
            return scan(n);
        if (--budget < -400 && deep == 0)
            return;
        if (deep > 0)
        {
            // Go for the recursion.
            switch (n.k)
            {
            case K::alt:
                for (auto& k : n.kids)
                    if (has_rec(*k) && (&k == &n.kids.back() || g.chance(2, 3)))
                    {
                        rule(*k);
                        return;
                    }
                break;
            case K::opt:
            case K::ift:
            case K::whl:
                if (has_rec(*n.kids[0]))
                {
                    rule(*n.kids[0]);
                    return;
                }
                break;
            case K::term_optlist:
                if (has_rec(*n.kids[0]))
                {
                    rule(*n.kids[0]);
                    rule(*n.extra);
                    return;
                }
                break;
            default:
                break;
            }
        }
        if (is_token(n))
        {
            token(n);
            gap();
            return;
        }
        switch (n.k)
        {
        case K::cap:
            token(*n.kids[0]);
            gap();
            break;
        case K::ident:
            if (!n.lits.empty() && g.chance(1, 6))
                put(g.pick(n.lits));
            else
                ident();
            gap();
            break;
        case K::eol:
            put("\n");
            gap();
            break;
        case K::capp:
        case K::posr:
        case K::must:
        case K::pas:
        case K::tryr:
        case K::cpush:
        case K::mem:
            rule(*n.kids[0]);
            break;
        case K::icap:
        case K::irem: {
            auto& last = idents[n.text];
            auto  at   = out.size();
            if (n.k == K::irem && !last.empty() && g.chance(3, 4))
            {
                auto l = last;
                out.insert(out.end(), l.begin(), l.end());
                if (g.chance(1, 8))
                    out.push_back('a');
            }
            else
                ident();
            if (n.k == K::icap)
                last.assign(out.begin() + std::ptrdiff_t(at), out.end());
            gap();
            break;
        }
        case K::comb: {
            // each of them, in any order, some left out or repeated
            std::vector<std::size_t> order;
            for (std::size_t i = 0; i != n.kids.size(); ++i)
                if (!g.chance(1, n.n ? 3 : 12))
                    order.insert(order.begin() + std::ptrdiff_t(g.below(order.size() + 1)), i);
            for (auto c = g.chance(1, 4) ? g.below(3) + 1 : 0; c != 0; --c)
                order.insert(order.begin() + std::ptrdiff_t(g.below(order.size() + 1)), g.below(n.kids.size()));
            for (auto i : order)
                rule(*n.kids[i]);
            break;
        }
        case K::flags:
            for (auto c = g.below(5); c != 0; --c)
            {
                put(g.pick(n.lits));
                gap();
            }
            break;
        case K::flag:
            if (g.boolean())
                rule(*n.kids[0]);
            break;
        case K::nows: {
            bool old = spaces;
            spaces   = false;
            rule(*n.kids[0]);
            spaces = old;
            gap();
            break;
        }
        case K::rec:
            if (deep > 0)
                --deep;
            production(*n.p);
            break;
        case K::prod:
        case K::subg:
            production(*n.p);
            break;
        case K::seq:
        case K::br:
            for (auto& k : n.kids)
                rule(*k);
            break;
        case K::alt: {
            auto& k = n.kids[g.below(n.kids.size())];
            rule(budget < 0 ? *n.kids.back() : *k);
            break;
        }
        case K::opt:
        case K::ift:
            if (budget > 0 && g.boolean())
                rule(*n.kids[0]);
            break;
        case K::whl:
            for (auto i = budget > 0 ? g.below(4) : 0; i != 0; --i)
                rule(*n.kids[0]);
            break;
        case K::loop:
            for (auto i = budget > 0 ? g.below(4) : 0; i != 0; --i)
                rule(*n.kids[0]);
            rule(*n.kids[0]->kids.back());
            break;
        case K::list:
        case K::term_list:
        case K::term_optlist: {
            auto c = budget > 0 ? g.below(4) : 0;
            if (n.k != K::term_optlist || c != 0)
            {
                rule(*n.kids[0]);
                for (; c > 0; --c)
                {
                    if (n.sepkind)
                        rule(*n.sep);
                    rule(*n.kids[0]);
                }
                if (n.sepkind && g.chance(1, 4))
                    rule(*n.sep);
            }
            if (n.k != K::list)
                rule(*n.extra);
            break;
        }
        case K::term_try:
            rule(*n.kids[0]);
            rule(*n.extra);
            break;
        case K::term_opt:
            if (g.boolean())
                rule(*n.kids[0]);
            rule(*n.extra);
            break;
        case K::times:
        case K::repeat:
        case K::rep_list:
        case K::rep_cap: {
            auto c = std::size_t(n.n);
            if (n.k != K::times)
            {
                c = g.below(4);
                out.push_back('0' + std::uint32_t(c));
                gap();
            }
            for (std::size_t i = 0; i != c; ++i)
            {
                if (i && n.sepkind)
                    rule(*n.sep);
                rule(*n.kids[0]);
            }
            if (n.sepkind && g.chance(1, 4))
                rule(*n.sep);
            break;
        }
        case K::ws:
            if (g.boolean())
                put(" ");
            break;
        default:
            break;
        }
    }
    void put_op(const operation_t& o)
    {
        auto& op = o.ops[g.below(o.ops.size())];
        for (unsigned char c : op.lit)
            out.push_back(op.fold && g.chance(1, 3) && c >= 'a' && c <= 'z' ? std::uint32_t(c - 32) : c);
        gap();
        for (auto& r : op.rest)
            rule(*r);
    }
    void expression(const expr_t& e)
    {
        std::vector<const operation_t*> pre, in, post;
        for (auto& o : e.operations)
            if (o.level >= e.root_level || g.chance(1, 8))
                (o.kind == O::prefix ? pre : o.kind == O::postfix ? post : in).push_back(&o);
        // Mostly few operators, sometimes a chain around the nesting limit.
        auto n = budget > 0 ? g.below(g.chance(1, 3) ? 8 : 4) : 0;
        const operation_t* fixed = nullptr;
        if (!chained && budget > 80 && g.chance(1, 30))
        {
            n = std::size_t(e.max_nesting) + g.below(6);
            n = n > 3 ? n - 3 : n;
            if (g.boolean() && !e.operations.empty())
                fixed = &e.operations[g.below(e.operations.size())];
            budget += int(4 * n);
            chained = true;
        }
        std::size_t since = 0;
        for (std::size_t i = 0;; ++i)
        {
            while (!pre.empty() && (fixed ? fixed->kind == O::prefix && i < n : g.chance(1, 4)))
            {
                put_op(fixed ? *fixed : *pre[g.below(pre.size())]);
                ++i;
            }
            rule(*e.atom);
            while (!post.empty() && (fixed ? fixed->kind == O::postfix && i < n : g.chance(1, 4)))
            {
                put_op(fixed ? *fixed : *post[g.below(post.size())]);
                ++i;
            }
            if (i >= n || in.empty())
                break;
            put_op(fixed && left_or_right(*fixed) ? *fixed : *in[g.below(in.size())]);
            if (++since > 400)
                break;
        }
    }
    static bool left_or_right(const operation_t& o)
    {
        return o.kind != O::prefix && o.kind != O::postfix;
    }
    // Does it contain a recursion?
    std::map<const void*, bool> recursive;
    bool                        has_rec(const node& n)
    {
        if (n.k == K::rec)
            return true;
        if (auto it = recursive.find(&n); it != recursive.end())
            return it->second;
        recursive[&n] = false;
        bool r        = (n.k == K::prod || n.k == K::subg) && n.p->rule && has_rec(*n.p->rule);
        for (auto& k : n.kids)
            r = r || has_rec(*k);
        return recursive[&n] = r;
    }
    void production(const prod_t& p)
    {
        bool old = spaces;
        if (p.token)
            spaces = false;
        if (budget > -100 || deep > 0)
        {
            if (p.ex)
                expression(*p.ex);
            else
                rule(*p.rule);
        }
        spaces = old;
        if (p.token)
            gap();
    }
};
// Collects the literals of a grammar, to splice into texts.
inline void collect(const node& n, std::vector<std::string>& out)
{
    if (!n.text.empty() && n.k <= K::nfollow && n.k != K::cls)
        out.push_back(n.text);
    if (n.k < K::ccreate || n.k == K::flags)
        for (auto& l : n.lits)
            out.push_back(l);
    if (n.k < K::ccreate)
        for (auto& l : n.lits2)
            out.push_back(l);
    for (auto& k : n.kids)
        collect(*k, out);
    if (n.sep)
        collect(*n.sep, out);
    if (n.extra)
        collect(*n.extra, out);
}
inline units gen_text(pbt::gen& g, const grammar& gr, bool allow_non_ascii = true, const scan_program* prog = nullptr, const node* start = nullptr)
{
    bool has_ws = false;
    std::vector<std::string> lits;
    for (auto& p : gr.prods)
    {
        if (p->ws)
            has_ws = true;
        if (p->ex)
        {
            for (auto& o : p->ex->operations)
                for (auto& op : o.ops)
                {
                    lits.push_back(op.lit);
                    for (auto& r : op.rest)
                        collect(*r, lits);
                }
            collect(*p->ex->atom, lits);
        }
        else
            collect(*p->rule, lits);
    }
    for (auto x : {"a", "b", "0", "1", " ", ",", ";", ")", "(", "]", "\n", "x", "#", "if"})
        lits.push_back(x);
    units u;
    if (g.chance(1, 12))
    {
        for (auto n = g.size(20); n != 0; --n)
            for (unsigned char c : g.pick(lits))
                u.push_back(c);
    }
    else
    {
        deriver d(g, has_ws && g.chance(3, 4));
        if (d.spaces)
            d.gap();
        if (gr.max_len > 400 && g.chance(1, 2))
        {
            // nesting around the limit, or just deep or wide
            d.deep = g.chance(2, 3) ? std::max(1, gr.max_depth - 2 + int(g.below(5))) : int(g.below(std::size_t(gr.max_depth) + 2));
            if (g.chance(1, 2))
                d.budget = 0;
        }
        else if (gr.max_len > 400)
            d.budget = int(g.size(1000));
        d.prog = prog;
        if (start)
            d.scan(*start);
        else
            d.production(*gr.root);
        u = std::move(d.out);
    }
    auto mutations = g.weighted({4, 4, 2, 1});
    for (; mutations != 0; --mutations)
    {
        auto at = g.below(u.size() + 1);
        switch (g.weighted({3, 3, 2, 1, 1, 1}))
        {
        case 0:
            if (at < u.size())
                u.erase(u.begin() + std::ptrdiff_t(at));
            break;
        case 1: {
            auto& l = g.pick(lits);
            u.insert(u.begin() + std::ptrdiff_t(at), l.begin(), l.end());
            break;
        }
        case 2:
            if (at < u.size())
                u[at] = static_cast<unsigned char>(g.pick(lits)[0]);
            break;
        case 3:
            u.resize(at);
            break;
        case 4: {
            // duplicate a part
            auto n = std::min<std::size_t>(g.below(6), u.size() - at);
            units part(u.begin() + std::ptrdiff_t(at), u.begin() + std::ptrdiff_t(at + n));
            u.insert(u.begin() + std::ptrdiff_t(at), part.begin(), part.end());
            break;
        }
        default:
            u.insert(u.begin() + std::ptrdiff_t(at), allow_non_ascii ? std::uint32_t(0x80 + g.below(0x7F)) : std::uint32_t('~'));
        }
    }
    if (u.size() > gr.max_len)
        u.resize(gr.max_len);
    return u;
}
} // namespace ref
#endif
