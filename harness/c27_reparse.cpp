// C27: a parse tree used as input. Trees are built from a model, so every answer is known: the reader presents exactly the children of a node,
// and grammars of tnode()/pnode() rules parse them like the interpreter below, which works on the model.
#include <c27_support.hpp>
#include <memory>

std::vector<rp::grammar>& rp::grammars()
{
    static std::vector<grammar> g;
    return g;
}

namespace
{
using namespace rp;
const char* const kind_names[] = {"a", "b", "num", "literal", "whitespace", "identifier", "EOF", "position"};
const char* const prod_names[] = {"P0", "P1", "P2"};

//=== model ===//
struct sn
{
    bool            token = false;
    std::string     kind; // of the token or production
    std::string     text; // of a token
    std::size_t     b = 0, e = 0;
    std::vector<sn> k;
};
sn tok(std::string kind, std::string text)
{
    sn n;
    n.token = true;
    n.kind  = std::move(kind);
    n.text  = std::move(text);
    return n;
}
sn prod(std::string kind, std::vector<sn> k)
{
    sn n;
    n.kind = std::move(kind);
    n.k    = std::move(k);
    return n;
}
void layout(sn& n, std::string& text)
{
    n.b = text.size();
    if (n.token)
        text += n.text;
    else
    {
        // A tree from parse_as_tree has no production without children.
        if (n.k.empty())
            n.k.push_back(tok("position", ""));
        for (auto& c : n.k)
            layout(c, text);
    }
    n.e = text.size();
}
std::string show(const sn& n)
{
    if (n.token)
        return n.kind + "\"" + n.text + "\" ";
    std::string r = n.kind + "{ ";
    for (auto& c : n.k)
        r += show(c);
    return r + "} ";
}
std::size_t count(const sn& n)
{
    std::size_t r = 1;
    for (auto& c : n.k)
        r += count(c);
    return r;
}

void add(source_tree::builder& b, const sn& n)
{
    auto l = [&](auto kind) { b.token(kind, base + n.b, base + n.e); };
    if (n.token)
    {
        if (n.kind == "a")
            l(tk::a);
        else if (n.kind == "b")
            l(tk::b);
        else if (n.kind == "num")
            l(tk::num);
        else if (n.kind == "literal")
            l(lexy::literal_token_kind);
        else if (n.kind == "whitespace")
            l(lexy::whitespace_token_kind);
        else if (n.kind == "identifier")
            l(lexy::identifier_token_kind);
        else if (n.kind == "EOF")
            l(lexy::eof_token_kind);
        else
            l(lexy::position_token_kind);
        return;
    }
    auto m = n.kind == "P0" ? b.start_production(P0{}) : n.kind == "P1" ? b.start_production(P1{}) : b.start_production(P2{});
    for (auto& c : n.k)
        add(b, c);
    b.finish_production(LEXY_MOV(m));
}
source_tree build(const sn& root, std::size_t remaining)
{
    source_tree::builder b(P1{});
    for (auto& c : root.k)
        add(b, c);
    return LEXY_MOV(b).finish({base + root.e, base + root.e + remaining});
}
// An empty whitespace token is not put into the tree.
void normalise(sn& n)
{
    std::vector<sn> k;
    for (auto& c : n.k)
    {
        normalise(c);
        if (!(c.token && c.kind == "whitespace" && c.text.empty()))
            k.push_back(c);
    }
    n.k = std::move(k);
}

//=== interpreter ===//
struct rd
{
    const sn*   parent = nullptr; // node reader
    std::size_t i      = 0;
    std::size_t p = 0, e = 0; // character reader

    bool at_end() const
    {
        return parent ? i == parent->k.size() : p == e;
    }
    const sn& cur() const
    {
        return parent->k[i];
    }
    std::size_t pos() const
    {
        return !parent ? p : at_end() ? parent->e : cur().b;
    }
    void bump()
    {
        ++(parent ? i : p);
    }
};
struct interp
{
    const grammar&     g;
    const std::string& text;
    std::string        tree;
    std::vector<std::string>                         errors;
    std::vector<std::pair<std::string, std::size_t>> active;
    std::vector<std::size_t>                         children;
    std::size_t                                      matched_nodes = 0;
    using vals = std::vector<std::string>;

    static std::string num(std::size_t n)
    {
        return std::to_string(n);
    }
    static std::string range(std::size_t b, std::size_t e)
    {
        return "[" + num(b) + "," + num(e) + ")";
    }
    void token(const std::string& kind, std::size_t b, std::size_t e)
    {
        if (b == e && (kind == "token" || kind == "error token" || kind == "whitespace"))
            return;
        tree += kind + range(b, e) + " ";
        ++children.back();
    }
    void error(const std::string& what, std::size_t b, std::size_t e)
    {
        errors.push_back(what + range(b, e) + "in " + active.back().first + "@" + num(active.back().second));
    }
    void skip_ws(rd& r)
    {
        if (!r.parent)
            return;
        auto b = r.pos();
        while (!r.at_end() && std::find(g.ws.begin(), g.ws.end(), r.cur().kind) != g.ws.end())
            r.bump();
        token("whitespace", b, r.pos());
    }

    // Token rules. Sets the name of the token's kind.
    bool match(const rn& n, rd& r, std::string& kind)
    {
        auto starts = [&](bool (*pred)(char)) {
            auto q = r.p;
            while (q != r.e && pred(text[q]))
                ++q;
            if (q == r.p)
                return false;
            r.p = q;
            return true;
        };
        if (n.op == "tn" || n.op == "pn" || n.op == "tnr" || n.op == "pnr")
        {
            kind = n.op == "tn" ? n.s : "token";
            if (r.at_end() || r.cur().kind != n.s || r.cur().token != (n.op[0] == 't'))
                return false;
            r.bump();
            ++matched_nodes;
            return true;
        }
        if (n.op == "any")
        {
            kind = "any";
            while (!r.at_end())
                r.bump();
            return true;
        }
        if (n.op == "eof")
        {
            kind = "EOF";
            return r.at_end();
        }
        if (n.op == "until")
        {
            kind = "any";
            std::string dummy;
            while (!match(n.k[0], r, dummy))
            {
                if (r.at_end())
                    return false;
                r.bump();
            }
            return true;
        }
        if (n.op == "lit")
        {
            kind = "literal";
            if (text.compare(r.p, std::min(n.s.size(), r.e - r.p), n.s) != 0)
                return false;
            r.p += n.s.size();
            return true;
        }
        if (n.op == "digits" || n.op == "int")
        {
            kind = "digits";
            return starts(+[](char c) { return c >= '0' && c <= '9'; });
        }
        if (n.op == "id")
        {
            kind = "identifier";
            return starts(+[](char c) { return (c | 0x20) >= 'a' && (c | 0x20) <= 'z'; });
        }
        pbt::fail("not a token: " + n.op);
    }
    static bool is_token(const rn& n)
    {
        for (auto s : {"tn", "pn", "any", "eof", "until", "lit", "digits", "int", "id"})
            if (n.op == s)
                return true;
        return false;
    }
    // Whether a branch is taken.
    bool cond(const rn& n, const rd& r)
    {
        auto        copy = r;
        std::string kind;
        if (n.op == "else")
            return true;
        if (n.op == "cap" || n.op == "br" || n.op == "peekbr")
            return cond(n.k[0], r);
        auto m  = matched_nodes;
        auto ok = match(n, copy, kind);
        matched_nodes = m;
        return ok;
    }
    void token_error(const rn& n, rd start)
    {
        auto b = start.pos();
        if (n.op == "eof")
            error("expected EOF", b, b);
        else if (n.op == "until")
        {
            // the condition did not match at the end
            while (!start.at_end())
                start.bump();
            token_error(n.k[0], start);
        }
        else if (n.op == "lit")
        {
            std::size_t i = 0;
            while (start.p + i != start.e && i != n.s.size() && text[start.p + i] == n.s[i])
                ++i;
            error("literal<" + n.s + ">#" + num(i), b, b);
        }
        else
            error("class<" + (n.op == "digits" || n.op == "int" ? "digit.decimal" : n.op == "id" ? "ASCII.alpha" : n.s) + ">", b, b);
    }
    bool parse_token(const rn& n, rd& r, vals& v, bool capture)
    {
        auto        start = r;
        std::string kind;
        if (!match(n, r, kind))
        {
            token_error(n, start);
            return n.op == "eof"; // it recovers by doing nothing
        }
        token(kind, start.pos(), r.pos());
        if (n.op == "int")
            v.push_back("#" + std::to_string(std::stoi(text.substr(start.p, r.p - start.p))));
        if (n.op == "id" || capture)
            v.push_back(range(start.pos(), r.pos()));
        skip_ws(r);
        return true;
    }
    static std::string pack(const vals& v)
    {
        std::string r;
        for (auto& s : v)
            r += (r.empty() ? "" : " ") + s;
        return "(" + r + ")";
    }
    bool run(const rn& n, rd& r, vals& v)
    {
        if (is_token(n))
            return parse_token(n, r, v, false);
        if (n.op == "cap")
            return parse_token(n.k[0], r, v, true);
        if (n.op == "tnr" || n.op == "pnr")
        {
            auto        start = r;
            std::string kind;
            if (!match(n, r, kind))
            {
                token_error(n, start);
                return false;
            }
            rd  child;
            auto& node = start.cur();
            if (n.op == "tnr")
                child.p = node.b, child.e = node.e;
            else
                child.parent = &node;
            skip_ws(child);
            if (!run(n.k[0], child, v))
                return false;
            if (!child.at_end())
            {
                token("error token", child.pos(), r.pos());
                error(n.op == "tnr" ? "expected token end" : "expected production end", child.pos(), r.pos());
            }
            skip_ws(r);
            return true;
        }
        if (n.op == "pos")
        {
            token("position", r.pos(), r.pos());
            v.push_back("@" + num(r.pos()));
            return true;
        }
        if (n.op == "seq" || n.op == "br" || n.op == "else")
        {
            for (auto& k : n.k)
                if (!run(k, r, v))
                    return false;
            return true;
        }
        if (n.op == "peekbr")
        {
            if (!cond(n.k[0], r))
                error("peek failure", r.pos(), r.pos()); // and goes on
            return run(n.k[1], r, v);
        }
        if (n.op == "opt")
        {
            if (cond(n.k[0], r))
                return run(n.k[0], r, v);
            v.push_back("none");
            return true;
        }
        if (n.op == "if")
            return !cond(n.k[0], r) || run(n.k[0], r, v);
        if (n.op == "while")
        {
            while (cond(n.k[0], r))
                if (!run(n.k[0], r, v))
                    return false;
            return true;
        }
        if (n.op == "alt")
        {
            for (auto& k : n.k)
                if (cond(k, r))
                    return run(k, r, v);
            error("exhausted choice", r.pos(), r.pos());
            return false;
        }
        if (n.op == "list")
        {
            std::string all = "{";
            while (true)
            {
                vals item;
                if (!run(n.k[0], r, item))
                    return false;
                if (!item.empty())
                    all += pack(item);
                if (n.k.size() == 2)
                {
                    if (!cond(n.k[1], r))
                        break;
                    vals none;
                    auto b = r.pos();
                    if (!run(n.k[1], r, none))
                        return false;
                    if (!cond(n.k[0], r))
                    {
                        error("unexpected trailing separator", b, r.pos());
                        break;
                    }
                }
                else if (!cond(n.k[0], r))
                    break;
            }
            v.push_back(all + "}");
            return true;
        }
        if (n.op == "p")
            return production(n.s, r, v, false);
        pbt::fail("unknown rule " + n.op);
    }
    bool production(const std::string& name, rd& r, vals& v, bool root)
    {
        const rn* rule = nullptr;
        for (auto& p : g.prods)
            if (p.first == name)
                rule = &p.second;
        auto begin = r.pos();
        tree += name + "{ ";
        active.emplace_back(name, begin);
        children.push_back(0);
        vals inner;
        if (root)
            skip_ws(r);
        if (!run(*rule, r, inner))
            return false;
        if (children.back() == 0)
            token("position", begin, begin);
        children.pop_back();
        if (!children.empty())
            ++children.back();
        active.pop_back();
        tree += "} ";
        v.push_back(pack(inner));
        return true;
    }
};

//=== trees for a grammar ===//
struct derive
{
    pbt::gen&      g;
    const grammar& gr;
    int            budget = 40;

    std::string any_text()
    {
        static const char* const t[] = {"a", "ab", "abc", "1", "12", "x", "", "007", "abc1", " ", "xyz", "9a"};
        return g.pick(t);
    }
    std::string name(std::size_t n, const char* const* l)
    {
        return l[g.below(n)];
    }
    sn any_node(int d)
    {
        if (d <= 0 || budget <= 0 || g.chance(2, 3))
            return tok(name(8, kind_names), any_text());
        std::vector<sn> k;
        for (auto n = g.below(4); n != 0 && --budget > 0; --n)
            k.push_back(any_node(d - 1));
        return prod(name(3, prod_names), k);
    }
    void ws(std::vector<sn>& out)
    {
        if (gr.ws.empty() || !g.chance(1, 3))
            return;
        auto& k = g.pick(gr.ws);
        out.push_back(k[0] == 'P' ? prod(k, {any_node(1)}) : tok(k, any_text()));
    }
    std::string chars(const rn& n, int d)
    {
        if (n.op == "lit")
            return n.s;
        if (n.op == "digits" || n.op == "int")
            return g.boolean() ? "12" : "7";
        if (n.op == "id")
            return g.boolean() ? "ab" : "x";
        if (n.op == "any")
            return any_text();
        if (n.op == "p")
            return "42";
        if (n.op == "opt")
            return g.boolean() ? chars(n.k[0], d) : "";
        if (n.op == "alt")
            return chars(g.pick(n.k), d);
        std::string r;
        for (auto& k : n.k)
            r += chars(k, d);
        return r;
    }
    void nodes(const rn& n, std::vector<sn>& out, int d)
    {
        if (--budget < 0)
            return;
        if (n.op == "tn")
            out.push_back(tok(n.s, any_text())), ws(out);
        else if (n.op == "pn")
        {
            std::vector<sn> k;
            for (auto i = g.below(3); i != 0; --i)
                k.push_back(any_node(1));
            out.push_back(prod(n.s, k)), ws(out);
        }
        else if (n.op == "tnr")
        {
            auto t = chars(n.k[0], 3);
            if (g.chance(1, 8))
                t = any_text();
            out.push_back(tok(n.s, t)), ws(out);
        }
        else if (n.op == "pnr")
        {
            std::vector<sn> k;
            ws(k);
            nodes(n.k[0], k, d);
            out.push_back(prod(n.s, k)), ws(out);
        }
        else if (n.op == "any" || n.op == "until")
        {
            for (auto i = g.below(3); i != 0; --i)
                out.push_back(any_node(1));
            if (n.op == "until")
                nodes(n.k[0], out, d);
        }
        else if (n.op == "opt" || n.op == "if")
        {
            if (g.boolean())
                nodes(n.k[0], out, d);
        }
        else if (n.op == "while")
        {
            for (auto i = g.below(4); i != 0; --i)
                nodes(n.k[0], out, d);
        }
        else if (n.op == "list")
        {
            for (auto i = g.below(4) + 1; i != 0; --i)
            {
                nodes(n.k[0], out, d);
                if (n.k.size() == 2 && i != 1)
                    nodes(n.k[1], out, d);
            }
        }
        else if (n.op == "alt")
            nodes(g.pick(n.k), out, d);
        else if (n.op == "peekbr")
            nodes(n.k[g.chance(1, 4) ? 0 : 1], out, d);
        else if (n.op == "p")
        {
            if (d > 0)
                for (auto& p : gr.prods)
                    if (p.first == n.s)
                        nodes(p.second, out, d - 1);
        }
        else
            for (auto& k : n.k)
                nodes(k, out, d);
    }
    void mutate(sn& root)
    {
        // A random node that has children.
        auto n = &root;
        while (true)
        {
            std::vector<sn*> inner;
            for (auto& c : n->k)
                if (!c.token && !c.k.empty())
                    inner.push_back(&c);
            if (inner.empty() || g.chance(1, 3))
                break;
            n = g.pick(inner);
        }
        auto at = n->k.empty() ? 0 : g.below(n->k.size());
        switch (g.below(5))
        {
        case 0:
            n->k.insert(n->k.begin() + long(at), any_node(2));
            break;
        case 1:
            n->k.push_back(any_node(2));
            break;
        case 2:
            if (!n->k.empty())
                n->k.erase(n->k.begin() + long(at));
            break;
        case 3:
            if (!n->k.empty())
            {
                if (n->k[at].token)
                    n->k[at].kind = name(8, kind_names);
                else
                    n->k[at].kind = name(3, prod_names);
            }
            break;
        default:
            if (!n->k.empty() && n->k[at].token)
                n->k[at].text = any_text();
            break;
        }
    }
};

//=== the reader itself ===//
template <typename Reader, typename Node>
void walk(pbt::gen& g, Reader reader, Node parent, const sn& m, std::size_t& visited)
{
    auto child = parent.children().begin();
    auto start = reader.current();
    for (std::size_t i = 0; i != m.k.size(); ++i, ++child)
    {
        ++visited;
        auto& c = m.k[i];
        PBT_CHECK(reader.peek() != Reader::encoding::eof() && Reader::encoding::eof() != reader.peek());
        PBT_CHECK(!(reader.peek() == Reader::encoding::eof()));
        PBT_CHECK(reader.peek() == *child);
        pbt::check_eq((long long)(reader.position() - base), (long long)c.b, "position() of the reader");
        PBT_CHECK(reader.current().position() == reader.position());
        PBT_CHECK(Reader::encoding::match(reader.peek(), P0{}) == (!c.token && c.kind == "P0"));
        PBT_CHECK(Reader::encoding::match(reader.peek(), P2{}) == (!c.token && c.kind == "P2"));
        PBT_CHECK(Reader::encoding::match(reader.peek(), tk::num) == (c.token && c.kind == "num"));
        PBT_CHECK(Reader::encoding::match(reader.peek(), lexy::literal_token_kind) == (c.token && c.kind == "literal"));
        auto copy = reader;
        if (c.token)
        {
            auto chars = reader.lexeme_reader();
            for (auto ch : c.text)
            {
                PBT_CHECK(chars.peek() == static_cast<unsigned char>(ch));
                chars.bump();
            }
            PBT_CHECK(chars.peek() == decltype(chars)::encoding::eof());
            pbt::check_eq((long long)(chars.position() - base), (long long)c.e, "end of lexeme_reader()");
            PBT_CHECK(reader.child_reader().peek() == Reader::encoding::eof());
        }
        else
            walk(g, reader.child_reader(), *child, c, visited);
        auto marker = reader.current();
        reader.bump();
        if (g.chance(1, 8))
        {
            // back and forth again
            auto next = reader.current();
            reader.reset(marker);
            PBT_CHECK(reader.peek() == *child && reader.position() == base + c.b);
            reader.reset(next);
        }
        PBT_CHECK(copy.peek() == *child);
    }
    PBT_CHECK(reader.peek() == Reader::encoding::eof() && Reader::encoding::eof() == reader.peek());
    PBT_CHECK(!(reader.peek() != Reader::encoding::eof()));
    pbt::check_eq((long long)(reader.position() - base), (long long)m.e, "position() at the end");
    PBT_CHECK(!Reader::encoding::match(reader.peek(), P0{}) && !Reader::encoding::match(reader.peek(), tk::a));
    reader.reset(start);
    pbt::check_eq((long long)(reader.position() - base), (long long)m.b, "position() after reset()");
}
} // namespace

PBT_PROP(reparse, 1)
{
    auto&           all = grammars();
    auto&           gr  = all[g.below(all.size())];
    derive          d{g, gr};
    std::vector<sn> kids;
    d.ws(kids);
    d.nodes(gr.prods[0].second, kids, 4);
    if (g.chance(1, 8))
        kids.push_back(d.any_node(2));
    auto root = prod("P1", kids);
    for (auto i = g.weighted({3, 2, 1, 1}); i != 0; --i)
        d.mutate(root);
    normalise(root);
    std::string text;
    layout(root, text);
    auto remaining = g.below(4);
    // exactly sized storage
    auto storage = std::make_unique<char[]>(text.size() + remaining + 1);
    std::copy(text.begin(), text.end(), storage.get());
    std::fill(storage.get() + text.size(), storage.get() + text.size() + remaining, 'r');
    base = storage.get();
    g.note(gr.text + "\n  tree: " + show(root));

    auto       tree = build(root, remaining);
    tree_input in(tree);
    PBT_CHECK(in.root() == tree.root());
    PBT_CHECK(tree_input(tree.root()).root() == tree.root());
    std::size_t visited = 0;
    walk(g, in.reader(), tree.root(), root, visited);

    // Parse all of it, or the children of one of its nodes.
    const sn* model = &root;
    auto      node  = tree.root();
    if (g.chance(1, 4))
    {
        std::vector<std::pair<source_tree::node, const sn*>> options;
        auto                                                 collect = [&](auto&& self, source_tree::node n, const sn& m) -> void {
            if (!m.token)
                options.emplace_back(n, &m);
            std::size_t i = 0;
            for (auto c : n.children())
                self(self, c, m.k[i++]);
        };
        collect(collect, tree.root(), root);
        auto p = g.pick(options);
        node = p.first, model = p.second;
        in = tree_input(node);
    }

    interp       ref{gr, text, {}, {}, {}, {}};
    interp::vals values;
    rd           r;
    r.parent = model;
    auto        ok = ref.production("Root", r, values, true);
    std::string errors;
    for (auto& e : ref.errors)
        errors += (errors.empty() ? "" : " ") + e;
    errors = "{" + errors + "}";

    auto got   = gr.run(in);
    auto check = [&](const std::string& a, const std::string& b, const char* what) {
        if (a != b)
            pbt::fail(std::string(what) + "\n  lexy:     " + a + "\n  expected: " + b);
    };
    check(got.errors, errors, "errors of parse()");
    check(got.validate_errors, errors, "errors of validate()");
    if (got.has_value != ok || got.fatal != !ok)
        pbt::fail("has_value() " + std::to_string(got.has_value) + ", is_fatal_error() " + std::to_string(got.fatal) + ", expected to " + (ok ? "succeed" : "fail") + " with errors " + errors);
    PBT_CHECK(got.success == (ok && ref.errors.empty()) && got.validate_success == got.success && got.matched == got.success && got.tree_ok == ok);
    if (ok)
    {
        check(got.value, values[0], "value");
        check(got.tree, ref.tree, "productions and tokens");
    }
    g.label(!ok ? "failed" : ref.errors.empty() ? "success" : "recovered");
    if (model != &root)
        g.label("inner node");
    if (ref.matched_nodes >= 2 && count(root) > 3)
        g.nontrivial(gr.text + show(*model));
}
