// C05: the parse tree builder represents every build history faithfully.
// Model-based: a random sequence of builder operations is applied to lexy's builder and to a plain tree of vectors.
#include <common.hpp>
#include <lexy/parse_tree.hpp>
#include <lexy_ext/parse_tree_algorithm.hpp>
#include <iterator>
#include <memory>

using namespace hc;

namespace
{
enum class tk
{
    a,
    b,
    num,
};
[[maybe_unused]] constexpr const char* token_kind_name(tk k)
{
    return k == tk::a ? "a" : k == tk::b ? "b" : "num";
}

struct P0
{
    static constexpr auto name = "P0";
    static constexpr auto rule = 0;
};
struct P1
{
    static constexpr auto name = "P1";
    static constexpr auto rule = 0;
};
struct P2 : lexy::token_production
{
    static constexpr auto name = "P2";
    static constexpr auto rule = 0;
};
struct PT : lexy::transparent_production
{
    static constexpr auto name = "PT";
    static constexpr auto rule = 0;
};
struct prod_desc
{
    const char*           name;
    bool                  token, transparent;
    lexy::production_info info;
};
const prod_desc prods[] = {{"P0", false, false, P0{}}, {"P1", false, false, P1{}}, {"P2", true, false, P2{}}, {"PT", false, true, PT{}}};

// Token kinds by model index.
struct kind_desc
{
    const char* name;
    bool        ignore_empty, error;
};
const kind_desc kinds[] = {{"a", false, false},   {"b", false, false},          {"num", false, false},     {"EOF", false, false},
                           {"position", false, false}, {"whitespace", true, false}, {"error token", true, true}};

template <typename TokenKind>
lexy::token_kind<TokenKind> make_kind(int k)
{
    switch (k)
    {
    case 0:
        if constexpr (std::is_void_v<TokenKind>)
            return 11;
        else
            return tk::a;
    case 1:
        if constexpr (std::is_void_v<TokenKind>)
            return 12;
        else
            return tk::b;
    case 2:
        if constexpr (std::is_void_v<TokenKind>)
            return 13;
        else
            return tk::num;
    case 3:
        return lexy::eof_token_kind;
    case 4:
        return lexy::position_token_kind;
    case 5:
        return lexy::whitespace_token_kind;
    default:
        return lexy::error_token_kind;
    }
}

//=== model ===//
struct mnode
{
    int                                 prod = -1; // -1: token
    int                                 kind = 0;
    std::size_t                         begin = 0, end = 0;
    std::vector<std::unique_ptr<mnode>> children;
};
using mnode_ptr = std::unique_ptr<mnode>;
std::size_t count(const mnode& n)
{
    std::size_t r = 1;
    for (auto& c : n.children)
        r += count(*c);
    return r;
}
std::size_t depth(const mnode& n)
{
    std::size_t r = 0;
    for (auto& c : n.children)
        r = std::max(r, depth(*c) + 1);
    return r;
}
bool no_empty_production(const mnode& n)
{
    if (n.prod >= 0 && n.children.empty())
        return false;
    for (auto& c : n.children)
        if (!no_empty_production(*c))
            return false;
    return true;
}
std::size_t first_pos(const mnode& n)
{
    return n.prod < 0 ? n.begin : first_pos(*n.children.front());
}
std::size_t last_pos(const mnode& n)
{
    return n.prod < 0 ? n.end : last_pos(*n.children.back());
}
void show_model(const mnode& n, std::string& s)
{
    if (n.prod < 0)
    {
        s += std::string(kinds[n.kind].name) + "[" + std::to_string(n.begin) + "," + std::to_string(n.end) + ") ";
        return;
    }
    s += std::string(prods[n.prod].name) + "{";
    for (auto& c : n.children)
        show_model(*c, s);
    s += "} ";
}

struct counting_resource
{
    std::size_t live = 0, total = 0;
    void*       allocate(std::size_t bytes, std::size_t)
    {
        ++live, ++total;
        return ::operator new(bytes);
    }
    void deallocate(void* ptr, std::size_t, std::size_t)
    {
        --live;
        ::operator delete(ptr);
    }
    friend bool operator==(const counting_resource& a, const counting_resource& b)
    {
        return &a == &b;
    }
};

constexpr std::size_t text_size = 20000;

template <typename Holder>
struct text
{
    Holder                                             h;
    std::vector<decltype(Holder(units{}).begin())> at; // iterator of every position
    static units                                       make()
    {
        units u(text_size, 'x');
        for (std::size_t i = 0; i != u.size(); ++i)
            u[i] = 'a' + i % 26;
        return u;
    }
    text() : h(make())
    {
        auto it = h.begin();
        for (std::size_t i = 0; i != text_size; ++i, ++it)
            at.push_back(it);
        at.push_back(it);
    }
};

template <typename Tree, typename Text>
struct session
{
    using builder_t = typename Tree::builder;
    using TokenKind = void;

    enum ftype
    {
        production,
        transparent,
        container
    };
    struct frame
    {
        ftype                      type;
        int                        prod;
        typename builder_t::marker m;
        std::vector<mnode_ptr>     children;
        std::size_t                start, inherited; // inherited: children shown by current_child_count() of a transparent one
    };

    pbt::gen&          g;
    const Text&        t;
    builder_t          b;
    std::vector<frame> stack;
    std::size_t        pos = 0;
    unsigned           cancels = 0, containers = 0;
    std::string        log;

    session(pbt::gen& g, const Text& t, Tree&& tree, int root) : g(g), t(t), b(LEXY_MOV(tree), prods[root].info)
    {
        stack.push_back({production, root, {}, {}, 0, 0});
    }

    void add(mnode_ptr n)
    {
        stack.back().children.push_back(std::move(n));
    }
    void lognote(const std::string& s)
    {
        if (log.size() < 600)
            log += s + " ";
    }
    // The last child of the node that is really active.
    mnode* last()
    {
        for (auto i = stack.size(); i-- != 0;)
        {
            if (!stack[i].children.empty())
                return stack[i].children.back().get();
            if (stack[i].type != transparent)
                return nullptr;
        }
        return nullptr;
    }
    bool last_is_error()
    {
        auto l = last();
        return l && l->prod < 0 && kinds[l->kind].error;
    }

    template <typename TK>
    void token(int k, std::size_t len)
    {
        if (pos + len > text_size)
            len = 0;
        b.token(make_kind<TK>(k), t.at[pos], t.at[pos + len]);
        if (kinds[k].ignore_empty && len == 0)
            return;
        if (kinds[k].error && last_is_error())
            last()->end = pos + len;
        else
        {
            auto n   = std::make_unique<mnode>();
            n->kind  = k;
            n->begin = pos;
            n->end   = pos + len;
            add(std::move(n));
        }
        pos += len;
    }
    void start(int p)
    {
        if (prods[p].transparent && last_is_error())
            return;
        auto m = b.start_production(prods[p].info);
        lognote(std::string("start ") + prods[p].name);
        stack.push_back({prods[p].transparent ? transparent : production, p, m, {}, pos, 0});
    }
    void start_container()
    {
        if (last_is_error())
            return;
        auto m = b.start_container();
        lognote("container");
        ++containers;
        stack.push_back({container, -1, m, {}, pos, 0});
    }
    void set_production(int p)
    {
        if (stack.back().type != container)
            return;
        b.set_container_production(prods[p].info);
        lognote(std::string("set ") + prods[p].name);
        if (prods[p].transparent)
            return;
        auto n      = std::make_unique<mnode>();
        n->prod     = p;
        n->children = std::move(stack.back().children);
        stack.back().children.clear();
        add(std::move(n));
    }
    void finish()
    {
        if (stack.size() == 1)
            return;
        auto f = std::move(stack.back());
        stack.pop_back();
        lognote("finish");
        if (f.type == container)
            b.finish_container(std::move(f.m));
        else
            b.finish_production(std::move(f.m));
        if (f.type == production)
        {
            auto n      = std::make_unique<mnode>();
            n->prod     = f.prod;
            n->children = std::move(f.children);
            add(std::move(n));
        }
        else
            for (auto& c : f.children)
                add(std::move(c));
    }
    void cancel()
    {
        if (stack.size() == 1)
            return;
        auto f = std::move(stack.back());
        stack.pop_back();
        lognote("cancel");
        ++cancels;
        if (f.type == container)
            b.cancel_container(std::move(f.m));
        else
            b.cancel_production(std::move(f.m));
        pos = f.start;
    }
    std::size_t active_child_count()
    {
        std::size_t r = 0;
        for (auto i = stack.size(); i-- != 0;)
        {
            r += stack[i].children.size();
            if (stack[i].type != transparent)
                break;
        }
        return r;
    }

    template <typename TK>
    void op(bool bulk)
    {
        switch (g.weighted({8, 5, 3, 2, 3, 2, 2, bulk ? 2u : 0u}))
        {
        case 0:
            token<TK>(int(g.below(7)), g.below(4));
            break;
        case 1:
            finish();
            break;
        case 2:
            if (stack.size() < 40)
                start(int(g.weighted({3, 2, 1, 2})));
            break;
        case 3:
            cancel();
            break;
        case 4:
            if (stack.size() < 40)
                start_container();
            break;
        case 5:
            set_production(int(g.weighted({3, 2, 1, 1})));
            break;
        case 6:
            // empty container or production
            if (g.boolean())
                start_container();
            else
                start(int(g.weighted({3, 2, 1, 2})));
            if (g.boolean())
                finish();
            else
                cancel();
            break;
        default: {
            // Many nodes at once.
            auto n    = g.below(200);
            auto kind = g.below(3);
            lognote("bulk" + std::to_string(kind) + "*" + std::to_string(n));
            auto d = stack.size();
            for (std::size_t i = 0; i != n; ++i)
                if (kind == 0)
                    token<TK>(int(i % 3), 1);
                else if (kind == 1)
                {
                    start(int(i % 3));
                    token<TK>(0, 1);
                    finish();
                }
                else if (d + i < 300)
                {
                    start(0);
                    if (i % 3 == 0)
                        token<TK>(0, 1);
                }
            break;
        }
        }
        pbt::check_eq((long long)b.current_child_count(), (long long)active_child_count(), "current_child_count");
    }
    mnode_ptr close()
    {
        while (stack.size() > 1)
            if (g.chance(3, 4))
                finish();
            else
                cancel();
        auto n      = std::make_unique<mnode>();
        n->prod     = stack[0].prod;
        n->children = std::move(stack[0].children);
        return n;
    }
};

template <typename TK, typename Tree, typename Text>
void verify(pbt::gen& g, const Tree& tree, const mnode& root, const Text& t, std::size_t pos, std::size_t remaining)
{
    using node = typename Tree::node;
    auto off   = [&](auto it) {
        // positions are compared through the table (binary search is not possible for forward iterators)
        for (std::size_t i = 0; i <= text_size; ++i)
            if (t.at[i] == it)
                return i;
        pbt::fail("iterator outside of the text");
    };
    PBT_CHECK(!tree.empty());
    pbt::check_eq((long long)tree.size(), (long long)count(root), "size()");
    pbt::check_eq((long long)tree.depth(), (long long)depth(root), "depth()");
    PBT_CHECK(tree.remaining_input().begin() == t.at[pos] && tree.remaining_input().end() == t.at[pos + remaining]);
    PBT_CHECK(tree.root().parent() == tree.root() && tree.root().kind().is_root() && tree.root().siblings().empty());
    bool covering = no_empty_production(root);

    // Walk both recursively over children().
    std::vector<std::pair<lexy::traverse_event, void*>> expected;
    std::vector<std::pair<node, const mnode*>>          sample;
    std::size_t                                         visited = 0;
    auto check_node = [&](auto&& self, node n, const mnode& m) -> void {
        ++visited;
        bool token = m.prod < 0;
        auto kind  = n.kind();
        PBT_CHECK(kind.is_token() == token && kind.is_production() == !token);
        PBT_CHECK(kind.is_token_production() == (!token && prods[m.prod].token));
        PBT_CHECK(kind == kind && !(kind != kind));
        auto children = n.children();
        pbt::check_eq((long long)children.size(), (long long)m.children.size(), "children().size()");
        PBT_CHECK(children.empty() == m.children.empty());
        if (sample.size() < 64 || visited % 37 == 0)
            sample.emplace_back(n, &m);
        for (int p = 0; p != 3; ++p)
            PBT_CHECK((kind == prods[p].info) == (m.prod == p) && (prods[p].info != kind) == (m.prod != p));
        for (int k = 0; k != 7; ++k)
        {
            PBT_CHECK((kind == make_kind<TK>(k)) == (token && m.kind == k));
            PBT_CHECK((make_kind<TK>(k) != kind) == !(token && m.kind == k));
        }
        if (token)
        {
            PBT_CHECK(n.lexeme().begin() == t.at[m.begin] && n.lexeme().end() == t.at[m.end]);
            PBT_CHECK(n.covering_lexeme().begin() == t.at[m.begin] && n.covering_lexeme().end() == t.at[m.end]);
            PBT_CHECK(n.position() == t.at[m.begin]);
            PBT_CHECK(n.token().kind() == make_kind<TK>(m.kind) && n.token().lexeme().begin() == t.at[m.begin]
                      && n.token().lexeme().end() == t.at[m.end]);
            if (!std::is_void_v<TK> || m.kind > 2)
                pbt::check_eq(std::string(kind.name()), std::string(kinds[m.kind].name), "token name");
            PBT_CHECK(children.begin() == children.end());
            expected.emplace_back(lexy::traverse_event::leaf, n.address());
            return;
        }
        pbt::check_eq(std::string(kind.name()), std::string(prods[m.prod].name), "production name");
        PBT_CHECK(n.lexeme().empty());
        if (covering)
        {
            pbt::check_eq((long long)off(n.position()), (long long)first_pos(m), "position()");
            auto l = n.covering_lexeme();
            pbt::check_eq((long long)off(l.begin()), (long long)first_pos(m), "covering begin");
            pbt::check_eq((long long)off(l.end()), (long long)last_pos(m), "covering end");
        }
        expected.emplace_back(lexy::traverse_event::enter, n.address());
        auto        it = children.begin();
        std::size_t i  = 0;
        node        prev = n;
        for (; it != children.end(); ++it, ++i)
        {
            PBT_CHECK(i < m.children.size());
            PBT_CHECK(!it->kind().is_root());
            PBT_CHECK(it->is_last_child() == (i + 1 == m.children.size()));
            if (m.children.size() < 60 || i % 50 == 0)
                PBT_CHECK(it->parent() == n);
            // siblings: following ones, wrapping around
            if (m.children.size() < 12 || i + 1 == m.children.size() || i == m.children.size() / 2)
            {
                auto        sib = it->siblings();
                std::size_t k   = 0;
                auto        exp = it;
                for (auto s = sib.begin(); s != sib.end(); ++s, ++k)
                {
                    PBT_CHECK(k < m.children.size());
                    if (++exp == children.end())
                        exp = children.begin();
                    PBT_CHECK(*s == *exp);
                }
                pbt::check_eq((long long)k, (long long)m.children.size() - 1, "number of siblings");
                PBT_CHECK(sib.empty() == (m.children.size() == 1));
            }
            if (i != 0)
            {
                auto& a = *m.children[i - 1];
                auto& c = *m.children[i];
                PBT_CHECK((prev.kind() == it->kind()) == (a.prod == c.prod && (a.prod >= 0 || a.kind == c.kind)));
            }
            prev = *it;
            self(self, *it, *m.children[i]);
        }
        pbt::check_eq((long long)i, (long long)m.children.size(), "number of children visited");
        expected.emplace_back(lexy::traverse_event::exit, n.address());
    };
    check_node(check_node, tree.root(), root);

    // traverse() of the whole tree and of some nodes.
    std::size_t i = 0;
    for (auto [ev, n] : tree.traverse())
    {
        PBT_CHECK(i < expected.size());
        PBT_CHECK(ev == expected[i].first && n.address() == expected[i].second);
        ++i;
    }
    pbt::check_eq((long long)i, (long long)expected.size(), "length of traverse()");
    PBT_CHECK(!tree.traverse().empty());
    for (int k = 0; k != 3; ++k)
    {
        auto [n, mp] = g.pick(sample);
        auto& m      = *mp;
        auto s = std::size_t(0);
        while (expected[s].second != n.address())
            ++s;
        auto first = s;
        for (auto [ev, c] : tree.traverse(n))
        {
            PBT_CHECK(s < expected.size() && ev == expected[s].first && c.address() == expected[s].second);
            ++s;
        }
        PBT_CHECK(s > first && expected[s - 1].second == n.address());
        PBT_CHECK((s - first == 1) == n.kind().is_token());

        // lexy_ext: tokens(), children(), child(), node_position()
        std::vector<void*> leaves, got;
        for (auto q = first; q != s; ++q)
            if (expected[q].first == lexy::traverse_event::leaf)
                leaves.push_back(expected[q].second);
        auto tokens = lexy_ext::tokens(tree, n);
        PBT_CHECK(tokens.empty() == leaves.empty());
        for (auto tok : tokens)
            got.push_back(tok.address());
        PBT_CHECK(got == leaves);
        auto filtered = [&](auto range, auto opt, auto pred, const char* what) {
            std::vector<void*> want, have;
            std::size_t        c = 0;
            for (auto child : n.children())
            {
                if (pred(*m.children[c]))
                    want.push_back(child.address());
                ++c;
            }
            for (auto child : range)
                have.push_back(child.address());
            if (want != have || range.empty() != want.empty())
                pbt::fail(std::string("lexy_ext::children by ") + what + ": " + std::to_string(have.size()) + " nodes, expected " + std::to_string(want.size()));
            if (opt.has_value() != !want.empty() || (opt && opt->address() != want[0]))
                pbt::fail(std::string("lexy_ext::child by ") + what);
        };
        auto k2 = int(g.below(7));
        filtered(lexy_ext::children(tree, n, make_kind<TK>(k2)), lexy_ext::child(tree, n, make_kind<TK>(k2)),
                 [&](const mnode& c) { return c.prod < 0 && c.kind == k2; }, "token kind");
        filtered(lexy_ext::children(tree, n, P1{}), lexy_ext::child(tree, n, P1{}), [](const mnode& c) { return c.prod == 1; }, "production");
        filtered(lexy_ext::children(tree, n, lexy::position_token_kind), lexy_ext::child(tree, n, lexy::position_token_kind),
                 [](const mnode& c) { return c.prod < 0 && c.kind == 4; }, "predefined kind");
        auto is_tok = [](auto c) { return c.kind().is_token(); };
        filtered(lexy_ext::children(tree, n, is_tok), lexy_ext::child(tree, n, is_tok), [](const mnode& c) { return c.prod < 0; }, "predicate");
        const mnode* at = nullptr;
        for (auto& c : m.children)
            if (!at && c->prod < 0 && c->kind == 4)
                at = c.get();
        auto position = lexy_ext::node_position(tree, n);
        if (at)
            PBT_CHECK(position == t.at[at->begin]);
        else if (leaves.empty())
            PBT_CHECK(position == decltype(position)());
        else
        {
            const mnode* leaf = nullptr;
            auto         walk = [&](auto&& self, const mnode& c) -> void {
                if (c.prod < 0 && !leaf)
                    leaf = &c;
                for (auto& d : c.children)
                    if (!leaf)
                        self(self, *d);
            };
            walk(walk, m);
            PBT_CHECK(position == t.at[leaf->begin]);
        }
    }
    // lexy_ext::find_covering_node() needs ordered iterators.
    if constexpr (std::is_convertible_v<typename std::iterator_traits<LEXY_DECAY_DECLTYPE(t.at[0])>::iterator_category, std::random_access_iterator_tag>)
    {
        std::vector<const mnode*> leaves;
        auto                      walk = [&](auto&& self, const mnode& m) -> void {
            if (m.prod < 0)
                leaves.push_back(&m);
            for (auto& c : m.children)
                self(self, *c);
        };
        walk(walk, root);
        std::size_t end = 0;
        for (auto l : leaves)
            end = std::max(end, l->end);
        if (end != 0)
        {
            auto        where = std::size_t(g.below(end));
            std::size_t c     = 0;
            while (leaves[c]->end <= where)
                ++c;
            std::size_t q = 0;
            for (std::size_t seen = 0; expected[q].first != lexy::traverse_event::leaf || seen++ != c; ++q)
                ;
            PBT_CHECK(lexy_ext::find_covering_node(tree, t.at[where]).address() == expected[q].second);
        }
    }
    g.extra_evaluations(visited);
}

template <typename Holder, typename TK, typename MR>
void run(pbt::gen& g, bool boundary)
{
    static const text<Holder> t;
    using tree_t = lexy::parse_tree_for<typename Holder::input_type, TK, MR>;
    counting_resource res;
    {
        auto make = [&] {
            if constexpr (std::is_void_v<MR>)
                return tree_t();
            else
                return tree_t(&res);
        };
        tree_t tree = make();
        PBT_CHECK(tree.empty() && tree.size() == 0 && tree.traverse().empty() && tree.remaining_input().empty());

        auto builds = 1 + (boundary ? g.below(2) : g.size(3));
        for (std::size_t bi = 0; bi <= builds; ++bi)
        {
            session<tree_t, text<Holder>> s(g, t, LEXY_MOV(tree), int(g.below(3)));
            if (boundary)
            {
                // Fill up to every offset of a memory block, then a short random history.
                auto shift = g.below(4);
                if (shift)
                {
                    // A production whose first child is a container takes a little more memory.
                    for (std::size_t i = 0; i != shift; ++i)
                    {
                        s.start(0);
                        s.start_container();
                        s.template token<TK>(0, 1);
                        if (i % 2)
                            s.set_production(1);
                        s.finish();
                        s.finish();
                    }
                }
                auto n = g.range(150, 345);
                for (long long i = 0; i != n; ++i)
                    s.template token<TK>(int(i % 3), 1);
                s.lognote("shift " + std::to_string(shift) + " fill " + std::to_string(n));
                auto ops = 1 + g.below(14);
                for (std::size_t i = 0; i != ops; ++i)
                    s.template op<TK>(false);
                if (g.chance(1, 8))
                {
                    auto k = g.below(600);
                    s.start(1);
                    for (std::size_t i = 0; i != k; ++i)
                    {
                        s.start_container();
                        s.finish();
                    }
                    s.template token<TK>(1, 1);
                    s.finish();
                    s.lognote("empty containers " + std::to_string(k));
                }
            }
            else
            {
                auto ops = g.size(g.chance(1, 4) ? 400 : 60);
                for (std::size_t i = 0; i != ops; ++i)
                    s.template op<TK>(true);
            }
            auto        model = s.close();
            auto        remaining = std::min<std::size_t>(g.below(5), text_size - s.pos);
            std::string shown;
            if (count(*model) < 40)
                show_model(*model, shown);
            g.note(std::string(Holder::kind) + (std::is_void_v<TK> ? " void " : " enum ") + s.log + " => " + shown);
            g.label(s.cancels ? "cancel" : "no cancel");
            if (s.containers)
                g.label("containers");
            if (count(*model) > 165)
                g.label("several blocks");
            if (count(*model) > 4)
                g.nontrivial(pbt::hash(s.log, count(*model) * 31 + depth(*model)));
            tree = LEXY_MOV(s.b).finish({t.at[s.pos], t.at[s.pos + remaining]});
            verify<TK>(g, tree, *model, t, s.pos, remaining);
            if (g.chance(1, 4))
            {
                auto moved = LEXY_MOV(tree);
                verify<TK>(g, moved, *model, t, s.pos, remaining);
                tree = LEXY_MOV(moved);
                verify<TK>(g, tree, *model, t, s.pos, remaining);
            }
            if (g.chance(1, 4))
            {
                tree.clear();
                PBT_CHECK(tree.empty() && tree.size() == 0 && tree.traverse().empty() && tree.remaining_input().empty());
            }
        }
    }
    PBT_CHECK(res.live == 0);
}
void dispatch(pbt::gen& g, bool boundary)
{
    switch (g.below(4))
    {
    case 0:
        return run<string_holder<lexy::default_encoding>, tk, counting_resource>(g, boundary);
    case 1:
        return run<string_holder<lexy::utf8_encoding>, void, void>(g, boundary);
    case 2:
        return run<range_holder<lexy::default_encoding>, void, counting_resource>(g, boundary);
    default:
        return run<buffer_holder<lexy::utf16_encoding>, tk, counting_resource>(g, boundary);
    }
}
} // namespace

PBT_PROP(histories, 3)
{
    dispatch(g, false);
}
PBT_PROP(block_boundaries, 2)
{
    dispatch(g, true);
}
