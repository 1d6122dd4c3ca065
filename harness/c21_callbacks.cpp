// C21: callbacks and sinks build exactly the result of the plain operation, without losing or reusing an object.
#include <common.hpp>
#include <deque>
#include <map>
#include <set>
#include <tracked.hpp>
#include <ucd.hpp>
#include <unordered_map>
#include <unordered_set>

#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/unicode.hpp>

using namespace hc;
namespace dsl = lexy::dsl;

struct with_state
{
    int calls = 0;
    int id    = 0;
};
namespace
{
using C = trk::copyable<int>;
using M = trk::movable<int>;
using ints = std::vector<int>;

std::string show_ints(const ints& v)
{
    std::string r = "[";
    for (auto i : v)
        r += (r.size() > 1 ? "," : "") + pbt::num(i);
    return r + "]";
}
int value(int i)
{
    return i;
}
template <typename T>
int value(const T& t)
{
    return t.get();
}
template <typename T>
int value(const std::unique_ptr<T>& t)
{
    return t->get();
}
template <typename Cont>
ints contents(const Cont& c)
{
    ints r;
    for (auto& x : c)
        r.push_back(value(x));
    return r;
}
template <typename Cont>
ints pairs(const Cont& c)
{
    ints r;
    for (auto& x : c)
        r.push_back(x.first), r.push_back(value(x.second));
    return r;
}
ints sorted(ints v, bool unique = false)
{
    std::sort(v.begin(), v.end());
    if (unique)
        v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
void same(const ints& actual, const ints& expected, const std::string& what)
{
    pbt::check_eq(show_ints(actual), show_ints(expected), what);
}
ints gen_ints(pbt::gen& g, std::size_t max = 24)
{
    ints v(g.size(max));
    auto range = g.boolean() ? 4u : 1000u;
    for (auto& x : v)
        x = int(g.below(range));
    return v;
}

// An allocator that can be recognised.
template <typename T>
struct alloc
{
    using value_type = T;
    int id           = -1;
    alloc()          = default;
    explicit alloc(int id) : id(id) {}
    template <typename U>
    alloc(const alloc<U>& o) : id(o.id)
    {}
    T* allocate(std::size_t n)
    {
        return std::allocator<T>().allocate(n);
    }
    void deallocate(T* p, std::size_t n)
    {
        std::allocator<T>().deallocate(p, n);
    }
    friend bool operator==(const alloc& a, const alloc& b)
    {
        return a.id == b.id;
    }
    friend bool operator!=(const alloc& a, const alloc& b)
    {
        return a.id != b.id;
    }
};
// The plain elements of a type built from an int.
template <typename T>
T make(int i)
{
    return T(i);
}

// Calls `f` with 0 to 4 of the items as arguments.
template <typename T, typename F>
auto spread(const ints& v, F f)
{
    switch (v.size())
    {
    case 1:
        return f(T(v[0]));
    case 2:
        return f(T(v[0]), T(v[1]));
    case 3:
        return f(T(v[0]), T(v[1]), T(v[2]));
    default:
        return f(T(v[0]), T(v[1]), T(v[2]), T(v[3]));
    }
}
ints gen_few(pbt::gen& g)
{
    ints v(1 + g.below(4));
    for (auto& x : v)
        x = int(g.below(6));
    return v;
}

//=== lists and collections ===//
// Feeds a sink in the ways its elements can be given.
template <typename T, typename Sink>
void feed(pbt::gen& g, Sink& s, const ints& v)
{
    for (auto i : v)
        switch (g.below(3))
        {
        case 0:
            s(T(i));
            break;
        case 1:
            s(i);
            break;
        default:
            if constexpr (std::is_copy_constructible_v<T>)
            {
                T t(i);
                s(t);
                pbt::check_eq(value(t), i, "an object given by reference changed");
            }
            else
            {
                T t(i);
                s(LEXY_MOV(t));
            }
        }
}
template <typename Cont, typename T, typename Cb, typename Expect>
void container(pbt::gen& g, Cb cb, Expect expect, const std::string& what)
{
    auto v = gen_ints(g);
    g.note(what + " " + show_ints(v));
    {
        auto s = cb.sink();
        feed<T>(g, s, v);
        Cont c = LEXY_MOV(s).finish();
        same(contents(c), expect(v), what + " sink");
        Cont d = cb(LEXY_MOV(c));
        same(contents(d), expect(v), what + " forwarding a container");
        Cont e = cb(lexy::nullopt{});
        same(contents(e), {}, what + " of nothing");
    }
    auto f = gen_few(g);
    Cont c = spread<T>(f, cb);
    same(contents(c), expect(f), what + " callback");
    // As a callback.
    Cont d = spread<T>(f, lexy::callback(cb));
    if (v.size() > 1)
    {
        g.extra_evaluations(1);
        g.nontrivial(what + show_ints(v));
    }
}
template <typename Cont, typename T, typename Cb, typename Expect>
void container_alloc(pbt::gen& g, Cb cb, Expect expect, const std::string& what)
{
    auto v  = gen_ints(g);
    auto id = int(g.below(100));
    using A = typename Cont::allocator_type;
    g.note(what + " with allocator " + show_ints(v));
    auto check = [&](const Cont& c, const ints& e, const char* how) {
        same(contents(c), expect(e), what + how);
        pbt::check_eq(c.get_allocator().id, id, what + how + " allocator");
    };
    {
        auto s = cb.sink(A(id));
        feed<T>(g, s, v);
        Cont c = LEXY_MOV(s).finish();
        check(c, v, " sink with allocator");
    }
    {
        A    state(id);
        auto s = cb.allocator().sink(state);
        feed<T>(g, s, v);
        check(LEXY_MOV(s).finish(), v, " sink with allocator from the state");
    }
    {
        std::pair<int, int> state(id, 0);
        auto                fn = cb.allocator([](auto& s) { ++s.second; return A(s.first); });
        auto                s  = fn.sink(state);
        feed<T>(g, s, v);
        check(LEXY_MOV(s).finish(), v, " sink with allocator from a function");
        pbt::check_eq(state.second, 1, "calls of the allocator function");
        auto f = gen_few(g);
        check(spread<T>(f, [&](auto&&... args) { return fn[state](LEXY_FWD(args)...); }), f, " callback with allocator from a function");
        check(fn[state](lexy::nullopt{}), {}, " of nothing with allocator");
        check(fn[state](Cont(A(id))), {}, " forwarding with allocator");
        auto bound = lexy::bind_sink(cb, lexy::parse_state.map([](auto& s) { return A(s.first); }));
        auto b     = bound.sink(state);
        feed<T>(g, b, v);
        check(LEXY_MOV(b).finish(), v, " bound sink");
    }
    auto f = gen_few(g);
    check(spread<T>(f, [&](auto&&... args) { return cb(A(id), LEXY_FWD(args)...); }), f, " callback with allocator");
    {
        auto bound = lexy::bind_sink(cb, A(id));
        auto b     = bound.sink();
        feed<T>(g, b, v);
        check(LEXY_MOV(b).finish(), v, " sink bound to an allocator");
    }
    if (v.size() > 1)
        g.nontrivial(what + "alloc" + show_ints(v));
}
struct hash
{
    std::size_t operator()(const C& c) const
    {
        return std::size_t(c.get() % 5);
    }
};
void lists(pbt::gen& g)
{
    auto order = [](const ints& v) { return v; };
    auto sort  = [](const ints& v) { return sorted(v); };
    auto set   = [](const ints& v) { return sorted(v, true); };
    switch (g.below(11))
    {
    case 0:
        return container<std::vector<M>, M>(g, lexy::as_list<std::vector<M>>, order, "vector of movable objects");
    case 1:
        return container<std::vector<C>, C>(g, lexy::as_list<std::vector<C>>, order, "vector");
    case 2:
        return container<std::list<M>, M>(g, lexy::as_list<std::list<M>>, order, "list");
    case 3:
        return container<std::deque<C>, C>(g, lexy::as_list<std::deque<C>>, order, "deque");
    case 4:
        return container_alloc<std::vector<C, alloc<C>>, C>(g, lexy::as_list<std::vector<C, alloc<C>>>, order, "vector");
    case 5:
        return container_alloc<std::list<M, alloc<M>>, M>(g, lexy::as_list<std::list<M, alloc<M>>>, order, "list");
    case 6:
        return container<std::set<M>, M>(g, lexy::as_collection<std::set<M>>, set, "set");
    case 7:
        return container<std::multiset<C>, C>(g, lexy::as_collection<std::multiset<C>>, sort, "multiset");
    case 8:
        return container_alloc<std::set<C, std::less<C>, alloc<C>>, C>(g, lexy::as_collection<std::set<C, std::less<C>, alloc<C>>>, set, "set");
    case 9: { // unordered
        using U = std::unordered_multiset<C, hash>;
        auto v  = gen_ints(g);
        g.note("unordered multiset " + show_ints(v));
        auto s = lexy::as_collection<U>.sink();
        feed<C>(g, s, v);
        U c = LEXY_MOV(s).finish();
        same(sorted(contents(c)), sorted(v), "unordered multiset");
        auto f = gen_few(g);
        U    d = spread<C>(f, lexy::as_collection<U>);
        same(sorted(contents(d)), sorted(f), "unordered multiset");
        if (v.size() > 1)
            g.nontrivial("unordered" + show_ints(v));
        return;
    }
    default: { // Several arguments make one element.
        auto v = gen_ints(g);
        g.note("pairs " + show_ints(v));
        auto               s = lexy::as_list<std::vector<std::pair<int, M>>>.sink();
        auto               m = lexy::as_collection<std::map<int, M>>.sink();
        auto               n = lexy::as_collection<std::multimap<int, C>>.sink();
        ints               e;
        std::map<int, int> em;
        std::multimap<int, int> en;
        for (std::size_t i = 0; i != v.size(); ++i)
        {
            s(int(i), M(v[i]));
            m(v[i], M(int(i)));
            n(v[i], C(int(i)));
            e.push_back(int(i)), e.push_back(v[i]);
            em.emplace(v[i], int(i));
            en.emplace(v[i], int(i));
        }
        same(pairs(LEXY_MOV(s).finish()), e, "list of pairs");
        same(pairs(LEXY_MOV(m).finish()), pairs(em), "map");
        same(pairs(LEXY_MOV(n).finish()), pairs(en), "multimap");
        if (v.size() > 1)
            g.nontrivial("pairs" + show_ints(v));
    }
    }
}

//=== concatenation ===//
// A container with append() but without reserve().
struct appendable
{
    std::vector<M> v;
    appendable() = default;
    explicit appendable(std::vector<M>&& v) : v(LEXY_MOV(v)) {}
    bool empty() const
    {
        return v.empty();
    }
    void append(appendable&& o)
    {
        for (auto& x : o.v)
            v.push_back(LEXY_MOV(x));
        o.v.clear();
    }
    auto begin() const
    {
        return v.begin();
    }
    auto end() const
    {
        return v.end();
    }
};
template <typename Cont>
Cont make_cont(const ints& v)
{
    Cont c;
    if constexpr (std::is_same_v<Cont, appendable>)
        for (auto i : v)
            c.v.emplace_back(i);
    else
        for (auto i : v)
            c.emplace_back(i);
    return c;
}
template <typename Cont>
void concatenation(pbt::gen& g, const std::string& what)
{
    std::vector<ints> parts(g.below(8));
    ints              all;
    std::string       log = what;
    for (auto& p : parts)
    {
        p = gen_ints(g, 8);
        all.insert(all.end(), p.begin(), p.end());
        log += " " + show_ints(p);
    }
    g.note(log);
    auto s = lexy::concat<Cont>.sink();
    for (auto& p : parts)
    {
        auto c = make_cont<Cont>(p);
        if (g.chance(1, 3) && sizeof(c) < 100)
        {
            if constexpr (std::is_same_v<Cont, std::vector<M>>)
                c.reserve(g.below(40));
        }
        s(LEXY_MOV(c));
    }
    Cont r = LEXY_MOV(s).finish();
    same(contents(r), all, what + " sink");
    same(contents(lexy::concat<Cont>(lexy::nullopt{})), {}, "concatenation of nothing");
    parts.resize(4);
    auto n = 1 + g.below(4);
    all.clear();
    for (std::size_t i = 0; i != n; ++i)
        all.insert(all.end(), parts[i].begin(), parts[i].end());
    auto m  = make_cont<Cont>;
    Cont r2 = n == 1 ? lexy::concat<Cont>(m(parts[0]))
              : n == 2 ? lexy::concat<Cont>(m(parts[0]), m(parts[1]))
              : n == 3 ? lexy::concat<Cont>(m(parts[0]), m(parts[1]), m(parts[2]))
                       : lexy::concat<Cont>(m(parts[0]), m(parts[1]), m(parts[2]), m(parts[3]));
    same(contents(r2), all, what + " callback");
    if (parts.size() > 1)
        g.nontrivial(log);
}
void concatenations(pbt::gen& g)
{
    switch (g.below(4))
    {
    case 0:
        return concatenation<std::vector<M>>(g, "concatenation of vectors");
    case 1:
        return concatenation<std::list<M>>(g, "concatenation of lists");
    case 2:
        return concatenation<appendable>(g, "concatenation with append");
    default: {
        auto        v = gen_ints(g, 10);
        auto        s = lexy::concat<std::string>.sink();
        std::string e;
        for (auto i : v)
        {
            std::string p(std::size_t(i) % 40, char('a' + i % 26));
            e += p;
            s(LEXY_MOV(p));
        }
        g.note("concatenation of strings " + e);
        pbt::check_eq(LEXY_MOV(s).finish(), e, "concatenation of strings");
        pbt::check_eq(lexy::concat<std::string>(std::string("ab"), std::string(), e), "ab" + e, "concatenation of strings");
        if (v.size() > 1)
            g.nontrivial("strings" + e);
    }
    }
}

//=== folds, collecting ===//
void folds(pbt::gen& g)
{
    auto v = gen_ints(g);
    auto k = int(g.below(50));
    g.note("fold " + show_ints(v) + " from " + pbt::num(k));
    // An operation where the order and the number of calls matter.
    auto op       = [](unsigned r, int i) { return r * 31u + unsigned(i); };
    unsigned e    = unsigned(k);
    for (auto i : v)
        e = op(e, i);
    {
        auto f = lexy::fold<M>([k] { return M(k); }, [op](M&& r, M&& i) { return M(int(op(unsigned(r.get()), i.get()))); });
        auto s = f.sink();
        for (auto i : v)
            s(M(i));
        pbt::check_eq(LEXY_MOV(s).finish().get(), int(e), "fold");
    }
    {
        auto f = lexy::fold<M>(k, [op](M&& r, M i) { return M(int(op(unsigned(r.get()), i.get()))); }, [](M&& r) { return LEXY_MOV(r); });
        // The sink can be used repeatedly.
        for (int n = 0; n != 2; ++n)
        {
            auto s = f.sink();
            for (auto i : v)
                s(M(i)), s();
            pbt::check_eq(LEXY_MOV(s).finish().get(), int(e), "fold with overloads");
        }
    }
    {
        auto f = lexy::fold_inplace<C>(C(k), [op](C& r, M i) { r = C(int(op(unsigned(r.get()), i.get()))); });
        for (int n = 0; n != 2; ++n)
        {
            auto s = f.sink();
            for (auto i : v)
                s(M(i));
            pbt::check_eq(LEXY_MOV(s).finish().get(), int(e), "fold in place");
        }
        auto few = gen_few(g);
        auto ee  = unsigned(k);
        for (auto i : few)
            ee = op(ee, i);
        pbt::check_eq(spread<M>(few, lexy::callback(f)).get(), int(ee), "fold as callback");
    }
    {
        auto f = lexy::fold_inplace<std::vector<M>>([] { return std::vector<M>(); }, [](std::vector<M>& r, M&& a, int b) {
            r.insert(r.begin(), LEXY_MOV(a));
            r.emplace_back(b);
        });
        auto            s = f.sink();
        std::deque<int> d;
        for (auto i : v)
            s(M(i), i + 1), d.push_front(i), d.push_back(i + 1);
        same(contents(LEXY_MOV(s).finish()), ints(d.begin(), d.end()), "fold of two values");
    }
    {
        auto s = lexy::count.sink();
        for (auto i : v)
            i % 3 == 0 ? s() : i % 3 == 1 ? s(M(i)) : s(M(i), i);
        pbt::check_eq((long long)LEXY_MOV(s).finish(), (long long)v.size(), "count");
    }
    {
        ints seen;
        auto cb = lexy::callback([&](M m) { seen.push_back(m.get()); }, [&](int a, M b) { seen.push_back(a + b.get()); });
        auto c  = lexy::collect(cb);
        auto s  = c.sink();
        ints ee;
        for (auto i : v)
            if (i % 2)
                s(M(i)), ee.push_back(i);
            else
                s(i, M(5)), ee.push_back(i + 5);
        pbt::check_eq((long long)LEXY_MOV(s).finish(), (long long)v.size(), "number collected");
        same(seen, ee, "collected");
    }
    {
        auto cb = lexy::callback<M>([](M m) { return M(m.get() + 1); }, [](int a, M b) { return M(a * b.get()); });
        auto c  = lexy::collect<std::list<M>>(cb);
        auto s  = c.sink();
        auto a  = lexy::collect<std::vector<M, alloc<M>>>(cb);
        auto t  = a.sink(alloc<M>(k));
        ints ee;
        for (auto i : v)
            if (i % 2)
                s(M(i)), t(M(i)), ee.push_back(i + 1);
            else
                s(i, M(5)), t(i, M(5)), ee.push_back(i * 5);
        same(contents(LEXY_MOV(s).finish()), ee, "collected into a container");
        auto r = LEXY_MOV(t).finish();
        same(contents(r), ee, "collected into a container with an allocator");
        pbt::check_eq(r.get_allocator().id, k, "allocator of a collection");
    }
    {
        auto s = lexy::noop.sink();
        for (auto i : v)
            s(M(i), i);
        LEXY_MOV(s).finish();
    }
    if (v.size() > 1)
        g.nontrivial("fold" + show_ints(v) + std::to_string(k));
}

//=== strings ===//
template <typename Enc>
units fold_ascii(units u)
{
    for (auto& c : u)
        if (c >= 'A' && c <= 'Z')
            c += 'a' - 'A';
    return u;
}
template <typename Enc>
units fold_unicode(const units& u)
{
    units r;
    for (std::size_t i = 0; i != u.size();)
    {
        std::uint32_t cp = 0;
        auto          n  = enc_traits<Enc>::dec(u, i, &cp);
        if (n == 0)
            r.push_back(u[i++]);
        else
        {
            enc_traits<Enc>::enc(r, ucd::fold(cp));
            i += n;
        }
    }
    return r;
}
std::uint32_t gen_scalar(pbt::gen& g, std::uint32_t max)
{
    static const std::uint32_t some[] = {'A', 'Z', '[', '@', 0x7F, 0x80, 0xC4, 0xDF, 0x130, 0x1E9E, 0x23A, 0x2126, 0x212A, 0x10400, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000};
    for (;;)
    {
        auto c = g.boolean() ? g.pick(some) : std::uint32_t(g.below(g.boolean() ? 0x600 : 0x110000));
        if (c <= max && refu::is_scalar(c))
            return c;
    }
}
template <typename Enc, typename String, typename Callback>
void string_with(pbt::gen& g, Callback cb, units (*fold)(units), const std::string& what)
{
    using ch  = typename String::value_type;
    auto n    = g.below(8);
    auto s    = cb.sink();
    units all;
    std::string log = what;
    auto piece = [&](std::size_t max) {
        units u;
        if constexpr (enc_traits<Enc>::unicode)
        {
            u = gen_units<Enc>(g, max);
            for (auto& c : u)
                if ((long long)c == enc_traits<Enc>::eof_unit)
                    c = 'Q';
        }
        else
            u = gen_units<Enc>(g, max);
        if (g.boolean())
            for (auto& c : u)
                if (g.boolean())
                    c = 'A' + std::uint32_t(g.below(58));
        return u;
    };
    auto as_string = [](const units& u) {
        String r;
        for (auto c : u)
            r.push_back(ch(c));
        return r;
    };
    for (std::size_t i = 0; i != n; ++i)
    {
        auto u = piece(10);
        switch (g.below(6))
        {
        case 0:
            if (u.empty())
                u.push_back('X');
            u.resize(1);
            log += " char " + show(u);
            s(ch(u[0]));
            break;
        case 1:
            log += " string " + show(u);
            s(as_string(u));
            break;
        case 2: {
            log += " range " + show(u);
            auto          p = as_string(u);
            std::list<ch> l(p.begin(), p.end());
            s(l.begin(), l.end());
            break;
        }
        case 3: {
            log += " lexeme " + show(u);
            string_holder<Enc> h(u);
            s(lexy::lexeme_for<lexy::string_input<Enc>>(h.begin(), u.size()));
            break;
        }
        case 4: {
            log += " lexeme of a range " + show(u);
            range_holder<Enc> h(u);
            s(lexy::lexeme_for<typename range_holder<Enc>::input_type>(h.list.cbegin(), h.list.cend()));
            break;
        }
        default:
            u.clear();
            if constexpr (enc_traits<Enc>::unicode)
            {
                auto cp = gen_scalar(g, std::is_same_v<Enc, lexy::ascii_encoding> ? 0x7F : 0x10FFFF);
                log += " code point " + pbt::hex(cp);
                s(lexy::code_point(cp));
                enc_traits<Enc>::enc(u, cp);
            }
        }
        all.insert(all.end(), u.begin(), u.end());
        g.note(log);
    }
    auto shown = [](const String& s) { return show(to_units(s.begin(), s.end())); };
    String r   = LEXY_MOV(s).finish();
    pbt::check_eq(shown(r), show(fold(all)), "string sink");
    // Callback.
    auto u = piece(20);
    g.note(log + " / " + show(u));
    auto e = show(fold(u));
    {
        String a = cb(as_string(u));
        pbt::check_eq(shown(a), e, "string of a string");
        auto          p = as_string(u);
        std::list<ch> l(p.begin(), p.end());
        String        b = cb(l.begin(), l.end());
        pbt::check_eq(shown(b), e, "string of a range");
        string_holder<Enc> h(u);
        String             c = cb(lexy::lexeme_for<lexy::string_input<Enc>>(h.begin(), u.size()));
        pbt::check_eq(shown(c), e, "string of a lexeme");
        range_holder<Enc> rh(u);
        lexy::lexeme_for<typename range_holder<Enc>::input_type> lex(rh.list.cbegin(), rh.list.cend());
        String d = cb(lex);
        pbt::check_eq(shown(d), e, "string of a lexeme of a range");
        pbt::check_eq(shown(cb(lexy::nullopt{})), show(units{}), "string of nothing");
        // With an allocator.
        typename String::allocator_type al;
        pbt::check_eq(shown(cb(al, l.begin(), l.end())), e, "string of a range with allocator");
        pbt::check_eq(shown(cb(al, lex)), e, "string of a lexeme with allocator");
        auto t = cb.sink(al);
        t(as_string(u));
        pbt::check_eq(shown(LEXY_MOV(t).finish()), e, "string sink with allocator");
        if constexpr (enc_traits<Enc>::unicode)
        {
            auto  cp = gen_scalar(g, std::is_same_v<Enc, lexy::ascii_encoding> ? 0x7F : 0x10FFFF);
            units x;
            enc_traits<Enc>::enc(x, cp);
            pbt::check_eq(shown(cb(lexy::code_point(cp))), show(fold(x)), "string of a code point");
            pbt::check_eq(shown(cb(al, lexy::code_point(cp))), show(fold(x)), "string of a code point with allocator");
        }
    }
    if (all.size() > 1)
        g.nontrivial(log);
}
template <typename Enc, typename String>
void strings_of(pbt::gen& g)
{
    std::string what = std::string("string ") + enc_traits<Enc>::name;
    if constexpr (enc_traits<Enc>::unicode)
        switch (g.below(3))
        {
        case 0:
            return string_with<Enc, String>(g, lexy::as_string<String, Enc>.case_folding(dsl::ascii::case_folding), [](units u) { return fold_ascii<Enc>(u); }, what + " ASCII folded");
        case 1:
            if constexpr (!std::is_same_v<Enc, lexy::ascii_encoding>)
                return string_with<Enc, String>(g, lexy::as_string<String, Enc>.case_folding(dsl::unicode::simple_case_folding), [](units u) { return fold_unicode<Enc>(u); }, what + " folded");
            break;
        }
    string_with<Enc, String>(g, lexy::as_string<String, Enc>, [](units u) { return u; }, what);
}
void strings(pbt::gen& g)
{
    switch (g.below(6))
    {
    case 0:
        return strings_of<lexy::utf8_char_encoding, std::string>(g);
    case 1:
        return strings_of<lexy::default_encoding, std::string>(g);
    case 2:
        return strings_of<lexy::ascii_encoding, std::string>(g);
    case 3:
        return strings_of<lexy::utf16_encoding, std::u16string>(g);
    case 4:
        return strings_of<lexy::utf32_encoding, std::u32string>(g);
    default:
#if defined(__cpp_char8_t)
        return strings_of<lexy::utf8_encoding, std::u8string>(g);
#else
        return strings_of<lexy::utf8_encoding, std::basic_string<LEXY_CHAR8_T>>(g);
#endif
    }
}

//=== binding, composition, objects ===//
struct point
{
    C x, y;
    C sum() const
    {
        return C(x.get() * 10 + y.get());
    }
    C plus(M m) &&
    {
        return C(x.get() * 10 + y.get() + m.get());
    }
};
struct state
{
    int calls = 0;
    C   offset;
};
// What a call gets, in order.
struct recorder
{
    using return_type = ints;
    template <typename... Args>
    ints operator()(Args&&... args) const
    {
        ints r;
        (r.push_back(take(LEXY_FWD(args))), ...);
        return r;
    }
    static int take(M m)
    {
        return m.get();
    }
    static int take(const C& c)
    {
        return c.get();
    }
    static int take(int i)
    {
        return i;
    }
    static int take(const state& s)
    {
        return 1000 + s.offset.get();
    }
    static int take(lexy::nullopt)
    {
        return -1;
    }
    template <typename T, typename = std::enable_if_t<std::is_same_v<T, lexy::_default>>>
    static int take(const T&)
    {
        return -2;
    }
};
void binding(pbt::gen& g)
{
    using namespace lexy::placeholders;
    auto  a = int(g.below(100)), b = int(g.below(100)), c = int(g.below(100)), k = int(g.below(100));
    state st;
    st.offset = C(k);
    g.note("bind " + show_ints({a, b, c, k}));
    recorder r;
    auto     twice = [](const M& m) { return m.get() * 2; };
    same(lexy::bind(r, _1)(M(a), M(b)), {a}, "bind _1");
    same(lexy::bind(r, _2, _1)(M(a), M(b)), {b, a}, "bind _2, _1");
    same(lexy::bind(r, _3, k, _1, _2)(M(a), M(b), c), {c, k, a, b}, "bind _3, constant, _1, _2");
    same(lexy::bind(r, C(k), lexy::values)(M(a), M(b)), {k, a, b}, "bind constant, values");
    same(lexy::bind(r, lexy::values, k)(M(a), M(b), C(c)), {a, b, c, k}, "bind values, constant");
    same(lexy::bind(r, lexy::values)(), {}, "bind values without values");
    same(lexy::bind(r, k, lexy::values, 7)(C(a), b), {k, a, b, 7}, "bind constant, values, constant");
    same(lexy::bind(r, lexy::values, lexy::values)(C(a), b), {a, b, a, b}, "bind values twice");
    same(lexy::bind(r, lexy::values, _1)(C(a), b), {a, b, a}, "bind values and _1");
    same(lexy::bind(r, _1 || k, _2 || C(k))(M(a)), {a, k}, "bind with fallback");
    same(lexy::bind(r, _1 || k, _2.or_(C(k)))(lexy::nullopt{}, C(b)), {k, b}, "bind with fallback for nothing");
    same(lexy::bind(r, _1.or_default(), _2.or_default())(M(a)), {a, -2}, "bind with default");
    same(lexy::bind(r, _2.map(twice), _1)(M(a), M(b)), {2 * b, a}, "bind with map");
    same(lexy::bind(r, _2.map(twice) || k, _1.map(twice).or_(3))(M(a)), {k, 2 * a}, "bind with map and fallback");
    same(lexy::bind(r, (_1 || k).map(twice))(lexy::nullopt{}), {k}, "bind with fallback and map");
    same(lexy::bind(r, (_1 || k).map(twice))(M(a)), {2 * a}, "bind with fallback and map");
    same(lexy::bind(r, lexy::nth_value<4>.or_(k), _3)(C(a), C(b), C(c)), {k, c}, "bind nth value");
    same(lexy::bind(r, lexy::parse_state, _1)[st](M(a)), {1000 + k, a}, "bind state");
    same(lexy::bind(r, _2, lexy::parse_state.map([](state& s) { ++s.calls; return s.offset; }), lexy::values)[st](C(a), b), {b, k, a, b}, "bind mapped state");
    same(lexy::bind(r, lexy::values, lexy::parse_state.map(&state::offset))[st](M(a), b), {a, b, k}, "bind member of state");
    pbt::check_eq(st.calls, 1, "calls of the state mapping");
    {
        const auto cb = lexy::callback_with_state<ints>([&](state& s, auto&&... args) {
            ++s.calls;
            return r(LEXY_FWD(args)...);
        });
        same(cb[st](M(a), b), {a, b}, "callback with state");
        pbt::check_eq(st.calls, 2, "calls with state");
    }
    // Composition.
    auto inc   = lexy::callback<M>([](M m) { return M(m.get() + 1); });
    auto dbl   = lexy::callback<M>([](M m) { return M(m.get() * 2); });
    auto plus  = lexy::callback<M>([](M m, M n) { return M(m.get() - n.get()); });
    auto off   = lexy::callback_with_state<M>([](state& s, M m) {
        ++s.calls;
        return M(m.get() + s.offset.get());
    });
    pbt::check_eq((inc | dbl)(M(a)).get(), (a + 1) * 2, "composition");
    pbt::check_eq((dbl | inc)(M(a)).get(), a * 2 + 1, "composition");
    pbt::check_eq((plus | dbl | inc)(M(a), M(b)).get(), (a - b) * 2 + 1, "composition of three");
    pbt::check_eq((plus | (dbl | inc))(M(a), M(b)).get(), (a - b) * 2 + 1, "composition of three");
    pbt::check_eq((dbl | off | inc)[st](M(a)).get(), a * 2 + k + 1, "composition with state");
    pbt::check_eq((off | dbl)[st](M(a)).get(), (a + k) * 2, "composition with state");
    pbt::check_eq((dbl | off)[st](M(a)).get(), a * 2 + k, "composition with state");
    pbt::check_eq(st.calls, 5, "calls with state");
    {
        auto sc = lexy::as_list<std::vector<M>> >> lexy::callback<ints>([](std::vector<M>&& v) { return contents(v); }, [](std::vector<M>&& v, M m) {
                      auto r = contents(v);
                      r.push_back(m.get());
                      return r;
                  });
        auto v  = gen_ints(g);
        for (int n = 0; n != 2; ++n)
        {
            auto s = sc.sink();
            for (auto i : v)
                s(M(i));
            auto e = v;
            if (n == 0)
                same(sc(LEXY_MOV(s).finish()), e, "sink and callback");
            else
            {
                e.push_back(a);
                same(sc(LEXY_MOV(s).finish(), M(a)), e, "sink and callback");
            }
        }
        auto chained = sc | lexy::callback<int>([](ints v) { return int(v.size()); });
        auto s       = chained.sink();
        for (auto i : v)
            s(M(i));
        pbt::check_eq(chained(LEXY_MOV(s).finish()), int(v.size()), "sink, callback and callback");
        auto stateful = lexy::as_list<std::vector<M>> >> lexy::callback_with_state<int>([](state& s, std::vector<M>&& v) { return s.offset.get() + int(v.size()); });
        auto t        = stateful.sink();
        for (auto i : v)
            t(M(i));
        pbt::check_eq(stateful[st](LEXY_MOV(t).finish()), k + int(v.size()), "sink and callback with state");
    }
    // Objects.
    {
        auto p = lexy::construct<point>(C(a), C(b));
        same({p.x.get(), p.y.get()}, {a, b}, "construct an aggregate");
        auto q = lexy::construct<point>(LEXY_MOV(p));
        same({q.x.get(), q.y.get()}, {a, b}, "construct from an object");
        auto cp = lexy::construct<point>(static_cast<const point&>(q));
        same({q.x.get(), q.y.get(), cp.x.get(), cp.y.get()}, {a, b, a, b}, "construct a copy");
        same(contents(lexy::construct<std::vector<C>>(std::size_t(a % 5), C(b))), ints(std::size_t(a % 5), b), "construct a vector");
        pbt::check_eq(lexy::construct<M>(c).get(), c, "construct");
        std::unique_ptr<point> n(lexy::new_<point>(C(a), C(b)));
        same({n->x.get(), n->y.get()}, {a, b}, "new");
        auto u = lexy::new_<M, std::unique_ptr<M>>(M(c));
        pbt::check_eq(u->get(), c, "new");
        std::shared_ptr<point> sp = lexy::new_<point, std::shared_ptr<point>>(static_cast<const point&>(q));
        same({q.x.get(), sp->y.get()}, {a, b}, "new");
        pbt::check_eq(lexy::mem_fn(&point::x)(q).get(), a, "member");
        pbt::check_eq(lexy::mem_fn(&point::sum)(q).get(), a * 10 + b, "member function");
        pbt::check_eq(lexy::mem_fn(&point::sum)(&q).get(), a * 10 + b, "member function of a pointer");
        pbt::check_eq(lexy::mem_fn(&point::plus)(LEXY_MOV(q), M(c)).get(), a * 10 + b + c, "member function");
        pbt::check_eq(lexy::forward<M>(M(a)).get(), a, "forward");
        C x(b);
        pbt::check_eq(lexy::forward<C>(static_cast<const C&>(x)).get(), b, "forward a reference");
        pbt::check_eq(x.get(), b, "forward a reference");
        static constexpr auto konst = lexy::constant(42);
        pbt::check_eq(konst(), 42, "constant");
        auto o = lexy::callback<int>([](M m) { return m.get(); }, [](M m, M n) { return m.get() * 1000 + n.get(); }, [] { return -5; });
        same({o(M(a)), o(M(a), M(b)), o()}, {a, a * 1000 + b, -5}, "overloads");
    }
    g.nontrivial("bind" + show_ints({a, b, c, k}));
}
template <typename T, typename I>
void integer_of(pbt::gen& g)
{
    auto raw = I(g.bits64());
    if (g.boolean())
        raw = I(g.below(200));
    if (std::is_signed_v<I> && raw < 0)
        raw = I(~raw); // parsed integers are not negative
    g.note("integer " + pbt::num((long long)raw));
    pbt::check_eq((long long)lexy::as_integer<T>(raw), (long long)T(raw), "integer");
    pbt::check_eq((long long)lexy::as_integer<T>(lexy::plus_sign{}, raw), (long long)T(raw), "positive integer");
    pbt::check_eq((long long)lexy::as_integer<T>(lexy::minus_sign{}, raw), (long long)T(-raw), "negative integer");
    g.nontrivial("int" + std::to_string((long long)raw) + std::to_string(sizeof(T)) + std::to_string(sizeof(I)));
}
void numbers(pbt::gen& g)
{
    switch (g.below(6))
    {
    case 0:
        return integer_of<int, int>(g);
    case 1:
        return integer_of<int, unsigned>(g);
    case 2:
        return integer_of<long long, unsigned short>(g);
    case 3:
        return integer_of<long long, long long>(g);
    case 4:
        return integer_of<short, signed char>(g);
    default: {
        auto          b = std::uint32_t(g.bits64());
        float         f;
        std::uint32_t back;
        std::memcpy(&f, &b, 4);
        float r = lexy::bit_cast<float>(b);
        std::memcpy(&back, &r, 4);
        pbt::check_eq(back, b, "bits of a float");
        if (f == f)
            pbt::check_eq(lexy::bit_cast<std::uint32_t>(f), b, "float as bits");
        struct two
        {
            std::uint16_t a, b;
        };
        auto t = lexy::bit_cast<two>(b);
        pbt::check_eq(std::uint32_t(t.a) | std::uint32_t(t.b) << 16, b, "bits of a struct");
        pbt::check_eq(lexy::bit_cast<std::uint32_t>(t), b, "struct as bits");
        g.nontrivial("bits" + std::to_string(b));
    }
    }
}

//=== while parsing ===//
struct item
{
    static constexpr auto rule  = dsl::integer<int>;
    static constexpr auto value = lexy::construct<M>;
};
struct citem
{
    static constexpr auto rule  = dsl::integer<int>;
    static constexpr auto value = lexy::as_integer<int> | lexy::construct<C>;
};
constexpr auto one = dsl::p<item>;

struct p_list
{
    static constexpr auto rule  = dsl::list(one, dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<M>>;
};
struct p_bracketed
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(one, dsl::trailing_sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::as_list<std::list<M>>;
};
struct p_opt
{
    static constexpr auto rule  = dsl::opt(dsl::list(one, dsl::sep(dsl::comma))) + dsl::eof;
    static constexpr auto value = lexy::as_list<std::deque<M>>;
};
struct p_after
{
    static constexpr auto rule  = dsl::square_bracketed.list(one, dsl::sep(dsl::comma)) + one + dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<M>> >> lexy::callback<std::vector<M>>([](std::vector<M>&& v, M&& last) {
        v.insert(v.begin(), LEXY_MOV(last));
        return LEXY_MOV(v);
    });
};
struct p_values
{
    static constexpr auto rule  = one + dsl::comma + one + dsl::comma + one + dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<M>>;
};
struct p_reverse
{
    static constexpr auto rule  = one + dsl::comma + one + dsl::opt(dsl::comma >> one) + dsl::eof;
    static constexpr auto value = lexy::bind(lexy::as_list<std::vector<M>>, lexy::_2, lexy::_1);
};
struct inner
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(one, dsl::sep(dsl::comma));
    static constexpr auto value = lexy::as_list<std::vector<M>>;
};
struct p_concat
{
    static constexpr auto rule  = dsl::list(dsl::p<inner>) + dsl::eof;
    static constexpr auto value = lexy::concat<std::vector<M>>;
};
struct p_concat_values
{
    static constexpr auto rule  = dsl::p<inner> + dsl::p<inner> + dsl::opt(dsl::p<inner>) + dsl::eof;
    static constexpr auto value = lexy::bind(lexy::concat<std::vector<M>>, lexy::_1, lexy::_2, lexy::_3.or_default());
};
struct p_set
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(one, dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::as_collection<std::set<M>>;
};
struct p_map
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(dsl::integer<int> + dsl::equal_sign + one, dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::as_collection<std::map<int, M>>;
};
struct p_fold
{
    static constexpr auto rule = dsl::square_bracketed.opt_list(one + dsl::opt(dsl::equal_sign >> one), dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value
        = lexy::fold_inplace<std::vector<M>>([] { return std::vector<M>(); },
                                             [](std::vector<M>& r, M&& a, lexy::nullopt) { r.push_back(LEXY_MOV(a)); },
                                             [](std::vector<M>& r, M&& a, M&& b) {
                                                 r.push_back(LEXY_MOV(b));
                                                 r.push_back(LEXY_MOV(a));
                                             })
          >> lexy::callback<std::vector<M>>([](std::vector<M>&& v) { return LEXY_MOV(v); }, [](lexy::nullopt) { return std::vector<M>(); });
};
struct p_try
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(dsl::try_(one, dsl::until(dsl::comma)), dsl::ignore_trailing_sep(dsl::semicolon)) + dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<M>>;
};
struct p_new
{
    struct boxed
    {
        static constexpr auto rule  = one;
        static constexpr auto value = lexy::new_<M, std::unique_ptr<M>>;
    };
    static constexpr auto rule  = dsl::list(dsl::p<boxed>, dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<std::unique_ptr<M>>>;
};
struct fields
{
    C a{-1}, b{-1};
    C c{-1};
};
template <typename Sink>
struct p_fields
{
    static constexpr auto fa   = dsl::lit_c<'a'> >> (LEXY_MEM(a) = dsl::p<citem>);
    static constexpr auto fb   = dsl::lit_c<'b'> >> (LEXY_MEM(b) = dsl::p<citem>);
    static constexpr auto fc   = dsl::lit_c<'c'> >> (LEXY_MEM(c) = dsl::p<citem>);
    static constexpr auto rule = [] {
        if constexpr (std::is_same_v<Sink, int>)
            return dsl::partial_combination(fa, fb, fc) + dsl::eof;
        else if constexpr (std::is_same_v<Sink, char>)
            return fa + fc + fb + dsl::eof;
        else
            return dsl::combination(fa, fb, fc) + dsl::eof;
    }();
    static constexpr auto value = lexy::as_aggregate<fields>;
};
// With state.
struct ps_list
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(one, dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<M, alloc<M>>>.allocator([](with_state& s) { return alloc<M>(s.id); });
};
struct ps_bound
{
    static constexpr auto rule  = dsl::square_bracketed.list(one, dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::bind_sink(lexy::as_list<std::vector<M, alloc<M>>>, lexy::parse_state.map([](with_state& s) { ++s.calls; return alloc<M>(s.id); }));
};
struct ps_values
{
    struct counted
    {
        static constexpr auto rule  = one;
        static constexpr auto value = lexy::callback_with_state<M>([](with_state& s, M&& m) {
            ++s.calls;
            return LEXY_MOV(m);
        });
    };
    static constexpr auto rule  = dsl::list(dsl::p<counted>, dsl::sep(dsl::comma)) + dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<M>> >> lexy::bind(lexy::callback<std::vector<M>>([](std::vector<M>&& v, with_state& s) {
        v.emplace_back(s.id);
        return LEXY_MOV(v);
    }), lexy::_1, lexy::parse_state);
};

// A reader of the texts.
struct scan
{
    const std::string& t;
    std::size_t        i  = 0;
    bool               ok = true;
    bool lit(char c)
    {
        if (i < t.size() && t[i] == c)
            return ++i, true;
        return false;
    }
    void need(char c)
    {
        if (!lit(c))
            ok = false;
    }
    bool digit() const
    {
        return i < t.size() && t[i] >= '0' && t[i] <= '9';
    }
    int number()
    {
        int r = 0;
        if (!digit())
            ok = false;
        while (digit())
            r = r * 10 + (t[i++] - '0');
        return r;
    }
    // items separated by commas
    template <typename F>
    void items(F f, bool trailing = false)
    {
        do
        {
            f();
            if (!ok)
                return;
        } while (lit(',') && !(trailing && i < t.size() && t[i] == ']'));
    }
    template <typename F>
    void bracketed(F f, bool opt, bool trailing = false)
    {
        need('[');
        if (ok && opt && lit(']'))
            return;
        if (ok)
            items(f, trailing);
        if (ok)
            need(']');
    }
    bool done()
    {
        return ok && i == t.size();
    }
};
std::string gen_text(pbt::gen& g)
{
    std::string t;
    auto        items = [&] {
        auto n = g.below(6);
        for (std::size_t i = 0; i != n; ++i)
        {
            if (i)
                t += ',';
            t += std::to_string(g.below(g.boolean() ? 4 : 200));
            if (g.chance(1, 6))
                t += '=' + std::to_string(g.below(9));
        }
        if (g.chance(1, 6))
            t += ',';
    };
    switch (g.below(5))
    {
    case 0:
        items();
        break;
    case 1:
    case 2: {
        auto n = 1 + g.below(3);
        for (std::size_t i = 0; i != n; ++i)
        {
            t += '[';
            items();
            t += ']';
        }
        if (g.chance(1, 4))
            t += "7";
        break;
    }
    case 3: { // pairs
        t += '[';
        auto n = g.below(5);
        for (std::size_t i = 0; i != n; ++i)
            t += (i ? "," : "") + std::to_string(g.below(6)) + "=" + std::to_string(g.below(50));
        t += ']';
        break;
    }
    default: {
        static const char* orders[] = {"abc", "acb", "bac", "bca", "cab", "cba", "a", "", "ab", "aa", "abcc"};
        for (auto c : std::string(g.pick(orders)))
            t += c + std::to_string(g.below(30));
    }
    }
    if (g.chance(1, 3))
    {
        auto m = 1 + g.below(2);
        for (std::size_t k = 0; k != m; ++k)
        {
            auto p = g.below(t.size() + 1);
            auto c = "0123,[]=x;a"[g.below(11)];
            if (g.boolean() && p < t.size())
                t[p] = c;
            else if (g.boolean() && p < t.size())
                t.erase(p, 1);
            else
                t.insert(p, 1, c);
        }
    }
    return t;
}
template <typename Prod, typename Read, typename Expect>
void parsed(pbt::gen& g, const std::string& t, const char* what, Read read, Expect expect)
{
    scan s{t};
    ints e;
    expect(s, e);
    auto ok = s.done();
    auto in = lexy::string_input(t.data(), t.size());
    {
        auto r = lexy::parse<Prod>(in, lexy::noop);
        pbt::check_eq(r.is_success(), ok, std::string(what) + " accepts");
        if (ok)
        {
            same(read(r.value()), e, what);
            // The result can be moved out.
            auto v = LEXY_MOV(r).value();
            same(read(v), e, what);
        }
        else if (r.has_value())
            read(r.value());
    }
    if (t.size() > 3)
    {
        g.extra_evaluations(1);
        g.nontrivial(what + t);
    }
    g.label(ok ? "parsed" : "rejected");
}
template <typename Prod, typename Expect>
void parsed(pbt::gen& g, const std::string& t, const char* what, Expect expect)
{
    parsed<Prod>(g, t, what, [](auto& v) { return contents(v); }, expect);
}
void parsing(pbt::gen& g)
{
    auto t = gen_text(g);
    g.note("parse " + t);
    parsed<p_list>(g, t, "list", [](scan& s, ints& e) { s.items([&] { e.push_back(s.number()); }); });
    parsed<p_bracketed>(g, t, "bracketed list", [](scan& s, ints& e) { s.bracketed([&] { e.push_back(s.number()); }, true, true); });
    parsed<p_opt>(g, t, "optional list", [](scan& s, ints& e) {
        if (s.digit())
            s.items([&] { e.push_back(s.number()); });
    });
    parsed<p_after>(g, t, "list and value", [](scan& s, ints& e) {
        s.bracketed([&] { e.push_back(s.number()); }, false);
        if (s.ok)
            e.insert(e.begin(), s.number());
    });
    parsed<p_values>(g, t, "values", [](scan& s, ints& e) {
        for (int i = 0; i != 3 && s.ok; ++i)
        {
            if (i)
                s.need(',');
            if (s.ok)
                e.push_back(s.number());
        }
    });
    parsed<p_reverse>(g, t, "reordered values", [](scan& s, ints& e) {
        e.push_back(s.number());
        s.need(',');
        e.insert(e.begin(), s.number());
        if (s.ok && s.lit(','))
            s.number();
    });
    auto brackets = [](scan& s, ints& e, int min, int max) {
        int n = 0;
        for (; n != max && s.ok && s.i < s.t.size() && s.t[s.i] == '['; ++n)
            s.bracketed([&] { e.push_back(s.number()); }, true);
        if (n < min)
            s.ok = false;
    };
    parsed<p_concat>(g, t, "concatenated lists", [&](scan& s, ints& e) { brackets(s, e, 1, -1); });
    parsed<p_concat_values>(g, t, "concatenated values", [&](scan& s, ints& e) { brackets(s, e, 2, 3); });
    parsed<p_set>(g, t, "set", [](scan& s, ints& e) {
        s.bracketed([&] { e.push_back(s.number()); }, true);
        e = sorted(e, true);
    });
    parsed<p_map>(
        g, t, "map", [](auto& m) { return pairs(m); },
        [](scan& s, ints& e) {
            std::map<int, int> m;
            s.bracketed(
                [&] {
                    auto a = s.number();
                    s.need('=');
                    m.emplace(a, s.number());
                },
                true);
            e = pairs(m);
        });
    parsed<p_fold>(g, t, "fold", [](scan& s, ints& e) {
        s.bracketed(
            [&] {
                auto a = s.number();
                if (s.ok && s.lit('='))
                    e.push_back(s.number());
                e.push_back(a);
            },
            true);
    });
    parsed<p_new>(g, t, "boxed list", [](scan& s, ints& e) { s.items([&] { e.push_back(s.number()); }); });
    {
        // Only lifetimes are of interest here.
        auto r = lexy::parse<p_try>(lexy::string_input(t.data(), t.size()), lexy::noop);
        if (r.has_value())
            contents(r.value());
    }
    auto read   = [](const fields& f) { return ints{f.a.get(), f.b.get(), f.c.get()}; };
    auto expect = [](int kind) {
        return [kind](scan& s, ints& e) {
            e        = {-1, -1, -1};
            int seen = 0, n = 0;
            for (; n != 3 && s.ok && s.i < s.t.size(); ++n)
            {
                auto k = s.t[s.i] - 'a';
                if (k < 0 || k > 2 || seen >> k & 1)
                    break;
                if (kind == 0 && k != (n == 0 ? 0 : 3 - n))
                    break;
                seen |= 1 << k;
                ++s.i;
                e[std::size_t(k)] = s.number();
            }
            if (kind != 1 && n != 3)
                s.ok = false;
        };
    };
    // A duplicate is an error, also at the end of a combination.
    parsed<p_fields<char>>(g, t, "members", read, expect(0));
    parsed<p_fields<int>>(g, t, "members in any number", read, expect(1));
    parsed<p_fields<void>>(g, t, "members in any order", read, expect(2));
    // State.
    auto stateful = [&](auto prod, const char* what, auto expect) {
        with_state st;
        st.id = int(g.below(100));
        scan s{t};
        ints e;
        expect(s, e, st);
        auto r = lexy::parse<decltype(prod)>(lexy::string_input(t.data(), t.size()), st, lexy::noop);
        pbt::check_eq(r.is_success(), s.done(), what);
        if (s.done())
            same(contents(r.value()), e, what);
        return std::make_pair(LEXY_MOV(r), st);
    };
    {
        auto [r, st] = stateful(ps_list{}, "list with allocator", [](scan& s, ints& e, with_state&) { s.bracketed([&] { e.push_back(s.number()); }, true); });
        if (r.has_value())
            pbt::check_eq(r.value().get_allocator().id, st.id, "allocator of a parsed list");
    }
    {
        auto [r, st] = stateful(ps_bound{}, "list with bound allocator", [](scan& s, ints& e, with_state&) { s.bracketed([&] { e.push_back(s.number()); }, false); });
        if (r.has_value())
            pbt::check_eq(r.value().get_allocator().id, st.id, "allocator of a parsed list");
        if (r.is_success())
            pbt::check_eq(st.calls, 1, "sinks of a list");
    }
    {
        std::size_t n = 0;
        auto [r, st]  = stateful(ps_values{}, "values with state", [&](scan& s, ints& e, with_state& st) {
            s.items([&] { e.push_back(s.number()); });
            n = e.size();
            e.push_back(st.id);
        });
        if (r.is_success())
            pbt::check_eq(st.calls, int(n), "calls with state");
    }
}
template <typename F>
void watched(F f)
{
    trk::start();
    f();
    trk::finish();
}
} // namespace

PBT_PROP(containers, 3)
{
    watched([&] { lists(g); });
}
PBT_PROP(concat_, 2)
{
    watched([&] { concatenations(g); });
}
PBT_PROP(fold_collect, 1)
{
    watched([&] { folds(g); });
}
PBT_PROP(as_string_, 4)
{
    watched([&] { strings(g); });
}
PBT_PROP(bind_compose, 1)
{
    watched([&] { binding(g); });
}
PBT_PROP(numbers_, 1)
{
    numbers(g);
}
PBT_PROP(while_parsing, 4)
{
    watched([&] { parsing(g); });
}
