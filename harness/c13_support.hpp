#ifndef C13_SUPPORT_HPP
#define C13_SUPPORT_HPP
#include <errs.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <tuple>

namespace dsl = lexy::dsl;
using namespace hc;

struct outcome
{
    bool        ok = false;
    std::string value, errors, tokens;
    bool        branch_ok = false;
    std::string branch_value, branch_errors;
};
struct esc_desc
{
    char        c;
    bool        fold;
    std::string branches; // s symbol, d captured digit, x code unit, u code point, e the escape character itself, E anything
};
struct rule_desc
{
    const char*              text;
    char                     kind; // D delimited, U until, L lookahead
    std::string              open, close;
    bool                     close_fold, close_keyword, open_cap, close_cap;
    int                      cls, limit;
    std::vector<esc_desc>    escapes;
    bool                     ws;
    std::vector<std::string> needles, ends; // U, L
    int                      until_kind;    // 0 literal, 1 literal set, 2 newline, 3 ASCII digit, 4 case folded literal
    bool                     or_eof;
    struct run
    {
        const char *enc, *input;
        outcome (*fn)(const units&);
    };
    std::vector<run> runs;
};
inline std::vector<rule_desc>& rules()
{
    static std::vector<rule_desc> v;
    return v;
}
inline constexpr auto symbols = lexy::symbol_table<int>.map<'n'>(1).map<'t'>(2).map<LEXY_SYMBOL("nn")>(3).map<'"'>(4).map<'\\'>(5).map<LEXY_SYMBOL("quux")>(6);
inline constexpr auto kw2_id  = dsl::identifier(dsl::ascii::alpha);
inline constexpr auto kw_id   = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit);
struct my_limit
{
    static constexpr auto name = "my limit";
};

template <typename Iter>
inline Iter start{};

struct val
{
    std::string s;
};
inline std::string text(const val& v)
{
    return v.s;
}
template <typename R>
std::string text(lexy::lexeme<R> l)
{
    using It = typename R::iterator;
    return "[" + std::to_string(dist(start<It>, l.begin())) + "," + std::to_string(dist(start<It>, l.end())) + ")";
}
inline std::string text(int i)
{
    return "#" + std::to_string(i);
}
inline std::string text(char8_t c)
{
    return "x" + std::to_string(int(c));
}
inline std::string text(lexy::code_point c)
{
    return "U" + std::to_string(std::uint32_t(c.value()));
}
inline std::string text(lexy::nullopt)
{
    return "none";
}
template <typename It>
std::string text(const It& it)
{
    return "@" + std::to_string(dist(start<It>, it));
}
struct cb
{
    using return_type = val;
    template <typename... Args>
    val operator()(const Args&... args) const
    {
        std::string r;
        ((r += (r.empty() ? "" : ",") + text(args)), ...);
        return {r};
    }
    struct sink_t
    {
        std::string s = "{";
        using return_type = val;
        template <typename... Args>
        void operator()(const Args&... args)
        {
            s += "(" + cb{}(args...).s + ")";
        }
        val finish() &&
        {
            return {s + "}"};
        }
    };
    sink_t sink() const
    {
        return {};
    }
};
template <typename X>
struct prod
{
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = X::get() + dsl::position;
    static constexpr auto value      = cb{};
};
template <typename X>
struct prod_nows
{
    static constexpr auto rule  = X::get() + dsl::position;
    static constexpr auto value = cb{};
};
template <typename X>
struct branch
{
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = dsl::opt(X::get()) + dsl::position;
    static constexpr auto value      = cb{};
};
template <typename X>
struct branch_nows
{
    static constexpr auto rule  = dsl::opt(X::get()) + dsl::position;
    static constexpr auto value = cb{};
};
template <typename X, template <typename> class Holder, typename Enc>
outcome run_rule(const units& u)
{
    Holder<Enc> h(u);
    outcome     o;
    auto        b      = h.input.reader().position();
    start<decltype(b)> = b;
    using P            = std::conditional_t<X::ws, prod<X>, prod_nows<X>>;
    using B            = std::conditional_t<X::ws, branch<X>, branch_nows<X>>;
    {
        err_list errs;
        auto     r = lexy::parse<P>(h.input, collect_errors(errs, h.input));
        o.ok       = r.has_value();
        if (o.ok)
            o.value = r.value().s;
        o.errors = show_errors(errs, false);
    }
    if constexpr (X::as_branch)
    {
        err_list errs;
        auto     r  = lexy::parse<B>(h.input, collect_errors(errs, h.input));
        o.branch_ok = r.has_value();
        if (o.branch_ok)
            o.branch_value = r.value().s;
        o.branch_errors = show_errors(errs, false);
    }
    {
        lexy::parse_tree_for<typename Holder<Enc>::input_type> tree;
        err_list                                               errs;
        auto r = lexy::parse_as_tree<P>(tree, h.input, collect_errors(errs, h.input));
        if (!r.is_fatal_error())
            for (auto [ev, node] : tree.traverse())
                if (ev == lexy::traverse_event::leaf && node.lexeme().begin() != node.lexeme().end())
                    o.tokens += std::string(node.kind() == lexy::error_token_kind ? "!" : "") + "[" + std::to_string(dist(b, node.lexeme().begin())) + "," + std::to_string(dist(b, node.lexeme().end())) + ")";
    }
    return o;
}
template <typename X, template <typename> class Holder, int E>
rule_desc::run make_run()
{
    using Enc = std::tuple_element_t<E, std::tuple<lexy::utf8_char_encoding, lexy::utf8_encoding, lexy::utf16_encoding, lexy::utf32_encoding,
                                                   lexy::ascii_encoding, lexy::default_encoding>>;
    return {enc_traits<Enc>::name, Holder<Enc>::kind, &run_rule<X, Holder, Enc>};
}
template <typename X>
struct reg
{
    template <typename... Runs>
    explicit reg(Runs... runs)
    {
        rule_desc d = X::desc();
        (d.runs.push_back(runs), ...);
        rules().push_back(d);
    }
};
#endif
