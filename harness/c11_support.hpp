#ifndef C11_SUPPORT_HPP
#define C11_SUPPORT_HPP
#include <errs.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <tuple>

namespace dsl = lexy::dsl;
using namespace hc;
using u128 = unsigned __int128;

// A user-defined integer: the sequence of digit values.
struct digit_list
{
    std::string s;
    digit_list() = default;
    explicit digit_list(int) {}
};
template <>
struct lexy::integer_traits<digit_list>
{
    using type                       = digit_list;
    static constexpr auto is_bounded = false;
    template <int Radix>
    static void add_digit_unchecked(type& result, unsigned digit)
    {
        if (digit >= Radix)
            pbt::fail("integer_traits was given a digit that is not below the radix");
        result.s += "0123456789ABCDEF"[digit];
    }
};

struct outcome
{
    bool        ok = false;
    std::size_t end = 0;
    std::string value, errors, tokens;
    bool        branch_missing = false, taken = false;
    std::size_t branch_end = 0, after_branch = 0;
    std::string branch_value, branch_errors;
};
struct rule_desc
{
    const char*  text;
    char         kind; // D captured digits, I integer, C code_point_id, U code_unit_id, S as_integer of sign + integer
    char         form; // d digits, t no leading zero, s separator, x separator without leading zero, n N digits, m N digits with separator, k custom token
    int          base; // 2 8 10 16, 17 lower, 18 upper
    int          sep;
    int          n;
    u128         max;      // largest value that does not overflow; 0: unbounded
    int          bits;     // width of an unbounded type; 0: digit_list
    struct run
    {
        const char *enc, *input;
        outcome (*fn)(const units&);
    };
    std::vector<run> runs;
};
inline std::vector<rule_desc>& rules()
{
    static std::vector<rule_desc> v;
    return v;
}
inline std::string dec128(u128 v)
{
    std::string r;
    do
    {
        r.insert(r.begin(), char('0' + int(v % 10)));
        v /= 10;
    } while (v != 0);
    return r;
}
template <typename T>
std::string val(const T& v)
{
    if constexpr (std::is_same_v<T, digit_list>)
        return v.s;
    else if constexpr (std::is_same_v<T, lexy::code_point>)
        return dec128(v.value());
    else if constexpr (std::is_integral_v<T> || std::is_same_v<T, __int128> || std::is_same_v<T, u128>)
    {
        if (v < T(0))
            return "-" + dec128(u128(0) - u128(v));
        return dec128(u128(v));
    }
    else // a lexeme
    {
        std::string s = "lexeme ";
        for (auto c : v)
            s += char(c);
        return s;
    }
}
struct seq_out
{
    std::size_t n;
    std::string v;
};
template <typename X>
struct int_p : lexy::token_production
{
    static constexpr auto rule  = X::get();
    static constexpr auto value = lexy::as_integer<typename X::type>;
};
template <typename X>
struct seq_p
{
    static constexpr auto rule  = [] {
        if constexpr (X::is_signed)
            return dsl::position + dsl::p<int_p<X>> + dsl::position;
        else
            return dsl::position + X::get() + dsl::position;
    }();
    static constexpr auto value = lexy::callback<seq_out>([](auto a, auto v, auto b) { return seq_out{dist(a, b), val(v)}; });
};
struct br_out
{
    bool        taken;
    std::size_t n, after;
    std::string v;
};
template <typename X>
struct br_p
{
    static constexpr auto rule  = dsl::position + dsl::if_(X::get() >> dsl::position) + dsl::position;
    static constexpr auto value = lexy::callback<br_out>([](auto a, auto c) { return br_out{false, 0, dist(a, c), ""}; },
                                                         [](auto a, auto v, auto b, auto c) {
                                                             return br_out{true, dist(a, b), dist(a, c), val(v)};
                                                         });
};
template <typename X>
struct tree_p
{
    static constexpr auto rule = X::get();
};
template <typename X, template <typename> class Holder, typename Enc>
outcome run_rule(const units& u)
{
    Holder<Enc> h(u);
    outcome     o;
    {
        err_list errs;
        auto     r = lexy::parse<seq_p<X>>(h.input, collect_errors(errs, h.input));
        o.ok       = r.has_value();
        if (o.ok)
        {
            o.end   = r.value().n;
            o.value = r.value().v;
        }
        o.errors = show_errors(errs, false);
    }
    if constexpr (!X::is_signed)
    {
        err_list errs;
        auto     r      = lexy::parse<br_p<X>>(h.input, collect_errors(errs, h.input));
        o.branch_errors = show_errors(errs, false);
        if (r.has_value())
        {
            o.taken        = r.value().taken;
            o.branch_end   = r.value().n;
            o.after_branch = r.value().after;
            o.branch_value = r.value().v;
        }
        else
            o.branch_missing = true;
    }
    if constexpr (!X::is_signed)
    {
        lexy::parse_tree_for<typename Holder<Enc>::input_type> tree;
        err_list                                               errs;
        auto r = lexy::parse_as_tree<tree_p<X>>(tree, h.input, collect_errors(errs, h.input));
        auto b = h.input.reader().position();
        if (!r.is_fatal_error())
            for (auto [ev, node] : tree.traverse())
                if (ev == lexy::traverse_event::leaf)
                    o.tokens += std::string(node.kind().name()) + "[" + std::to_string(dist(b, node.lexeme().begin())) + "," + std::to_string(dist(b, node.lexeme().end())) + ")";
    }
    return o;
}
template <typename X, template <typename> class Holder, int E>
rule_desc::run make_run()
{
    using Enc = std::tuple_element_t<E, std::tuple<lexy::utf8_char_encoding, lexy::utf8_encoding, lexy::utf16_encoding,
                                                   lexy::utf32_encoding, lexy::ascii_encoding, lexy::default_encoding, lexy::byte_encoding>>;
    return {enc_traits<Enc>::name, Holder<Enc>::kind, &run_rule<X, Holder, Enc>};
}
template <typename X>
struct reg
{
    template <typename... Runs>
    explicit reg(Runs... runs)
    {
        rule_desc d = X::desc();
        (d.runs.push_back(runs), ...);
        rules().push_back(d);
    }
};
#endif
