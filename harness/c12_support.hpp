#ifndef C12_SUPPORT_HPP
#define C12_SUPPORT_HPP
#include <errs.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/bom.hpp>

namespace dsl = lexy::dsl;
using namespace hc;

struct element
{
    char                  kind;  // i integer, b bytes, p padding, t bits, l literal
    unsigned              n;     // i: size; b, p: number of bytes
    int                   order; // i: 0 little, 1 big
    int                   token; // i: 0 any bytes, 1 bytes in lo..hi, 2 n bytes of the wrong count, 3 ASCII bytes; b: 0 any, 1 range, 2 set, 3 ASCII, 4 own predicate
    unsigned              a, b;  // range; padding value; mask and value
    std::vector<unsigned> bytes; // literal; set
    bool                  opt;   // as a branch
};
struct rule_desc
{
    const char*          text;
    std::vector<element> els;
    struct out
    {
        bool        ok = false;
        std::string value, errors, tokens;
    };
    struct run
    {
        const char* input;
        out (*fn)(const units&);
    };
    std::vector<run> runs;
};
inline std::vector<rule_desc>& rules()
{
    static std::vector<rule_desc> v;
    return v;
}
struct odd_byte
{
    static constexpr auto name = "odd byte";
    constexpr bool        operator()(unsigned char b) const
    {
        return b % 2 == 1;
    }
};
template <typename Iter>
inline Iter start{};
template <typename T>
std::string text(const T& v)
{
    if constexpr (std::is_integral_v<T>)
        return "u" + std::to_string(sizeof(T) * 8) + ":" + std::to_string(static_cast<unsigned long long>(v)) + (std::is_signed_v<T> ? "signed" : "");
    else if constexpr (std::is_same_v<T, lexy::nullopt>)
        return "none";
    else
        return "@" + std::to_string(dist(start<T>, v));
}
template <typename R>
std::string text(lexy::lexeme<R> l)
{
    return "[" + std::to_string(dist(start<typename R::iterator>, l.begin())) + "," + std::to_string(dist(start<typename R::iterator>, l.end())) + ")";
}
template <typename X>
struct prod
{
    static constexpr auto rule  = X::get() + dsl::position;
    static constexpr auto value = lexy::callback<std::string>([](const auto&... args) {
        std::string r;
        ((r += (r.empty() ? "" : ",") + text(args)), ...);
        return r;
    });
};
template <typename X, template <typename> class Holder>
rule_desc::out run_rule(const units& u)
{
    Holder<lexy::byte_encoding> h(u);
    rule_desc::out              o;
    auto                        b = h.input.reader().position();
    start<decltype(b)>            = b;
    {
        err_list errs;
        auto     r = lexy::parse<prod<X>>(h.input, collect_errors(errs, h.input));
        o.ok       = r.has_value();
        if (o.ok)
            o.value = r.value();
        o.errors = show_errors(errs, false);
    }
    {
        lexy::parse_tree_for<typename Holder<lexy::byte_encoding>::input_type> tree;
        err_list errs;
        auto     r = lexy::parse_as_tree<prod<X>>(tree, h.input, collect_errors(errs, h.input));
        if (!r.is_fatal_error())
            for (auto [ev, node] : tree.traverse())
                if (ev == lexy::traverse_event::leaf && node.lexeme().begin() != node.lexeme().end())
                    o.tokens += "[" + std::to_string(dist(b, node.lexeme().begin())) + "," + std::to_string(dist(b, node.lexeme().end())) + ")";
    }
    return o;
}
template <typename X>
struct reg
{
    reg()
    {
        rule_desc d = X::desc();
        d.runs      = {{"buffer", &run_rule<X, buffer_holder>}, {"string", &run_rule<X, string_holder>}, {"range", &run_rule<X, range_holder>}};
        rules().push_back(d);
    }
};
#endif
