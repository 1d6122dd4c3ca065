#ifndef C10_SUPPORT_HPP
#define C10_SUPPORT_HPP
#include <errs.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/case_folding.hpp>
#include <lexy/dsl/symbol.hpp>
#include <lexy/dsl/unicode.hpp>
#include <ucd.hpp>

namespace dsl = lexy::dsl;
using namespace hc;

// One parse of each of the three productions below.
struct outcome
{
    bool        ok = false;
    std::size_t end = 0;
    std::string value, errors;
    bool        taken = false; // as a branch
    std::size_t branch_end = 0, after_branch = 0;
    std::string branch_value, branch_errors;
    std::size_t try_end = 0; // where parsing goes on after a failure
    bool        used_range = false;
    bool        branch_missing = false;
    std::string table; // the table through its own interface: entries; parse(); try_parse() and what it consumed
};
struct lit_desc
{
    std::vector<std::uint32_t> cps; // code points (or bytes)
    bool                       keyword;
};
struct rule_desc
{
    const char*           text;
    char                  type; // L literal, K keyword, S set, Y symbol, T symbol(token), I symbol(identifier), D identifier
    int                   fold; // 0 none, 1 ASCII, 2 Unicode
    std::vector<lit_desc> lits;
    int                   ident;           // which identifier (leading/trailing)
    std::vector<lit_desc> reserved[4];     // whole, prefix, containing, suffix
    int                   reserved_fold[4];
    struct run
    {
        int enc;
        const char* input;
        outcome (*fn)(const units&);
    };
    std::vector<run> runs;
};
inline std::vector<rule_desc>& rules()
{
    static std::vector<rule_desc> v;
    return v;
}

//=== identifiers ===//
inline constexpr auto id0 = dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::word);
inline constexpr auto id1 = dsl::identifier(dsl::ascii::alpha);
inline constexpr auto id2 = dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue);
inline constexpr auto id3 = dsl::identifier(dsl::ascii::lower, dsl::ascii::lower / dsl::lit_c<'-'>);
inline constexpr auto id4 = dsl::identifier(dsl::ascii::word - dsl::ascii::digit, dsl::ascii::graph - LEXY_ASCII_ONE_OF("()+"));

inline std::string val(int i)
{
    return "#" + std::to_string(i);
}
template <typename R>
std::string val(lexy::lexeme<R> l)
{
    std::string s = "lexeme ";
    for (auto it = l.begin(); it != l.end(); ++it)
        s += std::to_string(std::uint32_t(typename std::make_unsigned<std::conditional_t<sizeof(*it) == 1, char, std::conditional_t<sizeof(*it) == 2, short, int>>>::type(*it))) + ",";
    return s;
}

struct seq_out
{
    std::size_t n;
    std::string v;
};
template <typename X>
struct seq_p
{
    static constexpr auto rule  = dsl::position + X::get() + dsl::position;
    static constexpr auto value = lexy::callback<seq_out>([](auto a, auto b) { return seq_out{dist(a, b), ""}; },
                                                          [](auto a, auto v, auto b) {
                                                              return seq_out{dist(a, b), val(v)};
                                                          });
};
struct br_out
{
    bool        taken;
    std::size_t n, after;
    std::string v;
};
template <typename X>
struct br_p
{
    static constexpr auto rule  = dsl::position + dsl::if_(X::get() >> dsl::position) + dsl::position;
    static constexpr auto value = lexy::callback<br_out>([](auto a, auto c) { return br_out{false, 0, dist(a, c), ""}; },
                                                         [](auto a, auto b, auto c) {
                                                             return br_out{true, dist(a, b), dist(a, c), ""};
                                                         },
                                                         [](auto a, auto v, auto b, auto c) {
                                                             return br_out{true, dist(a, b), dist(a, c), val(v)};
                                                         });
};
template <typename X>
struct try_p
{
    static constexpr auto rule  = dsl::position + dsl::try_(X::get()) + dsl::position;
    static constexpr auto value = seq_p<X>::value;
};
template <typename Table, typename Input>
std::string table_api(const Table& tab, const Input& in)
{
    std::string r = std::to_string(tab.size()) + (tab.empty() ? "empty" : "") + "{";
    for (auto e : tab)
    {
        std::string s;
        for (auto p = e.symbol; *p; ++p)
            s += char(*p);
        r += s + "=" + std::to_string(e.value) + " ";
    }
    auto idx = [&](auto k) { return k ? std::to_string(tab[k]) : std::string("none"); };
    r += "} parse " + idx(tab.parse(in));
    auto reader = in.reader();
    auto k      = tab.try_parse(reader);
    r += " try_parse " + idx(k) + " consumed " + std::to_string(dist(in.reader().position(), reader.position()));
    return r;
}
template <typename X, template <typename> class Holder, typename Enc>
outcome run_rule(const units& u)
{
    Holder<Enc> h(u);
    outcome     o;
    if constexpr (requires { X::tab; })
        o.table = table_api(X::tab, h.input);
    {
        err_list errs;
        auto     r = lexy::parse<seq_p<X>>(h.input, collect_errors(errs, h.input));
        o.ok       = r.has_value();
        if (o.ok)
        {
            o.end   = r.value().n;
            o.value = r.value().v;
        }
        o.errors = show_errors(errs, false);
    }
    {
        err_list errs;
        auto     r      = lexy::parse<br_p<X>>(h.input, collect_errors(errs, h.input));
        o.branch_errors = show_errors(errs, false);
        if (r.has_value())
        {
            o.taken        = r.value().taken;
            o.branch_end   = r.value().n;
            o.after_branch = r.value().after;
            o.branch_value = r.value().v;
        }
        else
            o.branch_missing = true;
    }
    {
        err_list errs;
        auto     r = lexy::parse<try_p<X>>(h.input, collect_errors(errs, h.input));
        o.try_end  = r.has_value() ? r.value().n : std::size_t(-1);
    }
    return o;
}
template <typename X, template <typename> class Holder, int E>
rule_desc::run make_run()
{
    using Enc = std::tuple_element_t<E, std::tuple<lexy::utf8_char_encoding, lexy::utf8_encoding, lexy::utf16_encoding,
                                                   lexy::utf32_encoding, lexy::ascii_encoding, lexy::default_encoding>>;
    return {E, Holder<Enc>::kind, &run_rule<X, Holder, Enc>};
}
template <typename X>
struct reg
{
    template <typename... Runs>
    explicit reg(Runs... runs)
    {
        rule_desc d = X::desc();
        (d.runs.push_back(runs), ...);
        rules().push_back(d);
    }
};
#endif
