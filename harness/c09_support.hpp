#ifndef C09_SUPPORT_HPP
#define C09_SUPPORT_HPP
#include <errs.hpp>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/unicode.hpp>
#include <ucd.hpp>

namespace dsl = lexy::dsl;
using ucd::bits;
using ucd::gc;
using namespace ucd;
using namespace hc;

struct result
{
    long        len; // -1: failed
    std::string errors;
};
struct expr
{
    const char* text;
    const char* name;
    char        kind; // A: ASCII only (every encoding), U: Unicode encodings, B: default and byte encoding
    bool (*in)(std::uint32_t);
    // one[e]: the class alone; how much it consumes. run[e]: greedy repetition as identifier on a buffer, and as loop.
    result (*one[7])(const units&);
    long (*ident[7])(const units&);
    long (*loop[7])(const units&);
};
inline std::vector<expr>& exprs()
{
    static std::vector<expr> v;
    return v;
}

template <typename X>
struct one_p
{
    static constexpr auto rule  = dsl::capture(X::get());
    static constexpr auto value = lexy::callback<long>([](auto lex) { return long(lex.size()); });
};
template <typename X>
struct ident_p
{
    static constexpr auto rule  = dsl::if_(dsl::identifier(X::get()));
    static constexpr auto value = lexy::callback<long>([](auto lex) { return long(lex.size()); }, [] { return 0l; });
};
template <typename X>
struct loop_p
{
    static constexpr auto rule  = dsl::capture(dsl::token(dsl::while_(X::get())));
    static constexpr auto value = lexy::callback<long>([](auto lex) { return long(lex.size()); });
};
template <typename X, typename Enc>
result one_f(const units& u)
{
    string_holder<Enc> h(u);
    err_list           errs;
    auto               r = lexy::parse<one_p<X>>(h.input, collect_errors(errs, h.input));
    return {r.is_success() ? r.value() : -1, show_errors(errs, false)};
}
template <typename X, typename Enc>
long ident_f(const units& u)
{
    buffer_holder<Enc> h(u);
    return lexy::parse<ident_p<X>>(h.input, lexy::noop).value();
}
template <typename X, typename Enc>
long loop_f(const units& u)
{
    buffer_holder<Enc> h(u);
    return lexy::parse<loop_p<X>>(h.input, lexy::noop).value();
}
template <typename X, char Kind>
struct reg
{
    template <typename Enc>
    void set(expr& e, int i)
    {
        e.one[i]   = &one_f<X, Enc>;
        e.ident[i] = &ident_f<X, Enc>;
        e.loop[i]  = &loop_f<X, Enc>;
    }
    reg()
    {
        expr e{X::text, X::name, Kind, &X::in, {}, {}, {}};
        if constexpr (Kind == 'U' || Kind == 'A')
        {
            set<lexy::utf8_char_encoding>(e, 0);
            set<lexy::utf16_encoding>(e, 2);
            set<lexy::utf32_encoding>(e, 3);
            set<lexy::ascii_encoding>(e, 4);
        }
        if constexpr (Kind == 'B' || Kind == 'A')
        {
            set<lexy::default_encoding>(e, 5);
            set<lexy::byte_encoding>(e, 6);
        }
        exprs().push_back(e);
    }
};
#endif
