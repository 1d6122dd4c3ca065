#ifndef C03_SUPPORT_HPP
#define C03_SUPPORT_HPP
// C03: the same rule on the same code units through every kind of input.
#define GX_ACTIONS 0
#include <gx.hpp>
#include <lexy/dsl/unicode.hpp>
#include <tuple>

namespace c03
{
using hc::units;
inline constexpr auto escapes = lexy::symbol_table<char>.map<'n'>('x').map<'"'>('y');
struct run
{
    const char* input;
    std::string (*fn)(const units&);
};
struct rule
{
    const char*              text;
    std::vector<std::string> fragments;
    std::vector<run>         runs[5]; // per encoding: default, ascii, utf8, utf16, utf32
};
inline std::vector<rule>& rules()
{
    static std::vector<rule> v;
    return v;
}
template <typename X>
struct prod
{
    static constexpr auto name  = "prod";
    static constexpr auto rule  = dsl::position + X::get() + dsl::position;
    static constexpr auto value = gx::cb{"v"};
};
template <typename X>
struct branch_prod
{
    static constexpr auto name  = "branch";
    static constexpr auto rule  = dsl::position + dsl::opt(X::get()) + dsl::position;
    static constexpr auto value = gx::cb{"v"};
};
template <typename X, typename Holder>
std::string go(const units& u)
{
    Holder h(u);
    auto   r = show(gx::do_parse<prod<X>>(h.input));
    if constexpr (X::branch)
        r += " / " + show(gx::do_parse<branch_prod<X>>(h.input));
    return r;
}
template <typename Enc, bool Buffer, int Align>
struct shifted : gx::part_holder<Enc, Buffer>
{
    using gx::part_holder<Enc, Buffer>::part_holder;
};
// A string that starts at an odd address of a bigger one.
template <typename Enc, int Off>
struct offset_holder
{
    std::unique_ptr<hc::char_of<Enc>[]> data;
    lexy::string_input<Enc>             input;
    explicit offset_holder(const units& u) : data(new hc::char_of<Enc>[u.size() + Off])
    {
        for (std::size_t i = 0; i != u.size(); ++i)
            data[i + Off] = static_cast<hc::char_of<Enc>>(u[i]);
        for (std::size_t i = 0; i != Off; ++i)
            data[i] = hc::char_of<Enc>('a');
        input = lexy::string_input<Enc>(data.get() + Off, u.size());
    }
};
template <typename X>
int reg(const char* text, std::vector<std::string> fragments)
{
    rule r;
    r.text      = text;
    r.fragments = std::move(fragments);
    auto add    = [&](int slot, auto enc) {
        using E = decltype(enc);
        r.runs[slot] = {{"range", &go<X, hc::range_holder<E>>},
                        {"string", &go<X, hc::string_holder<E>>},
                        {"buffer", &go<X, hc::buffer_holder<E>>},
                        {"part of a buffer", &go<X, gx::part_holder<E, true>>},
                        {"string at an odd address", &go<X, offset_holder<E, 3>>}};
    };
    if constexpr (!X::unicode)
    {
        add(0, lexy::default_encoding{});
        add(1, lexy::ascii_encoding{});
    }
    add(2, lexy::utf8_encoding{});
    add(3, lexy::utf16_encoding{});
    add(4, lexy::utf32_encoding{});
    rules().push_back(std::move(r));
    return 0;
}
} // namespace c03
#endif
