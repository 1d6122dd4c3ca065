// C07: decoding and encoding of code points in every encoding against the standard's tables.
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <pbt.hpp>
#include <errs.hpp>

namespace
{
using namespace hc;
namespace dsl = lexy::dsl;

std::vector<std::uint32_t> seen; // values passed to the predicate at run time
struct recorder
{
    static constexpr auto name()
    {
        return "recorder";
    }
    constexpr bool operator()(lexy::code_point cp) const
    {
        if (cp.value() > 0x7F)
            seen.push_back(cp.value());
        return true;
    }
};

struct one
{
    static constexpr auto rule  = dsl::capture(dsl::code_point.if_<recorder>()) + dsl::position;
    static constexpr auto value = lexy::callback<std::size_t>([](auto lex, auto pos) { return std::size_t(lex.end() == pos); });
};
struct one_plain
{
    static constexpr auto rule  = dsl::capture(dsl::code_point);
    static constexpr auto value = lexy::callback<std::size_t>([](auto lex) { return dist(lex.begin(), lex.end()); });
};
template <typename Iter>
struct values
{
    static constexpr auto rule  = dsl::while_(dsl::code_point.if_<recorder>()) + dsl::position;
    static constexpr auto value = lexy::forward<Iter>;
};
struct many
{
    static constexpr auto rule = dsl::while_(dsl::code_point) + dsl::eof;
};
template <typename Enc, typename Holder>
void check_units(const units& u)
{
    using T = enc_traits<Enc>;
    Holder h(u);
    // Decode from every start position by cutting the prefix.
    std::uint32_t expected = 0;
    auto          len      = T::dec(u, 0, &expected);
    {
        seen.clear();
        err_list e;
        auto     r = lexy::parse<one_plain>(h.input, collect_errors(e, h.input));
        if (r.is_success() != (len != 0))
            pbt::fail("code_point on " + show(u) + ": " + (len ? "rejected although well-formed" : "accepted although ill-formed"));
        if (len)
            pbt::check_eq((long long)(r.value()), (long long)(len), "number of code units");
        else
        {
            pbt::check_eq(show_errors(e, false), std::string("{class<code-point>[0,0)}"), "error");
        }
    }
    if (len)
    {
        seen.clear();
        auto r = lexy::parse<one>(h.input, lexy::noop);
        pbt::check(r.is_success() && r.value() == 1, "code_point.if_ consumes the sequence");
        if (expected > 0x7F)
        {
            if (seen.empty() || seen.back() != expected)
                pbt::fail("decoded value of " + show(u) + " is " + (seen.empty() ? std::string("missing") : pbt::hex(seen.back())) + ", expected " + pbt::hex(expected));
        }
    }
}
template <typename Enc>
void check_text(pbt::gen& g, const units& u)
{
    // The whole text: the maximal well-formed prefix is consumed.
    using T = enc_traits<Enc>;
    std::size_t                pos = 0;
    std::vector<std::uint32_t> cps;
    for (std::uint32_t c; pos < u.size();)
    {
        auto n = T::dec(u, pos, &c);
        if (n == 0)
            break;
        pos += n;
        cps.push_back(c);
    }
    auto go = [&](auto& h) {
        using production = values<typename lexy::input_reader<std::decay_t<decltype(h.input)>>::iterator>;
        seen.clear();
        auto r = lexy::parse<production>(h.input, lexy::noop);
        pbt::check(r.is_success(), "while_(code_point) always succeeds");
        pbt::check_eq((long long)(dist(h.begin(), r.value())), (long long)(pos), std::string("consumed units (") + h.kind + ")");
        std::vector<std::uint32_t> nonascii;
        for (auto c : cps)
            if (c > 0x7F)
                nonascii.push_back(c);
        if (seen != nonascii)
            pbt::fail(std::string("decoded values differ (") + h.kind + ")");
        pbt::check(lexy::match<many>(h.input) == (pos == u.size()), "match of whole text");
    };
    switch (g.below(3))
    {
    case 0: {
        string_holder<Enc> h(u);
        return go(h);
    }
    case 1: {
        buffer_holder<Enc> h(u);
        return go(h);
    }
    default: {
        range_holder<Enc> h(u);
        return go(h);
    }
    }
}

template <typename Str, typename Enc>
void check_encode(std::uint32_t cp)
{
    units e;
    enc_traits<Enc>::enc(e, cp);
    using char_t = typename Str::value_type;
    Str expected;
    for (auto c : e)
        expected.push_back(char_t(c));
    auto prefix = Str(3, char_t('x'));

    auto r = lexy::as_string<Str, Enc>(lexy::code_point(cp));
    if (r != expected)
        pbt::fail(std::string("as_string callback encodes ") + pbt::hex(cp) + " as " + pbt::show(r));
    auto s = lexy::as_string<Str, Enc>.sink();
    s(Str(prefix));
    s(lexy::code_point(cp));
    s(char_t('y'));
    s(lexy::code_point(cp));
    Str res = LEXY_MOV(s).finish();
    if (res != prefix + expected + char_t('y') + expected)
        pbt::fail(std::string("as_string sink encodes ") + pbt::hex(cp) + " as " + pbt::show(res));
}

constexpr unsigned block = 64;
PBT_PROP(every_scalar, 4)
{
    auto b = std::uint32_t(g.enumerate(0x110000 / block));
    g.note("code points " + pbt::hex(b * block) + " to " + pbt::hex(b * block + block - 1));
    g.nontrivial(b);
    for (auto cp = b * block; cp != b * block + block; ++cp)
    {
        if (!refu::is_scalar(cp))
        {
            check_units<lexy::utf32_encoding, string_holder<lexy::utf32_encoding>>({cp});
            check_units<lexy::utf16_encoding, string_holder<lexy::utf16_encoding>>({cp});
            check_units<lexy::utf8_encoding, string_holder<lexy::utf8_encoding>>({0xE0u | cp >> 12, 0x80u | (cp >> 6 & 63), 0x80u | (cp & 63)});
            continue;
        }
        units u8, u16;
        refu::enc8(u8, cp);
        refu::enc16(u16, cp);
        check_units<lexy::utf8_encoding, string_holder<lexy::utf8_encoding>>(u8);
        check_units<lexy::utf8_char_encoding, buffer_holder<lexy::utf8_char_encoding>>(u8);
        check_units<lexy::utf16_encoding, string_holder<lexy::utf16_encoding>>(u16);
        check_units<lexy::utf32_encoding, buffer_holder<lexy::utf32_encoding>>({cp});
        if (cp < 0x80)
        {
            check_units<lexy::ascii_encoding, string_holder<lexy::ascii_encoding>>({cp});
            check_encode<std::string, lexy::ascii_encoding>(cp);
        }
        check_encode<std::string, lexy::utf8_char_encoding>(cp);
        check_encode<std::u16string, lexy::utf16_encoding>(cp);
        check_encode<std::u32string, lexy::utf32_encoding>(cp);
#if __cpp_char8_t
        check_encode<std::u8string, lexy::utf8_encoding>(cp);
#endif
    }
    g.extra_evaluations(block - 1);
}

// All UTF-8 sequences of two lead bytes and boundary continuation bytes, truncated at every length.
PBT_PROP(utf8_sequences, 6)
{
    auto  a = std::uint32_t(g.enumerate(0xFF)); // without 0xFF, the in-band EOF
    units u{a};
    auto  n = g.below(6);
    for (std::size_t i = 0; i != n; ++i)
    {
        static const std::uint32_t edge[] = {0x80, 0xBF, 0x8F, 0x90, 0x9F, 0xA0, 0x7F, 0xC0, 0xC2, 'a', 0xFE, 0xF8, 0x00, 0xEF, 0xF0};
        u.push_back(g.chance(1, 5) ? std::uint32_t(g.below(0xFF)) : g.chance(1, 2) ? std::uint32_t(0x80 + g.below(64)) : g.pick(edge));
    }
    g.note("UTF-8 " + show(u));
    if (n != 0 && a >= 0x80)
        g.nontrivial(show(u));
    switch (g.below(3))
    {
    case 0:
        return check_units<lexy::utf8_encoding, string_holder<lexy::utf8_encoding>>(u);
    case 1:
        return check_units<lexy::utf8_char_encoding, buffer_holder<lexy::utf8_char_encoding>>(u);
    default:
        return check_units<lexy::utf8_char_encoding, range_holder<lexy::utf8_char_encoding>>(u);
    }
}
PBT_PROP(utf16_sequences, 4)
{
    units u;
    auto  n = 1 + g.below(3);
    for (std::size_t i = 0; i != n; ++i)
        switch (g.below(4))
        {
        case 0:
            u.push_back(std::uint32_t(0xD800 + g.below(0x400)));
            break;
        case 1:
            u.push_back(std::uint32_t(0xDC00 + g.below(0x400)));
            break;
        case 2: {
            static const std::uint32_t edge[] = {0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0xFFFE, 0, 'a', 0xFEFF};
            u.push_back(g.pick(edge));
            break;
        }
        default:
            u.push_back(std::uint32_t(g.below(0x10000)));
        }
    g.note("UTF-16 " + show(u));
    if (u[0] >= 0x80)
        g.nontrivial(show(u));
    switch (g.below(3))
    {
    case 0:
        return check_units<lexy::utf16_encoding, string_holder<lexy::utf16_encoding>>(u);
    case 1:
        return check_units<lexy::utf16_encoding, buffer_holder<lexy::utf16_encoding>>(u);
    default:
        return check_units<lexy::utf16_encoding, range_holder<lexy::utf16_encoding>>(u);
    }
}
PBT_PROP(utf32_and_ascii, 2)
{
    if (g.boolean())
    {
        auto c = std::uint32_t(g.bits64());
        if (c == 0xFFFFFFFF)
            c = 0x110000;
        g.note("UTF-32 " + pbt::hex(c));
        g.nontrivial(c);
        check_units<lexy::utf32_encoding, string_holder<lexy::utf32_encoding>>({c});
    }
    else
    {
        auto c = std::uint32_t(g.below(255));
        g.note("ASCII " + pbt::hex(c));
        check_units<lexy::ascii_encoding, string_holder<lexy::ascii_encoding>>({c});
    }
}
PBT_PROP(texts, 6)
{
    auto run = [&](auto enc) {
        using Enc = decltype(enc);
        auto u    = gen_units<Enc>(g, 40);
        g.note(std::string(enc_traits<Enc>::name) + " text " + show(u));
        if (u.size() > 2)
            g.nontrivial(show(u));
        g.label(well_formed<Enc>(u) ? "well-formed text" : "ill-formed text");
        check_text<Enc>(g, u);
    };
    switch (g.below(5))
    {
    case 0:
        return run(lexy::utf8_encoding{});
    case 1:
        return run(lexy::utf8_char_encoding{});
    case 2:
        return run(lexy::utf16_encoding{});
    case 3:
        return run(lexy::utf32_encoding{});
    default:
        return run(lexy::ascii_encoding{});
    }
}
} // namespace
