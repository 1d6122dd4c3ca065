// C09: generated character class expressions against a membership predicate.
#include <c09_support.hpp>
#include <cstring>
#include <pbt.hpp>

namespace
{
template <typename Enc>
std::size_t decode(const units& u, std::size_t pos, std::uint32_t* c)
{
    if constexpr (enc_traits<Enc>::unicode)
        return enc_traits<Enc>::dec(u, pos, c);
    else
    {
        if (pos == u.size())
            return 0;
        *c = u[pos];
        return 1;
    }
}

const std::uint32_t interesting[] = {0x7F,   0x80,   0x7FF,  0x800,  0xFFFF, 0x10000, 0x10FFFF, 0xD7FF, 0xE000, 0xFDD0, 0xE4, 0xB5,
                                     0x3B1,  0x85,   0x2028, 0x2029, 0xA0,   0x20AC,  0x1F600,  0x200D, 0x203F, 0x660,  0x1C5, 0xAD,
                                     0xF0000, 0x378, 0x2160, 0x300,  0x3000, 0x10400, 0x9F,     0x9B};

template <typename Enc>
void go(pbt::gen& g, const expr& e, int i)
{
    // A text of characters and malformed parts; the class must match exactly its characters at every position.
    units u;
    auto  n     = 1 + g.size(30);
    auto  dense = g.below(3) != 0; // long runs of members, for the word-at-a-time paths
    for (std::size_t k = 0; k != n; ++k)
    {
        std::uint32_t c = 0;
        for (int tries = 0; tries != (dense ? 6 : 1); ++tries)
        {
            switch (g.weighted({6, 4, 3, 3}))
            {
            case 0:
                c = std::uint32_t(g.below(0x80));
                break;
            case 1:
                c = std::uint32_t(0x20 + g.below(0x60));
                break;
            case 2:
                c = g.pick(interesting);
                break;
            default:
                c = gen_scalar(g);
            }
            if (!enc_traits<Enc>::unicode)
                c &= 0xFF;
            if (std::is_same_v<Enc, lexy::ascii_encoding>)
                c &= 0x7F;
            if (e.in(c))
                break;
        }
        if constexpr (enc_traits<Enc>::unicode)
        {
            if (g.chance(1, 30))
                u.push_back(enc_traits<Enc>::max == 0xFF ? std::uint32_t(0x80 + g.below(0x7F)) : std::uint32_t(0xD800 + g.below(0x800)));
            else
                enc_traits<Enc>::enc(u, c);
        }
        else
            u.push_back(c);
    }
    g.note(std::string(e.text) + " on " + enc_traits<Enc>::name + " " + show(u));

    std::uint32_t c   = 0;
    auto          len = decode<Enc>(u, 0, &c);
    // The documentation lets an ASCII unit be judged on its own.
    auto expected = len != 0 && e.in(c) ? long(len) : -1l;
    auto r        = e.one[i](u);
    pbt::check_eq(r.len, expected, "units consumed");
    if (expected == -1)
    {
        if (e.name)
            pbt::check_eq(r.errors, "{class<" + std::string(e.name) + ">[0,0)}", "error");
    }
    else
        pbt::check_eq(r.errors, std::string("{}"), "errors of a match");

    std::size_t pos = 0, members = 0;
    while (true)
    {
        auto l = decode<Enc>(u, pos, &c);
        if (l == 0 || !e.in(c))
            break;
        pos += l;
        ++members;
    }
    if (members > 0 && pos < u.size())
        g.nontrivial(std::string(e.text) + show(u));
    if (members >= 8)
        g.label("run of at least 8 members");
    pbt::check_eq(e.ident[i](u), long(pos), "greedy run (identifier over a buffer)");
    pbt::check_eq(e.loop[i](u), long(pos), "greedy run (loop over a buffer)");
}
void dispatch(pbt::gen& g, const expr& e)
{
    int avail[7], n = 0;
    for (int i = 0; i != 7; ++i)
        if (e.one[i])
            avail[n++] = i;
    auto i = avail[g.below(unsigned(n))];
    switch (i)
    {
    case 0:
        return go<lexy::utf8_char_encoding>(g, e, i);
    case 2:
        return go<lexy::utf16_encoding>(g, e, i);
    case 3:
        return go<lexy::utf32_encoding>(g, e, i);
    case 4:
        return go<lexy::ascii_encoding>(g, e, i);
    case 5:
        return go<lexy::default_encoding>(g, e, i);
    default:
        return go<lexy::byte_encoding>(g, e, i);
    }
}
const std::vector<expr>& sorted()
{
    static const auto v = [] {
        auto r = exprs();
        std::sort(r.begin(), r.end(), [](const expr& a, const expr& b) { return std::strcmp(a.text, b.text) < 0; });
        return r;
    }();
    return v;
}

PBT_PROP(texts, 12)
{
    auto& e = sorted()[g.below(sorted().size())];
    g.label(e.kind == 'A' ? "ASCII class" : e.kind == 'U' ? "Unicode class" : "byte class");
    dispatch(g, e);
}
// Every character of the small encodings and of the first planes' interesting blocks.
PBT_PROP(every_character, 1)
{
    auto& e = sorted()[g.enumerate(sorted().size())];
    g.note(std::string("every character of ") + e.text);
    g.nontrivial(std::string(e.text));
    auto one = [&](int i, const units& u, std::uint32_t c, bool valid) {
        if (!e.one[i])
            return;
        auto r = e.one[i](u).len;
        if (r != (valid && e.in(c) ? long(u.size()) : -1l))
            pbt::fail(std::string(e.text) + ": " + pbt::hex(c) + " in encoding #" + std::to_string(i) + " gives " + std::to_string(r));
    };
    auto cp = [&](std::uint32_t c) {
        units u8, u16;
        refu::enc8(u8, c);
        refu::enc16(u16, c);
        one(0, u8, c, true);
        one(2, u16, c, true);
        one(3, {c}, c, true);
    };
    for (std::uint32_t c = 0; c != 0x100; ++c)
    {
        if (c != 0xFF)
            one(4, {c}, c, c < 0x80);
        one(5, {c}, c, true);
        one(6, {c}, c, true);
        cp(c);
    }
    auto start = std::uint32_t(g.below(0x110000 - 0x100));
    for (auto c = start; c != start + 0x80; ++c)
        if (refu::is_scalar(c))
            cp(c);
    for (auto c : interesting)
        cp(c);
    g.extra_evaluations(0x100 * 3);
}
} // namespace
