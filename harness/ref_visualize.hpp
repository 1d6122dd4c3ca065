// What the visualisation functions are expected to write: printable ASCII as it is, everything else escaped.
#ifndef HARNESS_REF_VISUALIZE_HPP
#define HARNESS_REF_VISUALIZE_HPP
#include <common.hpp>
#include <lexy/visualize.hpp>

namespace refv
{
using hc::units;
struct style
{
    bool        unicode = false, symbols = false, space = false;
    unsigned    tab = 0, width = 0, depth = 32;
    std::string ellipsis() const
    {
        return unicode ? "\xE2\x80\xA6" : "...";
    }
};
inline style style_of(lexy::visualization_options o)
{
    style s;
    s.unicode = o.is_set(lexy::visualize_use_unicode);
    s.symbols = o.is_set(lexy::visualize_use_symbols);
    s.space   = o.is_set(lexy::visualize_space);
    s.tab     = o.tab_width;
    s.width   = o.max_lexeme_width;
    s.depth   = o.max_tree_depth;
    return s;
}
inline std::string hex(std::uint32_t v, int digits)
{
    static const char d[] = "0123456789ABCDEF";
    std::string       r;
    for (; v != 0 || digits > 0; v /= 16, --digits)
        r.insert(r.begin(), d[v % 16]);
    return r;
}
// Without colors.
inline std::string special(const style& s, const std::string& unicode, const std::string& plain)
{
    return s.unicode ? "\xE2\x9F\xA8" + unicode + "\xE2\x9F\xA9" : "\\" + plain;
}
inline std::string code_point(const style& s, std::uint32_t c)
{
    if (c > 0x10FFFF)
        return special(s, "U+\?\?\?\?", "u\?\?\?\?");
    switch (c)
    {
    case 0:
        return special(s, "NUL", "0");
    case '\r':
        return special(s, "CR", "r");
    case '\n':
        return s.symbols ? "\xE2\x8F\x8E" : special(s, "LF", "n");
    case '\t': {
        if (s.tab != 0)
        {
            std::string r;
            for (unsigned i = 0; i != s.tab; ++i)
                r += code_point(s, ' ');
            return r;
        }
        return s.symbols ? "\xE2\x87\xA8" : special(s, "HT", "t");
    }
    case ' ':
        return !s.space ? " " : s.symbols ? "\xE2\x90\xA3" : special(s, "SP", "u0020");
    case '\\':
        return s.unicode ? "\\" : "\\\\";
    default:
        if (c >= 0x20 && c < 0x7F)
            return std::string(1, char(c));
        return special(s, "U+" + hex(c, 4), c < 0x10000 ? "u" + hex(c, 4) : "U" + hex(c, 8));
    }
}
inline std::string byte(const style& s, std::uint32_t b)
{
    return special(s, "0x" + hex(b, 2), "x" + hex(b, 2));
}
// Escapes the code units of a text that is not Unicode.
inline std::string text_lexeme(const style& s, const units& u, std::size_t b, std::size_t e)
{
    std::string r;
    unsigned    n = 0;
    for (auto i = b; i != e; ++i)
    {
        r += u[i] < 0x80 ? code_point(s, u[i]) : byte(s, u[i]);
        if (++n == s.width)
            return r + s.ellipsis();
    }
    return r;
}
// Removes the color sequences.
inline std::string plain(const std::string& s)
{
    std::string r;
    for (std::size_t i = 0; i != s.size(); ++i)
    {
        if (s[i] == '\033')
        {
            while (s[i] != 'm')
                ++i;
            continue;
        }
        r += s[i];
    }
    return r;
}
inline lexy::visualization_options gen_options(pbt::gen& g)
{
    lexy::visualization_options o;
    int                         flags = 0;
    for (auto f : {lexy::visualize_use_unicode, lexy::visualize_use_color, lexy::visualize_use_symbols, lexy::visualize_space})
        if (g.chance(2, 5))
            flags |= f;
    o.flags = lexy::visualization_flags(flags);
    if (g.chance(1, 4))
        o.max_tree_depth = static_cast<unsigned char>(g.chance(1, 3) ? 32 - g.below(3) : g.below(8));
    if (g.chance(1, 4))
        o.max_lexeme_width = static_cast<unsigned char>(g.chance(1, 4) ? g.below(256) : 1 + g.below(8));
    if (g.chance(1, 4))
        o.tab_width = static_cast<unsigned char>(g.below(9));
    return o;
}
inline std::string show(lexy::visualization_options o)
{
    return "flags " + std::to_string(int(o.flags)) + " depth " + std::to_string(o.max_tree_depth) + " width " + std::to_string(o.max_lexeme_width) + " tab " + std::to_string(o.tab_width);
}
} // namespace refv
#endif
