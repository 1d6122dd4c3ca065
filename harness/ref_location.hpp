// Lines, columns and annotated ranges by a single scan of the code units.
#ifndef HARNESS_REF_LOCATION_HPP
#define HARNESS_REF_LOCATION_HPP
#include <common.hpp>

namespace refl
{
using namespace hc;
struct ref_loc
{
    std::size_t line_begin, col_begin;
    unsigned    line, col;
};
enum class policy
{
    unit,
    point,
    bytes
};

// Splits the text into columns and newlines by a single left-to-right scan.
template <typename Enc>
ref_loc ref_location(const units& u, std::size_t pos, policy p, std::size_t width)
{
    if (p == policy::bytes)
        return {pos / width * width, pos, unsigned(pos / width + 1), unsigned(pos % width + 1)};
    std::size_t i = 0;
    ref_loc     l{0, 0, 1, 1};
    while (i < pos)
    {
        std::size_t n  = 1;
        bool        nl = false;
        if (u[i] == '\n')
            nl = true;
        else if (u[i] == '\r' && i + 1 < u.size() && u[i + 1] == '\n')
            nl = true, n = 2;
        else if (p == policy::point)
        {
            if constexpr (enc_traits<Enc>::unicode)
            {
                n = enc_traits<Enc>::dec(u, i);
                if (n == 0)
                    n = 1;
            }
        }
        if (i + n > pos)
            break; // pos is inside
        i += n;
        if (nl)
            l = {i, i, l.line + 1, 1};
        else
            l.col_begin = i, ++l.col;
    }
    return l;
}
// [begin, end of text, end of newline) of the line starting at line_begin
template <typename Enc>
std::pair<std::size_t, std::size_t> ref_line(const units& u, std::size_t begin, policy p, std::size_t width)
{
    if (p == policy::bytes)
    {
        auto text = std::min(u.size(), begin + width - 1);
        return {text, std::min(u.size(), begin + width)};
    }
    for (auto i = begin; i < u.size(); ++i)
    {
        if (u[i] == '\n')
            return {i, i + 1};
        if (u[i] == '\r' && i + 1 < u.size() && u[i + 1] == '\n')
            return {i, i + 2};
    }
    return {u.size(), u.size()};
}
template <typename Enc>
bool is_cont(std::uint32_t c)
{
    if constexpr (std::is_same_v<Enc, lexy::utf8_encoding> || std::is_same_v<Enc, lexy::utf8_char_encoding>)
        return c >= 0x80 && c < 0xC0;
    else if constexpr (std::is_same_v<Enc, lexy::utf16_encoding>)
        return c >= 0xDC00 && c <= 0xDFFF;
    else
        return false;
}

// What is highlighted for the range of `len` units at `position` (already the begin of its column).
struct annotation
{
    std::size_t line_begin, begin, end, after_end;
    bool        newline, truncated, rounded;
};
template <typename Enc>
annotation ref_annotation(const units& u, const ref_loc& r, std::size_t len, policy p, std::size_t width)
{
    auto [text_end, nl_end] = ref_line<Enc>(u, r.line_begin, p, width);
    annotation a{r.line_begin, r.col_begin, 0, 0, false, false, false};
    auto       past_end = len > u.size() - a.begin;
    a.end               = past_end ? nl_end : a.begin + len;
    a.truncated         = past_end || a.end > nl_end;
    if (a.begin == a.end && !past_end)
        a.end = a.end >= text_end ? nl_end : a.end + 1;
    if (a.end > nl_end)
        a.end = nl_end;
    auto unrounded = a.end;
    while (a.end < nl_end && is_cont<Enc>(u[a.end]))
        ++a.end;
    a.rounded = a.end != unrounded;
    a.newline = a.end > text_end;
    if (a.newline)
        a.end = nl_end;
    a.after_end = a.newline ? nl_end : text_end;
    return a;
}
} // namespace refl
#endif
