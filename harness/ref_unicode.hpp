// Independent reference for the Unicode encoding forms (Unicode Standard, chapter 3.9, tables 3-6 and 3-7).
#ifndef REF_UNICODE_HPP
#define REF_UNICODE_HPP
#include <cstddef>
#include <cstdint>
#include <vector>

namespace refu
{
using units = std::vector<std::uint32_t>; // code units, zero-extended

inline bool is_scalar(std::uint32_t c)
{
    return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF);
}

// Well-formed UTF-8 sequence at pos; returns its length (0: ill-formed or end) and the value.
inline std::size_t dec8(const units& u, std::size_t pos, std::uint32_t* out = nullptr)
{
    auto at = [&](std::size_t i) { return pos + i < u.size() ? u[pos + i] : 0x1000u; };
    auto in = [](std::uint32_t v, std::uint32_t lo, std::uint32_t hi) { return lo <= v && v <= hi; };
    auto a = at(0), b = at(1), c = at(2), d = at(3);
    auto tail = [&](std::uint32_t v) { return in(v, 0x80, 0xBF); };
    std::uint32_t v   = 0;
    std::size_t   len = 0;
    if (in(a, 0, 0x7F))
        len = 1, v = a;
    else if (in(a, 0xC2, 0xDF) && tail(b))
        len = 2, v = (a - 0xC0) * 64 + (b - 0x80);
    else if (((a == 0xE0 && in(b, 0xA0, 0xBF)) || (in(a, 0xE1, 0xEC) && tail(b)) || (a == 0xED && in(b, 0x80, 0x9F))
              || (in(a, 0xEE, 0xEF) && tail(b)))
             && tail(c))
        len = 3, v = (a - 0xE0) * 4096 + (b - 0x80) * 64 + (c - 0x80);
    else if (((a == 0xF0 && in(b, 0x90, 0xBF)) || (in(a, 0xF1, 0xF3) && tail(b)) || (a == 0xF4 && in(b, 0x80, 0x8F)))
             && tail(c) && tail(d))
        len = 4, v = (a - 0xF0) * 262144 + (b - 0x80) * 4096 + (c - 0x80) * 64 + (d - 0x80);
    if (out)
        *out = v;
    return len;
}
inline std::size_t dec16(const units& u, std::size_t pos, std::uint32_t* out = nullptr)
{
    if (pos >= u.size())
        return 0;
    auto a = u[pos];
    if (a < 0xD800 || a > 0xDFFF)
    {
        if (out)
            *out = a;
        return 1;
    }
    if (a <= 0xDBFF && pos + 1 < u.size() && u[pos + 1] >= 0xDC00 && u[pos + 1] <= 0xDFFF)
    {
        if (out)
            *out = 0x10000 + (a - 0xD800) * 1024 + (u[pos + 1] - 0xDC00);
        return 2;
    }
    return 0;
}
inline std::size_t dec32(const units& u, std::size_t pos, std::uint32_t* out = nullptr)
{
    if (pos >= u.size() || !is_scalar(u[pos]))
        return 0;
    if (out)
        *out = u[pos];
    return 1;
}
inline std::size_t decascii(const units& u, std::size_t pos, std::uint32_t* out = nullptr)
{
    if (pos >= u.size() || u[pos] > 0x7F)
        return 0;
    if (out)
        *out = u[pos];
    return 1;
}
inline void enc8(units& u, std::uint32_t c)
{
    if (c < 0x80)
        u.push_back(c);
    else if (c < 0x800)
    {
        u.push_back(0xC0 + c / 64);
        u.push_back(0x80 + c % 64);
    }
    else if (c < 0x10000)
    {
        u.push_back(0xE0 + c / 4096);
        u.push_back(0x80 + c / 64 % 64);
        u.push_back(0x80 + c % 64);
    }
    else
    {
        u.push_back(0xF0 + c / 262144);
        u.push_back(0x80 + c / 4096 % 64);
        u.push_back(0x80 + c / 64 % 64);
        u.push_back(0x80 + c % 64);
    }
}
inline void enc16(units& u, std::uint32_t c)
{
    if (c < 0x10000)
        u.push_back(c);
    else
    {
        u.push_back(0xD800 + (c - 0x10000) / 1024);
        u.push_back(0xDC00 + (c - 0x10000) % 1024);
    }
}
} // namespace refu
#endif
