// Shared helpers of the harnesses: inputs of every kind with exactly sized storage, generators of code units.
#ifndef HARNESS_COMMON_HPP
#define HARNESS_COMMON_HPP

#include <forward_list>
#include <list>
#include <memory>
#include <pbt.hpp>
#include <ref_unicode.hpp>
#include <string>
#include <vector>

#include <lexy/encoding.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>

namespace hc
{
using refu::units;

template <typename Enc>
struct enc_traits;
template <>
struct enc_traits<lexy::default_encoding>
{
    static constexpr const char* name = "default";
    static constexpr std::uint32_t max = 0xFF;
    static constexpr bool unicode = false;
    static constexpr long long eof_unit = -1;
};
template <>
struct enc_traits<lexy::ascii_encoding>
{
    static constexpr const char* name = "ascii";
    static constexpr std::uint32_t max = 0xFF;
    static constexpr bool unicode = true;
    static constexpr long long eof_unit = 0xFF; // in-band EOF: documented, not part of a text
    static std::size_t dec(const units& u, std::size_t p, std::uint32_t* o = nullptr)
    {
        return refu::decascii(u, p, o);
    }
    static void enc(units& u, std::uint32_t c)
    {
        u.push_back(c & 0x7F);
    }
};
template <>
struct enc_traits<lexy::utf8_encoding>
{
    static constexpr const char* name = "utf8";
    static constexpr std::uint32_t max = 0xFF;
    static constexpr bool unicode = true;
    static constexpr long long eof_unit = 0xFF;
    static std::size_t dec(const units& u, std::size_t p, std::uint32_t* o = nullptr)
    {
        return refu::dec8(u, p, o);
    }
    static void enc(units& u, std::uint32_t c)
    {
        refu::enc8(u, c);
    }
};
template <>
struct enc_traits<lexy::utf8_char_encoding> : enc_traits<lexy::utf8_encoding>
{
    static constexpr const char* name = "utf8_char";
};
template <>
struct enc_traits<lexy::utf16_encoding>
{
    static constexpr const char* name = "utf16";
    static constexpr std::uint32_t max = 0xFFFF;
    static constexpr bool unicode = true;
    static constexpr long long eof_unit = -1;
    static std::size_t dec(const units& u, std::size_t p, std::uint32_t* o = nullptr)
    {
        return refu::dec16(u, p, o);
    }
    static void enc(units& u, std::uint32_t c)
    {
        refu::enc16(u, c);
    }
};
template <>
struct enc_traits<lexy::utf32_encoding>
{
    static constexpr const char* name = "utf32";
    static constexpr std::uint32_t max = 0xFFFFFFFF;
    static constexpr bool unicode = true;
    static constexpr long long eof_unit = 0xFFFFFFFF;
    static std::size_t dec(const units& u, std::size_t p, std::uint32_t* o = nullptr)
    {
        return refu::dec32(u, p, o);
    }
    static void enc(units& u, std::uint32_t c)
    {
        u.push_back(c);
    }
};
template <>
struct enc_traits<lexy::byte_encoding>
{
    static constexpr const char* name = "byte";
    static constexpr std::uint32_t max = 0xFF;
    static constexpr bool unicode = false;
    static constexpr long long eof_unit = -1;
};

template <typename Enc>
using char_of = typename Enc::char_type;

template <typename Enc>
std::vector<char_of<Enc>> to_chars(const units& u)
{
    std::vector<char_of<Enc>> r;
    r.reserve(u.size());
    for (auto c : u)
        r.push_back(static_cast<char_of<Enc>>(c));
    return r;
}
template <typename Iter>
units to_units(Iter b, Iter e)
{
    units r;
    for (; b != e; ++b)
    {
        auto c = *b;
        if constexpr (sizeof(c) == 1)
            r.push_back(static_cast<std::uint8_t>(c));
        else if constexpr (sizeof(c) == 2)
            r.push_back(static_cast<std::uint16_t>(c));
        else
            r.push_back(static_cast<std::uint32_t>(c));
    }
    return r;
}
inline units to_units(const std::string& s)
{
    return to_units(s.begin(), s.end());
}

// A string input over heap storage of exactly the right size.
template <typename Enc>
struct string_holder
{
    using input_type = lexy::string_input<Enc>;
    std::unique_ptr<char_of<Enc>[]> data;
    input_type                      input;
    static constexpr const char*    kind = "string";

    explicit string_holder(const units& u) : data(new char_of<Enc>[u.size()])
    {
        for (std::size_t i = 0; i != u.size(); ++i)
            data[i] = static_cast<char_of<Enc>>(u[i]);
        input = input_type(data.get(), u.size());
    }
    auto begin() const
    {
        return static_cast<const char_of<Enc>*>(data.get());
    }
};
template <typename Enc>
struct buffer_holder
{
    using input_type = lexy::buffer<Enc>;
    input_type                   input;
    static constexpr const char* kind = "buffer";

    explicit buffer_holder(const units& u) : input([&] {
        typename input_type::builder b(u.size());
        for (std::size_t i = 0; i != u.size(); ++i)
            b.data()[i] = static_cast<char_of<Enc>>(u[i]);
        return LEXY_MOV(b).finish();
    }())
    {}
    auto begin() const
    {
        return input.data();
    }
};
// Non-random-access iterators.
template <typename Enc>
struct range_holder
{
    using list_type  = std::forward_list<char_of<Enc>>;
    using iterator   = typename list_type::const_iterator;
    using input_type = lexy::range_input<Enc, iterator>;
    list_type                    list;
    input_type                   input;
    static constexpr const char* kind = "range";

    explicit range_holder(const units& u) : list(make(u)), input(list.cbegin(), list.cend()) {}
    static list_type make(const units& u)
    {
        list_type l;
        for (auto i = u.size(); i != 0; --i)
            l.push_front(static_cast<char_of<Enc>>(u[i - 1]));
        return l;
    }
    auto begin() const
    {
        return list.cbegin();
    }
};

template <typename It>
It step(It it, std::size_t n)
{
    for (; n != 0; --n)
        ++it;
    return it;
}
template <typename It>
std::size_t dist(It b, It e)
{
    std::size_t n = 0;
    if constexpr (std::is_pointer_v<It>)
        return static_cast<std::size_t>(e - b);
    else
    {
        for (; b != e; ++b)
            ++n;
        return n;
    }
}

//=== generators ===//
inline std::uint32_t gen_scalar(pbt::gen& g)
{
    static const std::uint32_t edge[] = {0,      0x7F,   0x80,   0x7FF,  0x800,   0xFFFF,  0x10000,  0x10FFFF,
                                         0xD7FF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFD,  0xFFFFF, 0x100000, 0x85,
                                         0x2028, 0xA0,   0xE4,   0x1F600, 0x3FFFF, 0x40000};
    switch (g.weighted({6, 3, 2, 2, 2}))
    {
    case 0:
        return std::uint32_t(0x20 + g.below(0x5F));
    case 1:
        return g.pick(edge);
    case 2:
        return std::uint32_t(g.below(0x800));
    case 3: {
        auto c = std::uint32_t(g.below(0x10000));
        return refu::is_scalar(c) ? c : c - 0x1000;
    }
    default:
        return std::uint32_t(0x10000 + g.below(0x100000));
    }
}
// Text in the given encoding: characters from `alphabet` mostly, plus newlines, other characters and raw code units.
template <typename Enc>
units gen_units(pbt::gen& g, std::size_t max_len, const std::string& alphabet = "ab 0\t", bool malformed = true)
{
    using T     = enc_traits<Enc>;
    auto  n     = g.size(max_len);
    units u;
    auto  style = g.below(4); // how exotic this text is
    for (std::size_t i = 0; i != n; ++i)
    {
        switch (style == 0   ? g.weighted({10, 1})
                : style == 1 ? g.weighted({8, 3, 1})
                : style == 2 ? g.weighted({5, 3, 3, 1})
                             : g.weighted({3, 3, 3, 4}))
        {
        case 0:
            u.push_back(static_cast<unsigned char>(alphabet[g.below(alphabet.size())]));
            break;
        case 1:
            switch (g.below(3))
            {
            case 0:
                u.push_back('\n');
                break;
            case 1:
                u.push_back('\r');
                u.push_back('\n');
                break;
            default:
                u.push_back('\r');
            }
            break;
        case 2:
            if constexpr (T::unicode)
                T::enc(u, gen_scalar(g));
            else
                u.push_back(std::uint32_t(g.below(256)));
            break;
        default:
            if (!malformed)
            {
                u.push_back('x');
                break;
            }
            if (T::max == 0xFF)
            {
                static const std::uint32_t raw[] = {0x80, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xA0, 0xF0, 0xF4, 0xFF, 0x90, 0xFE, 0xEF, 0xBB};
                u.push_back(g.boolean() ? g.pick(raw) : std::uint32_t(g.below(256)));
            }
            else if (T::max == 0xFFFF)
                u.push_back(g.boolean() ? std::uint32_t(0xD800 + g.below(0x800)) : std::uint32_t(g.below(0x10000)));
            else
                u.push_back(g.boolean() ? std::uint32_t(0xD800 + g.below(0x800)) : std::uint32_t(g.below(0x100000000ull)));
        }
    }
    for (auto& c : u)
        if (static_cast<long long>(c) == T::eof_unit)
            c = 0xFE;
    return u;
}
template <typename Enc>
bool well_formed(const units& u)
{
    if constexpr (enc_traits<Enc>::unicode)
    {
        for (std::size_t i = 0; i != u.size();)
        {
            auto n = enc_traits<Enc>::dec(u, i);
            if (n == 0)
                return false;
            i += n;
        }
    }
    return true;
}
inline std::string show(const units& u)
{
    return pbt::show(u);
}
} // namespace hc
#endif
