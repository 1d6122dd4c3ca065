// A small property-based-testing kernel.
//
// Every random choice of a case is one entry of a tape of bounded integers. A case is a pure function of its tape,
// so a failing case is shrunk by shrinking the tape (0 is always the simplest choice), is replayed from a saved
// tape, and can be driven by libFuzzer by decoding the fuzzer's bytes into tape entries.
#ifndef PBT_HPP
#define PBT_HPP

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <string>
#include <utility>
#include <vector>

namespace pbt
{
struct failure : std::exception
{
    std::string msg;
    explicit failure(std::string m) : msg(std::move(m)) {}
    const char* what() const noexcept override
    {
        return msg.c_str();
    }
};
[[noreturn]] inline void fail(std::string m)
{
    throw failure(std::move(m));
}

inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull)
{
    auto c = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i != n; ++i)
        h = (h ^ c[i]) * 1099511628211ull;
    return h ^ (h >> 29);
}
inline std::uint64_t hash(const std::string& s, std::uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

class gen
{
public:
    // A value in [0, n); n > 0. 0 is the simplest.
    std::uint64_t below(std::uint64_t n);
    // A value in [lo, hi].
    long long range(long long lo, long long hi)
    {
        return lo
               + static_cast<long long>(
                   below(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo) + 1u));
    }
    // True with probability num/den; false is the simplest.
    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }
    bool boolean()
    {
        return below(2) != 0;
    }
    std::uint64_t bits64();
    // Enumerates [0, n) over the cases of a sub-property (and over the shards) instead of drawing at random.
    std::uint64_t enumerate(std::uint64_t n);
    // A size in [0, max], mostly small.
    std::size_t size(std::size_t max);
    // Index chosen by weight.
    std::size_t weighted(std::initializer_list<unsigned> weights);
    template <typename T, std::size_t N>
    const T& pick(const T (&arr)[N])
    {
        return arr[below(N)];
    }
    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
    template <typename T>
    T one_of(std::initializer_list<T> l)
    {
        return *(l.begin() + static_cast<std::ptrdiff_t>(below(l.size())));
    }

    //=== reporting ===//
    // Human readable description of the case; printed with a failure and kept as sample.
    void note(const std::string& s);
    // Count a class of cases.
    void label(const char* l);
    void label(const std::string& l)
    {
        label(l.c_str());
    }
    // This case is non-trivial; key identifies it for the distinct count.
    void nontrivial(std::uint64_t key);
    void nontrivial(const std::string& key)
    {
        nontrivial(hash(key));
    }
    // How many evaluations this case stands for beyond the first (e.g. inner loops).
    void extra_evaluations(std::uint64_t n);
};

using prop_fn = void (*)(gen&);
struct reg
{
    // weight: share of the cases.
    reg(const char* name, unsigned weight, prop_fn fn);
};
#define PBT_PROP(Name, Weight)                                                                                         \
    static void              pbt_fn_##Name(pbt::gen&);                                                                 \
    static const pbt::reg    pbt_reg_##Name(#Name, Weight, &pbt_fn_##Name);                                            \
    static void              pbt_fn_##Name([[maybe_unused]] pbt::gen& g)

//=== formatting ===//
inline std::string num(long long v)
{
    return std::to_string(v);
}
inline std::string hex(std::uint64_t v)
{
    char buf[32];
    std::snprintf(buf, sizeof buf, "0x%llX", static_cast<unsigned long long>(v));
    return buf;
}
template <typename It>
std::string show_range(It begin, It end)
{
    std::string r = "\"";
    for (; begin != end; ++begin)
    {
        auto          v = *begin;
        std::uint64_t u = static_cast<std::uint64_t>(v);
        if (sizeof(v) == 1)
            u &= 0xFF;
        else if (sizeof(v) == 2)
            u &= 0xFFFF;
        else if (sizeof(v) == 4)
            u &= 0xFFFFFFFF;
        if (u == '"' || u == '\\')
        {
            r += '\\';
            r += char(u);
        }
        else if (u >= 0x20 && u < 0x7F)
            r += char(u);
        else if (u == '\n')
            r += "\\n";
        else if (u == '\r')
            r += "\\r";
        else
        {
            char buf[32];
            std::snprintf(buf, sizeof buf, "\\x{%llx}", static_cast<unsigned long long>(u));
            r += buf;
        }
    }
    return r + "\"";
}
template <typename C>
std::string show(const C& c)
{
    return show_range(c.begin(), c.end());
}

template <typename A, typename B>
void check_eq(const A& actual, const B& expected, const char* what)
{
    if (!(actual == expected))
    {
        if constexpr (std::is_convertible_v<A, std::string> && std::is_convertible_v<B, std::string>)
            fail(std::string(what) + ":\n  actual:   " + std::string(actual) + "\n  expected: " + std::string(expected));
        else if constexpr (std::is_integral_v<A> && std::is_integral_v<B>)
            fail(std::string(what) + ": actual " + num((long long)(actual)) + ", expected " + num((long long)(expected)));
        else
            fail(std::string(what) + ": mismatch");
    }
}
inline void check_eq(const std::string& actual, const std::string& expected, const std::string& what)
{
    if (actual != expected)
        fail(what + ":\n  actual:   " + actual + "\n  expected: " + expected);
}
inline void check_eq(long long actual, long long expected, const std::string& what)
{
    if (actual != expected)
        fail(what + ": actual " + num(actual) + ", expected " + num(expected));
}
inline void check(bool cond, const std::string& what)
{
    if (!cond)
        fail(what);
}
#define PBT_CHECK(...)                                                                                                 \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(__VA_ARGS__))                                                                                            \
            pbt::fail(std::string("check failed: " #__VA_ARGS__ " (line ") + std::to_string(__LINE__) + ")");          \
    } while (0)
} // namespace pbt

#endif
