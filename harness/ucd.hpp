#ifndef UCD_HPP
#define UCD_HPP
#include <algorithm>
#include <cstdint>
#include <iterator>
namespace ucd
{
struct run_t
{
    std::uint32_t first;
    int           gc;
    unsigned      bits;
    int           fold;
};
inline const run_t table[] = {
#include <ucd15.inc>
};
inline const run_t& lookup(std::uint32_t cp)
{
    auto it = std::upper_bound(std::begin(table), std::end(table), cp,
                               [](std::uint32_t c, const run_t& r) { return c < r.first; });
    return *(it - 1);
}
inline int gc(std::uint32_t c)
{
    return c > 0x10FFFF ? 29 : lookup(c).gc;
}
inline unsigned bits(std::uint32_t c)
{
    return c > 0x10FFFF ? 0 : lookup(c).bits;
}
inline std::uint32_t fold(std::uint32_t c)
{
    return c > 0x10FFFF ? c : std::uint32_t(std::int64_t(c) + lookup(c).fold);
}
enum gi
{
    Lu, Ll, Lt, Lm, Lo, Mn, Mc, Me, Nd, Nl, No, Pc, Pd, Ps, Pe, Pi, Pf, Po, Sm, Sc, Sk, So, Zs, Zl, Zp, Cc, Cf, Cs, Co, Cn
};
} // namespace ucd
#endif
