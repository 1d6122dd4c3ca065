// C08: every code point against an independent copy of the Unicode 15.0 character database (exhaustive).
#include <algorithm>
#include <lexy/action/match.hpp>
#include <lexy/code_point.hpp>
#include <lexy/dsl.hpp>
#include <lexy/dsl/unicode.hpp>
#include <pbt.hpp>
#include <common.hpp>
#include <ucd.hpp>

namespace
{
using namespace hc;
namespace dsl = lexy::dsl;

using ucd::lookup;
enum : unsigned
{
    ws = 1,
    lower = 2,
    upper = 4,
    alpha = 8,
    xids = 16,
    xidc = 32,
    joinc = 64
};
using cpt = lexy::code_point;
const cpt::general_category_t gcs[] = {cpt::Lu, cpt::Ll, cpt::Lt, cpt::Lm, cpt::Lo, cpt::Mn, cpt::Mc, cpt::Me, cpt::Nd, cpt::Nl,
                                       cpt::No, cpt::Pc, cpt::Pd, cpt::Ps, cpt::Pe, cpt::Pi, cpt::Pf, cpt::Po, cpt::Sm, cpt::Sc,
                                       cpt::Sk, cpt::So, cpt::Zs, cpt::Zl, cpt::Zp, cpt::Cc, cpt::Cf, cpt::Cs, cpt::Co, cpt::Cn};
enum gi
{
    Lu, Ll, Lt, Lm, Lo, Mn, Mc, Me, Nd, Nl, No, Pc, Pd, Ps, Pe, Pi, Pf, Po, Sm, Sc, Sk, So, Zs, Zl, Zp, Cc, Cf, Cs, Co, Cn
};

template <int N>
struct cls;
#define CLS(N, Name, Rule, Pred)                                                                                       \
    template <>                                                                                                        \
    struct cls<N>                                                                                                      \
    {                                                                                                                  \
        static constexpr const char* name = Name;                                                                      \
        static constexpr auto        rule = Rule;                                                                      \
        struct production                                                                                              \
        {                                                                                                              \
            static constexpr auto rule = Rule + dsl::eof;                                                              \
        };                                                                                                             \
        static bool pred([[maybe_unused]] std::uint32_t c, [[maybe_unused]] int gc, [[maybe_unused]] unsigned b)       \
        {                                                                                                              \
            return Pred;                                                                                               \
        }                                                                                                              \
    };
namespace u = dsl::unicode;
bool is_nl(std::uint32_t c)
{
    return c == '\r' || c == '\n' || c == 0x85 || c == 0x2028 || c == 0x2029;
}
CLS(0, "control", u::control, gc == Cc)
CLS(1, "blank", u::blank, gc == Zs || c == '\t')
CLS(2, "newline", u::newline, is_nl(c))
CLS(3, "other_space", u::other_space, c == '\f' || c == '\v')
CLS(4, "space", u::space, (b & ws) != 0)
CLS(5, "digit", u::digit, gc == Nd)
CLS(6, "lower", u::lower, (b & lower) != 0)
CLS(7, "upper", u::upper, (b & upper) != 0)
CLS(8, "alpha", u::alpha, (b & alpha) != 0)
CLS(9, "alpha_digit", u::alpha_digit, (b & alpha) || gc == Nd)
CLS(10, "word", u::word, (b & (alpha | joinc)) || gc == Nd || gc == Mn || gc == Mc || gc == Me || gc == Pc)
CLS(11, "graph", u::graph, !(b & ws) && gc != Cc && gc != Cs && gc != Cn)
CLS(12, "print", u::print, gc != Cc && (gc == Zs || (!(b & ws) && gc != Cs && gc != Cn)))
CLS(13, "character", u::character, gc != Cn)
CLS(14, "xid_start", u::xid_start, (b & xids) != 0)
CLS(15, "xid_start_underscore", u::xid_start_underscore, (b & xids) || c == '_')
CLS(16, "xid_continue", u::xid_continue, (b & xidc) != 0)
CLS(17, "alnum", u::alnum, (b & alpha) || gc == Nd)
CLS(18, "-control", -u::control, gc != Cc)
CLS(19, "gc Lu", dsl::code_point.general_category<cpt::Lu>(), gc == Lu)
CLS(20, "gc Cn", dsl::code_point.general_category<cpt::Cn>(), gc == Cn)
CLS(21, "gc Cf", dsl::code_point.general_category<cpt::Cf>(), gc == Cf)
CLS(22, "gc Co", dsl::code_point.general_category<cpt::Co>(), gc == Co)
CLS(23, "gc Cc", dsl::code_point.general_category<cpt::Cc>(), gc == Cc)
CLS(24, "gc LC", dsl::code_point.general_category<cpt::LC>(), gc <= Lt)
CLS(25, "gc L", dsl::code_point.general_category<cpt::L>(), gc <= Lo)
CLS(26, "gc M", dsl::code_point.general_category<cpt::M>(), gc >= Mn && gc <= Me)
CLS(27, "gc N", dsl::code_point.general_category<cpt::N>(), gc >= Nd && gc <= No)
CLS(28, "gc P", dsl::code_point.general_category<cpt::P>(), gc >= Pc && gc <= Po)
CLS(29, "gc S", dsl::code_point.general_category<cpt::S>(), gc >= Sm && gc <= So)
CLS(30, "gc Z", dsl::code_point.general_category<cpt::Z>(), gc >= Zs && gc <= Zp)
CLS(31, "gc C", dsl::code_point.general_category<cpt::C>(), gc >= Cc)
CLS(32, "gc Sk", dsl::code_point.general_category<cpt::Sk>(), gc == Sk)
CLS(33, "gc Nl", dsl::code_point.general_category<cpt::Nl>(), gc == Nl)
constexpr int cls_count = 34;

template <int N>
void check_class(std::uint32_t cp, int gc, unsigned bits)
{
    using C       = cls<N>;
    auto expected = C::pred(cp, gc, bits) && refu::is_scalar(cp);
    {
        char32_t c  = cp;
        auto     in = lexy::string_input<lexy::utf32_encoding>(&c, 1);
        if (lexy::match<typename C::production>(in) != expected)
            pbt::fail(std::string("class ") + C::name + " in UTF-32 for " + pbt::hex(cp) + ": expected " + (expected ? "match" : "no match"));
    }
    if (refu::is_scalar(cp))
    {
        units e;
        refu::enc8(e, cp);
        char buf[4];
        for (std::size_t i = 0; i != e.size(); ++i)
            buf[i] = char(e[i]);
        auto in = lexy::string_input<lexy::utf8_char_encoding>(buf, e.size());
        if (lexy::match<typename C::production>(in) != expected)
            pbt::fail(std::string("class ") + C::name + " in UTF-8 for " + pbt::hex(cp) + ": expected " + (expected ? "match" : "no match"));
    }
}
template <int... N>
void check_classes(std::uint32_t cp, int gc, unsigned bits, std::integer_sequence<int, N...>)
{
    (check_class<N>(cp, gc, bits), ...);
}

constexpr unsigned block = 64;

PBT_PROP(every_code_point, 1)
{
    auto b = std::uint32_t(g.enumerate(0x110000 / block));
    g.note("code points " + pbt::hex(b * block) + " to " + pbt::hex(b * block + block - 1));
    g.nontrivial(b);
    for (auto cp = b * block; cp != b * block + block; ++cp)
    {
        auto& r = lookup(cp);
        auto  c = lexy::code_point(cp);
        if (c.general_category() != gcs[r.gc])
            pbt::fail("general category of " + pbt::hex(cp));
        auto folded = lexy::simple_case_fold(c).value();
        if (folded != char32_t(std::int64_t(cp) + r.fold))
            pbt::fail("case folding of " + pbt::hex(cp) + ": " + pbt::hex(folded) + ", expected " + pbt::hex(cp + unsigned(r.fold)));
        if (lexy::simple_case_fold(lexy::code_point(folded)).value() != folded)
            pbt::fail("case folding of " + pbt::hex(cp) + " not idempotent");
        if (c.is_control() != (r.gc == Cc) || c.is_surrogate() != (r.gc == Cs) || c.is_private_use() != (r.gc == Co)
            || c.is_ascii() != (cp < 0x80) || c.is_bmp() != (cp < 0x10000) || !c.is_valid()
            || c.is_scalar() != (r.gc != Cs)
            || c.is_noncharacter() != ((cp >= 0xFDD0 && cp <= 0xFDEF) || (cp & 0xFFFE) == 0xFFFE))
            pbt::fail("classification of " + pbt::hex(cp));
        check_classes(cp, r.gc, r.bits, std::make_integer_sequence<int, cls_count>{});
    }
    g.extra_evaluations(block - 1);
}
PBT_PROP(outside, 1)
{
    auto cp = std::uint32_t(0x110000 + g.below(0xFFFFFFFFull - 0x110000)); // without the in-band EOF
    g.note("outside of Unicode: " + pbt::hex(cp));
    auto c = lexy::code_point(cp);
    PBT_CHECK(c.general_category() == cpt::Cn);
    PBT_CHECK(lexy::simple_case_fold(c) == c);
    PBT_CHECK(!c.is_valid() && !c.is_scalar() && !c.is_bmp() && !c.is_control() && !c.is_surrogate());
    check_classes(cp, Cn, 0, std::make_integer_sequence<int, cls_count>{});
}
} // namespace
