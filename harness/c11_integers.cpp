// C11: digits, separators, leading zeros, integers of every type and base against the mathematical value of the digits.
#include <c11_support.hpp>
#include <pbt.hpp>

namespace
{
int radix_of(int base)
{
    return base > 16 ? 16 : base;
}
const char* class_name(int base)
{
    switch (base)
    {
    case 2:
        return "digit.binary";
    case 8:
        return "digit.octal";
    case 10:
        return "digit.decimal";
    case 16:
        return "digit.hex";
    case 17:
        return "digit.hex-lower";
    default:
        return "digit.hex-upper";
    }
}
int digit(int base, std::uint32_t c)
{
    int v = c >= '0' && c <= '9' ? int(c - '0') : c >= 'a' && c <= 'f' && base != 18 ? int(c - 'a' + 10) : c >= 'A' && c <= 'F' && base != 17 ? int(c - 'A' + 10) : 99;
    return v < radix_of(base) ? v : -1;
}
std::size_t sep_at(int sep, const units& u, std::size_t p)
{
    auto at = [&](std::size_t k) { return p + k < u.size() ? u[p + k] : ~0u; };
    switch (sep)
    {
    case 0:
        return at(0) == '_' ? 1 : 0;
    case 1:
        return at(0) == '\'' ? 1 : 0;
    case 2:
        return at(0) == '-' && at(1) == '-' ? 2 : 0;
    default:
        return at(0) == ' ' || at(0) == '\t' ? 1 : 0;
    }
}
std::string err(const std::string& k, std::size_t b, std::size_t e)
{
    return k + "[" + std::to_string(b) + "," + std::to_string(e) + ")";
}
// The digits as a token: how far it gets and the error if it fails.
struct tok
{
    bool        ok = true;
    std::size_t end = 0;
    std::string error;
};
tok match_digits(const rule_desc& d, const units& u, std::size_t p)
{
    auto is_digit = [&](std::size_t i) { return i < u.size() && digit(d.base, u[i]) >= 0; };
    auto expected = [&](std::size_t i) { return tok{false, i, err("class<" + std::string(class_name(d.base)) + ">", i, i)}; };
    auto i        = p;
    if (d.form == 'k')
    {
        while (i < u.size() && u[i] > 0x20 && u[i] < 0x7F)
            ++i;
        return i == p ? tok{false, p, err("missing token", p, p)} : tok{true, i, ""};
    }
    if (d.form == 'n' || d.form == 'm')
    {
        for (int k = 0; k != d.n; ++k)
        {
            if (d.form == 'm' && k != 0)
                i += sep_at(d.sep, u, i);
            if (!is_digit(i))
                return expected(i);
            ++i;
        }
        return {true, i, ""};
    }
    if (!is_digit(i))
        return expected(i);
    ++i;
    auto sep = d.form == 's' || d.form == 'x';
    while (true)
    {
        if (is_digit(i))
            ++i;
        else if (auto n = sep ? sep_at(d.sep, u, i) : 0)
        {
            if (!is_digit(i + n))
                return expected(i + n);
            i += n + 1;
        }
        else
            break;
    }
    if ((d.form == 't' || d.form == 'x') && u[p] == '0' && i != p + 1)
        return {false, p + 1, err("forbidden leading zero", p, p + 1)};
    return {true, i, ""};
}
struct number
{
    bool        overflow = false;
    std::string text;
};
number value_of(const rule_desc& d, const units& u, std::size_t b, std::size_t e)
{
    u128        v    = 0;
    bool        huge = false;
    std::string list;
    auto        r = u128(radix_of(d.base));
    for (auto i = b; i != e; ++i)
    {
        auto x = digit(d.base, u[i]);
        if (x < 0)
            continue;
        list += "0123456789ABCDEF"[x];
        if (v > (~u128(0) - u128(x)) / r)
            huge = true;
        v = v * r + u128(x);
    }
    if (d.max == 0)
    {
        if (d.bits == 0)
            return {false, list};
        if (d.bits < 128)
            v &= (u128(1) << d.bits) - 1;
        return {false, dec128(v)};
    }
    return {huge || v > d.max, dec128(v)};
}
std::string lexeme_text(const units& u, std::size_t b, std::size_t e)
{
    std::string s = "lexeme ";
    for (auto i = b; i != e; ++i)
        s += char(u[i]);
    return s;
}

std::vector<int> to_base(u128 v, int radix)
{
    std::vector<int> r;
    do
    {
        r.insert(r.begin(), int(v % unsigned(radix)));
        v /= unsigned(radix);
    } while (v != 0);
    return r;
}
std::uint32_t digit_char(pbt::gen& g, int base, int v)
{
    if (v < 10)
        return std::uint32_t('0' + v);
    auto lower = base == 17 || (base == 16 && g.boolean());
    return std::uint32_t((lower ? 'a' : 'A') + v - 10);
}
units gen_text(pbt::gen& g, const rule_desc& d, std::uint32_t max_unit, long long eof_unit)
{
    auto radix = radix_of(d.base);
    units u;
    if (d.kind == 'S')
        switch (g.weighted({4, 3, 3, 1}))
        {
        case 1:
            u.push_back('-');
            break;
        case 2:
            u.push_back('+');
            break;
        case 3:
            u.push_back('+');
            u.push_back('-');
            break;
        }
    if (g.chance(1, 3))
    {
        auto zeros = g.one_of({1, 1, 2, 3, 7, 8, 9, 16, 20});
        for (int i = 0; i != zeros; ++i)
            u.push_back('0');
    }
    std::vector<int> ds;
    switch (g.weighted({3, 4, 2}))
    {
    case 0: {
        if (d.kind == 'C' && g.boolean())
        { // around the surrogates and other borders of code points
            ds = to_base(u128(g.one_of({0xD7FF, 0xD800, 0xDABC, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000})), radix);
            break;
        }
        auto n = g.size(12);
        for (std::size_t i = 0; i != n; ++i)
            ds.push_back(int(g.below(std::uint64_t(radix))));
        break;
    }
    case 1: { // around the limit
        u128 m = d.max;
        if (m == 0)
            m = d.bits == 128 || d.bits == 0 ? ~u128(0) : (u128(1) << d.bits) - 1;
        auto delta = g.range(-2, 2);
        if (g.boolean())
        {
            auto other = u128(1);
            while (other <= m / unsigned(radix))
                other *= unsigned(radix);
            m = g.boolean() ? other : other - 1;
        }
        if (delta < 0)
            m -= u128(-delta) > m ? m : u128(-delta);
        else if (m <= ~u128(0) - u128(delta))
            m += u128(delta);
        ds = to_base(m, radix);
        if (g.chance(1, 4))
            ds.push_back(int(g.below(std::uint64_t(radix))));
        break;
    }
    default: { // long, to cross SWAR words
        auto n   = g.one_of({7, 8, 9, 10, 15, 16, 17, 18, 24, 25, 33, 40});
        bool dec = g.boolean();
        for (int i = 0; i != n; ++i)
            ds.push_back(int(g.below(std::uint64_t(dec && radix > 10 ? 10 : radix))));
    }
    }
    if ((d.form == 'n' || d.form == 'm') && g.chance(3, 4))
    { // the right number of digits
        auto n = std::size_t(d.n);
        if (ds.size() > n)
            ds.resize(n);
        bool zeros = g.boolean();
        while (ds.size() < n)
            ds.insert(ds.begin(), zeros ? 0 : int(g.below(std::uint64_t(radix))));
        if (g.chance(1, 6))
            ds.pop_back();
        u.clear();
    }
    auto put_sep = [&](int s) {
        static const char* const text[] = {"_", "'", "--", " "};
        for (auto p = text[s]; *p; ++p)
            u.push_back(*p == ' ' && g.chance(1, 3) ? '\t' : static_cast<unsigned char>(*p));
    };
    bool seps  = (d.form == 's' || d.form == 'x' || d.form == 'm') && g.chance(3, 4);
    auto every = seps ? g.one_of({3, 1, 4, 8, 9, 17, 0}) : 0;
    auto count = 0;
    for (auto v : ds)
    {
        if (seps && count != 0 && (every == 0 ? g.chance(1, 6) : count % every == 0))
        {
            put_sep(d.sep);
            if (g.chance(1, 40))
                put_sep(d.sep);
        }
        u.push_back(digit_char(g, d.base, v));
        ++count;
    }
    static const std::uint32_t odd[] = {'/', ':', '@', 'G', '`', 'g', '_', ' ', '.', 'x', '\'', '-', 'a', 'A', 'f', 'F', '2', '8', '9', 0x80, 0xB0, 0xF5, 0xE4};
    if (d.form == 'k')
        for (auto k = g.below(4); k != 0; --k)
            u.insert(u.begin() + std::ptrdiff_t(g.below(u.size() + 1)), odd[g.below(19)]);
    if (g.chance(1, 3))
    {
        auto c = g.pick(odd);
        if (max_unit > 0xFF && g.chance(1, 3))
            c = 0x130 + std::uint32_t(g.below(10));
        if (g.boolean() || u.empty())
            u.push_back(c);
        else
            u[g.below(u.size())] = c;
    }
    if (g.chance(1, 4))
        put_sep(g.boolean() ? d.sep : int(g.below(4)));
    if (g.chance(1, 8))
        u.push_back('1');
    for (auto& c : u)
        if (c > max_unit || static_cast<long long>(c) == eof_unit)
            c = 'x';
    return u;
}
} // namespace

PBT_PROP(integers, 1)
{
    auto&  d   = rules()[g.below(rules().size())];
    auto&  run = d.runs[g.below(d.runs.size())];
    auto   enc = std::string(run.enc);
    auto   wide = enc == "utf16" || enc == "utf32";
    auto   ascii = enc == "ascii" || enc == "utf8" || enc == "utf8_char" || wide;
    auto   u    = gen_text(g, d, wide ? 0xFFFF : enc == "ascii" ? 0x7F : 0xFF, enc == "ascii" || enc == "utf8" || enc == "utf8_char" ? 0xFF : -1);
    (void)ascii;
    g.note(std::string(d.text) + " on " + pbt::show(u) + " (" + run.enc + " " + run.input + ")");
    g.label(std::string("kind ") + d.kind + " form " + d.form);

    std::size_t p   = 0;
    int         sgn = +1;
    if (d.kind == 'S' && !u.empty() && (u[0] == '+' || u[0] == '-'))
    {
        sgn = u[0] == '-' ? -1 : +1;
        p   = 1;
    }
    auto        t   = match_digits(d, u, p);
    auto        end = t.end;
    std::string errors, value, tokens;
    bool        ok  = true;
    bool        any = false; // value not specified (overflow)
    auto convert = [&](std::size_t b, std::size_t e) {
        auto v = value_of(d, u, b, e);
        if (v.overflow)
        {
            any = true;
            errors += (errors.empty() ? "" : " ") + err(d.kind == 'C' ? "invalid code point" : d.kind == 'U' ? "invalid code unit" : "integer overflow", b, e);
        }
        value = (sgn < 0 && v.text != "0" ? "-" : "") + v.text;
    };
    if (!t.ok)
        errors = t.error;
    if (d.kind == 'D')
    {
        ok    = t.ok;
        value = lexeme_text(u, p, end);
        tokens = err("digits", p, end);
    }
    else
    {
        if (!t.ok)
        {
            while (end < u.size() && digit(d.base, u[end]) >= 0)
                ++end;
            ok = end != p;
        }
        if (ok)
            convert(p, end);
        tokens = err(d.form == 'k' ? "token" : "digits", p, end);
    }
    if (u.size() > 2)
        g.nontrivial(std::string(d.text) + run.enc + run.input + pbt::show(u));
    if (any)
        g.label("overflow");
    if (!t.ok)
        g.label(ok ? "recovered" : "no digits");

    auto o = run.fn(u);
    pbt::check_eq(o.errors, "{" + errors + "}", "errors");
    pbt::check_eq(o.ok, ok, "success");
    if (ok)
    {
        pbt::check_eq((long long)(o.end), (long long)(end), "consumed code units");
        if (!any)
            pbt::check_eq(o.value, value, std::string("value"));
        if (d.kind != 'S' && end != p)
            pbt::check_eq(o.tokens, tokens, std::string("token in the parse tree"));
    }
    if (d.kind != 'S')
    {
        // As a branch: taken if the token matches, no error from a failed attempt, nothing consumed.
        pbt::check(!o.branch_missing, "branch parse failed");
        pbt::check_eq(o.taken, t.ok, "branch taken");
        if (t.ok)
        {
            pbt::check_eq(o.branch_errors, "{" + errors + "}", "errors as a branch");
            pbt::check_eq((long long)(o.branch_end), (long long)(end), "code units consumed as a branch");
            if (!any)
                pbt::check_eq(o.branch_value, value, std::string("value as a branch"));
        }
        else
        {
            pbt::check_eq(o.branch_errors, std::string("{}"), "errors of a branch not taken");
            pbt::check_eq((long long)(o.after_branch), 0, "code units consumed by a branch not taken");
        }
    }
}
