// The generated grammars, evaluated by the compiler and at run time. Stands in for gx.hpp: the values are digests of the
// same texts that the callbacks there render, so they can be computed in constant expressions.
#ifndef HARNESS_CX_HPP
#define HARNESS_CX_HPP
#include <cstddef>
#include <cstdint>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <memory>
#include <string>
#include <vector>

namespace dsl = lexy::dsl;

namespace cx
{
// The digest of a text; the digest of a concatenation follows from the digests of the parts.
struct str
{
    std::uint64_t h = 0, pw = 1;
    static constexpr std::uint64_t P = 0x9E3779B97F4A7C15ull | 1;

    constexpr str() = default;
    constexpr str(const char* s)
    {
        *this += s;
    }
    constexpr str& add(std::uint64_t c)
    {
        h = h * P + c + 1;
        pw *= P;
        return *this;
    }
    constexpr str& operator+=(const char* s)
    {
        for (; *s; ++s)
            add(static_cast<unsigned char>(*s));
        return *this;
    }
    constexpr str& operator+=(str o)
    {
        h = h * o.pw + o.h;
        pw *= o.pw;
        return *this;
    }
    template <typename T>
    friend constexpr str operator+(str a, T b)
    {
        a += b;
        return a;
    }
};
constexpr str number(long long v)
{
    str           r;
    unsigned long long u = v < 0 ? 0 - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v);
    char          buf[24] = {};
    int           i       = 23;
    do
    {
        buf[--i] = char('0' + u % 10);
        u /= 10;
    } while (u != 0);
    if (v < 0)
        buf[--i] = '-';
    r += buf + i;
    return r;
}
} // namespace cx

namespace gx
{
inline constexpr auto idt = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit);

struct c0_id;
struct c1_id;
struct f0_id;
struct f1_id;
struct i0_id;
struct i1_id;
inline constexpr auto c0 = dsl::context_counter<c0_id>;
inline constexpr auto c1 = dsl::context_counter<c1_id>;
inline constexpr auto f0 = dsl::context_flag<f0_id>;
inline constexpr auto f1 = dsl::context_flag<f1_id>;
inline constexpr auto i0 = dsl::context_identifier<i0_id>(idt);
inline constexpr auto i1 = dsl::context_identifier<i1_id>(idt);

enum fl : unsigned char
{
};
enum class sfl : unsigned short
{
};
struct errA
{
    static constexpr auto name = "errA";
};
struct errB
{
    static constexpr auto name = "errB";
};
struct errC
{
    static constexpr auto name = "errC";
};
enum class kind
{
    k0,
    k1,
    k2,
};
constexpr const char* token_kind_name(kind k)
{
    return k == kind::k0 ? "kind0" : k == kind::k1 ? "kind1" : "kind2";
}

//=== values ===//
#if defined(__cpp_constexpr_dynamic_alloc)
// Owns memory, is not trivial.
class val
{
public:
    constexpr val(cx::str s) : _p(new cx::str(s)) {}
    constexpr val(val&& o) noexcept : _p(o._p)
    {
        o._p = nullptr;
    }
    constexpr val& operator=(val&& o) noexcept
    {
        auto p = _p;
        _p     = o._p;
        o._p   = p;
        return *this;
    }
    constexpr ~val()
    {
        delete _p;
    }
    constexpr cx::str get() const
    {
        return *_p;
    }

private:
    cx::str* _p;
};
#else
struct val
{
    cx::str s;
    constexpr val(cx::str s) : s(s) {}
    constexpr cx::str get() const
    {
        return s;
    }
};
#endif

// The position of an operator.
struct tag_pos
{
    const char*     a = nullptr;
    const char16_t* b = nullptr;
    const char32_t* c = nullptr;
    constexpr tag_pos(const unsigned char*) {}
    constexpr std::ptrdiff_t from(const unsigned char*) const
    {
        return 0;
    }
    constexpr tag_pos(const char* p) : a(p) {}
    constexpr tag_pos(const char16_t* p) : b(p) {}
    constexpr tag_pos(const char32_t* p) : c(p) {}
    constexpr std::ptrdiff_t from(const char* p) const
    {
        return a - p;
    }
    constexpr std::ptrdiff_t from(const char16_t* p) const
    {
        return b - p;
    }
    constexpr std::ptrdiff_t from(const char32_t* p) const
    {
        return c - p;
    }
};
struct tag_plain
{};
struct tag_state : tag_pos
{
    template <typename State, typename Iter>
    constexpr tag_state(State& s, Iter it) : tag_pos(it)
    {
        ++s.dummy;
    }
};

template <typename Iter>
struct state_for
{
    Iter begin;
    int  dummy = 0;
};

template <typename Iter, typename T>
constexpr cx::str text(Iter begin, const T& t)
{
    if constexpr (std::is_same_v<T, val>)
        return t.get();
    else if constexpr (std::is_base_of_v<tag_pos, T>)
        return cx::str("T@") + cx::number(t.from(begin));
    else if constexpr (std::is_same_v<T, tag_plain>)
        return "tag";
    else if constexpr (std::is_same_v<T, lexy::nullopt>)
        return "none";
    else if constexpr (std::is_same_v<T, lexy::code_point>)
        return cx::str("U+") + cx::number(static_cast<long long>(t.value()));
    else if constexpr (std::is_same_v<T, Iter>)
        return cx::str("@") + cx::number(t - begin);
    else if constexpr (std::is_integral_v<T>)
        return cx::number(static_cast<long long>(t));
    else if constexpr (std::is_enum_v<T>)
        return cx::str("#") + cx::number(static_cast<long long>(t));
    else if constexpr (std::is_empty_v<T>)
    {
        if constexpr (std::is_convertible_v<T, int>)
            return cx::str("#") + cx::number(static_cast<int>(t));
        else
            return "op";
    }
    else if constexpr (std::is_convertible_v<T, int>)
        return cx::str("#") + cx::number(static_cast<int>(t));
    else
        return cx::str("[") + cx::number(t.begin() - begin) + "," + cx::number(t.end() - begin) + ")";
}
template <typename Iter, typename... Args>
constexpr cx::str args_text(Iter begin, const Args&... args)
{
    cx::str r;
    bool    first = true;
    ((first ? void(first = false) : void(r += ","), r += text(begin, args)), ...);
    return r;
}
template <typename Iter>
struct bound_cb
{
    const char* name;
    Iter        begin;
    using return_type = val;
    template <typename... Args>
    constexpr val operator()(const Args&... args) const
    {
        return {cx::str(name) + "(" + args_text(begin, args...) + ")"};
    }
};
struct cb
{
    const char* name;

    using return_type = val;
    template <typename Iter>
    constexpr auto operator[](const state_for<Iter>& st) const
    {
        return bound_cb<Iter>{name, st.begin};
    }
    template <typename Iter>
    struct sink_t
    {
        Iter    begin;
        cx::str s = "{";
        using return_type = val;
        template <typename... Args>
        constexpr void operator()(const Args&... args)
        {
            s += cx::str("(") + args_text(begin, args...) + ")";
        }
        constexpr val finish() &&
        {
            return {s + "}"};
        }
    };
    template <typename Iter>
    constexpr sink_t<Iter> sink(const state_for<Iter>& st) const
    {
        return {st.begin};
    }
};

//=== errors ===//
template <typename It>
constexpr cx::str units_text(It p, std::size_t n)
{
    cx::str r;
    for (std::size_t i = 0; i != n; ++i)
        r.add(static_cast<std::uint32_t>(p[i]));
    return r;
}
struct err_digest
{
    cx::str     s;
    std::size_t count = 0;
    constexpr std::size_t size() const
    {
        return count;
    }
};
template <typename Iter>
struct err_cb
{
    Iter begin;

    using return_type = err_digest;
    struct sink_t
    {
        Iter       begin;
        err_digest d;
        using return_type = err_digest;

        template <typename Ctx>
        constexpr void add(const Ctx& ctx, cx::str what, Iter b, Iter e)
        {
            ++d.count;
            d.s += what + "[" + cx::number(b - begin) + "," + cx::number(e - begin) + ")in " + ctx.production() + " ";
        }
        template <typename Ctx, typename Reader>
        constexpr void operator()(const Ctx& ctx, const lexy::error<Reader, lexy::expected_literal>& e)
        {
            add(ctx, cx::str("literal<") + units_text(e.string(), e.length()) + ">#" + cx::number(static_cast<long long>(e.index())), e.position(), e.position());
        }
        template <typename Ctx, typename Reader>
        constexpr void operator()(const Ctx& ctx, const lexy::error<Reader, lexy::expected_keyword>& e)
        {
            add(ctx, cx::str("keyword<") + units_text(e.string(), e.length()) + ">", e.begin(), e.end());
        }
        template <typename Ctx, typename Reader>
        constexpr void operator()(const Ctx& ctx, const lexy::error<Reader, lexy::expected_char_class>& e)
        {
            add(ctx, cx::str("class<") + e.name() + ">", e.position(), e.position());
        }
        template <typename Ctx, typename Reader, typename Tag>
        constexpr void operator()(const Ctx& ctx, const lexy::error<Reader, Tag>& e)
        {
            add(ctx, e.message(), e.begin(), e.end());
        }
        constexpr err_digest finish() &&
        {
            return d;
        }
    };
    constexpr sink_t sink() const
    {
        return {begin};
    }
};

//=== evaluation ===//
// 8 bits of verdicts, 28 bits for the value, 28 bits for the errors.
struct digest
{
    static constexpr std::uint64_t fold(cx::str s)
    {
        auto h = s.h ^ (s.pw * 0xD6E8FEB86659FD93ull);
        h ^= h >> 32;
        h *= 0xD6E8FEB86659FD93ull;
        h ^= h >> 29;
        return h & 0xFFFFFFFu;
    }
    static constexpr std::uint64_t make(unsigned verdict, cx::str value, cx::str errors)
    {
        return (std::uint64_t(verdict) << 56) | (fold(value) << 28) | fold(errors);
    }
};
template <typename Enc, typename CharT>
constexpr auto string_of(const CharT* s, std::size_t n)
{
    return lexy::string_input<Enc>(s, n);
}
template <typename CharT>
struct end_of
{
    const CharT* end;
    friend constexpr bool operator==(const CharT* p, end_of e)
    {
        return p == e.end;
    }
    friend constexpr bool operator!=(const CharT* p, end_of e)
    {
        return p != e.end;
    }
};
enum verdict_bits : unsigned
{
    v_success   = 1,
    v_recovered = 2,
    v_value     = 4,
    v_match     = 8,
    v_validate  = 16,
    v_same_errors = 32,
};
template <typename Prod, typename Input, typename Iter>
constexpr std::uint64_t run(const Input& in, Iter begin)
{
    state_for<Iter> st{begin};
    unsigned        v = 0;
    if (lexy::match<Prod>(in, st))
        v |= v_match;
    err_cb<Iter> ec{begin};
    auto         res = lexy::validate<Prod>(in, st, ec);
    if (res.is_success())
        v |= v_validate;
    auto   verrors = res.errors();
    cx::str value, errors;
    {
        auto r = lexy::parse<Prod>(in, st, ec);
        if (r.is_success())
            v |= v_success;
        if (r.is_recovered_error())
            v |= v_recovered;
        if (r.has_value())
        {
            v |= v_value;
            if constexpr (!std::is_void_v<typename decltype(r)::value_type>)
                value = text(begin, r.value());
        }
        errors = r.errors().s;
        if (r.errors().count == verrors.count && errors.h == verrors.s.h)
            v |= v_same_errors;
    }
    return digest::make(v, value, errors);
}

template <typename T, std::uint64_t H = T::eval()>
constexpr bool constant(std::uint64_t& out, int)
{
    out = H;
    return true;
}
template <typename T>
constexpr bool constant(std::uint64_t&, long)
{
    return false;
}

struct test
{
    const char*   grammar;
    const char*   text; // of the grammar
    std::string   input;
    bool          is_constant;
    std::uint64_t at_compile_time;
    std::uint64_t (*at_run_time)();
    // of the reference
    bool        has_expected;
    unsigned    verdict;
    const char* value;
    const char* errors;
    const char* kind;
};
inline std::vector<test>& tests()
{
    static std::vector<test> v;
    return v;
}
// T: the text, as array of exactly that size; Eval: what to do with it
template <typename T>
struct kept
{
    using char_type = std::decay_t<decltype(T::s[0])>;
    std::unique_ptr<char_type[]> p;
    kept() : p(new char_type[T::n])
    {
        for (std::size_t i = 0; i != T::n; ++i)
        {
            volatile char_type c = T::s[i];
            p[i]                 = c;
        }
    }
};
template <typename Prod, typename Enc, bool Range, typename T>
struct eval_grammar
{
    template <typename CharT>
    static constexpr std::uint64_t on(const CharT* s)
    {
        if constexpr (Range)
            return run<Prod>(lexy::range_input<Enc, const CharT*, end_of<CharT>>(s, end_of<CharT>{s + T::n}), s);
        else
            return run<Prod>(lexy::string_input<Enc>(s, T::n), s);
    }
    static constexpr std::uint64_t eval()
    {
        return on(T::s);
    }
    static std::uint64_t dynamic()
    {
        kept<T> k;
        return on<typename kept<T>::char_type>(k.p.get());
    }
};
// The locations, lines and annotations of all positions.
template <typename Counting, typename Enc, typename T>
struct eval_location
{
    template <typename CharT>
    static constexpr std::uint64_t on(const CharT* s)
    {
        auto    in = lexy::string_input<Enc>(s, T::n);
        cx::str r, t;
        for (std::size_t i = 0; i <= T::n; ++i)
        {
            auto l = lexy::get_input_location<Counting>(in, s + i);
            r += cx::number(l.line_nr()) + ":" + cx::number(l.column_nr()) + "@" + cx::number(l.position() - s) + " ";
            auto a = lexy::get_input_line_annotation(in, l, s + (i + (T::n - i) / 2));
            t += cx::number(a.before.begin() - s) + "," + cx::number(a.annotated.begin() - s) + "," + cx::number(a.after.begin() - s) + "," + cx::number(a.after.end() - s) + (a.truncated_multiline ? "t" : "") + (a.annotated_newline ? "n" : "");
        }
        return digest::make(0, r, t);
    }
    static constexpr std::uint64_t eval()
    {
        return on(T::s);
    }
    static std::uint64_t dynamic()
    {
        kept<T> k;
        return on<typename kept<T>::char_type>(k.p.get());
    }
};
template <typename E, typename T>
int add(const char* grammar, const char* text, const char* kind, bool has_expected = false, unsigned verdict = 0, const char* value = "", const char* errors = "")
{
    test t;
    t.grammar = grammar;
    t.text    = text;
    for (std::size_t i = 0; i != T::n; ++i)
    {
        auto c = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(T::s[0]) == 1, char, std::uint32_t>>>(T::s[i]));
        if (c >= 0x20 && c < 0x7F)
            t.input += char(c);
        else
            t.input += "\\x" + std::to_string(c);
    }
    static_assert(sizeof(T::s) != 0);
    std::uint64_t h = 0;
    t.is_constant   = constant<E>(h, 0);
    t.at_compile_time = h;
    t.at_run_time     = &E::dynamic;
    t.has_expected    = has_expected;
    t.verdict         = verdict;
    t.value           = value;
    t.errors          = errors;
    t.kind            = kind;
    tests().push_back(t);
    return 0;
}
} // namespace gx
#endif
