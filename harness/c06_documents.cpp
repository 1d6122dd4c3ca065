// Complete grammars (after the ones in examples/) against independent implementations of the same languages.
#include <errs.hpp>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/scan.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>
#include <map>
#include <optional>
#include <variant>

using namespace hc;
namespace dsl = lexy::dsl;

namespace docs
{
std::string quote(const std::string& s)
{
    std::string r = "'";
    for (unsigned char c : s)
    {
        if (c >= 0x20 && c < 0x7F && c != '\'')
            r += char(c);
        else
        {
            char b[8];
            std::snprintf(b, sizeof b, "{%02x}", c);
            r += b;
        }
    }
    return r + "'";
}
// The text of a lexeme as UTF-8 (ill-formed units are dropped; the grammars only produce well-formed ones where it matters).
template <typename Reader>
std::string utf8_of(lexy::lexeme<Reader> l)
{
    using enc = typename Reader::encoding;
    auto  u   = to_units(l.begin(), l.end());
    units out;
    if constexpr (!enc_traits<enc>::unicode)
        out = u;
    else
        for (std::size_t i = 0; i < u.size();)
        {
            std::uint32_t c;
            auto          n = enc_traits<enc>::dec(u, i, &c);
            if (n == 0)
            {
                ++i;
                continue;
            }
            refu::enc8(out, c);
            i += n;
        }
    return std::string(out.begin(), out.end());
}
// Builds a UTF-8 string from whatever a string rule produces.
struct str_cb
{
    using return_type = std::string;
    struct sink_t
    {
        std::string s;
        using return_type = std::string;
        template <typename Reader>
        void operator()(lexy::lexeme<Reader> l)
        {
            s += utf8_of(l);
        }
        void operator()(char c)
        {
            s += c;
        }
        void operator()(lexy::code_point cp)
        {
            units u;
            refu::enc8(u, cp.value());
            s.append(u.begin(), u.end());
        }
        std::string finish() &&
        {
            return std::move(s);
        }
    };
    sink_t sink() const
    {
        return {};
    }
    std::string operator()(std::string s) const
    {
        return s;
    }
    template <typename Reader>
    std::string operator()(lexy::lexeme<Reader> l) const
    {
        return utf8_of(l);
    }
};

//=== JSON ===//
struct json_value
{
    std::string text;
};
struct json_number
{
    std::int64_t                integer;
    std::optional<std::string>  fraction;
    std::optional<std::int16_t> exponent;
};
template <bool Std>
struct json_grammar
{
    struct null : lexy::token_production
    {
        static constexpr auto name  = "null";
        static constexpr auto rule  = LEXY_LIT("null");
        static constexpr auto value = lexy::construct<std::nullptr_t>;
    };
    struct boolean : lexy::token_production
    {
        static constexpr auto name = "boolean";
        struct true_ : lexy::transparent_production
        {
            static constexpr auto name  = "true";
            static constexpr auto rule  = LEXY_LIT("true");
            static constexpr auto value = lexy::constant(true);
        };
        struct false_ : lexy::transparent_production
        {
            static constexpr auto name  = "false";
            static constexpr auto rule  = LEXY_LIT("false");
            static constexpr auto value = lexy::constant(false);
        };
        static constexpr auto rule  = dsl::p<true_> | dsl::p<false_>;
        static constexpr auto value = lexy::forward<bool>;
    };
    struct number : lexy::token_production
    {
        static constexpr auto name = "number";
        struct integer : lexy::transparent_production
        {
            static constexpr auto name  = "integer";
            static constexpr auto rule  = dsl::minus_sign + dsl::integer<std::int64_t>(dsl::digits<>.no_leading_zero());
            static constexpr auto value = lexy::as_integer<std::int64_t>;
        };
        struct fraction : lexy::transparent_production
        {
            static constexpr auto name  = "fraction";
            static constexpr auto rule  = dsl::lit_c<'.'> >> dsl::capture(dsl::digits<>);
            static constexpr auto value = str_cb{};
        };
        struct exponent : lexy::transparent_production
        {
            static constexpr auto name  = "exponent";
            static constexpr auto rule  = (dsl::lit_c<'e'> | dsl::lit_c<'E'>) >> dsl::sign + dsl::integer<std::int16_t>;
            static constexpr auto value = lexy::as_integer<std::int16_t>;
        };
        static constexpr auto rule  = dsl::peek(dsl::lit_c<'-'> / dsl::digit<>) >> dsl::p<integer> + dsl::opt(dsl::p<fraction>) + dsl::opt(dsl::p<exponent>);
        static constexpr auto value = lexy::construct<json_number>;
    };
    struct string : lexy::token_production
    {
        static constexpr auto name = "string";
        struct invalid_char
        {
            static constexpr auto name = "invalid character in string literal";
        };
        static constexpr auto escaped_symbols
            = lexy::symbol_table<char>.template map<'"'>('"').template map<'\\'>('\\').template map<'/'>('/').template map<'b'>('\b').template map<'f'>('\f').template map<'n'>('\n').template map<'r'>('\r').template map<'t'>('\t');
        struct code_point_id
        {
            static constexpr auto name  = "code point";
            static constexpr auto rule  = LEXY_LIT("u") >> dsl::code_unit_id<lexy::utf16_encoding, 4>;
            static constexpr auto value = lexy::construct<lexy::code_point>;
        };
        static constexpr auto rule = [] {
            auto code_point = (-dsl::unicode::control).template error<invalid_char>;
            auto escape     = dsl::backslash_escape.template symbol<escaped_symbols>().rule(dsl::p<code_point_id>);
            return dsl::quoted.limit(dsl::ascii::newline)(code_point, escape);
        }();
        static constexpr auto value = [] {
            if constexpr (Std)
                return lexy::as_string<std::string, lexy::utf8_encoding>;
            else
                return str_cb{};
        }();
    };
    struct unexpected_trailing_comma
    {
        static constexpr auto name = "unexpected trailing comma";
    };
    struct json_value_;
    struct array
    {
        static constexpr auto name  = "array";
        static constexpr auto rule  = dsl::square_bracketed.opt_list(dsl::recurse<json_value_>, dsl::sep(dsl::comma).template trailing_error<unexpected_trailing_comma>);
        static constexpr auto value = lexy::as_list<std::vector<json_value>>;
    };
    struct object
    {
        static constexpr auto name = "object";
        static constexpr auto rule = [] {
            auto item = dsl::p<string> + dsl::try_(dsl::colon) + dsl::recurse<json_value_>;
            auto sep  = dsl::sep(dsl::comma).template trailing_error<unexpected_trailing_comma>;
            return dsl::curly_bracketed.opt_list(item, sep);
        }();
        static constexpr auto value = lexy::as_collection<std::map<std::string, json_value>>;
    };
    struct make
    {
        using return_type = json_value;
        json_value operator()(std::nullptr_t) const
        {
            return {"null"};
        }
        json_value operator()(bool b) const
        {
            return {b ? "true" : "false"};
        }
        json_value operator()(const json_number& n) const
        {
            return {std::to_string(n.integer) + (n.fraction ? "." + *n.fraction : "") + (n.exponent ? "e" + std::to_string(*n.exponent) : "")};
        }
        json_value operator()(const std::string& s) const
        {
            return {quote(s)};
        }
        json_value operator()(const std::vector<json_value>& v) const
        {
            std::string r = "[";
            for (auto& e : v)
                r += e.text + ";";
            return {r + "]"};
        }
        json_value operator()(const std::map<std::string, json_value>& v) const
        {
            std::string r = "{";
            for (auto& [k, e] : v)
                r += quote(k) + "=" + e.text + ";";
            return {r + "}"};
        }
    };
    struct json_value_ : lexy::transparent_production
    {
        static constexpr auto name = "json value";
        struct expected_json_value
        {
            static constexpr auto name = "expected json value";
        };
        static constexpr auto rule = [] {
            auto primitive = dsl::p<null> | dsl::p<boolean> | dsl::p<number> | dsl::p<string>;
            auto complex   = dsl::p<object> | dsl::p<array>;
            return primitive | complex | dsl::error<expected_json_value>;
        }();
        static constexpr auto value = make{};
    };
    struct json
    {
        static constexpr auto name                = "json";
        static constexpr auto max_recursion_depth = 19;
        static constexpr auto whitespace          = dsl::ascii::blank / dsl::ascii::newline;
        static constexpr auto rule                = dsl::p<json_value_> + dsl::eof;
        static constexpr auto value               = lexy::callback<std::string>([](json_value v) { return v.text; });
    };
};

// Independent implementation, on code points (BAD: ill-formed).
constexpr std::uint32_t BAD = 0xFFFFFFF0;
using opt_text              = std::optional<std::string>;
struct reject
{};
struct cursor
{
    const units& c;
    std::size_t  i = 0;
    std::uint32_t peek(std::size_t n = 0) const
    {
        return i + n < c.size() ? c[i + n] : 0xFFFFFFFF;
    }
    bool eof() const
    {
        return i >= c.size();
    }
    bool eat(const char* s)
    {
        std::size_t n = 0;
        for (; s[n]; ++n)
            if (peek(n) != static_cast<unsigned char>(s[n]))
                return false;
        i += n;
        return true;
    }
    bool looking_at(const char* s) const
    {
        auto copy = *this;
        return copy.eat(s);
    }
    void need(const char* s)
    {
        if (!eat(s))
            throw reject{};
    }
};
bool digit(std::uint32_t c)
{
    return c >= '0' && c <= '9';
}
bool alpha(std::uint32_t c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
int hexval(std::uint32_t c)
{
    return digit(c) ? int(c - '0') : c >= 'a' && c <= 'f' ? int(c - 'a' + 10) : c >= 'A' && c <= 'F' ? int(c - 'A' + 10) : -1;
}
std::string utf8(std::uint32_t c)
{
    units u;
    refu::enc8(u, c);
    return std::string(u.begin(), u.end());
}
struct ref_json
{
    cursor c;
    void   ws()
    {
        while (c.peek() == ' ' || c.peek() == '\t' || c.peek() == '\n' || c.peek() == '\r')
            ++c.i;
    }
    // Decimal digits as number; rejects what is above max.
    std::uint64_t number(std::uint64_t max, bool leading_zero)
    {
        if (!digit(c.peek()))
            throw reject{};
        if (!leading_zero && c.peek() == '0' && digit(c.peek(1)))
            throw reject{};
        unsigned __int128 v = 0;
        bool over = false;
        while (digit(c.peek()))
        {
            v = v * 10 + (c.peek() - '0');
            over = over || v > max;
            if (over)
                v = 0;
            ++c.i;
        }
        if (over)
            throw reject{};
        return std::uint64_t(v);
    }
    std::string string()
    {
        std::string r;
        c.need("\"");
        while (true)
        {
            auto x = c.peek();
            if (c.eof() || x == BAD || x < 0x20 || (x >= 0x7F && x < 0xA0))
                throw reject{};
            ++c.i;
            if (x == '"')
                break;
            if (x != '\\')
            {
                r += utf8(x);
                continue;
            }
            auto e = c.peek();
            ++c.i;
            switch (e)
            {
            case '"':
            case '\\':
            case '/':
                r += char(e);
                break;
            case 'b':
                r += '\b';
                break;
            case 'f':
                r += '\f';
                break;
            case 'n':
                r += '\n';
                break;
            case 'r':
                r += '\r';
                break;
            case 't':
                r += '\t';
                break;
            case 'u': {
                std::uint32_t v = 0;
                for (int k = 0; k != 4; ++k, ++c.i)
                {
                    if (hexval(c.peek()) < 0)
                        throw reject{};
                    v = v * 16 + std::uint32_t(hexval(c.peek()));
                }
                r += utf8(v);
                break;
            }
            default:
                throw reject{};
            }
        }
        return r;
    }
    std::string value(int depth)
    {
        if (depth > 19)
            throw reject{};
        if (c.eat("null"))
        {
            ws();
            return "null";
        }
        if (c.eat("true"))
        {
            ws();
            return "true";
        }
        if (c.eat("false"))
        {
            ws();
            return "false";
        }
        if (c.peek() == '-' || digit(c.peek()))
        {
            bool        neg = c.eat("-");
            auto        v   = number(0x7FFFFFFFFFFFFFFFull, false);
            std::string r   = neg && v != 0 ? "-" + std::to_string(v) : std::to_string(v);
            if (c.eat("."))
            {
                r += ".";
                if (!digit(c.peek()))
                    throw reject{};
                while (digit(c.peek()))
                    r += char(c.c[c.i++]);
            }
            if (c.eat("e") || c.eat("E"))
            {
                bool eneg = c.eat("-");
                if (!eneg)
                    c.eat("+");
                auto e = number(32767, true);
                r += "e" + (eneg && e != 0 ? "-" + std::to_string(e) : std::to_string(e));
            }
            ws();
            return r;
        }
        if (c.peek() == '"')
        {
            auto r = quote(string());
            ws();
            return r;
        }
        if (c.eat("["))
        {
            ws();
            std::string r = "[";
            if (!c.eat("]"))
                while (true)
                {
                    r += value(depth + 1) + ";";
                    if (c.eat("]"))
                        break;
                    c.need(",");
                    ws();
                }
            ws();
            return r + "]";
        }
        c.need("{");
        ws();
        std::map<std::string, std::string> m;
        if (!c.eat("}"))
            while (true)
            {
                auto k = string();
                ws();
                c.need(":");
                ws();
                m.emplace(k, value(depth + 1));
                if (c.eat("}"))
                    break;
                c.need(",");
                ws();
            }
        ws();
        std::string r = "{";
        for (auto& [k, v] : m)
            r += quote(k) + "=" + v + ";";
        return r + "}";
    }
    std::string run()
    {
        ws();
        auto r = value(0);
        if (!c.eof())
            throw reject{};
        return r;
    }
};
void add(units& u, const char* s)
{
    for (; *s; ++s)
        u.push_back(static_cast<unsigned char>(*s));
}
void gen_digits(pbt::gen& g, units& u, std::size_t max)
{
    for (auto n = g.size(max) + 1; n != 0; --n)
        u.push_back(std::uint32_t('0' + g.below(10)));
}
std::uint32_t gen_char(pbt::gen& g)
{
    switch (g.below(8))
    {
    case 0:
        return std::uint32_t(g.one_of<int>({0x7F, 0x80, 0xA0, 0xE9, 0x7FF, 0x800, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x1F600, 0, 1, 0x1F, 9, 0x9F}));
    case 1:
        return std::uint32_t(g.range(0xA0, 0xD7FF));
    default:
        return std::uint32_t(g.range(0x20, 0x7E));
    }
}
struct gen_json
{
    pbt::gen& g;
    units     u;
    int       budget = 40;
    void      ws()
    {
        while (g.chance(1, 5))
            u.push_back(std::uint32_t(g.one_of<int>({' ', '\n', '\t', '\r', ' ', ' '})));
    }
    void string()
    {
        u.push_back('"');
        for (auto n = g.size(12); n != 0; --n)
        {
            if (g.chance(1, 4))
            {
                u.push_back('\\');
                auto e = g.one_of<char>({'n', '"', '\\', '/', 'b', 'f', 'r', 't', 'u', 'u', 'x'});
                u.push_back(std::uint32_t(e));
                if (e == 'u')
                    for (int i = g.chance(1, 20) ? 3 : 4; i != 0; --i)
                        u.push_back(std::uint32_t("0123456789abcdefABCDEFdD"[g.below(24)]));
            }
            else
            {
                auto c = gen_char(g);
                if (c == '"' || c == '\\')
                    c = 'q';
                if (g.chance(5, 6) && (c < 0x20 || (c >= 0x7F && c < 0xA0)))
                    c = 'c';
                u.push_back(c);
            }
        }
        u.push_back('"');
    }
    void value(int depth)
    {
        ws();
        --budget;
        switch (budget < 0 ? g.below(4) : g.below(8))
        {
        case 0:
            add(u, g.one_of<const char*>({"null", "true", "false"}));
            break;
        case 1:
        case 2:
            if (g.boolean())
                u.push_back('-');
            if (g.chance(1, 6))
                add(u, g.one_of<const char*>({"9223372036854775807", "9223372036854775808", "9223372036854775806", "99999999999999999999", "0", "00", "01", "-"}));
            else
            {
                u.push_back(std::uint32_t('1' + g.below(9)));
                if (g.boolean())
                    gen_digits(g, u, 18);
            }
            if (g.chance(1, 3))
            {
                u.push_back('.');
                gen_digits(g, u, 10);
            }
            if (g.chance(1, 3))
            {
                u.push_back(std::uint32_t("eE"[g.below(2)]));
                add(u, g.one_of<const char*>({"", "+", "-"}));
                if (g.chance(1, 4))
                    add(u, g.one_of<const char*>({"32767", "32768", "65536", "00", "327670"}));
                else
                    gen_digits(g, u, 4);
            }
            break;
        case 3:
            string();
            break;
        case 4:
        case 5: {
            u.push_back('[');
            auto n = g.chance(1, 2) ? 1 : g.size(5);
            for (std::size_t i = 0; i != n; ++i)
            {
                if (i)
                    u.push_back(',');
                value(depth + 1);
            }
            ws();
            u.push_back(']');
            break;
        }
        default: {
            u.push_back('{');
            auto n = g.chance(1, 2) ? 1 : g.size(5);
            for (std::size_t i = 0; i != n; ++i)
            {
                if (i)
                    u.push_back(',');
                ws();
                string();
                ws();
                u.push_back(':');
                value(depth + 1);
            }
            ws();
            u.push_back('}');
        }
        }
        ws();
    }
    units run()
    {
        if (g.chance(1, 12))
        {
            // around the limit of the recursion
            auto n = g.range(16, 23);
            for (auto i = 0; i != n; ++i)
                add(u, g.boolean() ? "[" : "{\"k\":");
            auto opened = u;
            value(0);
            for (auto i = opened.size(); i != 0; --i)
                if (opened[i - 1] == '[')
                    u.push_back(']');
                else if (opened[i - 1] == '{')
                    u.push_back('}');
        }
        else
            value(0);
        return u;
    }
};

struct lang_json
{
    static constexpr const char* name = "json";
    template <typename Enc>
    using production = typename json_grammar<std::is_same_v<Enc, lexy::utf8_char_encoding>>::json;
    static units generate(pbt::gen& g)
    {
        return gen_json{g, {}}.run();
    }
    static std::string reference(const units& cps)
    {
        return ref_json{{cps}}.run();
    }
};

//=== XML ===//
struct node_cb
{
    char kind;
    using return_type = std::string;
    struct sink_t : str_cb::sink_t
    {
        char kind;
        std::string finish() &&
        {
            return kind + quote(s);
        }
    };
    constexpr explicit node_cb(char k) : kind(k) {}
    sink_t sink() const
    {
        return {{}, kind};
    }
    template <typename Reader>
    std::string operator()(lexy::lexeme<Reader> l) const
    {
        return kind + quote(utf8_of(l));
    }
    std::string operator()(char c) const
    {
        return kind + quote(std::string(1, c));
    }
    std::string operator()(std::string s) const
    {
        return s;
    }
};
struct xml_grammar
{
    struct invalid_character
    {
        static constexpr auto name()
        {
            return "invalid character";
        }
    };
    static constexpr auto ws = dsl::whitespace(dsl::ascii::space / dsl::ascii::newline);
    struct comment
    {
        static constexpr auto rule  = LEXY_LIT("<!--") >> dsl::until(LEXY_LIT("-->"));
        static constexpr auto value = lexy::forward<void>;
    };
    struct text
    {
        static constexpr auto rule  = dsl::identifier((dsl::code_point - dsl::lit_c<'<'> - dsl::lit_c<'&'>).error<invalid_character>);
        static constexpr auto value = node_cb('t');
    };
    static constexpr auto name = [] {
        auto head     = dsl::ascii::alpha / dsl::lit_c<':'> / dsl::lit_c<'_'>;
        auto trailing = head / dsl::lit_c<'-'> / dsl::lit_c<'.'> / dsl::ascii::digit;
        return dsl::identifier(head.error<invalid_character>, trailing);
    }();
    struct reference
    {
        struct unknown_entity
        {
            static constexpr auto name()
            {
                return "unknown entity";
            }
        };
        static constexpr auto entities = lexy::symbol_table<char>.map<LEXY_SYMBOL("quot")>('"').map<LEXY_SYMBOL("amp")>('&').map<LEXY_SYMBOL("apos")>('\'').map<LEXY_SYMBOL("lt")>('<').map<LEXY_SYMBOL("gt")>('>');
        static constexpr auto rule     = dsl::lit_c<'&'> >> dsl::symbol<entities>(name).error<unknown_entity> + dsl::lit_c<';'>;
        static constexpr auto value    = node_cb('r');
    };
    struct cdata
    {
        static constexpr auto rule  = dsl::delimited(LEXY_LIT("<![CDATA["), LEXY_LIT("]]>"))(dsl::code_point);
        static constexpr auto value = node_cb('c');
    };
    struct element
    {
        struct tag_mismatch
        {
            static constexpr auto name()
            {
                return "closing tag doesn't match";
            }
        };
        static constexpr auto rule = [] {
            auto open_tagged  = dsl::brackets(LEXY_LIT("<"), LEXY_LIT(">"));
            auto close_tagged = dsl::brackets(LEXY_LIT("</"), LEXY_LIT(">"));
            auto name_var     = dsl::context_identifier<struct name_var_tag>(name);
            auto empty        = dsl::if_(LEXY_LIT("/") >> LEXY_LIT(">") + dsl::return_);
            auto open_tag     = open_tagged(name_var.capture() + ws + empty);
            auto close_tag    = close_tagged(name_var.rematch().error<tag_mismatch> + ws);
            auto content      = dsl::p<comment> | dsl::p<cdata> | dsl::peek(LEXY_LIT("<")) >> dsl::recurse<element> | dsl::p<reference> | dsl::else_ >> dsl::p<text>;
            return name_var.create() + dsl::brackets(open_tag, close_tag).opt_list(content);
        }();
        struct make
        {
            using return_type = std::string;
            template <typename Reader>
            std::string operator()(lexy::lexeme<Reader> n, lexy::nullopt = {}) const
            {
                return "<" + utf8_of(n) + ">";
            }
            template <typename Reader>
            std::string operator()(lexy::lexeme<Reader> n, const std::vector<std::string>& c) const
            {
                auto r = "<" + utf8_of(n) + ":";
                for (auto& e : c)
                    r += e + ",";
                return r + ">";
            }
        };
        static constexpr auto value = lexy::as_list<std::vector<std::string>> >> make{};
    };
    struct document
    {
        static constexpr auto name = "document";
        static constexpr auto rule = [] {
            auto ws_comment = ws | dsl::inline_<comment>;
            return ws_comment + dsl::p<element> + ws_comment + dsl::eof;
        }();
        static constexpr auto value = lexy::forward<std::string>;
    };
};
struct ref_xml
{
    cursor c;
    static bool space(std::uint32_t x)
    {
        return x == ' ' || (x >= 9 && x <= 13);
    }
    void ws()
    {
        while (space(c.peek()))
            ++c.i;
    }
    bool comment()
    {
        if (!c.eat("<!--"))
            return false;
        while (!c.eat("-->"))
        {
            if (c.eof())
                throw reject{};
            ++c.i;
        }
        return true;
    }
    std::string name()
    {
        std::string r;
        auto        head = [](std::uint32_t x) { return alpha(x) || x == ':' || x == '_'; };
        if (!head(c.peek()))
            throw reject{};
        while (head(c.peek()) || digit(c.peek()) || c.peek() == '-' || c.peek() == '.')
            r += char(c.c[c.i++]);
        return r;
    }
    std::string element()
    {
        c.need("<");
        auto n = name();
        ws();
        if (c.eat("/"))
        {
            c.need(">");
            return "<" + n + ">";
        }
        c.need(">");
        std::string r     = "<" + n;
        bool        first = true;
        while (!c.eat("</"))
        {
            if (first)
                r += ":";
            first = false;
            if (comment())
                continue;
            if (c.eat("<![CDATA["))
            {
                std::string t;
                while (!c.eat("]]>"))
                {
                    if (c.eof() || c.peek() == BAD)
                        throw reject{};
                    t += utf8(c.c[c.i++]);
                }
                r += "c" + quote(t) + ",";
            }
            else if (c.peek() == '<')
                r += element() + ",";
            else if (c.eat("&"))
            {
                auto e = name();
                c.need(";");
                r += "r" + quote(e == "quot" ? "\"" : e == "amp" ? "&" : e == "apos" ? "'" : e == "lt" ? "<" : e == "gt" ? ">" : throw reject{}) + ",";
            }
            else
            {
                std::string t;
                while (!c.eof() && c.peek() != '<' && c.peek() != '&')
                {
                    if (c.peek() == BAD)
                        throw reject{};
                    t += utf8(c.c[c.i++]);
                }
                if (t.empty())
                    throw reject{};
                r += "t" + quote(t) + ",";
            }
        }
        if (name() != n)
            throw reject{};
        ws();
        c.need(">");
        return r + ">";
    }
    std::string run()
    {
        do
            ws();
        while (comment());
        auto r = element();
        do
            ws();
        while (comment());
        if (!c.eof())
            throw reject{};
        return r;
    }
};
struct gen_xml
{
    pbt::gen& g;
    units     u;
    int       budget = 25;
    void      ws()
    {
        while (g.chance(1, 5))
            u.push_back(std::uint32_t(g.one_of<int>({' ', '\n', '\t', '\r', '\f', '\v'})));
    }
    void text(std::size_t max, const char* avoid)
    {
        for (auto n = g.size(max); n != 0; --n)
        {
            auto x = gen_char(g);
            if (x < 0x7F && std::strchr(avoid, int(x)))
                x = 'x';
            u.push_back(x);
        }
    }
    void comment()
    {
        add(u, "<!--");
        text(8, "");
        add(u, g.one_of<const char*>({"", "-", "--", "->", "<!--"}));
        add(u, "-->");
    }
    units name()
    {
        units n;
        add(n, g.one_of<const char*>({"a", "b", "ab", "abc", "_", ":x", "A", "Z", "z"}));
        if (g.chance(1, 3))
            add(n, g.one_of<const char*>({"1", "-", ".", "-1.", "ab", "_:"}));
        return n;
    }
    void element(int depth)
    {
        --budget;
        u.push_back('<');
        auto n = name();
        u.insert(u.end(), n.begin(), n.end());
        ws();
        if (g.chance(1, 5))
        {
            add(u, "/>");
            return;
        }
        u.push_back('>');
        for (auto k = budget < 0 ? 0 : g.size(5); k != 0; --k)
            switch (g.below(depth > 25 ? 5u : 7u))
            {
            case 0:
                text(8, "<&");
                break;
            case 1:
                comment();
                break;
            case 2:
                add(u, "<![CDATA[");
                text(8, "");
                add(u, g.one_of<const char*>({"", "]", "]]", "]>", "<", "&", "<![CDATA["}));
                add(u, "]]>");
                break;
            case 3:
            case 4:
                u.push_back('&');
                add(u, g.one_of<const char*>({"quot", "amp", "apos", "lt", "gt", "lt", "gt", "quo", "ampx", "Lt", ""}));
                u.push_back(';');
                break;
            default:
                element(depth + 1);
            }
        add(u, "</");
        if (g.chance(1, 25))
            n = name();
        u.insert(u.end(), n.begin(), n.end());
        ws();
        u.push_back('>');
    }
    void outer()
    {
        ws();
        while (g.chance(1, 4))
        {
            comment();
            ws();
        }
    }
    units run()
    {
        outer();
        element(0);
        outer();
        return u;
    }
};
struct lang_xml
{
    static constexpr const char* name = "xml";
    template <typename Enc>
    using production = xml_grammar::document;
    static units generate(pbt::gen& g)
    {
        return gen_xml{g, {}}.run();
    }
    static std::string reference(const units& cps)
    {
        return ref_xml{{cps}}.run();
    }
};

//=== IP addresses ===//
struct ip_value
{
    int           version = 4;
    int           count   = 0;
    int           elision = -1;
    std::uint16_t pieces[8] = {};
    void          piece(std::uint16_t p)
    {
        if (count < 8)
            pieces[count] = p;
        ++count;
    }
    std::string text() const
    {
        std::string r = version == 4 ? "v4" : "v6";
        auto        n = version == 4 ? 2 : 8;
        for (int i = 0; i != n; ++i)
        {
            int src = i;
            if (version == 6 && elision >= 0 && i >= elision)
            {
                src = i - (8 - count);
                if (src < elision)
                {
                    r += ":0";
                    continue;
                }
            }
            r += ":" + std::to_string(src < 8 ? pieces[src] : 0);
        }
        return r;
    }
};
struct ip_grammar
{
    using address = ip_value;
    struct ipv4_octet
    {
        static constexpr auto rule  = dsl::integer<std::uint8_t>(dsl::digits<>.no_leading_zero());
        static constexpr auto value = lexy::as_integer<std::uint8_t>;
    };
    struct ipv4_address
    {
        static constexpr auto rule  = dsl::times<4>(dsl::p<ipv4_octet>, dsl::sep(dsl::period));
        static constexpr auto value = lexy::callback<address>([](std::uint8_t a, std::uint8_t b, std::uint8_t c, std::uint8_t d) {
            address r;
            r.piece(std::uint16_t(a * 256 + b));
            r.piece(std::uint16_t(c * 256 + d));
            return r;
        });
    };
    static constexpr auto ipv4_condition = dsl::peek(dsl::digits<> + dsl::period);
    struct ipv6_piece
    {
        static constexpr auto rule  = dsl::integer<std::uint16_t, dsl::hex>;
        static constexpr auto value = lexy::as_integer<std::uint16_t>;
    };
    struct missing_pieces
    {
        static constexpr auto name = "not enough IPv6 pieces";
    };
    struct too_many_pieces
    {
        static constexpr auto name = "too many IPv6 pieces";
    };
    struct duplicate_elision
    {
        static constexpr auto name = "duplicate zero elision";
    };
    struct ipv6_address : lexy::scan_production<address>
    {
        template <typename Reader, typename Context>
        static constexpr typename ipv6_address::scan_result scan(lexy::rule_scanner<Context, Reader>& scanner)
        {
            address b;
            b.version = 6;
            while (true)
            {
                if (auto at = scanner.position(); scanner.branch(dsl::double_colon))
                {
                    if (b.elision >= 0)
                        scanner.error(duplicate_elision{}, at, scanner.position());
                    else
                        b.elision = b.count;
                    if (!scanner.peek(dsl::digit<dsl::hex>))
                        break;
                }
                else if (b.count > 0 && !scanner.branch(dsl::colon))
                    break;
                if (scanner.branch(ipv4_condition))
                {
                    auto v4 = scanner.parse(ipv4_address{});
                    if (!scanner)
                        return lexy::scan_failed;
                    b.piece(v4.value().pieces[0]);
                    b.piece(v4.value().pieces[1]);
                    break;
                }
                auto piece = scanner.parse(ipv6_piece{});
                if (!scanner)
                    return lexy::scan_failed;
                b.piece(piece.value());
            }
            if (b.count < 8 && b.elision < 0)
                scanner.error(missing_pieces{}, scanner.begin(), scanner.position());
            else if (b.count > 8 || (b.elision >= 0 && b.count == 8))
                scanner.error(too_many_pieces{}, scanner.begin(), scanner.position());
            return b;
        }
    };
    struct ip
    {
        static constexpr auto name  = "ip";
        static constexpr auto rule  = (ipv4_condition >> dsl::p<ipv4_address> | dsl::else_ >> dsl::p<ipv6_address>) + dsl::try_(dsl::eof);
        static constexpr auto value = lexy::callback<std::string>([](const address& a) { return a.count > 8 ? std::string("error") : a.text(); });
    };
};
struct lang_ip
{
    static constexpr const char* name = "ip";
    template <typename Enc>
    using production = ip_grammar::ip;
    static units generate(pbt::gen& g)
    {
        units u;
        auto  v4 = [&] {
            for (int n = g.chance(1, 10) ? int(g.range(1, 5)) : 4, i = 0; i != n; ++i)
            {
                if (i)
                    u.push_back('.');
                if (g.chance(1, 30))
                    add(u, g.one_of<const char*>({"256", "00", "01", "260", "300", "1000", ""}));
                else
                    add(u, std::to_string(g.chance(1, 3) ? g.one_of<int>({0, 9, 10, 99, 100, 199, 200, 249, 250, 255}) : int(g.below(256))).c_str());
            }
        };
        if (g.chance(1, 4))
        {
            v4();
            return u;
        }
        auto side = [&](std::size_t n, bool last) {
            for (std::size_t i = 0; i != n; ++i)
            {
                if (i)
                    u.push_back(':');
                if (last && i + 2 >= n && n != 1 && g.chance(1, 3))
                {
                    v4();
                    return;
                }
                for (auto k = g.chance(1, 30) ? g.range(0, 7) : g.range(1, 4); k != 0; --k)
                    u.push_back(std::uint32_t("00000123456789abcdefABCDEF"[g.below(26)]));
            }
        };
        std::size_t total = g.chance(1, 10) ? g.below(11) : g.chance(2, 3) ? g.below(8) : 8;
        if (total == 8 && g.chance(9, 10))
            side(8, true);
        else
        {
            auto first = g.below(total + 1);
            side(first, false);
            add(u, "::");
            side(total - first, true);
        }
        return u;
    }
    static std::string reference(const units& cps)
    {
        std::string s;
        for (auto c : cps)
            if (hexval(c) >= 0 || c == ':' || c == '.')
                s += char(c);
            else
                throw reject{};
        auto split = [](const std::string& t, char sep) {
            std::vector<std::string> r(1);
            for (char c : t)
                if (c == sep)
                    r.emplace_back();
                else
                    r.back() += c;
            return r;
        };
        using pieces = std::vector<unsigned>;
        auto v4      = [&](const std::string& t) {
            pieces r;
            auto   parts = split(t, '.');
            if (parts.size() != 4)
                throw reject{};
            for (auto& p : parts)
            {
                if (p.empty() || p.size() > 3 || (p[0] == '0' && p.size() > 1) || p.find_first_not_of("0123456789") != p.npos || std::stoi(p) > 255)
                    throw reject{};
                r.push_back(unsigned(std::stoi(p)));
            }
            return pieces{r[0] << 8 | r[1], r[2] << 8 | r[3]};
        };
        auto side = [&](const std::string& t, bool last) {
            pieces r;
            if (t.empty())
                return r;
            auto parts = split(t, ':');
            for (std::size_t i = 0; i != parts.size(); ++i)
            {
                if (last && i + 1 == parts.size() && parts[i].find('.') != std::string::npos)
                {
                    auto q = v4(parts[i]);
                    r.insert(r.end(), q.begin(), q.end());
                    break;
                }
                if (parts[i].empty() || parts[i].find('.') != std::string::npos)
                    throw reject{};
                auto z = parts[i].find_first_not_of('0');
                auto h = z == std::string::npos ? "0" : parts[i].substr(z);
                if (h.size() > 4)
                    throw reject{};
                r.push_back(unsigned(std::stoul(h, nullptr, 16)));
            }
            return r;
        };
        std::string r;
        pieces      all;
        if (s.find(':') == std::string::npos)
        {
            r   = "v4";
            all = v4(s);
        }
        else
        {
            r      = "v6";
            auto e = s.find("::");
            if (e == std::string::npos)
            {
                all = side(s, true);
                if (all.size() != 8)
                    throw reject{};
            }
            else
            {
                auto head = side(s.substr(0, e), false), tail = side(s.substr(e + 2), true);
                if (head.size() + tail.size() > 7)
                    throw reject{};
                all = head;
                all.resize(8 - tail.size());
                all.insert(all.end(), tail.begin(), tail.end());
            }
        }
        for (auto p : all)
            r += ":" + std::to_string(p);
        return r;
    }
};

//=== configuration file ===//
struct config_value
{
    std::string              name;
    std::string              version;
    std::vector<std::string> authors;
};
template <bool Std>
struct config_grammar
{
    struct name : lexy::token_production
    {
        struct invalid_character
        {
            static constexpr auto name = "invalid name character";
        };
        static constexpr auto rule  = dsl::identifier(dsl::ascii::alpha, dsl::ascii::word) + dsl::peek(dsl::ascii::space).template error<invalid_character>;
        static constexpr auto value = str_cb{};
    };
    struct version : lexy::token_production
    {
        struct forbidden_build_string
        {
            static constexpr auto name = "build string not supported";
        };
        struct make
        {
            using return_type = std::string;
            std::string operator()(int a, int b, int c) const
            {
                return std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
            }
        };
        static constexpr auto rule = [] {
            // (the try_() of the example multiply the instantiations of what follows)
            auto dot_version = dsl::times<3>(dsl::integer<int>, dsl::sep(dsl::period)) + dsl::peek_not(dsl::lit_c<'-'> + dsl::while_(dsl::ascii::alnum)).template error<forbidden_build_string>;
            return LEXY_LIT("unreleased") | dsl::else_ >> dot_version;
        }();
        static constexpr auto value = lexy::bind(make{}, lexy::_1 or 0, lexy::_2 or 0, lexy::_3 or 0);
    };
    struct author
    {
        struct invalid_character
        {
            static constexpr auto name = "invalid string character";
        };
        static constexpr auto rule = [] {
            auto cp     = (-dsl::ascii::control).template error<invalid_character>;
            auto escape = dsl::backslash_escape.rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>).rule(dsl::lit_c<'U'> >> dsl::code_point_id<8>);
            return dsl::quoted(cp, escape);
        }();
        static constexpr auto value = [] {
            if constexpr (Std)
                return lexy::as_string<std::string, lexy::utf8_encoding>;
            else
                return str_cb{};
        }();
    };
    struct author_list
    {
        static constexpr auto rule  = dsl::square_bracketed.list(dsl::p<author>, dsl::sep(dsl::comma));
        static constexpr auto value = lexy::as_list<std::vector<std::string>>;
    };
    struct fields
    {
        struct unknown_field
        {
            static constexpr auto name = "unknown config field";
        };
        struct duplicate_field
        {
            static constexpr auto name = "duplicate config field";
        };
        static constexpr auto rule = [] {
            auto make_field = [](auto name_, auto rule) {
                auto end = dsl::try_(dsl::newline, dsl::until(dsl::newline));
                return name_ >> dsl::try_(dsl::lit_c<'='>) + rule + end;
            };
            auto name_field    = make_field(LEXY_LIT("name"), (dsl::member<&config_value::name> = dsl::p<name>));
            auto version_field = make_field(LEXY_LIT("version"), (dsl::member<&config_value::version> = dsl::p<version>));
            auto authors_field = make_field(LEXY_LIT("authors"), (dsl::member<&config_value::authors> = dsl::p<author_list>));
            return dsl::combination(name_field, version_field, authors_field).template missing_error<unknown_field>.template duplicate_error<duplicate_field> + dsl::eof;
        }();
        static constexpr auto value = lexy::as_aggregate<config_value>;
    };
    struct config
    {
        static constexpr auto name       = "config";
        static constexpr auto whitespace = dsl::ascii::blank;
        static constexpr auto rule       = dsl::p<fields>;
        static constexpr auto value      = lexy::callback<std::string>([](const config_value& c) {
            auto r = c.name + "/" + c.version;
            for (auto& a : c.authors)
                r += "/" + quote(a);
            return r;
        });
    };
};
struct lang_config
{
    static constexpr const char* name = "config";
    template <typename Enc>
    using production = typename config_grammar<std::is_same_v<Enc, lexy::utf8_char_encoding>>::config;

    static units generate(pbt::gen& g)
    {
        units u;
        auto  ws = [&] {
            while (g.chance(1, 4))
                u.push_back(std::uint32_t(g.one_of<int>({' ', '\t'})));
        };
        int order[] = {0, 1, 2};
        std::swap(order[0], order[g.below(3)]);
        std::swap(order[1], order[1 + g.below(2)]);
        if (g.chance(1, 20))
            order[2] = order[0];
        ws();
        for (int f : order)
        {
            add(u, f == 0 ? "name" : f == 1 ? "version" : "authors");
            ws();
            if (!g.chance(1, 40))
                u.push_back('=');
            ws();
            if (f == 0)
            {
                u.push_back(std::uint32_t("abyzAZ"[g.below(6)]));
                for (auto n = g.size(8); n != 0; --n)
                    u.push_back(std::uint32_t("abyzAZ09_"[g.below(9)]));
                if (g.chance(1, 40))
                    u.push_back(gen_char(g));
            }
            else if (f == 1)
            {
                if (g.chance(1, 5))
                    add(u, "unreleased");
                else
                    for (int i = 0; i != 3; ++i)
                    {
                        if (i)
                            u.push_back('.');
                        if (g.chance(1, 8))
                            add(u, g.one_of<const char*>({"2147483647", "2147483648", "0002147483647", "21474836470", "00", ""}));
                        else
                            gen_digits(g, u, 8);
                    }
                if (g.chance(1, 20))
                    add(u, g.one_of<const char*>({"-", "-alpha", ".1"}));
            }
            else
            {
                u.push_back('[');
                for (std::size_t n = g.size(4) + 1, i = 0; i != n; ++i)
                {
                    ws();
                    if (i)
                    {
                        u.push_back(',');
                        ws();
                    }
                    u.push_back('"');
                    for (auto k = g.size(8); k != 0; --k)
                        if (g.chance(1, 5))
                        {
                            u.push_back('\\');
                            bool big = g.boolean();
                            u.push_back(big ? 'U' : 'u');
                            if (big)
                                add(u, g.one_of<const char*>({"000", "000", "000", "001", "FFF", ""}));
                            if (big)
                                add(u, g.one_of<const char*>({"0", "1", "F", "a"}));
                            for (int m = 0; m != 4; ++m)
                                u.push_back(std::uint32_t("0123456789abcdefABCDEFdD"[g.below(24)]));
                        }
                        else
                        {
                            auto x = gen_char(g);
                            if (x == '"' || x == '\\' || (g.chance(4, 5) && (x < 0x20 || x == 0x7F)))
                                x = 'x';
                            u.push_back(x);
                        }
                    u.push_back('"');
                }
                ws();
                u.push_back(']');
            }
            ws();
            add(u, g.boolean() ? "\n" : "\r\n");
            ws();
        }
        return u;
    }
    static std::string reference(const units& cps)
    {
        cursor c{cps};
        auto   ws = [&] {
            while (c.peek() == ' ' || c.peek() == '\t')
                ++c.i;
        };
        auto uint = [&]() -> std::uint64_t {
            if (!digit(c.peek()))
                throw reject{};
            std::uint64_t v = 0;
            while (digit(c.peek()))
            {
                v = v * 10 + (c.c[c.i++] - '0');
                if (v > 2147483647)
                    throw reject{};
            }
            return v;
        };
        std::string name, version, authors;
        bool        have[3] = {};
        ws();
        for (int k = 0; k != 3; ++k)
        {
            int f = c.eat("name") ? 0 : c.eat("version") ? 1 : c.eat("authors") ? 2 : throw reject{};
            if (have[f])
                throw reject{};
            have[f] = true;
            ws();
            c.need("=");
            ws();
            if (f == 0)
            {
                if (!alpha(c.peek()))
                    throw reject{};
                while (alpha(c.peek()) || digit(c.peek()) || c.peek() == '_')
                    name += char(c.c[c.i++]);
                if (!ref_xml::space(c.peek()))
                    throw reject{};
            }
            else if (f == 1)
            {
                if (c.eat("unreleased"))
                    version = "0.0.0";
                else
                {
                    version = std::to_string(uint());
                    for (int i = 0; i != 2; ++i)
                    {
                        c.need(".");
                        version += "." + std::to_string(uint());
                    }
                    if (c.peek() == '-')
                        throw reject{};
                }
            }
            else
            {
                c.need("[");
                do
                {
                    ws();
                    c.need("\"");
                    std::string s;
                    while (!c.eat("\""))
                    {
                        auto x = c.peek();
                        if (c.eof() || x == BAD || x < 0x20 || x == 0x7F)
                            throw reject{};
                        ++c.i;
                        if (x == '\\')
                        {
                            int           n = c.eat("u") ? 4 : c.eat("U") ? 8 : throw reject{};
                            std::uint64_t v = 0;
                            for (; n != 0; --n, ++c.i)
                            {
                                if (hexval(c.peek()) < 0)
                                    throw reject{};
                                v = v * 16 + std::uint64_t(hexval(c.peek()));
                            }
                            if (v > 0x10FFFF)
                                throw reject{};
                            x = std::uint32_t(v);
                        }
                        s += utf8(x);
                    }
                    authors += "/" + quote(s);
                    ws();
                } while (c.eat(","));
                c.need("]");
            }
            ws();
            if (!c.eat("\n"))
                c.need("\r\n");
            ws();
        }
        if (!c.eof())
            throw reject{};
        return name + "/" + version + authors;
    }
};

//=== arithmetic ===//
struct calc_grammar
{
    static constexpr auto escaped_newline = dsl::backslash >> dsl::newline;
    struct integer : lexy::token_production
    {
        static constexpr auto rule  = LEXY_LIT("0x") >> dsl::integer<int, dsl::hex> | dsl::integer<int>;
        static constexpr auto value = lexy::callback<std::string>([](int i) { return std::to_string(i); });
    };
    struct name
    {
        static constexpr auto rule  = dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue);
        static constexpr auto value = str_cb{};
    };
    struct expr;
    struct nested : lexy::transparent_production
    {
        static constexpr auto whitespace = dsl::ascii::space | escaped_newline;
        static constexpr auto rule       = dsl::recurse<expr>;
        static constexpr auto value      = lexy::forward<std::string>;
    };
    enum op
    {
        neg,
        inv,
        pow,
        mul,
        div_,
        plus,
        minus,
        eq,
        lt
    };
    struct list_sink
    {
        using return_type = std::string;
        std::string s;
        void        operator()(std::string v)
        {
            s += v;
        }
        void operator()(op o)
        {
            s += o == eq ? "==" : "<";
        }
        std::string finish() &&
        {
            return "{" + s + "}";
        }
    };
    struct make
    {
        using return_type = std::string;
        list_sink sink() const
        {
            return {};
        }
        static std::string txt(int o)
        {
            const char* t[] = {"-", "~", "**", "*", "/", "+", "-"};
            return t[o];
        }
        std::string operator()(std::string s) const
        {
            return s;
        }
        std::string operator()(std::string f, std::string a) const
        {
            return f + "(" + a + ")";
        }
        std::string operator()(op o, std::string a) const
        {
            return "(" + txt(o) + a + ")";
        }
        std::string operator()(std::string a, op o, std::string b) const
        {
            return "(" + a + txt(o) + b + ")";
        }
        std::string operator()(std::string a, std::string b, std::string c) const
        {
            return "(" + a + "?" + b + ":" + c + ")";
        }
    };
    struct expr : lexy::expression_production
    {
        struct expected_operand
        {
            static constexpr auto name = "expected operand";
        };
        static constexpr auto name = "expr";
        static constexpr auto atom = [] {
            auto paren       = dsl::parenthesized(dsl::p<nested>);
            auto var_or_call = dsl::p<calc_grammar::name> >> dsl::if_(paren);
            return paren | var_or_call | dsl::p<integer> | dsl::error<expected_operand>;
        }();
        struct prefix : dsl::prefix_op
        {
            static constexpr auto op = dsl::op<neg>(LEXY_LIT("-")) / dsl::op<inv>(LEXY_LIT("~"));
            using operand            = dsl::atom;
        };
        struct power : dsl::infix_op_right
        {
            static constexpr auto op = dsl::op<pow>(LEXY_LIT("**"));
            using operand            = prefix;
        };
        struct product : dsl::infix_op_left
        {
            static constexpr auto op = dsl::op<mul>(dsl::not_followed_by(LEXY_LIT("*"), dsl::lit_c<'*'>)) / dsl::op<div_>(LEXY_LIT("/"));
            using operand            = power;
        };
        struct sum : dsl::infix_op_left
        {
            static constexpr auto op = dsl::op<plus>(LEXY_LIT("+")) / dsl::op<minus>(LEXY_LIT("-"));
            using operand            = product;
        };
        struct comparison : dsl::infix_op_list
        {
            static constexpr auto op = dsl::op<eq>(LEXY_LIT("==")) / dsl::op<lt>(LEXY_LIT("<"));
            using operand            = sum;
        };
        struct conditional : dsl::infix_op_single
        {
            static constexpr auto op = dsl::op<void>(LEXY_LIT("?") >> dsl::p<nested> + dsl::lit_c<':'>);
            using operand            = comparison;
        };
        using operation             = conditional;
        static constexpr auto value = make{};
    };
    struct statements
    {
        static constexpr auto name                = "statements";
        static constexpr auto max_recursion_depth = 40;
        static constexpr auto whitespace          = dsl::ascii::blank | escaped_newline;
        static constexpr auto rule                = dsl::terminator(dsl::eof).list(dsl::p<expr>, dsl::sep(dsl::semicolon));
        static constexpr auto value               = lexy::as_list<std::vector<std::string>> >> lexy::callback<std::string>([](const std::vector<std::string>& v) {
            std::string r;
            for (auto& s : v)
                r += s + ";";
            return r;
        });
    };
};
struct ref_calc
{
    cursor c;
    int    nested = 0;
    int    depth  = 0;
    // Runs of the identifier characters the generator uses outside ASCII: checked by C09; texts with other characters are not judged.
    static bool ident(std::uint32_t x, bool start)
    {
        return alpha(x) || x == '_' || x == 0xE9 || x == 0x3B1 || x == 0x4E2D || x == 0x1D49C || (!start && (digit(x) || x == 0x301));
    }
    void ws()
    {
        while (true)
        {
            auto x = c.peek();
            if (x == ' ' || x == '\t' || (nested && (x == '\n' || x == '\r' || x == '\v' || x == '\f')))
                ++c.i;
            else if (!c.eat("\\\n") && !c.eat("\\\r\n"))
                return;
        }
    }
    std::string inner()
    {
        if (++depth > 40)
            throw reject{};
        ++nested;
        ws();
        auto r = expr();
        --nested;
        --depth;
        return r;
    }
    std::string paren()
    {
        c.need("(");
        ws();
        auto r = inner();
        c.need(")");
        ws();
        return r;
    }
    std::string atom()
    {
        if (c.peek() == '(')
            return paren();
        if (ident(c.peek(), true))
        {
            std::string n;
            while (ident(c.peek(), false))
                n += utf8(c.c[c.i++]);
            ws();
            if (c.peek() == '(')
                n += "(" + paren() + ")";
            return n;
        }
        bool          hex = c.eat("0x");
        std::uint64_t v   = 0;
        auto          is  = [&] { return hex ? hexval(c.peek()) >= 0 : digit(c.peek()); };
        if (!is())
            throw reject{};
        while (is())
        {
            v = v * (hex ? 16 : 10) + std::uint64_t(hexval(c.c[c.i++]));
            if (v > 0x7FFFFFFF)
                throw reject{};
        }
        ws();
        return std::to_string(v);
    }
    bool tok(const char* s)
    {
        if (!c.eat(s))
            return false;
        ws();
        return true;
    }
    std::string prefix()
    {
        if (tok("-"))
            return "(-" + prefix() + ")";
        if (tok("~"))
            return "(~" + prefix() + ")";
        return atom();
    }
    std::string power()
    {
        auto l = prefix();
        if (tok("**"))
            return "(" + l + "**" + power() + ")";
        return l;
    }
    std::string product()
    {
        auto l = power();
        while (true)
            if (!c.looking_at("**") && tok("*"))
                l = "(" + l + "*" + power() + ")";
            else if (tok("/"))
                l = "(" + l + "/" + power() + ")";
            else
                return l;
    }
    std::string sum()
    {
        auto l = product();
        while (true)
            if (tok("+"))
                l = "(" + l + "+" + product() + ")";
            else if (tok("-"))
                l = "(" + l + "-" + product() + ")";
            else
                return l;
    }
    std::string comparison()
    {
        auto        l = sum();
        std::string r;
        while (true)
            if (tok("=="))
                r += "==" + sum();
            else if (tok("<"))
                r += "<" + sum();
            else
                return r.empty() ? l : "{" + l + r + "}";
    }
    std::string expr()
    {
        auto a = comparison();
        if (!tok("?"))
            return a;
        auto b = inner();
        if (!tok(":"))
            throw reject{};
        auto d = comparison();
        if (c.peek() == '?')
            throw reject{};
        return "(" + a + "?" + b + ":" + d + ")";
    }
    std::string run()
    {
        std::string r;
        ws();
        do
            r += expr() + ";";
        while (tok(";"));
        if (!c.eof())
            throw reject{};
        return r;
    }
};
struct gen_calc
{
    pbt::gen& g;
    units     u;
    int       budget = 14;
    int       nested = 0;
    void      ws()
    {
        while (g.chance(1, 6))
            if (nested && g.boolean())
                u.push_back(std::uint32_t(g.one_of<int>({'\n', '\r', '\f', '\v'})));
            else
                add(u, g.one_of<const char*>({" ", "\t", "\\\n", "\\\r\n"}));
    }
    void atom()
    {
        switch (g.below(budget < 0 ? 3u : 5u))
        {
        case 0:
            gen_digits(g, u, 8);
            break;
        case 1:
            if (g.chance(1, 3))
                add(u, g.one_of<const char*>({"2147483647", "2147483648", "0x7fffFFFF", "0x80000000", "0x0", "0xA", "00"}));
            else
            {
                add(u, "0x");
                for (auto n = g.range(1, 7); n != 0; --n)
                    u.push_back(std::uint32_t("0123456789abcdefABCDEF"[g.below(22)]));
            }
            break;
        case 2:
        case 3:
            u.push_back(std::uint32_t(g.one_of<int>({'a', 'x', 'Z', '_', 0xE9, 0x3B1, 0x4E2D, 0x1D49C})));
            while (g.chance(1, 3))
                u.push_back(std::uint32_t(g.one_of<int>({'a', 'x', '0', '9', '_', 0xE9, 0x301, 0x1D49C})));
            if (g.boolean() || budget < 0)
                break;
            ws();
            [[fallthrough]];
        default:
            u.push_back('(');
            ++nested;
            expr();
            --nested;
            u.push_back(')');
        }
    }
    void expr()
    {
        --budget;
        ws();
        bool cond = g.chance(1, 8);
        for (auto n = g.size(5) + 1; n != 0; --n)
        {
            while (g.chance(1, 6))
            {
                add(u, g.boolean() ? "-" : "~");
                ws();
            }
            atom();
            ws();
            if (n != 1)
            {
                if (cond && n == 2)
                {
                    u.push_back('?');
                    ++nested;
                    expr();
                    --nested;
                    u.push_back(':');
                }
                else
                    add(u, g.one_of<const char*>({"+", "-", "*", "/", "**", "==", "<", "+", "-", "*", "**"}));
                ws();
            }
        }
    }
    units run()
    {
        if (g.chance(1, 20))
        {
            auto  n = g.range(34, 44);
            for (auto i = 0; i != n; ++i)
                add(u, g.boolean() ? "(" : "f(");
            units o = u;
            nested += int(n);
            expr();
            nested = 0;
            for (auto x : o)
                if (x == '(')
                    u.push_back(')');
            return u;
        }
        expr();
        while (g.chance(1, 5))
        {
            u.push_back(';');
            expr();
        }
        return u;
    }
};
struct lang_calc
{
    static constexpr const char* name = "arithmetic";
    template <typename Enc>
    using production = calc_grammar::statements;
    static units generate(pbt::gen& g)
    {
        return gen_calc{g, {}}.run();
    }
    static std::string reference(const units& cps)
    {
        return ref_calc{{cps}}.run();
    }
};

//=== binary messages ===//
struct varint_builder
{
    std::uint64_t result = 0;
    unsigned      shift  = 0;
    void          add(std::uint8_t b)
    {
        if (shift < 64)
            result |= std::uint64_t(b & 0x7Fu) << shift;
        shift += 7;
    }
};
struct message_grammar
{
    struct varint
    {
        struct missing_byte
        {
            static constexpr auto name = "missing varint byte";
        };
        using builder = varint_builder;
        struct make
        {
            using return_type = std::uint64_t;
            std::uint64_t operator()(lexy::nullopt, std::uint8_t last) const
            {
                return last;
            }
            std::uint64_t operator()(builder b, std::uint8_t last) const
            {
                b.add(last);
                return b.result;
            }
        };
        static constexpr auto rule = [] {
            auto last   = dsl::bits(dsl::bit::_0, dsl::bit::any<7>).error<missing_byte>;
            auto prefix = dsl::bits(dsl::bit::_1, dsl::bit::any<7>).error<missing_byte>;
            return dsl::terminator(dsl::bint8(last)).opt_list(dsl::bint8(prefix));
        }();
        static constexpr auto value = lexy::fold_inplace<builder>([] { return builder{}; }, [](builder& b, std::uint8_t x) { b.add(x); }) >> make{};
    };
    struct field_varint
    {
        static constexpr auto rule  = dsl::p<varint>;
        static constexpr auto value = lexy::callback<std::string>([](std::uint64_t v) { return "v" + std::to_string(v); });
    };
    struct field_32
    {
        static constexpr auto rule  = dsl::little_bint32;
        static constexpr auto value = lexy::callback<std::string>([](std::uint32_t v) { return "d" + std::to_string(v); });
    };
    struct field_64
    {
        static constexpr auto rule  = dsl::little_bint64;
        static constexpr auto value = lexy::callback<std::string>([](std::uint64_t v) { return "q" + std::to_string(v); });
    };
    struct field_bytes
    {
        static constexpr auto rule = dsl::repeat(dsl::p<varint>).capture(dsl::byte);
        struct make
        {
            using return_type = std::string;
            template <typename Reader>
            std::string operator()(lexy::lexeme<Reader> l) const
            {
                auto u = to_units(l.begin(), l.end());
                return "b" + quote(std::string(u.begin(), u.end()));
            }
        };
        static constexpr auto value = make{};
    };
    struct field_key
    {
        static constexpr auto rule  = dsl::p<varint>;
        static constexpr auto value = lexy::forward<std::uint64_t>;
    };
    struct unknown_field_type
    {
        static constexpr auto name = "unknown field type";
    };
    struct field : lexy::scan_production<std::string>
    {
        template <typename Reader, typename Context>
        static scan_result scan(lexy::rule_scanner<Context, Reader>& scanner)
        {
            auto key = scanner.parse(field_key{});
            if (!scanner)
                return lexy::scan_failed;
            lexy::scan_result<std::string> value;
            switch (key.value() & 7)
            {
            case 0:
                scanner.parse(value, dsl::p<field_varint>);
                break;
            case 1:
                scanner.parse(value, dsl::p<field_64>);
                break;
            case 2:
                scanner.parse(value, dsl::p<field_bytes>);
                break;
            case 5:
                scanner.parse(value, dsl::p<field_32>);
                break;
            default:
                scanner.fatal_error(unknown_field_type{}, scanner.begin(), scanner.position());
                break;
            }
            if (!scanner)
                return lexy::scan_failed;
            return std::to_string(key.value() >> 3) + value.value();
        }
    };
    struct message
    {
        static constexpr auto name  = "message";
        static constexpr auto rule  = dsl::terminator(dsl::eof).opt_list(dsl::p<field>);
        static constexpr auto value = lexy::as_list<std::vector<std::string>> >> lexy::callback<std::string>(
                                          [](lexy::nullopt) { return std::string(); },
                                          [](const std::vector<std::string>& v) {
                                              std::string r;
                                              for (auto& s : v)
                                                  r += s + ";";
                                              return r;
                                          });
    };
};
struct lang_message
{
    static constexpr const char* name = "message";
    template <typename Enc>
    using production = message_grammar::message;
    static units generate(pbt::gen& g)
    {
        units u;
        auto  varint = [&](std::uint64_t v) {
            while (v >= 0x80)
            {
                u.push_back(std::uint32_t(v & 0x7F) | 0x80);
                v >>= 7;
            }
            if (g.chance(1, 12))
                for (auto n = g.range(1, 10); n != 0; --n)
                {
                    u.push_back(std::uint32_t(v) | 0x80);
                    v = 0;
                }
            u.push_back(std::uint32_t(v));
        };
        for (auto n = g.size(6); n != 0; --n)
        {
            auto type = g.chance(1, 20) ? g.below(8) : g.one_of<std::uint64_t>({0, 1, 2, 5});
            varint((g.chance(1, 3) ? g.bits64() >> 3 : g.below(20)) << 3 | type);
            std::uint64_t k = 0;
            switch (type)
            {
            case 0:
                varint(g.bits64() >> g.below(64));
                break;
            case 1:
                k = 8;
                break;
            case 5:
                k = 4;
                break;
            default:
                k = g.size(12);
                varint(g.chance(1, 30) ? g.bits64() : k);
            }
            for (; k != 0; --k)
                u.push_back(std::uint32_t(g.below(256)));
        }
        return u;
    }
    static std::string reference(const units& b)
    {
        std::size_t i    = 0;
        auto        next = [&] { return i == b.size() ? throw reject{} : b[i++]; };
        auto        var  = [&] {
            std::uint64_t v = 0;
            for (unsigned s = 0;; s += 7)
            {
                auto x = next();
                if (s < 64)
                    v += std::uint64_t(x & 0x7F) << s;
                if (x < 0x80)
                    return v;
            }
        };
        auto fixed = [&](int n) {
            std::uint64_t v = 0;
            for (int k = 0; k != n; ++k)
                v += std::uint64_t(next()) << (8 * k);
            return v;
        };
        std::string r;
        while (i != b.size())
        {
            auto key = var();
            r += std::to_string(key >> 3);
            switch (key & 7)
            {
            case 0:
                r += "v" + std::to_string(var());
                break;
            case 1:
                r += "q" + std::to_string(fixed(8));
                break;
            case 5:
                r += "d" + std::to_string(fixed(4));
                break;
            case 2: {
                auto        n = var();
                std::string s;
                if (n > b.size() - i)
                    throw reject{};
                for (; n != 0; --n)
                    s += char(next());
                r += "b" + quote(s);
                break;
            }
            default:
                throw reject{};
            }
            r += ";";
        }
        return r;
    }
};

//=== driver ===//
template <typename Enc>
units mutate(pbt::gen& g, units u)
{
    constexpr auto max = enc_traits<Enc>::max;
    for (auto n = g.chance(1, 2) ? 0 : g.size(5); n != 0; --n)
    {
        auto at = g.below(u.size() + 1);
        auto it = u.begin() + std::ptrdiff_t(at);
        switch (g.below(9))
        {
        case 0: // truncate
            u.resize(at);
            break;
        case 1: // erase
            u.erase(it, u.begin() + std::ptrdiff_t(std::min<std::size_t>(u.size(), at + 1 + g.size(4))));
            break;
        case 2: { // another unit of the text
            if (u.empty())
                break;
            auto c = u[g.below(u.size())];
            u.insert(it, c);
            break;
        }
        case 3: { // a part of the text again
            if (u.empty())
                break;
            auto  b = g.below(u.size());
            units part(u.begin() + std::ptrdiff_t(b), u.begin() + std::ptrdiff_t(std::min(u.size(), b + 1 + g.size(12))));
            u.insert(it, part.begin(), part.end());
            break;
        }
        case 4: // a character of some grammar
            u.insert(it, std::uint32_t("{}[]():,\"\\/<>&;-.=+*?~! \t\n\r0123456789aAeEuUxXfFtTnN"[g.below(51)]));
            break;
        case 5:
            if (at != u.size())
                u[at] = std::uint32_t("{}[]():,\"\\/<>&;-.=+*?~! \t\n\r0123456789aAeEuUxXfFtTnN"[g.below(51)]);
            break;
        case 6: { // a raw code unit
            auto c = std::uint32_t(g.one_of<std::uint32_t>({0, 1, 0x7F, 0x80, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFE, 0xFF, 0xD800, 0xDC00, 0xDBFF, 0xFFFF, 0xFFFE, 0x110000, 0xFFFFFFFF}));
            u.insert(it, c & max);
            break;
        }
        case 7:
            if (at != u.size())
                u[at] = std::uint32_t(g.below(std::uint64_t(max) + 1));
            break;
        default:
            if (u.size() > 1)
                std::swap(u[at % u.size()], u[(at + 1) % u.size()]);
        }
    }
    return u;
}

template <typename Tree>
void check_tree(const Tree& tree, const units& text, bool complete)
{
    units       all;
    int         depth = 0;
    std::size_t nodes = 0;
    for (auto [event, node] : tree.traverse())
    {
        ++nodes;
        if (event == lexy::traverse_event::enter)
            ++depth;
        else if (event == lexy::traverse_event::exit)
            --depth;
        else
        {
            auto u = to_units(node.lexeme().begin(), node.lexeme().end());
            all.insert(all.end(), u.begin(), u.end());
        }
        if (depth < 0)
            pbt::fail("the tree exits a node it did not enter");
    }
    if (depth != 0)
        pbt::fail("the tree leaves nodes open");
    if (nodes < tree.size())
        pbt::fail("traversal does not visit every node of the tree");
    if (complete && all != text)
        pbt::fail("the tokens of the tree are not the text: " + pbt::show_range(all.begin(), all.end()));
    if (!complete && (all.size() > text.size() || !std::equal(all.begin(), all.end(), text.begin())))
        pbt::fail("the tokens of the tree are not the start of the text: " + pbt::show_range(all.begin(), all.end()));
}

template <typename Lang, typename Enc, typename Holder>
void run(pbt::gen& g)
{
    using P = typename Lang::template production<Enc>;
    using T = enc_traits<Enc>;
    units u;
    {
        auto cps = Lang::generate(g);
        if constexpr (T::unicode)
            for (auto c : cps)
                T::enc(u, c);
        else
            u = cps;
    }
    u = mutate<Enc>(g, std::move(u));
    if constexpr (std::is_same_v<Lang, lang_calc>)
        // only characters whose identifier properties the reference knows
        for (std::size_t i = 0; i < u.size();)
        {
            std::uint32_t c = 0;
            auto          n = T::dec(u, i, &c);
            if (n != 0 && c >= 0x80 && !ref_calc::ident(c, false))
                for (std::size_t k = 0; k != n; ++k)
                    u[i + k] = '!';
            i += n ? n : 1;
        }
    g.note(std::string(Lang::name) + " " + T::name + " " + Holder::kind + " " + pbt::show_range(u.begin(), u.end()));

    // what the parser can see
    units visible;
    for (auto c : u)
    {
        if (T::eof_unit >= 0 && c == std::uint32_t(T::eof_unit))
            break;
        visible.push_back(c);
    }
    opt_text expected;
    {
        units cps;
        if constexpr (T::unicode)
            for (std::size_t i = 0; i < visible.size();)
            {
                std::uint32_t c = BAD;
                auto          n = T::dec(visible, i, &c);
                cps.push_back(n ? c : BAD);
                i += n ? n : 1;
            }
        else
            cps = visible;
        try
        {
            expected = Lang::reference(cps);
        }
        catch (reject)
        {}
    }
    g.label(std::string(Lang::name) + (expected ? " accepted" : " rejected"));
    if (visible.size() > 3)
        g.nontrivial(std::string(Lang::name) + T::name + std::string(visible.begin(), visible.end()));

    Holder     h(u);
    const auto input  = h.input.reader().position();
    auto       verify = [&](const char* action, bool success, bool fatal, const err_list& errors) {
        if (success != expected.has_value())
            pbt::fail(std::string(action) + (success ? " accepts" : " rejects") + " but the reference " + (expected ? "accepts as " + *expected : "rejects") + "; errors " + show_errors(errors));
        if (success != errors.empty())
            pbt::fail(std::string(action) + (success ? " succeeds with" : " fails without") + " errors");
        if (fatal && success)
            pbt::fail(std::string(action) + ": success and fatal error");
        for (auto& e : errors)
            if (e.pos > e.end || e.end > u.size() || e.pos > visible.size() || e.production_pos > e.end)
                pbt::fail(std::string(action) + ": error outside of the input: " + e.str());
    };
    if (lexy::match<P>(h.input) != expected.has_value())
        pbt::fail(std::string("match() ") + (expected ? "rejects but the reference accepts as " + *expected : "accepts but the reference rejects"));

    err_list ve, pe, te;
    auto     vr = lexy::validate<P>(h.input, collect_errors(ve, h.input));
    verify("validate()", vr.is_success(), vr.is_fatal_error(), ve);

    auto pr = lexy::parse<P>(h.input, collect_errors(pe, h.input));
    verify("parse()", pr.is_success(), pr.is_fatal_error(), pe);
    if (expected && !pr.has_value())
        pbt::fail("parse() succeeds without a value");
    if (expected && pr.value() != *expected)
        pbt::fail("parse() gives " + pr.value() + ", the reference " + *expected);
    if (show_errors(pe) != show_errors(ve))
        pbt::fail("parse() and validate() report different errors: " + show_errors(pe) + " " + show_errors(ve));

    using tree_t = lexy::parse_tree_for<decltype(h.input)>;
    tree_t tree;
    auto   tr = lexy::parse_as_tree<P>(tree, h.input, collect_errors(te, h.input));
    verify("parse_as_tree()", tr.is_success(), tr.is_fatal_error(), te);
    if (show_errors(te) != show_errors(ve))
        pbt::fail("parse_as_tree() and validate() report different errors: " + show_errors(te) + " " + show_errors(ve));
    if (!tr.is_fatal_error() || !tree.empty())
        check_tree(tree, visible, tr.is_success());
    if (tr.is_success() && tree.empty())
        pbt::fail("no tree although parse_as_tree() succeeds");

    if constexpr (std::is_pointer_v<decltype(h.begin())> && T::unicode)
    {
        // Rendering the diagnostics and the tree: any text is fine, but it must be possible.
        std::string out;
        auto        rr = lexy::validate<P>(h.input, lexy_ext::report_error.to(std::back_insert_iterator<std::string>(out)));
        if (rr.is_success() == !out.empty())
            pbt::fail("reports nothing although there are errors, or something although there are none");
        if (rr.error_count() != ve.size())
            pbt::fail("counts " + std::to_string(rr.error_count()) + " errors instead of " + std::to_string(ve.size()));
        out.clear();
        lexy::visualize_to(std::back_insert_iterator<std::string>(out), tree, {lexy::visualize_default});
        if (out.empty() != tree.empty())
            pbt::fail("cannot render the tree");
    }
    if (!(h.input.reader().position() == input))
        pbt::fail("the input has changed");
    g.extra_evaluations(3);
}
// Not every combination: the parser is instantiated for each, and the kinds of input are compared by C03.
template <typename Lang>
void text(pbt::gen& g)
{
    switch (g.below(5))
    {
    case 0:
        return run<Lang, lexy::utf8_encoding, buffer_holder<lexy::utf8_encoding>>(g);
    case 1:
        return run<Lang, lexy::utf8_char_encoding, string_holder<lexy::utf8_char_encoding>>(g);
    case 2:
        return run<Lang, lexy::utf16_encoding, string_holder<lexy::utf16_encoding>>(g);
    case 3:
        return run<Lang, lexy::utf8_encoding, range_holder<lexy::utf8_encoding>>(g);
    default:
        return run<Lang, lexy::utf32_encoding, string_holder<lexy::utf32_encoding>>(g);
    }
}
} // namespace docs
#if !defined(C06_PART) || C06_PART == 0
PBT_PROP(json, 5)
{
    docs::text<docs::lang_json>(g);
}
PBT_PROP(message, 2)
{
    using enc = lexy::byte_encoding;
    using docs::lang_message;
    switch (g.below(3))
    {
    case 0:
        return docs::run<lang_message, enc, string_holder<enc>>(g);
    case 1:
        return docs::run<lang_message, enc, buffer_holder<enc>>(g);
    default:
        return docs::run<lang_message, enc, range_holder<enc>>(g);
    }
}
#endif
#if !defined(C06_PART) || C06_PART == 1
PBT_PROP(xml, 4)
{
    docs::text<docs::lang_xml>(g);
}
PBT_PROP(ip, 3)
{
    docs::text<docs::lang_ip>(g);
}
#endif
#if !defined(C06_PART) || C06_PART == 2
PBT_PROP(config, 3)
{
    docs::text<docs::lang_config>(g);
}
#endif
#if !defined(C06_PART) || C06_PART == 3
PBT_PROP(arithmetic, 4)
{
    docs::text<docs::lang_calc>(g);
}
#endif
