// C13: delimited(), until() and lookahead() against a code-unit-by-code-unit scan that follows their documentation.
#include <c13_support.hpp>
#include <pbt.hpp>

namespace
{
std::string num(std::size_t n)
{
    return std::to_string(n);
}
std::string range(std::size_t b, std::size_t e)
{
    return "[" + num(b) + "," + num(e) + ")";
}
std::uint32_t lower(std::uint32_t c)
{
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
bool alpha(std::uint32_t c)
{
    return lower(c) >= 'a' && lower(c) <= 'z';
}
bool digit(std::uint32_t c)
{
    return c >= '0' && c <= '9';
}
int hex(std::uint32_t c)
{
    return digit(c) ? int(c - '0') : lower(c) >= 'a' && lower(c) <= 'f' && c < 0x80 ? int(lower(c) - 'a' + 10) : -1;
}
struct codec
{
    int id; // 0 one unit each, 1 UTF-8, 2 UTF-16, 3 UTF-32, 4 ASCII
    // Length of the character at p (0 if malformed) and its value.
    std::size_t dec(const units& u, std::size_t p, std::uint32_t* cp) const
    {
        switch (id)
        {
        case 1:
            return refu::dec8(u, p, cp);
        case 2:
            return refu::dec16(u, p, cp);
        case 3:
            return refu::dec32(u, p, cp);
        case 4:
            return refu::decascii(u, p, cp);
        default:
            *cp = u[p];
            return 1;
        }
    }
    // How much is thrown away of a malformed character: its lead and the trailing units that belong to it, at least one unit.
    std::size_t bad(const units& u, std::size_t p) const
    {
        if (id != 1)
            return 1;
        auto c = u[p];
        auto n = c >= 0xF8 ? 1u : c >= 0xF0 ? 4u : c >= 0xE0 ? 3u : c >= 0xC0 ? 2u : 1u;
        auto k = std::size_t(1);
        while (k < n && p + k < u.size() && (u[p + k] & 0xC0) == 0x80)
            ++k;
        return k;
    }
};
codec codec_for(const std::string& e)
{
    return {e == "utf8" || e == "utf8_char" ? 1 : e == "utf16" ? 2 : e == "utf32" ? 3 : e == "ascii" ? 4 : 0};
}
bool in_class(int cls, std::uint32_t c)
{
    auto print = c >= 0x20 && c < 0x7F;
    switch (cls)
    {
    case 0:
        return print;
    case 1:
        return c < 0x80;
    case 2:
        return c >= 0x20 && c != 0x7F;
    case 3:
        return true;
    case 4:
        return print || c == '\t';
    case 5:
        return alpha(c);
    case 6:
        return print && c != 'x';
    case 7:
        return alpha(c) || digit(c) || c == '_';
    default:
        return (c >= 'a' && c <= 'z') || digit(c);
    }
}
const char* class_name(int cls)
{
    static const char* const n[] = {"ASCII.print", "ASCII", "complement", "code-point", "union", "ASCII.alpha", "minus", "ASCII.word", "union"};
    return n[cls];
}
bool in_limit(int lim, std::uint32_t c)
{
    return lim == 1 ? c == '\n' || c == '\r' : lim == 2 ? c < 0x20 || c == 0x7F : false;
}
bool at(const units& u, std::size_t p, const std::string& s, bool fold = false)
{
    if (s.size() > u.size() - p)
        return false;
    for (std::size_t i = 0; i != s.size(); ++i)
        if (auto c = u[p + i]; (fold ? lower(c) : c) != static_cast<unsigned char>(s[i]))
            return false;
    return true;
}
bool close_at(const rule_desc& d, const units& u, std::size_t p)
{
    if (!at(u, p, d.close, d.close_fold))
        return false;
    auto e = p + d.close.size();
    if (d.close_keyword && e < u.size() && (alpha(u[e]) || digit(u[e])))
        return false;
    return true;
}
struct expect
{
    bool        ok = true;
    std::string value, errors, tokens, kept;
    bool        last_error = false;
    std::size_t last_begin = 0, last_end = 0;
    void        error(const std::string& k, std::size_t b, std::size_t e)
    {
        errors += (errors.empty() ? "" : " ") + k + range(b, e);
    }
    void token(std::size_t b, std::size_t e, bool err = false)
    {
        if (b == e)
            return;
        if (err && last_error && last_end == b) // adjacent error tokens are merged
            b = last_begin;
        else
            kept = tokens;
        tokens     = kept + (err ? "!" : "") + range(b, e);
        last_error = err;
        last_begin = b;
        last_end   = e;
    }
};
std::size_t skip_ws(const rule_desc& d, const units& u, std::size_t p, expect& x)
{
    auto e = p;
    while (d.ws && e < u.size() && (u[e] == ' ' || u[e] == '\t'))
        ++e;
    x.token(p, e);
    return e;
}
// The branches of an escape sequence after its escape character; returns the new position or nothing.
bool escape_branch(char b, const esc_desc& e, const units& u, std::size_t& p, expect& x, std::string& sink)
{
    auto cur = [&](std::size_t i) { return i < u.size() ? u[i] : ~0u; };
    auto digits = [&](std::size_t from, int n, std::uint32_t& v) {
        int k = 0;
        v     = 0;
        while (k < n && hex(cur(from + std::size_t(k))) >= 0)
            v = v * 16 + std::uint32_t(hex(cur(from + std::size_t(k++))));
        return k;
    };
    switch (b)
    {
    case 's': {
        static const std::pair<const char*, int> table[] = {{"n", 1}, {"t", 2}, {"nn", 3}, {"\"", 4}, {"\\", 5}, {"quux", 6}};
        int         best = 0;
        std::size_t len  = 0;
        for (auto& [s, v] : table)
            if (at(u, p, s) && std::strlen(s) > len)
            {
                best = v;
                len  = std::strlen(s);
            }
        if (best == 0)
            return false;
        sink += "(#" + std::to_string(best) + ")";
        x.token(p, p + len);
        p += len;
        return true;
    }
    case 'd':
        if (!digit(cur(p)))
            return false;
        sink += "(" + range(p, p + 1) + ")";
        x.token(p, p + 1);
        ++p;
        return true;
    case 'e':
        if (cur(p) != static_cast<unsigned char>(e.c))
            return false;
        sink += "(" + range(p, p + 1) + ")";
        x.token(p, p + 1);
        ++p;
        return true;
    case 'E':
        sink += "(@" + num(p) + ")";
        return true;
    default: {
        if (cur(p) != static_cast<unsigned char>(b))
            return false;
        x.token(p, p + 1);
        ++p;
        std::uint32_t v;
        int           n = b == 'x' ? 2 : 4;
        auto          k = digits(p, n, v);
        if (k < n)
            x.error("class<digit.hex>", p + std::size_t(k), p + std::size_t(k));
        if (k == 0)
            return true; // fails, no value
        x.token(p, p + std::size_t(k));
        p += std::size_t(k);
        sink += b == 'x' ? "(x" + std::to_string(v) + ")" : "(U" + std::to_string(v) + ")";
        return true;
    }
    }
}
// After the opening delimiter.
expect delimited(const rule_desc& d, const units& u, const codec& c, bool branch)
{
    expect x;
    auto   p = skip_ws(d, u, 0, x);
    if (!at(u, p, d.open))
    {
        if (branch)
        {
            x.value = "none,@" + num(p);
            return x;
        }
        std::size_t i = 0;
        while (p + i < u.size() && u[p + i] == static_cast<unsigned char>(d.open[i]))
            ++i;
        x.ok = false;
        x.error("literal<" + d.open + ">#" + num(i), p, p);
        return x;
    }
    auto        open_begin = p;
    std::string sink       = "{";
    p += d.open.size();
    x.token(open_begin, p);
    auto begin   = p;
    auto content = p;
    auto flush   = [&] {
        if (content != p)
            sink += "(" + range(content, p) + ")";
        x.token(content, p);
    };
    while (true)
    {
        if (close_at(d, u, p))
            break;
        if (p == u.size() || in_limit(d.limit, u[p]))
        {
            x.ok = false;
            x.error(d.limit == 2 ? "my limit" : "missing delimiter", begin, p);
            return x;
        }
        bool escaped = false;
        for (auto& e : d.escapes)
        {
            auto ch = e.fold ? lower(u[p]) : u[p];
            if (ch != static_cast<unsigned char>(e.c))
                continue;
            flush();
            auto esc = p;
            x.token(p, p + 1);
            ++p;
            bool found = false;
            for (auto b : e.branches)
                if (escape_branch(b, e, u, p, x, sink))
                {
                    found = true;
                    break;
                }
            if (!found)
                x.error("invalid escape sequence", esc, p);
            content = p;
            escaped = true;
            break;
        }
        if (escaped)
            continue;
        std::uint32_t cp = 0;
        auto          n  = c.dec(u, p, &cp);
        if (n != 0 && in_class(d.cls, cp))
        {
            p += n;
            continue;
        }
        flush();
        // A class that only has ASCII members looks at single code units.
        auto bad = d.cls == 2 || d.cls == 3 ? (n != 0 ? n : c.bad(u, p)) : 1;
        x.error(std::string("class<") + class_name(d.cls) + ">", p, p);
        x.token(p, p + bad, true);
        p += bad;
        content = p;
    }
    flush();
    auto close_begin = p;
    p += d.close.size();
    x.token(close_begin, p);
    auto close_end = p;
    p              = skip_ws(d, u, p, x);
    x.value        = (d.open_cap ? range(open_begin, begin) + "," : "") + sink + "}" + (d.close_cap ? "," + range(close_begin, close_end) : "") + ",@" + num(p);
    return x;
}
std::string word(const std::string& w)
{
    return w[0] == '^' || w[0] == '~' ? w.substr(1) : w;
}
std::size_t needle_at(const rule_desc& d, const std::vector<std::string>& l, const units& u, std::size_t p)
{
    if (d.kind == 'U' && d.until_kind == 3)
        return p < u.size() && digit(u[p]) ? 1 : 0;
    std::size_t best = 0;
    for (auto& w : l)
    {
        // keywords: not followed by a character of the identifier
        auto s  = word(w);
        auto kw = w[0] == '^' || w[0] == '~';
        if (!at(u, p, s, d.kind == 'U' && d.until_kind == 4))
            continue;
        auto e = p + s.size();
        if (kw && e < u.size() && ((u[e] >= 'a' && u[e] <= 'z') || (u[e] >= 'A' && u[e] <= 'Z') || (w[0] == '^' && digit(u[e]))))
            continue;
        best = std::max(best, s.size());
    }
    return best;
}
expect until(const rule_desc& d, const units& u, bool branch)
{
    expect x;
    for (std::size_t p = 0;; ++p)
    {
        auto n = needle_at(d, d.needles, u, p);
        if (n != 0 || (d.or_eof && p == u.size()))
        {
            x.value = range(0, p + n) + ",@" + num(p + n);
            x.token(0, p + n);
            return x;
        }
        if (p == u.size())
        {
            if (branch)
            {
                x.value = "none,@0";
                return x;
            }
            x.ok = false;
            switch (d.until_kind)
            {
            case 0:
            case 4:
                x.error("literal<" + d.needles[0] + ">#0", p, p);
                break;
            case 1:
                x.error("expected literal set", p, p);
                break;
            case 2:
                x.error("expected newline", p, p);
                break;
            default:
                x.error("class<ASCII.digit>", p, p);
            }
            return x;
        }
    }
}
expect lookahead(const rule_desc& d, const units& u, bool branch)
{
    expect x;
    for (std::size_t p = 0;; ++p)
    {
        if (needle_at(d, d.needles, u, p) != 0)
            break;
        auto n = needle_at(d, d.ends, u, p);
        if (n != 0 || p == u.size())
        {
            if (branch)
            {
                x.value = "none,@0";
                return x;
            }
            x.error(d.limit ? "my limit" : "lookahead failure", 0, p + n);
            break;
        }
    }
    x.value = "@0";
    return x;
}

units gen_text(pbt::gen& g, const rule_desc& d, const codec& c, std::uint32_t max_unit, long long eof_unit)
{
    units u;
    auto  put = [&](const std::string& s) {
        for (unsigned char ch : s)
            u.push_back(ch);
    };
    std::vector<std::string> frag;
    if (d.kind == 'D')
    {
        if (d.ws && g.chance(1, 4))
            put(" \t");
        if (g.chance(19, 20))
            put(d.open);
        frag = {d.close, d.open, d.close.substr(0, d.close.size() - 1), d.close.substr(d.close.size() - 1), " ", "\t", "x", "a", "Z", "0"};
        if (d.close_keyword)
        {
            frag.push_back(d.close + "e");
            frag.push_back(d.close + "1");
            frag.push_back(d.close + "+");
        }
        for (auto& e : d.escapes)
            for (auto s : {"", "n", "nn", "quux", "quu", "\"", "\\", "5", "x4F", "x4", "x", "xg", "u20aC", "u12", "u", "z"})
            {
                frag.push_back(std::string(1, e.c) + s);
                if (e.fold)
                    frag.push_back(std::string(1, char(e.c - 32)) + s);
            }
    }
    else
    {
        for (auto& w : d.needles)
        {
            auto s = word(w);
            if (s != w)
                for (auto x : {"0", "b", "Z", "+"})
                    frag.push_back(s + x);
            frag.push_back(s);
            frag.push_back(s.substr(0, s.size() - 1));
            frag.push_back(s.substr(0, 1));
        }
        for (auto& w : d.ends)
        {
            auto s = word(w);
            if (s != w)
                for (auto x : {"0", "b", "Z", "+"})
                    frag.push_back(s + x);
            frag.push_back(s);
            frag.push_back(s.substr(0, 1));
        }
        frag.insert(frag.end(), {"x", "7", "\n", "\r\n", "\r", "ab", "/", ":"});
    }
    auto k = g.size(9);
    for (std::size_t i = 0; i != k; ++i)
        switch (g.weighted({4, 4, 2, 1}))
        {
        case 0: {
            auto s = g.pick(frag);
            if (g.chance(1, 6))
                for (auto& ch : s)
                    if (ch >= 'a' && ch <= 'z' && g.boolean())
                        ch = char(ch - 32);
            put(s);
            break;
        }
        case 1: { // a run of content
            auto n    = g.below(g.one_of({4, 10, 20, 36}));
            auto some = g.boolean();
            for (std::uint64_t j = 0; j != n; ++j)
                u.push_back(some ? std::uint32_t("abcyz019"[g.below(8)]) : 'b');
            break;
        }
        case 2:
            switch (g.below(4))
            {
            case 0:
                u.push_back(std::uint32_t(g.below(128)));
                break;
            case 1:
                if (c.id == 1)
                    refu::enc8(u, gen_scalar(g));
                else if (c.id == 2)
                    refu::enc16(u, gen_scalar(g));
                else
                    u.push_back(gen_scalar(g));
                break;
            case 2: {
                static const std::uint32_t raw[] = {0x80, 0xC3, 0xE2, 0x82, 0xF0, 0x9F, 0xC0, 0xED, 0xA0, 0xF8, 0xFE, 0xBF, 0xF4, 0x90};
                for (auto n = g.below(3) + 1; n != 0; --n)
                    u.push_back(c.id == 2 && g.boolean() ? 0xD800 + std::uint32_t(g.below(0x800)) : g.pick(raw));
                break;
            }
            default:
                put(g.boolean() ? "\n" : "\r\n");
            }
            break;
        default:
            u.push_back(" \t\x7F\x1F~!"[g.below(6)]);
        }
    if (d.kind == 'D' && g.chance(3, 4))
    {
        auto s = d.close;
        if (d.close_fold)
            for (auto& ch : s)
                if (g.boolean())
                    ch = char(ch - 32);
        put(s);
    }
    if (g.chance(1, 3))
        put(g.one_of({" ", "a", "  x", "\t", "1"}));
    for (auto& ch : u)
        if (ch > max_unit || static_cast<long long>(ch) == eof_unit)
            ch = max_unit < 0x80 ? 'y' : ch & 0x7F;
    return u;
}
} // namespace

PBT_PROP(delimited, 1)
{
    auto& d   = rules()[g.below(rules().size())];
    auto& run = d.runs[g.below(d.runs.size())];
    auto  enc = std::string(run.enc);
    auto  c   = codec_for(enc);
    auto  u   = gen_text(g, d, c, c.id == 2 ? 0xFFFF : c.id == 3 ? 0xFFFFFFFE : 0xFF, c.id == 1 || c.id == 4 ? 0xFF : -1);
    g.note(std::string(d.text) + (d.ws ? " with whitespace" : "") + " on " + pbt::show(u) + " (" + run.enc + " " + run.input + ")");
    if (u.size() > 3)
        g.nontrivial(std::string(d.text) + run.enc + run.input + pbt::show(u));
    auto model = [&](bool branch) { return d.kind == 'D' ? delimited(d, u, c, branch) : d.kind == 'U' ? until(d, u, branch) : lookahead(d, u, branch); };
    auto x     = model(false);
    auto o     = run.fn(u);
    g.label(std::string(1, d.kind) + (!x.ok ? " fails" : x.errors.empty() ? " succeeds" : " recovers"));
    pbt::check_eq(o.errors, "{" + x.errors + "}", "errors");
    pbt::check_eq(o.ok, x.ok, "has a value");
    if (x.ok)
    {
        pbt::check_eq(o.value, x.value, std::string("value"));
        pbt::check_eq(o.tokens, x.tokens, std::string("tokens of the parse tree"));
    }
    if (d.kind == 'D' || !d.or_eof)
    {
        auto y = model(true);
        pbt::check_eq(o.branch_errors, "{" + y.errors + "}", "errors as a branch");
        pbt::check_eq(o.branch_ok, y.ok, "has a value as a branch");
        if (y.ok && d.kind != 'L')
            pbt::check_eq(o.branch_value, y.value, std::string("value as a branch"));
        if (d.kind == 'L')
            pbt::check_eq(o.branch_value, y.value == "@0" ? std::string("@0") : y.value, std::string("value as a branch"));
    }
}
