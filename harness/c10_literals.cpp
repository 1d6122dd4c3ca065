// C10: literals, literal sets, symbol tables, identifiers and keywords against "longest listed text that the folded input starts with".
#include <c10_support.hpp>
#include <cstring>
#include <map>
#include <pbt.hpp>

namespace
{
struct codec
{
    std::size_t (*dec)(const units&, std::size_t, std::uint32_t*);
    void (*enc)(units&, std::uint32_t);
    const char*   name;
    std::uint32_t max;
};
template <typename Enc>
codec codec_of()
{
    using T = enc_traits<Enc>;
    if constexpr (T::unicode)
        return {[](const units& u, std::size_t p, std::uint32_t* o) { return T::dec(u, p, o); }, [](units& u, std::uint32_t c) { T::enc(u, c); }, T::name, T::max};
    else
        return {[](const units& u, std::size_t p, std::uint32_t* o) {
                    if (p == u.size())
                        return std::size_t(0);
                    *o = u[p];
                    return std::size_t(1);
                },
                [](units& u, std::uint32_t c) { u.push_back(c & 0xFF); }, T::name, T::max};
}
const codec& codec_for(int e)
{
    static const codec c[] = {codec_of<lexy::utf8_char_encoding>(), codec_of<lexy::utf8_encoding>(), codec_of<lexy::utf16_encoding>(),
                              codec_of<lexy::utf32_encoding>(),     codec_of<lexy::ascii_encoding>(), codec_of<lexy::default_encoding>()};
    return c[e];
}

// The input after case folding: one entry per code unit of the folded text, with the source offset in front of the character.
struct folded
{
    std::vector<std::uint32_t> unit;
    std::vector<std::size_t>   src;   // size()+1 entries: where the character of unit i starts; last: the size of the input
    std::vector<bool>          start; // unit i starts a character (or is an ill-formed unit)
    std::vector<std::uint32_t> cp;    // the folded character starting there, ~0 if ill-formed
};
folded fold(const units& u, int mode, const codec& c)
{
    folded r;
    for (std::size_t i = 0; i != u.size();)
    {
        std::uint32_t cp = ~0u;
        auto          n  = c.dec(u, i, &cp);
        if (n == 0)
        {
            r.unit.push_back(u[i]);
            r.src.push_back(i);
            r.start.push_back(true);
            r.cp.push_back(~0u);
            ++i;
            continue;
        }
        if (mode == 1 && cp >= 'A' && cp <= 'Z')
            cp += 32;
        if (mode == 2)
            cp = ucd::fold(cp);
        units enc;
        c.enc(enc, cp);
        for (std::size_t k = 0; k != enc.size(); ++k)
        {
            r.unit.push_back(enc[k]);
            r.src.push_back(mode == 2 ? i : i + k);
            r.start.push_back(k == 0);
            r.cp.push_back(k == 0 ? cp : ~0u);
        }
        i += n;
    }
    r.src.push_back(u.size());
    r.start.push_back(true);
    r.cp.push_back(~0u);
    return r;
}
units encode(const std::vector<std::uint32_t>& cps, const codec& c)
{
    units u;
    for (auto x : cps)
        c.enc(u, x);
    return u;
}
bool alpha(std::uint32_t c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
}
bool word(std::uint32_t c)
{
    return alpha(c) || (c >= '0' && c <= '9') || c == '_';
}
bool leading(int id, std::uint32_t c)
{
    if (c == ~0u)
        return false;
    switch (id)
    {
    case 0:
        return alpha(c) || c == '_';
    case 1:
        return alpha(c);
    case 2:
        return c == '_' || (c < 0x110000 && (ucd::bits(c) & 16));
    case 3:
        return c >= 'a' && c <= 'z';
    default:
        return alpha(c) || c == '_';
    }
}
bool trailing(int id, std::uint32_t c)
{
    if (c == ~0u)
        return false;
    switch (id)
    {
    case 0:
        return word(c);
    case 1:
        return alpha(c);
    case 2:
        return c < 0x110000 && (ucd::bits(c) & 32);
    case 3:
        return (c >= 'a' && c <= 'z') || c == '-';
    default:
        return c > 32 && c < 127 && c != '(' && c != ')' && c != '+';
    }
}
const char* leading_name(int id)
{
    const char* n[] = {"ASCII.alpha-underscore", "ASCII.alpha", "code-point.XID-start-underscore", "ASCII.lower", "minus"};
    return n[id];
}
// Index in the folded text behind an identifier starting at i, or i.
std::size_t ident_end(const folded& f, int id, std::size_t i)
{
    if (!leading(id, f.cp[i]))
        return i;
    auto next = [&](std::size_t k) {
        ++k;
        while (!f.start[k])
            ++k;
        return k;
    };
    for (i = next(i); trailing(id, f.cp[i]); i = next(i))
    {}
    return i;
}
// Length of the match of one literal in the folded text at i (-1: none); how many units agree.
long match_lit(const folded& f, std::size_t i, const units& lit, std::size_t* agree = nullptr)
{
    std::size_t k = 0;
    while (k != lit.size() && i + k != f.unit.size() && f.unit[i + k] == lit[k])
        ++k;
    if (agree)
        *agree = k;
    return k == lit.size() ? long(k) : -1l;
}
struct best
{
    long        len = -1;
    std::size_t which = 0;
};
best longest(const folded& f, std::size_t i, const std::vector<lit_desc>& lits, int id, const codec& c)
{
    best b;
    for (std::size_t n = 0; n != lits.size(); ++n)
    {
        auto l = match_lit(f, i, encode(lits[n].cps, c));
        if (l < 0 || (lits[n].keyword && trailing(id, f.cp[i + std::size_t(l)])))
            continue;
        if (l > b.len)
            b = {l, n};
    }
    return b;
}

const std::map<std::uint32_t, std::vector<std::uint32_t>>& preimages()
{
    static const auto m = [] {
        std::map<std::uint32_t, std::vector<std::uint32_t>> r;
        for (std::uint32_t c = 0; c != 0x1F000; ++c)
            if ((c < 0xD800 || c > 0xDFFF) && ucd::fold(c) != c)
                r[ucd::fold(c)].push_back(c);
        return r;
    }();
    return m;
}

void add_char(pbt::gen& g, units& u, std::uint32_t c, int fold_mode, const codec& cd, bool unicode)
{
    if (fold_mode && g.boolean())
    {
        auto it = preimages().find(c);
        if (it != preimages().end())
        {
            auto p = it->second[g.below(it->second.size())];
            if (unicode || p < 0x80)
                c = p;
        }
    }
    cd.enc(u, c);
}
const std::vector<rule_desc>& sorted()
{
    static const auto v = [] {
        auto r = rules();
        std::sort(r.begin(), r.end(), [](const rule_desc& a, const rule_desc& b) { return std::strcmp(a.text, b.text) < 0; });
        return r;
    }();
    return v;
}

PBT_PROP(rules, 1)
{
    auto& d   = sorted()[g.below(sorted().size())];
    auto& run = d.runs[g.below(d.runs.size())];
    auto& cd  = codec_for(run.enc);
    bool  uni = run.enc < 4;

    // Text: pieces of the literals with case variations, identifier characters, punctuation, anything.
    std::vector<const lit_desc*> all;
    for (auto& l : d.lits)
        all.push_back(&l);
    for (auto& r : d.reserved)
        for (auto& l : r)
            all.push_back(&l);
    int   vary = g.chance(3, 4) ? 1 : 0;
    units u;
    auto  pieces = 1 + g.below(4);
    for (std::size_t p = 0; p != pieces; ++p)
    {
        switch (p == 0 ? g.weighted({12, 1, 1, 1}) : g.weighted({5, 3, 2, 2, 4}))
        {
        case 0:
            if (!all.empty())
            {
                auto& l = *all[g.below(all.size())];
                auto  n = g.boolean() ? l.cps.size() : std::size_t(g.below(l.cps.size() + 1));
                for (std::size_t i = 0; i != n; ++i)
                    add_char(g, u, l.cps[i], vary, cd, uni);
                break;
            }
            [[fallthrough]];
        case 1:
            cd.enc(u, static_cast<unsigned char>("abzAZ_09-"[g.below(9)]));
            break;
        case 2:
            cd.enc(u, static_cast<unsigned char>(" (+;x"[g.below(5)]));
            break;
        case 3:
            if (uni)
                cd.enc(u, gen_scalar(g));
            else
                u.push_back(std::uint32_t(g.below(run.enc == 4 ? 0x80 : 0x100)));
            break;
        default:
            if (!u.empty()) // change the last unit or drop it
            {
                if (g.boolean())
                    u.pop_back();
                else
                    u.back() = cd.max == 0xFF ? std::uint32_t(g.below(0xFF)) : cd.max == 0xFFFF ? std::uint32_t(g.boolean() ? g.below(0x80) : g.below(0x10000)) : std::uint32_t(g.boolean() ? g.below(0x80) : g.below(0x110000));
            }
        }
    }
    if (g.chance(1, 3)) // length for the word-at-a-time comparison
        for (auto n = g.below(12); n != 0; --n)
            cd.enc(u, static_cast<unsigned char>("ab"[g.below(2)]));
    g.note(std::string(d.text) + " on " + cd.name + " " + run.input + " " + show(u));

    auto o = run.fn(u);
    auto f = fold(u, d.fold, cd);

    bool        ok = false;
    std::size_t end = 0, fail_end = 0;
    std::string value, errors, branch_value;
    bool        branch_ok = false;
    switch (d.type)
    {
    case 'L': {
        auto        lit = encode(d.lits[0].cps, cd);
        std::size_t agree;
        auto        l = match_lit(f, 0, lit, &agree);
        ok = branch_ok = l >= 0;
        if (ok)
            end = f.src[std::size_t(l)];
        else
        {
            fail_end = f.src[agree];
            errors   = "literal<" + units_text(to_chars<lexy::utf32_encoding>(lit).data(), lit.size()) + ">#" + std::to_string(fail_end) + "[0,0)";
        }
        break;
    }
    case 'K': {
        auto b = longest(f, 0, d.lits, d.ident, cd);
        ok = branch_ok = b.len >= 0;
        if (ok)
            end = f.src[std::size_t(b.len)];
        else
        {
            auto lit = encode(d.lits[0].cps, cd);
            fail_end = std::size_t(-2);
            errors   = "keyword<" + units_text(to_chars<lexy::utf32_encoding>(lit).data(), lit.size()) + ">[0," + std::to_string(f.src[ident_end(f, d.ident, 0)]) + ")";
        }
        break;
    }
    case 'S': {
        auto b = longest(f, 0, d.lits, d.ident, cd);
        ok = branch_ok = b.len >= 0;
        if (ok)
            end = f.src[std::size_t(b.len)];
        else
            errors = "expected literal set[0,0)";
        break;
    }
    case 'Y': {
        auto b = longest(f, 0, d.lits, d.ident, cd);
        ok = branch_ok = b.len >= 0;
        if (ok)
        {
            end   = f.src[std::size_t(b.len)];
            value = branch_value = val(int(b.which));
        }
        else
            errors = "unknown symbol[0,0)";
        break;
    }
    case 'T':
    case 'I': {
        // the token first, on the input itself
        auto        raw = fold(u, 0, cd);
        std::size_t e   = 0;
        if (d.type == 'I')
            e = ident_end(raw, d.ident, 0);
        else
            while (raw.cp[e] != ~0u && word(raw.cp[e]))
                ++e;
        if (e == 0)
            errors = d.type == 'I' ? "class<" + std::string(leading_name(d.ident)) + ">[0,0)" : std::string("missing token[0,0)");
        else
        {
            auto src = raw.src[e];
            auto b   = longest(f, 0, d.lits, d.ident, cd);
            ok = branch_ok = b.len >= 0 && f.src[std::size_t(b.len)] == src;
            if (ok)
            {
                end   = src;
                value = branch_value = val(int(b.which));
            }
            else
            {
                errors   = "unknown symbol[0," + std::to_string(src) + ")";
                fail_end = src;
            }
        }
        break;
    }
    default: {
        auto e = ident_end(f, d.ident, 0);
        if (e == 0)
            errors = "class<" + std::string(leading_name(d.ident)) + ">[0,0)";
        else
        {
            ok  = true;
            end = f.src[e];
            units text(u.begin(), u.begin() + long(end));
            value = "lexeme ";
            for (auto c : text)
                value += std::to_string(c) + ",";
            bool reserved = false;
            for (int n = 0; n != 4; ++n)
            {
                auto ft = fold(text, d.reserved_fold[n], cd);
                for (auto& l : d.reserved[n])
                {
                    auto lit = encode(l.cps, cd);
                    for (std::size_t i = 0; i != ft.unit.size(); ++i)
                    {
                        auto m = match_lit(ft, i, lit);
                        if (m < 0 || (n < 2 && i != 0))
                            continue;
                        bool at_end = i + std::size_t(m) == ft.unit.size();
                        if ((n == 0 && at_end) || n == 1 || n == 2 || (n == 3 && at_end))
                            reserved = true;
                    }
                }
            }
            branch_ok = !reserved;
            if (reserved)
            {
                errors = "reserved identifier[0," + std::to_string(end) + ")";
                g.label("reserved identifier");
            }
            else
                branch_value = value;
        }
    }
    }
    g.label(std::string("type ") + d.type + (ok ? " match" : " no match"));
    if (d.lits.size() > 1 && ok)
    {
        int candidates = 0;
        for (auto& l : d.lits)
            candidates += match_lit(f, 0, encode(l.cps, cd)) >= 0;
        if (candidates > 1)
            g.label("several entries match");
    }
    if (u.size() > 1)
        g.nontrivial(std::string(d.text) + run.input + cd.name + show(u));

    if (!o.table.empty())
    {
        std::string t = std::to_string(d.lits.size()) + "{";
        for (std::size_t n = 0; n != d.lits.size(); ++n)
            t += std::string(d.lits[n].cps.begin(), d.lits[n].cps.end()) + "=" + std::to_string(n) + " ";
        auto b = longest(f, 0, d.lits, d.ident, cd);
        t += "} parse " + (b.len >= 0 && f.src[std::size_t(b.len)] == u.size() ? std::to_string(b.which) : std::string("none"));
        t += " try_parse " + (b.len >= 0 ? std::to_string(b.which) : std::string("none")) + " consumed " + std::to_string(b.len >= 0 ? f.src[std::size_t(b.len)] : 0);
        pbt::check_eq(o.table, t, "symbol table interface");
    }
    pbt::check_eq(o.ok, ok, "match");
    if (ok)
    {
        pbt::check_eq(o.end, end, "end of the match");
        pbt::check_eq(o.value, value, "value");
    }
    // The offset into the literal is in source units; with Unicode folding the documentation does not say which, only the place is compared.
    auto no_index = [&](std::string e) {
        auto b = e.find('#');
        if (d.type == 'L' && d.fold == 2 && b != std::string::npos)
            e.erase(b, e.find('[', b) - b);
        return e;
    };
    pbt::check_eq(no_index(o.errors), no_index("{" + errors + "}"), "errors");
    pbt::check(!o.branch_missing, "branch production failed");
    pbt::check_eq(o.taken, branch_ok, "taken as a branch");
    pbt::check_eq(o.branch_errors, std::string("{}"), "errors as a branch");
    if (branch_ok)
    {
        pbt::check_eq(o.branch_end, end, "end of the branch");
        pbt::check_eq(o.branch_value, branch_value, "value of the branch");
    }
    else
        pbt::check_eq(o.after_branch, std::size_t(0), "position after a branch that was not taken");
    if (!ok && fail_end != std::size_t(-2) && d.fold != 2)
        pbt::check_eq(o.try_end, fail_end, "position after a failure");
    if (!ok)
        pbt::check(o.try_end <= u.size(), "position after a failure outside of the input");
}
} // namespace
