// C12: binary rules against arithmetic on the bytes.
#include <c12_support.hpp>
#include <pbt.hpp>

namespace
{
std::string range(std::size_t b, std::size_t e)
{
    return "[" + std::to_string(b) + "," + std::to_string(e) + ")";
}
struct expect
{
    bool        ok = true;
    std::string value, errors, tokens;
    void        error(const std::string& k, std::size_t b, std::size_t e)
    {
        errors += (errors.empty() ? "" : " ") + k + range(b, e);
    }
    void val(const std::string& s)
    {
        value += (value.empty() ? "" : ",") + s;
    }
};
bool pred(int kind, const element& e, unsigned c)
{
    switch (kind)
    {
    case 0:
        return true;
    case 1:
        return c >= e.a && c <= e.b;
    case 2:
        for (auto b : e.bytes)
            if (b == c)
                return true;
        return false;
    case 3:
        return c < 0x80;
    default:
        return c % 2 == 1;
    }
}
const char* pred_name(int kind)
{
    static const char* const n[] = {"byte", "byte.range", "byte.set", "byte.ASCII", "odd byte"};
    return n[kind];
}
expect model(const rule_desc& d, const units& u)
{
    expect      x;
    std::size_t p = 0;
    for (auto& e : d.els)
    {
        // How many bytes match and whether that is all of them.
        std::size_t n = 0, want = 0;
        int         t = e.kind == 'b' || (e.kind == 'i' && e.token != 2) ? e.token : 0;
        switch (e.kind)
        {
        case 'i':
            want = e.token == 2 ? e.a : e.n;
            break;
        case 'b':
        case 'p':
            want = e.n;
            break;
        case 't':
            want = 1;
            break;
        default:
            want = e.bytes.size();
        }
        while (n < want && p + n < u.size())
        {
            auto c = u[p + n];
            if (e.kind == 't' ? (c & e.a) != e.b : e.kind == 'l' ? c != e.bytes[n] : !pred(t, e, c))
                break;
            ++n;
        }
        if (n < want)
        {
            if (e.opt)
            {
                if (e.kind != 'p')
                    x.val("none");
                continue;
            }
            x.ok = false;
            if (e.kind == 'l')
            {
                std::string s;
                std::vector<unsigned char> b(e.bytes.begin(), e.bytes.end());
                x.error("literal<" + units_text(b.data(), b.size()) + ">#" + std::to_string(n), p, p);
            }
            else
                x.error(std::string("class<") + (e.kind == 't' ? "bits" : pred_name(t)) + ">", p + n, p + n);
            return x;
        }
        if (n)
            x.tokens += range(p, p + n);
        if (e.kind == 'i')
        {
            if (want != e.n)
            {
                x.ok = false;
                x.error("mismatched byte count", p, p + n);
                return x;
            }
            unsigned long long v = 0;
            for (std::size_t k = 0; k != n; ++k)
                v = v * 256 + u[p + (e.order ? k : n - 1 - k)];
            x.val("u" + std::to_string(n * 8) + ":" + std::to_string(v));
        }
        else if (e.kind == 'p')
        {
            for (std::size_t k = 0; k != n; ++k)
                if (u[p + k] != e.a)
                {
                    unsigned char c = static_cast<unsigned char>(e.a);
                    x.error("literal<" + units_text(&c, 1) + ">#0", p + k, p + k);
                }
        }
        else
            x.val(range(p, p + n));
        p += n;
    }
    x.val("@" + std::to_string(p));
    return x;
}
units gen_bytes(pbt::gen& g, const rule_desc& d)
{
    units u;
    auto  any = [&] { return g.boolean() ? std::uint32_t(g.one_of({0, 255, 0x7F, 0x80, 1, 0x20})) : std::uint32_t(g.below(256)); };
    for (auto& e : d.els)
    {
        if (e.opt && g.chance(1, 3))
            continue;
        auto n = e.kind == 'i' && e.token == 2 ? e.a : e.kind == 't' ? 1u : e.kind == 'l' ? unsigned(e.bytes.size()) : e.n;
        for (unsigned k = 0; k != n; ++k)
        {
            auto c = any();
            if (e.kind == 'l')
                c = e.bytes[k];
            else if (e.kind == 't')
                c = (c & ~e.a & 0xFF) | e.b;
            else if (e.kind == 'p')
                c = g.chance(1, 10) ? c : e.a;
            else if (!(e.kind == 'i' && e.token == 2) && e.token != 0)
                while (!pred(e.token, e, c))
                    c = (c + 1) & 0xFF;
            if (g.chance(1, 60))
                c = any();
            u.push_back(c);
        }
    }
    switch (g.weighted({6, 2, 2}))
    {
    case 1:
        if (!u.empty())
            u.resize(g.below(u.size()));
        break;
    case 2:
        u.push_back(any());
        break;
    }
    return u;
}
} // namespace

PBT_PROP(messages, 6)
{
    auto& d   = rules()[g.below(rules().size())];
    auto& run = d.runs[g.below(d.runs.size())];
    auto  u   = gen_bytes(g, d);
    g.note(std::string(d.text) + " on " + pbt::show(u) + " (" + run.input + ")");
    if (u.size() > 1)
        g.nontrivial(std::string(d.text) + run.input + pbt::show(u));
    auto x = model(d, u);
    auto o = run.fn(u);
    g.label(!x.ok ? "fails" : x.errors.empty() ? "succeeds" : "recovers");
    pbt::check_eq(o.errors, "{" + x.errors + "}", "errors");
    pbt::check_eq(o.ok, x.ok, "has a value");
    if (x.ok)
    {
        pbt::check_eq(o.value, x.value, std::string("value"));
        pbt::check_eq(o.tokens, x.tokens, std::string("tokens of the parse tree"));
    }
}

// Every byte value at every single-byte rule.
PBT_PROP(every_byte, 1)
{
    std::vector<const rule_desc*> l;
    for (auto& d : rules())
        if (d.els.size() == 1)
            l.push_back(&d);
    auto& d = *l[g.below(l.size())];
    auto  base = gen_bytes(g, d);
    if (base.empty())
        base.push_back(0);
    auto at = g.below(base.size());
    g.note(std::string(d.text) + " with every byte at " + std::to_string(at));
    g.nontrivial(std::string(d.text) + pbt::show(base) + std::to_string(at));
    for (unsigned c = 0; c != 256; ++c)
    {
        auto u = base;
        u[at]  = c;
        auto x = model(d, u);
        auto o = d.runs[c % 3].fn(u);
        if (o.ok != x.ok || o.errors != "{" + x.errors + "}" || (x.ok && o.value != x.value))
            pbt::fail("byte " + std::to_string(c) + ": actual " + o.value + o.errors + ", expected " + x.value + x.errors + " on " + pbt::show(u));
    }
    g.extra_evaluations(255);
}
