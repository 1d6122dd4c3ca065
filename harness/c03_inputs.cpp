#include <c03_support.hpp>
using namespace hc;

namespace
{
std::uint32_t raw(pbt::gen& g, int enc)
{
    switch (enc)
    {
    case 0:
        return std::uint32_t(g.below(256));
    case 1:
        return std::uint32_t(g.below(255)); // 0xFF is its EOF
    case 2: {
        static const std::uint32_t b[] = {0x80, 0xBF, 0xC3, 0xA4, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0xED, 0xA0, 0xF4, 0xC0, 0xF8};
        return g.boolean() ? g.pick(b) : std::uint32_t(g.below(255));
    }
    case 3: {
        // units whose bytes look like ASCII, surrogates, others
        static const std::uint32_t b[] = {0x6161, 0x0A00, 0x2200, 0x0161, 0x0122, 0x3030, 0x0130, 0xD800, 0xDC00, 0xFFFF, 0xFEFF, 0x80, 0x100, 0x8000, 0x7F61, 0x15C, 0x5C00};
        return g.boolean() ? g.pick(b) : std::uint32_t(g.below(0x10000));
    }
    default: {
        static const std::uint32_t b[] = {0x61616161, 0x0A000000, 0x122, 0x10061, 0x1F600, 0x80000061, 0x130, 0xD800, 0x110000, 0xFFFF, 0x80, 0xFFFFFFFE, 0x7F};
        return g.boolean() ? g.pick(b) : std::uint32_t(g.below(0xFFFFFFFF));
    }
    }
}
units gen_text(pbt::gen& g, const c03::rule& r, int enc, bool ascii)
{
    units u;
    auto  put = [&](const std::string& s) {
        for (unsigned char c : s)
            if (c < 0x80)
                u.push_back(c);
            else if (ascii || enc == 1)
                u.push_back('~');
            else
                u.push_back(c);
    };
    auto k = g.size(7);
    if (g.chance(2, 3))
        put(r.fragments[0]);
    for (std::size_t i = 0; i != k; ++i)
        switch (g.weighted({4, 4, 1, 1}))
        {
        case 0:
            put(g.pick(r.fragments));
            break;
        case 1: {
            auto& f = g.pick(r.fragments);
            auto  c = f.empty() ? std::string("a") : f.substr(g.below(f.size()), 1);
            auto  n = g.below(g.one_of({3, 10, 20, 40}));
            for (std::uint64_t j = 0; j != n; ++j)
                put(c);
            break;
        }
        case 2:
            if (ascii)
                u.push_back(std::uint32_t(g.below(128)));
            else
                u.push_back(raw(g, enc));
            break;
        default: {
            static const char interesting[] = {'\n', '\r', '"', '\\', ' ', '\t', 'a', '0', '_', 'Z', '\x7F', '\x1F', '@', '[', '`', '{', '/', ':', 0};
            u.push_back(static_cast<unsigned char>(g.pick(interesting)));
        }
        }
    return u;
}
} // namespace

PBT_PROP(representation, 1)
{
    static const char* const names[] = {"default", "ascii", "utf8", "utf16", "utf32"};
    auto& r     = c03::rules()[g.below(c03::rules().size())];
    bool  ascii = g.boolean();
    auto  enc   = int(g.below(5));
    if (r.runs[enc].empty())
        enc = 2;
    auto u = gen_text(g, r, enc, ascii);
    g.note(std::string(r.text) + " on " + show(u) + " (" + names[enc] + ")");
    if (u.size() > 8)
        g.nontrivial(std::string(r.text) + show(u));
    g.label(ascii ? "ASCII text through every encoding" : "arbitrary code units of one encoding");
    auto expected = r.runs[enc][0].fn(u);
    for (int e = 0; e != 5; ++e)
    {
        if (e != enc && !ascii)
            continue;
        for (auto& run : r.runs[e])
        {
            g.extra_evaluations(1);
            pbt::check_eq(run.fn(u), expected, std::string(names[e]) + " " + run.input + " differs from " + names[enc] + " range");
        }
    }
}
