// Generated grammars against the reference interpreter. GX_ACTIONS selects what is run on each text.
#include <gx.hpp>
#include <ref_visualize.hpp>

using namespace hc;

namespace
{
std::string text_of(const units& u)
{
    std::string r;
    for (auto c : u)
        if (c >= 0x20 && c < 0x7F)
            r += char(c);
        else
        {
            char buf[8];
            std::snprintf(buf, sizeof buf, "\\x%02x", c);
            r += buf;
        }
    return r;
}
std::string joined(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& s : v)
        r += (r.empty() ? "" : " ") + s;
    return "{" + r + "}";
}
// Removes the position of the production where the reference does not give one (transparent productions).
std::string errors_like(const err_list& l, const std::vector<std::string>& expected)
{
    std::string r;
    for (std::size_t i = 0; i != l.size(); ++i)
    {
        auto s = l[i].str();
        if (i < expected.size() && expected[i].find("in ") != std::string::npos && expected[i].find('@') == std::string::npos)
            s = s.substr(0, s.rfind('@'));
        r += (r.empty() ? "" : " ") + s;
    }
    return "{" + r + "}";
}
struct cached
{
    gx::entry*   e;
    ref::grammar g;
};
std::vector<cached>& grammars()
{
    static std::vector<cached> v = [] {
        std::vector<cached> v;
        for (auto& e : gx::entries())
            v.push_back({&e, e.make()});
        return v;
    }();
    return v;
}

void tiles(const ref::tnode& n, std::size_t& at)
{
    if (n.token)
    {
        pbt::check_eq(n.b, at, "a token starts where the previous one ended");
        at = n.e;
    }
    for (auto& k : n.kids)
        tiles(k, at);
}
// The trace described by the events of the reference.
std::string trace_of(const ref::outcome& o, const units& u, const refv::style& style)
{
    std::string r;
    std::size_t depth = 0;
    auto        lexeme_style = style;
    lexeme_style.space       = true;
    auto line = [&](std::size_t pos, const std::string& text, int kind) {
        unsigned    l = 1;
        std::size_t begin = 0;
        for (std::size_t i = 0; i < pos;)
        {
            auto n = u[i] == '\r' && i + 1 < u.size() && u[i + 1] == '\n' ? 2u : 1u;
            if (i + n > pos)
                break;
            i += n;
            if (u[i - 1] == '\n')
            {
                ++l;
                begin = i;
            }
        }
        // The \r of a newline is a column of its own only up to it.
        auto col = pos - begin + 1;
        if (pos > begin && pos < u.size() && u[pos] == '\n' && u[pos - 1] == '\r')
            --col;
        char buf[64];
        std::snprintf(buf, sizeof buf, "%2u:%3u: ", l, unsigned(col));
        if (depth > 0)
            r += '\n';
        r += buf;
        if (depth > 0)
        {
            for (std::size_t i = 1; i < depth; ++i)
                r += style.unicode ? "\xE2\x94\x82  " : "  ";
            if (kind == 0)
                r += style.unicode ? "\xE2\x94\x9C\xE2\x94\x80\xE2\x94\x80" : "- ";
            else if (kind == 1)
                r += style.unicode ? "\xE2\x94\x94\xE2\x95\xB3" : "-x";
            else
                r += style.unicode ? "\xE2\x94\xB4" : "- finish";
        }
        r += text;
    };
    auto open = [&](std::size_t pos, const std::string& text) {
        if (depth <= style.depth)
            line(pos, text + ":" + (depth == style.depth ? " " + style.ellipsis() : ""), 0);
        ++depth;
    };
    auto close = [&](std::size_t pos, int kind) {
        if (depth <= style.depth)
            line(pos, "", kind);
        --depth;
    };
    for (auto& e : o.events)
    {
        switch (e.e)
        {
        case ref::E::pstart:
            open(e.b, e.text);
            break;
        case ref::E::cstart:
            open(e.b, "operation chain");
            break;
        case ref::E::rstart:
            open(e.b, "error recovery");
            break;
        case ref::E::pfinish:
        case ref::E::rfinish:
        case ref::E::cfinish:
            close(e.b, 2);
            break;
        case ref::E::pcancel:
        case ref::E::rcancel:
            close(e.b, 1);
            break;
        case ref::E::token:
            if (depth > style.depth || (e.b == e.end && (e.text == "token" || e.text == "error token" || e.text == "whitespace")))
                break;
            line(e.b, e.text + (e.b == e.end ? "" : ": " + refv::text_lexeme(lexeme_style, u, e.b, e.end)), 0);
            break;
        case ref::E::backtrack:
            if (depth <= style.depth && e.b != e.end)
                line(e.b, "backtracked: " + refv::text_lexeme(lexeme_style, u, e.b, e.end), 0);
            break;
        case ref::E::cop:
            if (depth <= style.depth)
                line(e.b, "operation: " + e.text, 0);
            break;
        case ref::E::debug:
            if (depth <= style.depth)
                line(e.b, "debug: " + e.text, 0);
            break;
        case ref::E::error: {
            if (depth > style.depth)
                break;
            auto range = "[" + std::to_string(e.b) + "," + std::to_string(e.end) + ")";
            auto text  = e.text.substr(0, e.text.rfind(range));
            auto quoted = [&](const std::string& lit) {
                auto v = units(lit.begin(), lit.end());
                return "'" + refv::text_lexeme(style, v, 0, v.size()) + "'";
            };
            if (text.rfind("literal<", 0) == 0)
                text = "expected " + quoted(text.substr(8, text.rfind(">#") - 8));
            else if (text.rfind("keyword<", 0) == 0)
                text = "expected keyword " + quoted(text.substr(8, text.size() - 9));
            else if (text.rfind("class<", 0) == 0)
                text = "expected " + text.substr(6, text.size() - 7);
            line(e.b, "error: " + text, 0);
            break;
        }
        }
    }
    return r + "\n";
}
void check_status(const char* what, const gx::result& r, const ref::outcome& o)
{
    std::string w = what;
    PBT_CHECK(r.success == o.success());
    PBT_CHECK(r.as_bool == o.success());
    PBT_CHECK(r.error == !o.success());
    PBT_CHECK(r.recovered == (o.ok && !o.errors.empty()));
    PBT_CHECK(r.fatal == !o.ok);
    pbt::check_eq(r.error_count, o.errors.size(), w + ": number of errors");
    pbt::check_eq(errors_like(r.errors, o.errors), joined(o.errors), w + ": errors");
}
} // namespace

PBT_PROP(grammar, 1)
{
    auto& c = grammars()[g.below(grammars().size())];
#ifdef GX_SCAN
    auto program  = ref::gen_program(g);
    gx::env.prog  = &program;
    bool on_its_own = g.chance(1, 3);
    auto control    = on_its_own ? c.g.control.get() : nullptr;
    ref::scan_env renv;
    renv.prog        = &program;
    gx::expected_log = &renv.log;
    auto u = ref::gen_text(g, c.g, true, &program, control ? control->rule.get() : nullptr);
    g.note(std::string(c.e->name) + (control ? " lexy::scan" : "") + " on \"" + text_of(u) + "\"\n" + c.e->text + "\n" + ref::show(program));
    auto check_log = [&](const std::string& w) {
        for (std::size_t i = 0; i != std::min(renv.log.size(), gx::env.log.size()); ++i)
        {
            auto &a = gx::env.log[i], &e = renv.log[i];
            // The value after an overflow is not specified.
            auto over = e.find(" integer overflow ");
            if (over != std::string::npos)
                pbt::check_eq(a.substr(a.rfind(" @")), e.substr(e.rfind(" @")), w + ": scanner, step " + std::to_string(i));
            else
                pbt::check_eq(a, e, w + ": scanner, step " + std::to_string(i));
        }
        pbt::check_eq(gx::env.log.size(), renv.log.size(), w + ": scanner, number of steps");
    };
#else
    auto u = ref::gen_text(g, c.g);
    if (c.e->ascii)
        for (auto& x : u)
            if (x > 0x7F)
                x = '~';
    g.note(std::string(c.e->name) + " on \"" + text_of(u) + "\"\n" + c.e->text);
#    define check_log(...) (void)0
#endif

    ref::outcome o;
    try
    {
#ifdef GX_SCAN
        o = ref::run(c.g, u, &renv, control);
        if (renv.calls == 0)
            g.label("no scanner");
        for (auto& l : renv.log)
            if (l.find("recovery") == 0)
                g.label("recovery");
#else
        o = ref::run(c.g, u);
#endif
    }
    catch (ref::budget_exceeded&)
    {
        g.label("discarded");
        return;
    }
    g.label(!o.ok ? "fatal" : o.errors.empty() ? "success" : "recovered");
    g.label(o.errors.empty() ? "no errors" : o.errors.size() < 3 ? "1-2 errors" : "3+ errors");
    for (auto& e : o.errors)
        if (e.find("recursion depth") != std::string::npos)
        {
            g.label("recursion depth exceeded");
            break;
        }
    if (u.size() > 3 && o.events.size() > 6)
        g.nontrivial(std::string(c.e->name) + text_of(u));

#ifdef GX_SCAN
    if (control)
    {
        for (auto f : {c.e->scan, c.e->scan_buffer})
        {
            auto r = f(u);
            check_log("scan()");
            check_status("scan()", r, o);
            g.extra_evaluations(1);
        }
        return;
    }
#endif
    if (c.e->match)
    {
        pbt::check_eq(c.e->match(u), o.success(), "match()");
        check_log("match()");
    }
    if (c.e->validate)
    {
        auto r = c.e->validate(u);
        check_log("validate()");
        check_status("validate()", r, o);
        g.extra_evaluations(1);
    }
    auto check_parse = [&](const gx::result& r, const std::string& w) {
        check_log(w + "parse()");
        check_status((w + "parse()").c_str(), r, o);
        pbt::check_eq(r.has_value, o.ok, (w + "parse() has a value").c_str());
        if (r.has_value)
            pbt::check_eq(r.value, o.value, w + "value");
        g.extra_evaluations(1);
    };
    auto check_tree = [&](const gx::tree_result& r, const std::string& w) {
        check_log(w + "parse_as_tree()");
        check_status((w + "parse_as_tree()").c_str(), r.r, o);
        pbt::check_eq(r.empty, !o.ok, (w + "empty tree").c_str());
        if (!r.empty)
        {
            std::string a, b;
            ref::show_tree(r.root, a);
            ref::show_tree(ref::tree_of(o), b);
            pbt::check_eq(a, b, w + "tree");
            std::size_t at = 0;
            tiles(r.root, at);
            pbt::check_eq(at, o.end, w + "the tokens end where parsing ended");
            pbt::check_eq(r.remaining_begin, o.end, w + "begin of the remaining input");
            pbt::check_eq(r.remaining_end, u.size(), w + "end of the remaining input");
        }
        g.extra_evaluations(1);
    };
    if (c.e->parse)
    {
#ifdef GX_TRACKED
        trk::start();
#endif
        check_parse(c.e->parse(u), "");
#ifdef GX_TRACKED
        trk::finish();
#endif
    }
    if (c.e->tree)
        check_tree(c.e->tree(u), "");
    if (c.e->trace)
    {
        auto opts  = refv::gen_options(g);
        g.note(refv::show(opts));
        auto trace = c.e->trace(u, opts);
        if (!opts.is_set(lexy::visualize_use_color))
            PBT_CHECK(trace.find('\033') == std::string::npos);
        pbt::check_eq(refv::plain(trace), trace_of(o, u, refv::style_of(opts)), "trace");
        g.extra_evaluations(1);
    }
    std::uint32_t highest = 0;
    for (auto x : u)
        highest = std::max(highest, x);
    for (auto& in : c.e->inputs)
    {
        if (highest > in.max)
            continue;
        auto w = std::string(in.name) + ": ";
        pbt::check_eq(in.match(u), o.success(), (w + "match()").c_str());
        check_parse(in.parse(u), w);
        check_tree(in.tree(u), w);
    }
}
