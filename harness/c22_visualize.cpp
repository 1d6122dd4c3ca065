// C22: diagnostics and visualisations show exactly what and where.
#include <common.hpp>
#include <iterator>
#include <lexy/action/parse.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/parse_tree.hpp>
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>
#include <ref_location.hpp>
#include <ref_visualize.hpp>

using namespace refl;
using refv::style;

namespace
{
//=== reference ===//
template <typename Enc>
std::string bytes_of_unit(const style& s, std::uint32_t u)
{
    // Leading zero bytes of a unit are not shown.
    std::string r;
    for (int shift = 8 * (int(sizeof(char_of<Enc>)) - 1); shift > 0; shift -= 8)
        if ((u >> shift) != 0)
            r += refv::byte(s, (u >> shift) & 0xFF);
    return r + refv::byte(s, u & 0xFF);
}
// The parts of [b, e) that cannot be divided: code points or malformed units.
struct part
{
    std::string text;
    bool        malformed;
};
template <typename Enc>
std::vector<part> parts_of(const style& s, const units& all, std::size_t b, std::size_t e)
{
    units             u(all.begin() + std::ptrdiff_t(b), all.begin() + std::ptrdiff_t(e));
    std::vector<part> r;
    for (std::size_t i = 0; i != u.size();)
    {
        if constexpr (std::is_same_v<Enc, lexy::byte_encoding>)
            r.push_back({refv::special(s, refv::hex(u[i], 2), refv::hex(u[i], 2)), false}), ++i;
        else if constexpr (std::is_same_v<Enc, lexy::default_encoding>)
            r.push_back({u[i] < 0x80 ? refv::code_point(s, u[i]) : refv::byte(s, u[i]), false}), ++i;
        else
        {
            std::uint32_t c = 0;
            auto          n = enc_traits<Enc>::dec(u, i, &c);
            if (n != 0)
                r.push_back({refv::code_point(s, c), false}), i += n;
            else
                r.push_back({bytes_of_unit<Enc>(s, u[i]), true}), ++i;
        }
    }
    return r;
}
// All permitted renderings; there is more than one only if the width is limited and there are malformed units.
template <typename Enc>
std::vector<std::string> renderings(const style& s, const units& u, std::size_t b, std::size_t e)
{
    auto        p = parts_of<Enc>(s, u, b, e);
    std::string full;
    bool        malformed = false;
    for (auto& x : p)
        full += x.text, malformed |= x.malformed;
    if (s.width == 0 || p.size() < s.width)
        return {full};
    std::vector<std::string> r;
    std::string              cut;
    for (std::size_t i = 0; i != p.size(); ++i)
    {
        cut += p[i].text;
        if (i + 1 == s.width || (malformed && i + 1 > s.width && i < 4 * s.width))
            r.push_back(cut + s.ellipsis());
    }
    if (malformed)
        r.push_back(full);
    return r;
}
template <typename Enc>
bool has_malformed(const units& u)
{
    return !well_formed<Enc>(u);
}
std::size_t width_of(const std::string& s)
{
    std::size_t n = 0;
    for (unsigned char c : s)
        n += (c & 0xC0) != 0x80;
    return n;
}
bool one_of(const std::string& s, const std::vector<std::string>& v)
{
    for (auto& x : v)
        if (x == s)
            return true;
    return false;
}
std::string list(const std::vector<std::string>& v)
{
    std::string r;
    for (auto& x : v)
        r += "  [" + x + "]\n";
    return r;
}
void check_colors(const std::string& s, bool enabled)
{
    // Every color is switched off again, nothing is colored if it is disabled.
    bool on = false;
    for (std::size_t i = 0; i != s.size(); ++i)
        if (s[i] == '\033')
        {
            PBT_CHECK(enabled);
            PBT_CHECK(i + 3 < s.size() && s[i + 1] == '[');
            std::string code;
            for (i += 2; i != s.size() && s[i] != 'm'; ++i)
            {
                PBT_CHECK((s[i] >= '0' && s[i] <= '9') || s[i] == ';');
                code += s[i];
            }
            PBT_CHECK(i != s.size());
            on = code != "0";
        }
    PBT_CHECK(!on);
}
lexy::visualization_options color_free(lexy::visualization_options o)
{
    return o.reset(lexy::visualize_use_color);
}

// Writes through a pointer into a buffer of exactly the right size.
template <typename T>
std::string render(pbt::gen& g, const T& obj, lexy::visualization_options o)
{
    std::string s;
    lexy::visualize_to(std::back_inserter(s), obj, o);
    if (g.chance(1, 4))
    {
        std::unique_ptr<char[]> exact(new char[s.size()]);
        auto                    end = lexy::visualize_to(exact.get(), obj, o);
        PBT_CHECK(end == exact.get() + s.size());
        pbt::check_eq(std::string(exact.get(), s.size()), s, "written through a pointer");
    }
    if (g.chance(1, 8))
    {
        char*       p = nullptr;
        std::size_t n = 0;
        auto        f = open_memstream(&p, &n);
        lexy::visualize(f, obj, o);
        std::fclose(f);
        std::string file(p, n);
        std::free(p);
        pbt::check_eq(file, s, "written to a file");
    }
    check_colors(s, o.is_set(lexy::visualize_use_color));
    auto plain = refv::plain(s);
    pbt::check_eq((long long)lexy::visualization_display_width(obj, o), (long long)width_of(plain), "display width");
    return plain;
}

//=== lexemes ===//
template <typename Holder, typename Enc>
void lexeme(pbt::gen& g)
{
    auto   u = gen_units<Enc>(g, g.chance(1, 6) ? 300 : 12, "ab 0\t\\\x7F\x01");
    Holder h(u);
    auto   o  = refv::gen_options(g);
    auto   s  = refv::style_of(o);
    auto   bp = static_cast<std::size_t>(g.chance(1, 3) ? g.below(u.size() + 1) : 0);
    auto   ep = bp + static_cast<std::size_t>(g.chance(1, 3) ? g.below(u.size() - bp + 1) : u.size() - bp);
    g.note(std::string(enc_traits<Enc>::name) + "/" + Holder::kind + " " + show(u) + " [" + pbt::num((long long)bp) + ", " + pbt::num((long long)ep) + ") " + refv::show(o));
    auto                                        begin = h.input.reader().position();
    lexy::lexeme_for<typename Holder::input_type> lex(step(begin, bp), step(begin, ep));
    auto                                        got = render(g, lex, o);
    auto exp = renderings<Enc>(s, u, bp, ep);
    if (!one_of(got, exp))
        pbt::fail("lexeme\n  actual:   [" + got + "]\n  expected:\n" + list(exp));
    if (got.size() > 3 && got.size() != ep - bp)
        g.nontrivial("lex" + show(u) + enc_traits<Enc>::name + refv::show(o));
    if (has_malformed<Enc>(u))
        g.label("malformed lexeme");
    if (s.width)
        g.label("limited width");
}
template <template <typename> class H>
void lexemes(pbt::gen& g)
{
    switch (g.below(7))
    {
    case 0:
        return lexeme<H<lexy::default_encoding>, lexy::default_encoding>(g);
    case 1:
        return lexeme<H<lexy::ascii_encoding>, lexy::ascii_encoding>(g);
    case 2:
        return lexeme<H<lexy::utf8_encoding>, lexy::utf8_encoding>(g);
    case 3:
        return lexeme<H<lexy::utf8_char_encoding>, lexy::utf8_char_encoding>(g);
    case 4:
        return lexeme<H<lexy::utf16_encoding>, lexy::utf16_encoding>(g);
    case 5:
        return lexeme<H<lexy::utf32_encoding>, lexy::utf32_encoding>(g);
    default:
        return lexeme<H<lexy::byte_encoding>, lexy::byte_encoding>(g);
    }
}

//=== trees ===//
enum class kind
{
    first,
    second
};
constexpr const char* token_kind_name(kind k) noexcept
{
    return k == kind::first ? "the first" : "2nd";
}
struct prod_a
{
    static constexpr auto name = "prod_a";
    static constexpr auto rule = lexy::dsl::eof;
};
struct prod_b
{
    static constexpr auto name = "another production";
    static constexpr auto rule = lexy::dsl::eof;
};
struct prod_t : lexy::token_production
{
    static constexpr auto name = "tok";
    static constexpr auto rule = lexy::dsl::eof;
};
struct node
{
    bool              token;
    std::string       name;
    std::size_t       begin, end;
    std::vector<node> children;
};
template <typename Enc>
struct tree_gen
{
    using holder  = string_holder<Enc>;
    using input_t = typename holder::input_type;
    using tree_t  = lexy::parse_tree_for<input_t, kind>;
    using builder = typename tree_t::builder;
    pbt::gen&                                         g;
    typename lexy::input_reader<input_t>::iterator    begin;
    std::size_t                                       pos = 0, size, budget;

    void fill(builder& b, node& n, unsigned depth, unsigned max_depth)
    {
        auto count = depth < max_depth && g.chance(4, 5) ? 1 + g.below(3) : g.below(4);
        auto deep  = g.below(count + 1);
        for (std::size_t i = 0; i != count && budget != 0; ++i)
        {
            --budget;
            if ((i == deep && depth < max_depth) || (depth < max_depth && g.chance(1, 5)))
            {
                n.children.push_back({false, "", 0, 0, {}});
                auto& c   = n.children.back();
                auto  sub = [&](auto prod) {
                    c.name = decltype(prod)::name;
                    auto m = b.start_production(prod);
                    fill(b, c, depth + 1, max_depth);
                    b.finish_production(LEXY_MOV(m));
                };
                switch (g.below(3))
                {
                case 0:
                    sub(prod_a{});
                    break;
                case 1:
                    sub(prod_b{});
                    break;
                default:
                    sub(prod_t{});
                }
            }
            else
            {
                auto e = pos + std::min<std::size_t>(g.below(5), size - pos);
                node c{true, "", pos, e, {}};
                auto tok = [&](auto k, const char* name) {
                    c.name = name;
                    b.token(lexy::token_kind<kind>(k), step(begin, pos), step(begin, e));
                };
                if (e == pos)
                {
                    if (g.boolean())
                        tok(lexy::eof_token_kind, "EOF");
                    else
                        tok(lexy::position_token_kind, "position");
                }
                else
                    switch (g.below(8))
                    {
                    case 0:
                        tok(kind::first, "the first");
                        break;
                    case 1:
                        tok(kind::second, "2nd");
                        break;
                    case 2:
                        tok(lexy::literal_token_kind, "literal");
                        break;
                    case 3:
                        tok(lexy::error_token_kind, "error token");
                        break;
                    case 4:
                        tok(lexy::whitespace_token_kind, "whitespace");
                        break;
                    case 5:
                        tok(lexy::identifier_token_kind, "identifier");
                        break;
                    case 6:
                        tok(lexy::digits_token_kind, "digits");
                        break;
                    default:
                        tok(lexy::any_token_kind, "any");
                    }
                // Adjacent error tokens are one.
                if (c.name == "error token" && !n.children.empty() && n.children.back().name == c.name)
                    n.children.back().end = e;
                else
                    n.children.push_back(c);
                pos = e;
            }
        }
    }
};
template <typename Enc>
void ref_tree(std::string& out, const style& s, const units& u, const node& n, std::vector<bool>& last, unsigned depth)
{
    if (depth > s.depth)
        return;
    for (unsigned i = 1; i < depth; ++i)
        out += !s.unicode ? "  " : last[i] ? "   " : "\xE2\x94\x82  ";
    if (depth > 0)
        out += !s.unicode ? "- " : last[depth] ? "\xE2\x94\x94\xE2\x94\x80\xE2\x94\x80" : "\xE2\x94\x9C\xE2\x94\x80\xE2\x94\x80";
    out += n.name;
    if (n.token)
    {
        if (n.begin != n.end)
        {
            auto t  = s;
            t.space = true;
            out += ": " + renderings<Enc>(t, u, n.begin, n.end).front();
        }
        out += "\n";
    }
    else if (depth == s.depth)
        out += ": " + s.ellipsis() + "\n";
    else
    {
        out += ":\n";
        for (auto& c : n.children)
        {
            last.resize(depth + 2);
            last[depth + 1] = &c == &n.children.back();
            ref_tree<Enc>(out, s, u, c, last, depth + 1);
        }
    }
}
template <typename Enc>
void tree(pbt::gen& g)
{
    units u = gen_units<Enc>(g, 60, "ab 0\t\\", false);
    string_holder<Enc> h(u);
    auto               o = refv::gen_options(g);
    auto               s = refv::style_of(o);
    using T              = tree_gen<Enc>;
    T    tg{g, h.input.reader().position(), 0, u.size(), 60};
    node root{false, "prod_a", 0, 0, {}};
    auto max_depth = unsigned(g.chance(1, 4) ? 28 + g.below(9) : g.below(7));
    typename T::builder b(prod_a{});
    tg.fill(b, root, 0, max_depth);
    typename T::tree_t t = LEXY_MOV(b).finish();
    // Tokens of generated trees may divide a multi-unit character.
    bool divided = false;
    auto walk    = [&](auto& self, const node& n) -> void {
        if (n.token && has_malformed<Enc>(units(u.begin() + std::ptrdiff_t(n.begin), u.begin() + std::ptrdiff_t(n.end))))
            divided = true;
        for (auto& c : n.children)
            self(self, c);
    };
    walk(walk, root);
    if (divided && s.width != 0)
        o.max_lexeme_width = 0, s.width = 0;
    std::string       exp;
    std::vector<bool> last;
    ref_tree<Enc>(exp, s, u, root, last, 0);
    g.note("tree " + show(u) + " " + refv::show(o) + "\n" + exp);
    pbt::check_eq(render(g, t, o), exp, "tree");
    if (tg.budget < 55)
        g.nontrivial("tree" + exp);
    if (max_depth > 30)
        g.label("deep tree");
    // The empty tree is shown as nothing.
    t.clear();
    pbt::check_eq(render(g, t, o), std::string(), "empty tree");
}

//=== annotations ===//
template <typename Enc>
struct reporter
{
    const units&                u;
    lexy::visualization_options o;
    policy                      p = std::is_same_v<Enc, lexy::byte_encoding> ? policy::bytes
                                    : std::is_same_v<Enc, lexy::default_encoding> || std::is_same_v<Enc, lexy::ascii_encoding>
                                           || std::is_same_v<Enc, lexy::utf8_encoding> || std::is_same_v<Enc, lexy::utf8_char_encoding>
                                           || std::is_same_v<Enc, lexy::utf16_encoding> || std::is_same_v<Enc, lexy::utf32_encoding>
                                        ? policy::unit
                                        : policy::point;
    std::size_t width = 16;

    std::string bar() const
    {
        return o.is_set(lexy::visualize_use_unicode) ? "\xE2\x94\x82" : "|";
    }
    std::string lex(std::size_t b, std::size_t e) const
    {
        return renderings<Enc>(refv::style_of(o), u, b, e).front();
    }
    std::string empty() const
    {
        return "     " + bar() + "\n";
    }
    std::string annotation(bool primary, std::size_t pos, std::size_t end, bool is_size, const std::string& msg) const
    {
        auto r = ref_location<Enc>(u, pos, p, width);
        auto a = ref_annotation<Enc>(u, r, is_size ? end : end - r.col_begin, p, width);
        char nr[32];
        std::snprintf(nr, sizeof nr, "%4u ", r.line);
        auto before = lex(a.line_begin, a.begin), text = lex(a.begin, a.end);
        auto count = width_of(text);
        if (count == 0 || (a.truncated && !a.newline))
            ++count;
        return nr + bar() + " " + before + text + lex(a.end, a.after_end) + "\n     " + bar() + " " + std::string(width_of(before), ' ')
               + std::string(count, primary ? '^' : '~') + " " + msg + "\n";
    }
    std::string headline(const std::string& prod, const char* path, std::size_t ctx, std::size_t pos) const
    {
        auto r = "error: while parsing " + prod + "\n" + (path ? std::string(path) + "\n" : "") + empty();
        if (ref_location<Enc>(u, ctx, p, width).line != ref_location<Enc>(u, pos, p, width).line)
            r += annotation(false, ctx, ctx + 1, false, "beginning here") + empty();
        return r;
    }
};
struct tag_one
{
    static constexpr auto name = "tag one";
};
struct tag_two
{
    static constexpr auto name = "some other message";
};
template <typename Enc>
const char_of<Enc>* lit_data(int i)
{
    static constexpr char_of<Enc> a[] = {char_of<Enc>('l'), char_of<Enc>('i'), char_of<Enc>('t'), char_of<Enc>(0)};
    static constexpr char_of<Enc> b[] = {char_of<Enc>('\n'), char_of<Enc>('\\'), char_of<Enc>(' '), char_of<Enc>('\t'), char_of<Enc>('z'), char_of<Enc>(1)};
    return i ? b : a;
}

template <typename Holder, typename Enc>
void report(pbt::gen& g)
{
    // A limited width and malformed units: more than one rendering is fine, so not together.
    auto o         = refv::gen_options(g);
    auto malformed = o.max_lexeme_width == 0;
    auto u         = gen_units<Enc>(g, g.chance(1, 8) ? 400 : 40, "ab 0\t\\", malformed);
    if (!malformed)
        for (auto& c : u)
            c &= 0x7F;
    if (g.chance(1, 8))
        u.insert(u.begin(), g.below(2000), '\n');
    Holder h(u);
    using input_t  = typename Holder::input_type;
    using reader_t = lexy::input_reader<input_t>;
    auto begin     = h.input.reader().position();

    reporter<Enc> r{u, o};
    std::string   exp, notes, got;
    const char*   paths[] = {nullptr, "some/path.txt", ""};
    auto          path    = g.pick(paths);
    auto          cb      = lexy_ext::report_error.opts(o).path(path).to(std::back_inserter(got));
    auto          sink    = cb.sink();
    auto          count   = g.below(4);
    bool          multi   = false;
    for (std::size_t i = 0; i != count; ++i)
    {
        auto ctx = static_cast<std::size_t>(g.below(u.size() + 1));
        auto pos = ctx + static_cast<std::size_t>(g.boolean() ? g.below(u.size() - ctx + 1) : std::min<std::size_t>(g.below(4), u.size() - ctx));
        auto end = pos + static_cast<std::size_t>(g.boolean() ? g.below(u.size() - pos + 1) : std::min<std::size_t>(g.below(4), u.size() - pos));
        notes += " @" + pbt::num((long long)ctx) + "/" + pbt::num((long long)pos) + "-" + pbt::num((long long)end);
        lexy::error_context<input_t> c(g.boolean() ? lexy::production_info(prod_a{}) : lexy::production_info(prod_b{}), h.input, step(begin, ctx));
        auto                         head = r.headline(c.production(), path, ctx, pos);
        multi |= head.find("beginning here") != std::string::npos;
        auto p = step(begin, pos), e = step(begin, end);
        switch (g.below(5))
        {
        case 0: {
            auto                                               l   = int(g.below(2));
            auto                                               len = std::size_t(l ? 1 + g.below(6) : 3);
            auto                                               idx = static_cast<std::size_t>(g.below(len));
            lexy::error<reader_t, lexy::expected_literal> x(p, lit_data<Enc>(l), idx, len);
            sink(c, x);
            auto lit = to_units(lit_data<Enc>(l), lit_data<Enc>(l) + len);
            // The range begins at the column; the literal's text follows the position.
            exp += head + r.annotation(true, pos, idx + 1, true, "expected '" + renderings<Enc>(refv::style_of(color_free(o)), lit, 0, len).front() + "'");
            break;
        }
        case 1: {
            lexy::error<reader_t, lexy::expected_keyword> x(p, e, lit_data<Enc>(0), 3);
            sink(c, x);
            auto lit = to_units(lit_data<Enc>(0), lit_data<Enc>(0) + 3);
            exp += head + r.annotation(true, pos, end, false, "expected keyword '" + renderings<Enc>(refv::style_of(o), lit, 0, 3).front() + "'");
            break;
        }
        case 2: {
            lexy::error<reader_t, lexy::expected_char_class> x(p, "some.class");
            sink(c, x);
            exp += head + r.annotation(true, pos, 1, true, "expected some.class");
            break;
        }
        case 3: {
            lexy::error<reader_t, tag_one> x(p, e);
            sink(c, x);
            exp += head + r.annotation(true, pos, end, false, "tag one");
            break;
        }
        default: {
            lexy::error<reader_t, tag_two> x(p);
            sink(c, x);
            exp += head + r.annotation(true, pos, pos, false, "some other message");
        }
        }
    }
    auto n = LEXY_MOV(sink).finish();
    if (count)
        exp += "\n";
    g.note(std::string(enc_traits<Enc>::name) + "/" + Holder::kind + " " + show(u) + notes + " " + refv::show(o) + "\n" + exp);
    pbt::check_eq((long long)n, (long long)count, "number of errors");
    check_colors(got, o.is_set(lexy::visualize_use_color));
    pbt::check_eq(refv::plain(got), exp, "report");

    // The writer on its own.
    lexy_ext::diagnostic_writer<input_t> w(h.input, o);
    std::string                          s;
    auto                                 k = g.below(7);
    const char*                          kinds[] = {"error: ", " warn: ", " note: ", " info: ", "debug: ", "fixit: ", " help: "};
    using dk                                     = lexy_ext::diagnostic_kind;
    const dk                             dks[]   = {dk::error, dk::warning, dk::note, dk::info, dk::debug, dk::fixit, dk::help};
    auto msg = [&](auto out, lexy::visualization_options mo) {
        pbt::check_eq(int(mo.reset(lexy::visualize_use_color).flags), int(color_free(o).flags), "options of the message");
        for (char c : std::string("msg"))
            *out++ = c;
        return out;
    };
    auto out = w.write_message(std::back_inserter(s), dks[k], msg);
    out      = w.write_path(out, "p");
    out      = w.write_empty_annotation(out);
    auto pos = static_cast<std::size_t>(g.below(u.size() + 1));
    auto end = pos + static_cast<std::size_t>(g.below(u.size() - pos + 1));
    auto loc = lexy::get_input_location(h.input, step(begin, pos));
    auto prim = g.boolean();
    auto e2  = std::string(kinds[k]) + "msg\np\n" + r.empty();
    auto ak = prim ? lexy_ext::annotation_kind::primary : lexy_ext::annotation_kind::secondary;
    if (g.boolean())
    {
        w.write_annotation(out, ak, loc, step(begin, end), msg);
        e2 += r.annotation(prim, pos, end, false, "msg");
    }
    else
    {
        auto size = static_cast<std::size_t>(g.below(30));
        w.write_annotation(out, ak, loc, size, msg);
        e2 += r.annotation(prim, pos, size, true, "msg");
    }
    check_colors(s, o.is_set(lexy::visualize_use_color));
    pbt::check_eq(refv::plain(s), e2, "writer");
    if (count && u.size() > 3)
        g.nontrivial("report" + exp);
    if (multi)
        g.label("production on another line");
}
template <template <typename> class H>
void reports(pbt::gen& g)
{
    switch (g.below(6))
    {
    case 0:
        return report<H<lexy::default_encoding>, lexy::default_encoding>(g);
    case 1:
        return report<H<lexy::ascii_encoding>, lexy::ascii_encoding>(g);
    case 2:
        return report<H<lexy::utf8_encoding>, lexy::utf8_encoding>(g);
    case 3:
        return report<H<lexy::utf16_encoding>, lexy::utf16_encoding>(g);
    case 4:
        return report<H<lexy::utf32_encoding>, lexy::utf32_encoding>(g);
    default:
        return report<H<lexy::byte_encoding>, lexy::byte_encoding>(g);
    }
}
} // namespace

PBT_PROP(code_points, 1)
{
    auto block = g.enumerate(0x110000 / 256 + 4);
    auto o     = refv::gen_options(g);
    auto s     = refv::style_of(o);
    g.note("block " + pbt::hex(block * 256) + " " + refv::show(o));
    g.extra_evaluations(255);
    for (std::uint32_t c = std::uint32_t(block * 256), e = c + 256; c != e; ++c)
    {
        std::string out;
        lexy::visualize_to(std::back_inserter(out), lexy::code_point(c), o);
        check_colors(out, o.is_set(lexy::visualize_use_color));
        auto plain = refv::plain(out);
        pbt::check_eq(plain, refv::code_point(s, c), "code point " + pbt::hex(c));
        pbt::check_eq((long long)lexy::visualization_display_width(lexy::code_point(c), o), (long long)width_of(plain), "width of code point " + pbt::hex(c));
    }
    pbt::check_eq(render(g, lexy::code_point(), o), refv::code_point(s, 0xFFFFFFFF), "invalid code point");
    g.nontrivial("cp" + pbt::num((long long)block));
}
PBT_PROP(string_lexeme, 3)
{
    lexemes<string_holder>(g);
}
PBT_PROP(range_lexeme, 2)
{
    lexemes<range_holder>(g);
}
PBT_PROP(trees, 3)
{
    switch (g.below(3))
    {
    case 0:
        return tree<lexy::utf8_encoding>(g);
    case 1:
        return tree<lexy::default_encoding>(g);
    default:
        return tree<lexy::utf16_encoding>(g);
    }
}
PBT_PROP(string_report, 4)
{
    reports<string_holder>(g);
}
PBT_PROP(buffer_report, 2)
{
    reports<buffer_holder>(g);
}
PBT_PROP(range_report, 2)
{
    reports<range_holder>(g);
}
