// C19: input locations equal counting from the start.
#include <common.hpp>
#include <lexy/input_location.hpp>
#include <ref_location.hpp>

using namespace refl;

namespace
{
template <typename Holder, typename Enc, typename Counting>
void run(pbt::gen& g, policy p, std::size_t width, bool use_default)
{
    auto   u = gen_units<Enc>(g, p == policy::bytes ? 260 : 90);
    Holder h(u);
    using input_t = typename Holder::input_type;
    using loc_t   = lexy::input_location<input_t, Counting>;
    auto begin    = h.input.reader().position();
    auto off      = [&](auto it) { return dist(begin, it); };

    auto position = static_cast<std::size_t>(g.below(u.size() + 1));
    g.note(std::string(enc_traits<Enc>::name) + "/" + Holder::kind + " policy " + pbt::num(int(p)) + " width "
           + pbt::num((long long)width) + " text " + show(u) + " position " + pbt::num((long long)position));
    g.label(Holder::kind);

    auto get = [&](std::size_t pos) -> loc_t {
        auto it = step(begin, pos);
        if constexpr (std::is_same_v<Counting, lexy::_default_location_counting<input_t>>)
        {
            if (use_default)
                return lexy::get_input_location(h.input, it);
        }
        return lexy::get_input_location<Counting>(h.input, it);
    };
    auto verify = [&](const loc_t& l, std::size_t pos, const char* what) {
        auto r = ref_location<Enc>(u, pos, p, width);
        pbt::check_eq(l.line_nr(), r.line, std::string(what) + " line");
        pbt::check_eq(l.column_nr(), r.col, std::string(what) + " column");
        pbt::check_eq((long long)off(l.position()), (long long)r.col_begin, std::string(what) + " position");
    };
    loc_t start(h.input);
    verify(start, 0, "start");

    auto loc = get(position);
    verify(loc, position, "location");
    auto r = ref_location<Enc>(u, position, p, width);

    // Anchors: any later position, from this location's anchor; the result can be anchored on again.
    auto cur_loc = loc;
    auto cur     = position;
    for (int i = 0; i != 3; ++i)
    {
        auto next = cur + static_cast<std::size_t>(g.below(u.size() - cur + 1));
        auto l    = lexy::get_input_location<Counting>(h.input, step(begin, next), cur_loc.anchor());
        verify(l, next, "anchored location");
        // Order.
        auto rn = ref_location<Enc>(u, next, p, width), rc = ref_location<Enc>(u, cur, p, width);
        auto lt = std::make_pair(rc.line, rc.col) < std::make_pair(rn.line, rn.col);
        auto eq = std::make_pair(rc.line, rc.col) == std::make_pair(rn.line, rn.col);
        PBT_CHECK((cur_loc < l) == lt);
        PBT_CHECK((cur_loc > l) == false);
        PBT_CHECK((cur_loc == l) == eq);
        PBT_CHECK((cur_loc != l) == !eq);
        PBT_CHECK((cur_loc <= l) == true);
        PBT_CHECK((cur_loc >= l) == eq);
        PBT_CHECK((l > cur_loc) == lt);
        PBT_CHECK((l < cur_loc) == false);
        PBT_CHECK((l >= cur_loc) == true);
        PBT_CHECK((l <= cur_loc) == eq);
        cur_loc = l;
        cur     = next;
    }
    // A position earlier in the same line is also reachable from the anchor.
    {
        auto q = r.line_begin + static_cast<std::size_t>(g.below(position - r.line_begin + 1));
        verify(lexy::get_input_location<Counting>(h.input, step(begin, q), loc.anchor()), q, "same line");
    }

    // Line annotation.
    auto b                  = r.col_begin;
    auto len                = static_cast<std::size_t>(g.weighted({1, 2, 1}) == 0 ? 0 : g.below(u.size() - b + 1));
    auto e                  = b + len;
    auto by_size            = g.boolean();
    auto size               = len;
    if (by_size && g.chance(1, 6))
        size = len = u.size() - b + 1 + g.below(5); // beyond the end: clamped
    g.note(std::string("annotation ") + (by_size ? "size " : "end ") + pbt::num((long long)(by_size ? size : e)));
    auto ann = by_size ? lexy::get_input_line_annotation(h.input, loc, size)
                       : lexy::get_input_line_annotation(h.input, loc, step(begin, e));

    auto x         = ref_annotation<Enc>(u, r, by_size ? size : len, p, width);
    auto exp_e     = x.end;
    auto exp_trunc = x.truncated;
    bool ann_nl    = x.newline;
    auto rounded   = x.rounded;

    pbt::check_eq((long long)off(ann.before.begin()), (long long)r.line_begin, "before.begin");
    pbt::check_eq((long long)off(ann.before.end()), (long long)b, "before.end");
    pbt::check_eq((long long)off(ann.annotated.begin()), (long long)b, "annotated.begin");
    pbt::check_eq((long long)off(ann.after.begin()), (long long)off(ann.annotated.end()), "after.begin");
    pbt::check_eq((long long)off(ann.after.end()), (long long)x.after_end, "after.end");
    pbt::check_eq((long long)off(ann.annotated.end()), (long long)exp_e, "annotated.end");
    pbt::check_eq(ann.annotated_newline, ann_nl, "annotated_newline");
    pbt::check_eq(ann.truncated_multiline, exp_trunc, "truncated_multiline");
    pbt::check_eq(ann.rounded_end, rounded, "rounded_end");

    if (r.line > 1 && u.size() > 3)
    {
        g.label("location after the first line");
        g.nontrivial(show(u) + "@" + pbt::num((long long)position) + Holder::kind + enc_traits<Enc>::name + pbt::num(int(p)));
    }
    if (position != r.col_begin)
        g.label("position inside a column");
    if (exp_trunc)
        g.label("multi-line annotation");
    if (rounded)
        g.label("rounded annotation");
    if (ann_nl)
        g.label("annotated newline");
}

template <template <typename> class Holder>
void text(pbt::gen& g)
{
    using cu = lexy::code_unit_location_counting;
    using cp = lexy::code_point_location_counting;
    auto def = g.boolean();
    switch (g.below(10))
    {
    case 0:
        return run<Holder<lexy::default_encoding>, lexy::default_encoding, cu>(g, policy::unit, 0, def);
    case 1:
        return run<Holder<lexy::utf8_encoding>, lexy::utf8_encoding, cu>(g, policy::unit, 0, def);
    case 2:
        return run<Holder<lexy::utf8_encoding>, lexy::utf8_encoding, cp>(g, policy::point, 0, def);
    case 3:
        return run<Holder<lexy::utf8_char_encoding>, lexy::utf8_char_encoding, cp>(g, policy::point, 0, def);
    case 4:
        return run<Holder<lexy::utf16_encoding>, lexy::utf16_encoding, cu>(g, policy::unit, 0, def);
    case 5:
        return run<Holder<lexy::utf16_encoding>, lexy::utf16_encoding, cp>(g, policy::point, 0, def);
    case 6:
        return run<Holder<lexy::utf32_encoding>, lexy::utf32_encoding, cp>(g, policy::point, 0, def);
    case 7:
        return run<Holder<lexy::ascii_encoding>, lexy::ascii_encoding, cp>(g, policy::point, 0, def);
    case 8:
        return run<Holder<lexy::ascii_encoding>, lexy::ascii_encoding, cu>(g, policy::unit, 0, def);
    default:
        return run<Holder<lexy::utf32_encoding>, lexy::utf32_encoding, cu>(g, policy::unit, 0, def);
    }
}
} // namespace

PBT_PROP(string_location, 4)
{
    text<string_holder>(g);
}
PBT_PROP(buffer_location, 4)
{
    text<buffer_holder>(g);
}
PBT_PROP(range_location, 2)
{
    text<range_holder>(g);
}
PBT_PROP(byte_location, 3)
{
    using e = lexy::byte_encoding;
    switch (g.below(9))
    {
    case 0:
        return run<buffer_holder<e>, e, lexy::byte_location_counting<>>(g, policy::bytes, 16, g.boolean());
    case 1:
        return run<buffer_holder<e>, e, lexy::byte_location_counting<1>>(g, policy::bytes, 1, false);
    case 2:
        return run<buffer_holder<e>, e, lexy::byte_location_counting<2>>(g, policy::bytes, 2, false);
    case 3:
        return run<buffer_holder<e>, e, lexy::byte_location_counting<7>>(g, policy::bytes, 7, false);
    case 5:
        return run<string_holder<e>, e, lexy::byte_location_counting<32>>(g, policy::bytes, 32, false);
    case 6:
        return run<string_holder<e>, e, lexy::byte_location_counting<19>>(g, policy::bytes, 19, false);
    case 7:
        return run<string_holder<e>, e, lexy::byte_location_counting<100>>(g, policy::bytes, 100, false);
    case 4:
        return run<range_holder<e>, e, lexy::byte_location_counting<5>>(g, policy::bytes, 5, false);
    default:
        return run<range_holder<e>, e, lexy::byte_location_counting<16>>(g, policy::bytes, 16, false);
    }
}
