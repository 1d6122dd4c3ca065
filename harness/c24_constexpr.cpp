// Constant evaluation against evaluation at run time.
#include <pbt.hpp>
#include <string>
#include <vector>
#include <cx.hpp>

namespace
{
std::string show(std::uint64_t d)
{
    char buf[128];
    std::snprintf(buf, sizeof buf, "verdict %#x value digest %#x errors digest %#x", unsigned(d >> 56), unsigned(d >> 28) & 0xFFFFFFFu, unsigned(d) & 0xFFFFFFFu);
    return buf;
}
} // namespace
PBT_PROP(case_, 1)
{
    auto& t = gx::tests()[g.enumerate(gx::tests().size())];
    g.note(std::string(t.grammar) + " (" + t.kind + ") on \"" + t.input + "\"\n" + t.text);
    if (t.input.size() > 1)
        g.nontrivial(std::string(t.grammar) + t.kind + t.input);
    g.label(t.kind);
    pbt::check(t.is_constant, "the parse is not a constant expression");
    auto r = t.at_run_time();
    pbt::check_eq(show(t.at_compile_time), show(r), "at compile time (actual) and at run time (expected)");
    if (t.has_expected)
    {
        unsigned v = t.verdict == 1 ? unsigned(gx::v_success | gx::v_match | gx::v_validate) : 0u;
        if (t.verdict == 2)
            v |= gx::v_recovered;
        if (t.verdict != 0)
            v |= gx::v_value;
        v |= gx::v_same_errors;
        pbt::check_eq(show(r), show(gx::digest::make(v, t.value, t.errors)), std::string("the reference has value ") + t.value + " and errors " + t.errors);
        g.label(t.verdict == 1 ? "success" : t.verdict == 2 ? "recovered" : "fatal");
    }
}
