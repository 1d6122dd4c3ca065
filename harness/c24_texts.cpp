// Prints texts for the generated grammars, with what the reference makes of them.
#include <ref.hpp>
using namespace ref;
struct ref_entry
{
    const char* name;
    ref::grammar (*make)();
};
extern const ref_entry ref_entries[];
extern const unsigned  ref_count;

static std::string hex(const std::string& s)
{
    std::string r = "x";
    for (unsigned char c : s)
    {
        char b[4];
        std::snprintf(b, sizeof b, "%02x", c);
        r += b;
    }
    return r;
}
PBT_PROP(text, 1)
{
    static std::vector<ref::grammar> gs = [] {
        std::vector<ref::grammar> v;
        for (unsigned i = 0; i != ref_count; ++i)
            v.push_back(ref_entries[i].make());
        return v;
    }();
    static unsigned count = 0;
    auto            i     = count++ % ref_count;
    auto            u     = ref::gen_text(g, gs[i]);
    if (u.size() > 70)
        return;
    ref::outcome o;
    try
    {
        o = ref::run(gs[i], u);
    }
    catch (ref::budget_exceeded&)
    {
        return;
    }
    if (o.events.size() > 400)
        return;
    std::string text, errors;
    for (auto c : u)
        text += char(c);
    for (auto& e : o.errors)
    {
        // without the position of the production
        auto s  = e;
        auto at = s.rfind('@');
        auto in = s.rfind(")in ");
        if (at != std::string::npos && in != std::string::npos && at > in)
            s.resize(at);
        errors += s + " ";
    }
    std::printf("CASE %s %s %d %s %s %zu\n", ref_entries[i].name, hex(text).c_str(), o.success() ? 1 : o.ok ? 2 : 0, hex(o.ok ? o.value : "").c_str(), hex(errors).c_str(), o.events.size());
    std::fflush(stdout);
}
