// Support of C27: re-parsing parse trees. Generated grammars describe themselves to the reference interpreter.
#ifndef HARNESS_C27_SUPPORT_HPP
#define HARNESS_C27_SUPPORT_HPP
#define LEXY_EXPERIMENTAL 1
#include <errs.hpp>
#include <functional>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/parse_tree.hpp>

namespace rp
{
namespace dsl = lexy::dsl;

enum class tk
{
    a,
    b,
    num,
};
constexpr const char* token_kind_name(tk k)
{
    return k == tk::a ? "a" : k == tk::b ? "b" : "num";
}
struct P0
{
    static constexpr auto name = "P0";
    static constexpr auto rule = dsl::any;
};
struct P1
{
    static constexpr auto name = "P1";
    static constexpr auto rule = dsl::any;
};
struct P2 : lexy::token_production
{
    static constexpr auto name = "P2";
    static constexpr auto rule = dsl::any;
};

using input_type  = lexy::string_input<>;
using source_tree = lexy::parse_tree_for<input_type, tk>;
using tree_input  = lexy::parse_tree_input<source_tree::node>;

inline const char* base = nullptr; // start of the text

//=== values ===//
template <typename T>
std::string show(const T& v)
{
    if constexpr (std::is_same_v<T, std::string>)
        return v;
    else if constexpr (std::is_same_v<T, int>)
        return "#" + std::to_string(v);
    else if constexpr (std::is_same_v<T, lexy::nullopt>)
        return "none";
    else if constexpr (std::is_same_v<T, const char*>)
        return "@" + std::to_string(v - base);
    else
        return "[" + std::to_string(v.begin() - base) + "," + std::to_string(v.end() - base) + ")";
}
struct make_t
{
    using return_type = std::string;
    template <typename... Ts>
    std::string operator()(const Ts&... ts) const
    {
        std::string r;
        ((r += (r.empty() ? "" : " ") + show(ts)), ...);
        return "(" + r + ")";
    }
    struct sink_t
    {
        using return_type = std::string;
        std::string r;
        template <typename... Ts>
        void operator()(const Ts&... ts)
        {
            r += make_t{}(ts...);
        }
        std::string finish() &&
        {
            return "{" + r + "}";
        }
    };
    sink_t sink() const
    {
        return {};
    }
};
constexpr make_t make{};

//=== description of a grammar ===//
struct rn
{
    std::string     op, s;
    std::vector<rn> k;
};
struct outcome
{
    bool        matched = false, has_value = false, success = false, fatal = false;
    bool        validate_success = false, tree_ok = false;
    std::string value, errors, validate_errors, tree;
};
struct grammar
{
    std::string                                  text;
    std::vector<std::pair<std::string, rn>>      prods; // first one is the root
    std::vector<std::string>                     ws;    // node kinds
    std::function<outcome(const tree_input&)>    run;
};
std::vector<grammar>& grammars();
struct reg
{
    explicit reg(grammar g)
    {
        grammars().push_back(std::move(g));
    }
};

// Writes down productions and tokens like a parse tree would have them.
struct recorder
{
    std::string* out;
    std::size_t  children = 0;

    class event_handler
    {
        const char* _name;
        const char* _begin = nullptr;
        std::size_t _outer = 0;

    public:
        event_handler(lexy::production_info info) : _name(info.name) {}

        void on(recorder& h, lexy::parse_events::production_start, const char* pos)
        {
            *h.out += _name + std::string("{ ");
            _begin     = pos;
            _outer     = h.children;
            h.children = 0;
        }
        void on(recorder& h, lexy::parse_events::production_finish, const char*)
        {
            if (h.children == 0)
                *h.out += "position[" + std::to_string(_begin - base) + "," + std::to_string(_begin - base) + ") ";
            *h.out += "} ";
            h.children = _outer + 1;
        }
        template <typename TokenKind>
        void on(recorder& h, lexy::parse_events::token, TokenKind kind, const char* begin, const char* end)
        {
            auto k = lexy::token_kind<tk>(kind);
            if (begin == end && k.ignore_if_empty())
                return;
            *h.out += std::string(k.name()) + "[" + std::to_string(begin - base) + "," + std::to_string(end - base) + ") ";
            ++h.children;
        }
        template <typename Event, typename... Args>
        int on(recorder&, Event, const Args&...)
        {
            return 0;
        }
    };
    template <typename Production, typename State>
    using value_callback = lexy::_detail::void_value_callback;

    template <typename T>
    bool get_result(bool ok) &&
    {
        return ok;
    }
};
template <typename>
using plain_bool = bool;

template <typename Root>
outcome run(const tree_input& in)
{
    outcome o;
    {
        hc::err_list errs;
        auto         r = lexy::parse<Root>(in, hc::err_collect<const char*>{&errs, base});
        o.has_value    = r.has_value();
        o.success      = r.is_success();
        o.fatal        = r.is_fatal_error();
        if (r.has_value())
            o.value = r.value();
        o.errors = hc::show_errors(errs);
    }
    {
        hc::err_list errs;
        auto         r     = lexy::validate<Root>(in, hc::err_collect<const char*>{&errs, base});
        o.validate_success = r.is_success();
        o.validate_errors  = hc::show_errors(errs);
    }
    o.matched = lexy::match<Root>(in);
    {
        auto reader = in.reader();
        o.tree_ok   = lexy::do_action<Root, plain_bool>(recorder{&o.tree}, static_cast<void*>(nullptr), reader);
    }
    return o;
}
} // namespace rp
#endif
