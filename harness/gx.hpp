// Support for the generated grammars: value callbacks that render what they get as text, and the actions run on a grammar.
#ifndef HARNESS_GX_HPP
#define HARNESS_GX_HPP
#include <errs.hpp>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <ref.hpp>
#ifdef GX_SCAN
#    include <lexy/action/scan.hpp>
#endif
#ifdef GX_TRACKED
#    include <tracked.hpp>
#endif

namespace dsl = lexy::dsl;

namespace gx
{
inline constexpr auto idt = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alpha_digit);

// Context variables.
struct c0_id;
struct c1_id;
struct f0_id;
struct f1_id;
struct i0_id;
struct i1_id;
inline constexpr auto c0 = dsl::context_counter<c0_id>;
inline constexpr auto c1 = dsl::context_counter<c1_id>;
inline constexpr auto f0 = dsl::context_flag<f0_id>;
inline constexpr auto f1 = dsl::context_flag<f1_id>;
inline constexpr auto i0 = dsl::context_identifier<i0_id>(idt);
inline constexpr auto i1 = dsl::context_identifier<i1_id>(idt);

enum fl : unsigned char
{
};
enum class sfl : unsigned short
{
};

struct errA
{
    static constexpr auto name = "errA";
};
struct errB
{
    static constexpr auto name = "errB";
};
struct errC
{
    static constexpr auto name = "errC";
};
enum class kind
{
    k0,
    k1,
    k2,
};
constexpr const char* token_kind_name(kind k)
{
    return k == kind::k0 ? "kind0" : k == kind::k1 ? "kind1" : "kind2";
}

//=== values ===//
// The start of the input being parsed, for offsets.
template <typename Iter>
inline Iter input_begin{};

#ifdef GX_TRACKED
struct val : trk::movable<std::string>
{
    val(std::string s) : movable(std::move(s)) {}
};
inline std::string text(const val& v)
{
    return v.get();
}
#else
struct val
{
    std::string s;
};
inline std::string text(const val& v)
{
    return v.s;
}
#endif
template <typename Reader>
std::string text(lexy::lexeme<Reader> l)
{
    using iter = typename Reader::iterator;
    return ref::interp::lexeme(hc::dist(input_begin<iter>, l.begin()), hc::dist(input_begin<iter>, l.end()));
}
inline std::string text(sfl f)
{
    return "#" + std::to_string(static_cast<int>(f));
}
inline std::string text(lexy::nullopt)
{
    return "none";
}
template <typename T>
std::string text(const T& t)
{
    if constexpr (std::is_integral_v<T>)
        return std::to_string(t);
    else if constexpr (std::is_convertible_v<T, int>)
        return "#" + std::to_string(static_cast<int>(t));
    else if constexpr (std::is_empty_v<T>)
        return "op";
    else
        return "@" + std::to_string(hc::dist(input_begin<T>, t));
}

struct packed;
std::string text(const packed&);
template <typename... Args>
std::string args_text(const Args&... args)
{
    std::string r;
    ((r += (r.empty() ? "" : ",") + text(args)), ...);
    return r;
}

// The value of parse_as.
struct packed : val
{
    template <typename... Args, typename = std::enable_if_t<!(sizeof...(Args) == 1 && (std::is_same_v<Args, packed> && ...))>>
    explicit packed(const Args&... args) : val{"<" + args_text(args...) + ">"}
    {}
};
inline std::string text(const packed& p)
{
    return text(static_cast<const val&>(p));
}

// The value of a production: its name and what it was given. Lists are collected with a sink.
struct cb
{
    const char* name;

    using return_type = val;
    template <typename... Args>
    val operator()(const Args&... args) const
    {
        return {std::string(name) + "(" + args_text(args...) + ")"};
    }
    struct sink_t
    {
        std::string s = "{";
        using return_type = val;
        template <typename... Args>
        void operator()(const Args&... args)
        {
            s += "(" + args_text(args...) + ")";
        }
        val finish() &&
        {
            return {s + "}"};
        }
    };
    sink_t sink() const
    {
        return {};
    }
};

// Aggregates of members.
struct member_text
{
    std::string s = "-";
    template <typename T>
    member_text& operator=(const T& t)
    {
        s = text(t);
        return *this;
    }
    member_text()                              = default;
    member_text(const member_text&)            = default;
    member_text& operator=(const member_text&) = default;
};
struct agg
{
    member_text a, b, c;
};
struct agg_cb
{
    const char* name;

    using return_type = val;
    template <typename... Args>
    auto operator()(Args&&... args) const -> std::enable_if_t<sizeof...(Args) != 0, val>
    {
        agg r = lexy::as_aggregate<agg>(LEXY_FWD(args)...);
        return {std::string(name) + "<" + r.a.s + ";" + r.b.s + ";" + r.c.s + ">"};
    }
    auto sink() const
    {
        return lexy::as_aggregate<agg>.sink();
    }
};

// Tags of operators.
struct tag_pos
{
    std::size_t at;
    template <typename Iter>
    explicit tag_pos(Iter it) : at(hc::dist(input_begin<Iter>, it))
    {}
};
inline std::string text(const tag_pos& t)
{
    return "T@" + std::to_string(t.at);
}
struct state_t
{
    int dummy = 0;
};
struct tag_state
{
    std::size_t at;
    template <typename Iter>
    tag_state(state_t& s, Iter it) : at(hc::dist(input_begin<Iter>, it))
    {
        ++s.dummy;
    }
};
inline std::string text(const tag_state& t)
{
    return "T@" + std::to_string(t.at);
}
struct tag_plain
{};
inline std::string text(const tag_plain&)
{
    return "tag";
}

// With a parse state, where the grammars need one.
#ifdef GX_STATE
inline state_t the_state;
#    define GX_WITH_STATE , the_state
#else
#    define GX_WITH_STATE
#endif

//=== results ===//
struct result
{
    bool        success = false, error = false, recovered = false, fatal = false, has_value = false;
    std::string value;
    hc::err_list errors;
    std::size_t error_count = 0;
    bool        as_bool = false;
};
template <typename R>
void status(result& r, const R& res)
{
    r.success   = res.is_success();
    r.error     = res.is_error();
    r.recovered = res.is_recovered_error();
    r.fatal     = res.is_fatal_error();
    r.as_bool   = static_cast<bool>(res);
    r.error_count = res.errors();
}
inline std::string show(const result& r)
{
    return std::string(r.success ? "success " : "") + (r.error ? "error " : "") + (r.recovered ? "recovered " : "") + (r.fatal ? "fatal " : "")
           + (r.has_value ? "value " + r.value : "no value") + " " + hc::show_errors(r.errors);
}

//=== scanners ===//
#ifdef GX_SCAN
inline ref::scan_env env;
inline const std::vector<std::string>* expected_log; // of the reference

// All values of a rule.
struct sres;
template <typename T>
constexpr bool no_arg = std::is_same_v<T, sres>;
template <typename T>
constexpr bool no_arg<lexy::scan_result<T>> = true;
struct sres
{
    std::string s;
    template <typename... Args, typename = std::enable_if_t<(!no_arg<std::decay_t<Args>> && ... && true)>>
    explicit sres(const Args&... args) : s("R(" + args_text(args...) + ")")
    {}
};
inline std::string text(const sres& r)
{
    return r.s;
}
inline std::string show(const lexy::scan_result<void>& r)
{
    PBT_CHECK(r.has_value() == static_cast<bool>(r));
    return r ? "void" : "none";
}
template <typename T>
std::string show(const lexy::scan_result<T>& r)
{
    PBT_CHECK(r.has_value() == static_cast<bool>(r));
    return r ? text(r.value()) : "none";
}
template <typename Scanner>
void scan_log(Scanner& s, const std::string& what)
{
    auto iter = s.position();
    using it  = decltype(iter);
    env.log.push_back(what + (s ? " ok @" : " not ok @") + std::to_string(hc::dist(input_begin<it>, iter)) + (s.is_at_eof() ? " EOF" : ""));
    PBT_CHECK(s.current().position() == iter);
    auto rest = s.remaining_input().reader();
    PBT_CHECK(rest.position() == iter);
    PBT_CHECK((rest.peek() == decltype(rest)::encoding::eof()) == s.is_at_eof());
}
// May the scanner recover now?
inline bool expect_failed()
{
    return env.log.size() < expected_log->size() && (*expected_log)[env.log.size()].rfind("not failed", 0) != 0;
}
template <typename Prod, typename Scanner, typename Iter>
void scan_steps(Scanner& s, const std::vector<ref::scan_step>& steps, Iter begin)
{
    for (auto& st : steps)
    {
        switch (st.kind)
        {
        case ref::scan_step::op: {
            auto what = Prod::op(s, st.arg % Prod::op_count);
            scan_log(s, "op" + std::to_string(st.arg % Prod::op_count) + " " + what);
            break;
        }
        case ref::scan_step::error:
            switch (st.arg % 4)
            {
            case 0:
                s.error(errA{}, s.position());
                break;
            case 1:
                s.error(errB{}, begin, s.position());
                break;
            case 2:
                s.error("message", s.position());
                break;
            default:
                s.error("other message", begin, s.position());
            }
            scan_log(s, "error");
            break;
        case ref::scan_step::fatal:
            switch (st.arg % 4)
            {
            case 0:
                s.fatal_error(errA{}, s.position());
                break;
            case 1:
                s.fatal_error(errB{}, begin, s.position());
                break;
            case 2:
                s.fatal_error("message", s.position());
                break;
            default:
                s.fatal_error("other message", begin, s.position());
            }
            scan_log(s, "error");
            break;
        case ref::scan_step::recover:
            if (!expect_failed())
            {
                scan_log(s, "not failed");
                break;
            }
            auto guard = s.error_recovery();
            scan_log(s, "recovery");
            scan_steps<Prod>(s, st.nested, begin);
            if (st.finish)
                LEXY_MOV(guard).finish();
            else
                LEXY_MOV(guard).cancel();
            scan_log(s, st.finish ? "finished" : "cancelled");
            break;
        }
    }
}
template <typename Prod, typename Scanner, typename... Args>
typename Prod::scan_result run_scan(Scanner& s, const Args&... args)
{
    PBT_CHECK(s.begin() == s.position());
    auto c     = env.next();
    auto calls = std::to_string(env.calls);
    auto in    = "R(" + args_text(args...) + ")";
    scan_log(s, "scan " + calls + " depth " + std::to_string(s.recursion_depth()));
    if (!c)
        return lexy::scan_failed;
    auto begin = s.position();
    scan_steps<Prod>(s, c->steps, begin);
    PBT_CHECK(s.begin() == begin);
    scan_log(s, "end");
    if (c->ret == 1 || (c->ret == 0 && !s))
        return lexy::scan_failed;
    if constexpr (std::is_void_v<typename Prod::scan_result::value_type>)
        return true;
    else
        return val{"S" + calls + "(" + in + ")"};
}
#endif

template <typename Input>
auto begin_of(const Input& in)
{
#ifdef GX_SCAN
    env.calls = 0;
    env.log.clear();
#endif
    auto b = in.reader().position();
    using iter        = decltype(b);
    input_begin<iter> = b;
    return b;
}

template <typename Prod, typename Input>
result do_parse(const Input& in)
{
    result r;
    auto   b   = begin_of(in);
    auto   res = lexy::parse<Prod>(in GX_WITH_STATE, hc::err_collect<decltype(b)>{&r.errors, b});
    status(r, res);
    r.has_value = res.has_value();
    if constexpr (!std::is_void_v<typename decltype(res)::value_type>)
        if (res.has_value())
            r.value = text(res.value());
    return r;
}
template <typename Prod, typename Input>
result do_validate(const Input& in)
{
    result r;
    auto   b   = begin_of(in);
    auto   res = lexy::validate<Prod>(in GX_WITH_STATE, hc::err_collect<decltype(b)>{&r.errors, b});
    status(r, res);
    return r;
}
template <typename Prod, typename Input>
bool do_match(const Input& in)
{
    begin_of(in);
    return lexy::match<Prod>(in GX_WITH_STATE);
}

#ifdef GX_SCAN
// lexy::scan() with the operations of a production.
template <typename Prod, typename Control, typename Input>
result do_scan(const Input& in)
{
    result r;
    auto   b = begin_of(in);
    auto   s = lexy::scan<Control>(in GX_WITH_STATE, hc::err_collect<decltype(b)>{&r.errors, b});
    scan_steps<Prod>(s, env.next()->steps, b);
    scan_log(s, "end");
    auto res = LEXY_MOV(s).finish();
    status(r, res);
    return r;
}
#endif

template <typename Node>
void tree_text(const Node& n, ref::tnode& out)
{
    using iter = decltype(n.lexeme().begin());
    out.token  = n.kind().is_token();
    out.text   = n.kind().name();
    if (out.token)
    {
        out.b = hc::dist(input_begin<iter>, n.lexeme().begin());
        out.e = hc::dist(input_begin<iter>, n.lexeme().end());
        return;
    }
    for (auto c : n.children())
    {
        out.kids.emplace_back();
        tree_text(c, out.kids.back());
    }
    // Every production has a child, so its text is the one from its first to its last token.
    PBT_CHECK(!out.kids.empty());
    auto first = &out, last = &out;
    while (!first->token)
        first = &first->kids.front();
    while (!last->token)
        last = &last->kids.back();
    auto text = n.covering_lexeme();
    pbt::check_eq((long long)hc::dist(input_begin<iter>, n.position()), (long long)first->b, "position() of a production node");
    pbt::check_eq((long long)hc::dist(input_begin<iter>, text.begin()), (long long)first->b, "begin of covering_lexeme()");
    pbt::check_eq((long long)hc::dist(input_begin<iter>, text.end()), (long long)last->e, "end of covering_lexeme()");
}
struct tree_result
{
    result      r;
    bool        empty = true;
    ref::tnode  root;
    std::size_t remaining_begin = 0, remaining_end = 0;
};
template <typename Prod, typename Input>
tree_result do_tree(const Input& in)
{
    tree_result r;
    auto        b = begin_of(in);
    lexy::parse_tree_for<Input, kind> tree;
    auto res = lexy::parse_as_tree<Prod>(tree, in GX_WITH_STATE, hc::err_collect<decltype(b)>{&r.r.errors, b});
    status(r.r, res);
    r.empty = tree.empty();
    if (!tree.empty())
    {
        tree_text(tree.root(), r.root);
        r.remaining_begin = hc::dist(b, tree.remaining_input().begin());
        r.remaining_end   = hc::dist(b, tree.remaining_input().end());
    }
    return r;
}
template <typename Prod, typename Input>
std::string do_trace(const Input& in, lexy::visualization_options opts)
{
    begin_of(in);
    std::string s;
    lexy::trace_to<Prod, kind>(std::back_insert_iterator<std::string>(s), in GX_WITH_STATE, opts);
    return s;
}

//=== registry ===//
using view = const char*;
struct entry
{
    const char* name;
    const char* text; // of the grammar
    ref::grammar (*make)();
    bool (*match)(const hc::units&)           = nullptr;
    result (*validate)(const hc::units&)      = nullptr;
    result (*parse)(const hc::units&)         = nullptr;
    tree_result (*tree)(const hc::units&)     = nullptr;
    std::string (*trace)(const hc::units&, lexy::visualization_options) = nullptr;
    struct other_input
    {
        const char* name;
        unsigned    max; // largest code unit
        result (*parse)(const hc::units&);
        tree_result (*tree)(const hc::units&);
        bool (*match)(const hc::units&);
    };
    std::vector<other_input> inputs;
    result (*scan)(const hc::units&)       = nullptr;
    bool ascii = false; // ASCII texts only
    result (*scan_buffer)(const hc::units&) = nullptr;
};
inline std::vector<entry>& entries()
{
    static std::vector<entry> v;
    return v;
}
// Keeps an exactly sized copy of the text, so that sanitizers see every access outside.
struct text_holder
{
    std::unique_ptr<char[]> p;
    std::size_t             n;
    explicit text_holder(const hc::units& u) : p(new char[u.size()]), n(u.size())
    {
        for (std::size_t i = 0; i != n; ++i)
            p[i] = static_cast<char>(u[i]);
    }
    auto input() const
    {
        return lexy::string_input<lexy::default_encoding>(p.get(), n);
    }
};
// A part of a bigger input.
template <typename Enc, bool Buffer>
struct part_holder
{
    using parent = std::conditional_t<Buffer, hc::buffer_holder<Enc>, hc::string_holder<Enc>>;
    parent                                         h;
    lexy::lexeme_input<typename parent::input_type> input;
    static hc::units                               padded(const hc::units& u)
    {
        hc::units r = {'a', '1', '('};
        r.insert(r.end(), u.begin(), u.end());
        for (auto c : {'a', '1', 'b', ')', ' ', 'a', 'b', 'a', '1'})
            r.push_back(std::uint32_t(c));
        return r;
    }
    explicit part_holder(const hc::units& u) : h(padded(u)), input(h.input, h.begin() + 3, h.begin() + 3 + std::ptrdiff_t(u.size())) {}
};
template <typename Enc>
using string_part = part_holder<Enc, false>;
template <typename Enc>
using buffer_part = part_holder<Enc, true>;
template <typename Prod, typename Enc, template <typename> class Holder>
entry::other_input other(const char* name)
{
    return {name, std::is_same_v<Enc, lexy::default_encoding> ? 0xFFu : 0x7Fu,
            [](const hc::units& u) { Holder<Enc> h(u); return do_parse<Prod>(h.input); },
            [](const hc::units& u) { Holder<Enc> h(u); return do_tree<Prod>(h.input); },
            [](const hc::units& u) { Holder<Enc> h(u); return do_match<Prod>(h.input); }};
}
template <typename Prod, unsigned I>
void add_inputs(entry& e)
{
    using lexy::ascii_encoding, lexy::default_encoding, lexy::utf16_encoding, lexy::utf32_encoding, lexy::utf8_char_encoding, lexy::utf8_encoding;
    e.inputs.push_back(other<Prod, default_encoding, hc::buffer_holder>("buffer"));
    if constexpr (I % 6 == 0)
    {
        e.inputs.push_back(other<Prod, utf8_encoding, hc::buffer_holder>("UTF-8 buffer"));
        e.inputs.push_back(other<Prod, default_encoding, hc::range_holder>("forward range"));
    }
    else if constexpr (I % 6 == 1)
    {
        e.inputs.push_back(other<Prod, utf16_encoding, hc::buffer_holder>("UTF-16 buffer"));
        e.inputs.push_back(other<Prod, default_encoding, string_part>("part of a string"));
    }
    else if constexpr (I % 6 == 2)
    {
        e.inputs.push_back(other<Prod, utf32_encoding, hc::string_holder>("UTF-32 string"));
        e.inputs.push_back(other<Prod, utf8_char_encoding, hc::range_holder>("UTF-8 forward range"));
    }
    else if constexpr (I % 6 == 3)
    {
        e.inputs.push_back(other<Prod, ascii_encoding, hc::buffer_holder>("ASCII buffer"));
        e.inputs.push_back(other<Prod, utf16_encoding, hc::range_holder>("UTF-16 forward range"));
    }
    else if constexpr (I % 6 == 4)
    {
        e.inputs.push_back(other<Prod, utf32_encoding, hc::buffer_holder>("UTF-32 buffer"));
        e.inputs.push_back(other<Prod, utf8_encoding, buffer_part>("part of a UTF-8 buffer"));
    }
    else
    {
        e.inputs.push_back(other<Prod, utf16_encoding, hc::string_holder>("UTF-16 string"));
        e.inputs.push_back(other<Prod, ascii_encoding, hc::string_holder>("ASCII string"));
    }
}
enum : unsigned
{
    a_match    = 1,
    a_validate = 2,
    a_parse    = 4,
    a_tree     = 8,
    a_trace    = 16,
    a_inputs   = 32,
};
#ifndef GX_ACTIONS
#    define GX_ACTIONS (a_match | a_parse)
#endif
#ifdef GX_SCAN
template <typename Prod, typename Control, unsigned I>
int reg_scan()
{
    auto& e = entries().back();
    e.scan  = [](const hc::units& u) { text_holder h(u); return do_scan<Prod, Control>(h.input()); };
    if constexpr (I % 2 == 0)
        e.scan_buffer = [](const hc::units& u) { hc::buffer_holder<lexy::default_encoding> h(u); return do_scan<Prod, Control>(h.input); };
    else
        e.scan_buffer = [](const hc::units& u) { hc::range_holder<lexy::default_encoding> h(u); return do_scan<Prod, Control>(h.input); };
    return 0;
}
#endif
// Every other grammar uses a buffer, which has a sentinel and so the code paths for SWAR.
struct sentinel_holder
{
    hc::buffer_holder<lexy::utf8_char_encoding> h;
    explicit sentinel_holder(const hc::units& u) : h(u) {}
    const auto& input() const
    {
        return h.input;
    }
};
#ifdef GX_SCAN
template <unsigned I>
using main_holder = text_holder;
#else
template <unsigned I>
using main_holder = std::conditional_t<I % 2 == 0, text_holder, sentinel_holder>;
#endif
template <typename Prod, unsigned I = 0>
int reg(const char* name, const char* text, ref::grammar (*make)())
{
    entry e;
    e.name = name;
    e.text = text;
    e.make = make;
    e.ascii = I % 2 != 0;
    if constexpr ((GX_ACTIONS & a_match) != 0)
        e.match = [](const hc::units& u) { main_holder<I> h(u); return do_match<Prod>(h.input()); };
    if constexpr ((GX_ACTIONS & a_validate) != 0)
        e.validate = [](const hc::units& u) { main_holder<I> h(u); return do_validate<Prod>(h.input()); };
    if constexpr ((GX_ACTIONS & a_parse) != 0)
        e.parse = [](const hc::units& u) { main_holder<I> h(u); return do_parse<Prod>(h.input()); };
    if constexpr ((GX_ACTIONS & a_tree) != 0)
        e.tree = [](const hc::units& u) { main_holder<I> h(u); return do_tree<Prod>(h.input()); };
    if constexpr ((GX_ACTIONS & a_trace) != 0)
        e.trace = [](const hc::units& u, lexy::visualization_options o) { text_holder h(u); return do_trace<Prod>(h.input(), o); };
    if constexpr ((GX_ACTIONS & a_inputs) != 0)
        add_inputs<Prod, I>(e);
    entries().push_back(e);
    return 0;
}
} // namespace gx
using namespace ref;
#endif
