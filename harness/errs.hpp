// Error callback that records every error as text: kind, range, enclosing production and its start.
#ifndef HARNESS_ERRS_HPP
#define HARNESS_ERRS_HPP
#include <common.hpp>
#include <lexy/callback/adapter.hpp>
#include <lexy/error.hpp>
#include <lexy/input/base.hpp>

namespace hc
{
struct err_rec
{
    std::string kind;       // "literal", "keyword", "class", or the message of a generic error
    std::string detail;     // literal/keyword text, class name
    std::size_t index = 0;  // of a literal error
    std::size_t pos = 0, end = 0;
    std::string production;
    std::size_t production_pos = 0;

    std::string str() const
    {
        std::string r = kind;
        if (!detail.empty())
            r += "<" + detail + ">";
        if (kind == "literal")
            r += "#" + std::to_string(index);
        r += "[" + std::to_string(pos) + "," + std::to_string(end) + ")";
        if (!production.empty())
            r += "in " + production + "@" + std::to_string(production_pos);
        return r;
    }
    // without the production
    std::string brief() const
    {
        auto c = *this;
        c.production.clear();
        return c.str();
    }
    friend bool operator==(const err_rec& a, const err_rec& b)
    {
        return a.str() == b.str();
    }
};
using err_list = std::vector<err_rec>;
inline std::string show_errors(const err_list& l, bool with_production = true)
{
    std::string r;
    for (auto& e : l)
        r += (r.empty() ? "" : " ") + (with_production ? e.str() : e.brief());
    return "{" + r + "}";
}

template <typename It>
std::string units_text(It p, std::size_t n)
{
    std::string r;
    for (std::size_t i = 0; i != n; ++i)
    {
        auto c = static_cast<std::uint32_t>(p[i]);
        if (sizeof(p[i]) == 1)
            c &= 0xFF;
        if (c >= 0x20 && c < 0x7F)
            r += char(c);
        else
        {
            char buf[16];
            std::snprintf(buf, sizeof buf, "{%x}", c);
            r += buf;
        }
    }
    return r;
}

// Begin: start of the input, to compute offsets.
template <typename Iter>
struct err_collect
{
    err_list* out;
    Iter      input_begin;

    using return_type = std::size_t;
    struct sink_t
    {
        err_list*   out;
        Iter        input_begin;
        std::size_t count = 0;
        using return_type = std::size_t;

        template <typename It>
        std::size_t at(It it) const
        {
            return dist(input_begin, Iter(it));
        }
        template <typename Ctx>
        err_rec base(const Ctx& ctx)
        {
            ++count;
            err_rec r;
            r.production     = ctx.production();
            r.production_pos = at(ctx.position());
            return r;
        }
        template <typename Ctx, typename Reader>
        void operator()(const Ctx& ctx, const lexy::error<Reader, lexy::expected_literal>& e)
        {
            auto r   = base(ctx);
            r.kind   = "literal";
            r.detail = units_text(e.string(), e.length());
            r.index  = e.index();
            r.pos = r.end = at(e.position());
            out->push_back(r);
        }
        template <typename Ctx, typename Reader>
        void operator()(const Ctx& ctx, const lexy::error<Reader, lexy::expected_keyword>& e)
        {
            auto r   = base(ctx);
            r.kind   = "keyword";
            r.detail = units_text(e.string(), e.length());
            r.pos    = at(e.begin());
            r.end    = at(e.end());
            out->push_back(r);
        }
        template <typename Ctx, typename Reader>
        void operator()(const Ctx& ctx, const lexy::error<Reader, lexy::expected_char_class>& e)
        {
            auto r   = base(ctx);
            r.kind   = "class";
            r.detail = e.name();
            r.pos = r.end = at(e.position());
            out->push_back(r);
        }
        template <typename Ctx, typename Reader, typename Tag>
        void operator()(const Ctx& ctx, const lexy::error<Reader, Tag>& e)
        {
            auto r = base(ctx);
            r.kind = e.message();
            r.pos  = at(e.begin());
            r.end  = at(e.end());
            out->push_back(r);
        }
        std::size_t finish() &&
        {
            return count;
        }
    };
    sink_t sink() const
    {
        return {out, input_begin};
    }
};
template <typename Input>
auto collect_errors(err_list& out, const Input& in)
{
    auto b = in.reader().position();
    return err_collect<decltype(b)>{&out, b};
}
} // namespace hc
#endif
