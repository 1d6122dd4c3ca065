// C20: inputs and buffers present exactly the given data.
#include <cerrno>
#include <common.hpp>
#include <errs.hpp>
#include <list>
#include <map>
#include <sys/stat.h>
#include <unistd.h>

#include <lexy/action/parse.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/file.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy_ext/report_error.hpp>
#include <lexy_ext/shell.hpp>
#include <src/input/file.cpp>

using namespace hc;

namespace
{
// What a reader delivers until the end of input, walking with some detours.
template <typename Reader>
units walk(pbt::gen& g, Reader r, std::size_t limit)
{
    using enc = typename Reader::encoding;
    units u;
    auto  begin = r.position();
    auto  mark  = r.current();
    units at_mark;
    while (r.peek() != enc::eof())
    {
        auto c = r.peek();
        PBT_CHECK(c == r.peek());
        u.push_back(std::uint32_t(static_cast<std::conditional_t<sizeof(char_of<enc>) == 1, unsigned char, std::conditional_t<sizeof(char_of<enc>) == 2, std::uint16_t, std::uint32_t>>>(c)));
        r.bump();
        if (u.size() > limit)
            pbt::fail("the reader delivers more than the input has");
        if (u.size() % 7 == 3 && g.chance(1, 6))
        {
            PBT_CHECK(mark.position() == step(begin, at_mark.size()));
            r.reset(mark);
            u = at_mark;
            PBT_CHECK(r.position() == mark.position());
            mark = r.current();
        }
        else if (u.size() % 5 == 1 && g.chance(1, 3))
        {
            mark    = r.current();
            at_mark = u;
        }
    }
    PBT_CHECK(r.position() == step(begin, u.size()));
    PBT_CHECK(r.peek() == enc::eof());
    return u;
}
template <typename Input>
void presents(pbt::gen& g, const Input& in, const units& u, const std::string& what)
{
    pbt::check_eq(show(walk(g, in.reader(), u.size())), show(u), what);
}

//=== buffers ===//
struct resource
{
    std::map<void*, std::pair<std::size_t, std::size_t>> live;
    int                                                  id = 0;

    void* allocate(std::size_t bytes, std::size_t alignment)
    {
        auto p = ::operator new(bytes);
        live.emplace(p, std::make_pair(bytes, alignment));
        return p;
    }
    void deallocate(void* p, std::size_t bytes, std::size_t alignment)
    {
        auto it = live.find(p);
        if (it == live.end())
            std::fprintf(stderr, "deallocate of something that was not allocated here\n"), std::abort();
        if (it->second != std::make_pair(bytes, alignment))
            std::fprintf(stderr, "deallocate with another size or alignment\n"), std::abort();
        live.erase(it);
        ::operator delete(p);
    }
    friend bool operator==(const resource& a, const resource& b)
    {
        return &a == &b;
    }
};
template <typename T>
struct view
{
    const T*    p;
    std::size_t n;
    const T*    data() const
    {
        return p;
    }
    std::size_t size() const
    {
        return n;
    }
};
template <typename Enc>
units content(pbt::gen& g)
{
    auto kind = g.below(4);
    if (kind == 0)
        return gen_units<Enc>(g, 40);
    if (kind == 1)
        return gen_units<Enc>(g, 9);
    // Sizes around the rounding thresholds.
    units u(g.below(70));
    auto  c = std::uint32_t(g.below(enc_traits<Enc>::max));
    for (auto& x : u)
        x = c;
    if (!u.empty())
        u.back() = std::uint32_t(g.below(enc_traits<Enc>::max));
    for (auto& x : u)
        if ((long long)x == enc_traits<Enc>::eof_unit)
            x = 1;
    return u;
}

template <typename Enc, typename Res>
void buffers(pbt::gen& g)
{
    using buf = lexy::buffer<Enc, Res>;
    using ch  = char_of<Enc>;
    resource res[2];
    struct slot
    {
        std::unique_ptr<buf> b;
        units                u;
        int                  r     = 0;
        bool                 known = true;
    };
    slot        s[3];
    std::string log = std::string(enc_traits<Enc>::name) + (std::is_void_v<Res> ? "" : "/resource");
    auto        pick_res = [&](int& r) -> Res* {
        r = int(g.below(2));
        if constexpr (std::is_void_v<Res>)
            return lexy::_detail::get_memory_resource<void>();
        else
            return &res[r];
    };
    for (auto& x : s)
    {
        auto p = pick_res(x.r);
        x.b.reset(new buf(p));
    }
    auto ops = 1 + g.below(12);
    bool big = false;
    for (std::size_t k = 0; k != ops; ++k)
    {
        auto  i = g.below(3), j = g.below(3);
        slot &a = s[i], &b = s[j];
        log += " " + pbt::num((long long)i);
        auto fresh = [&](auto make) {
            auto                    u = content<Enc>(g);
            std::unique_ptr<ch[]>   p(new ch[u.size()]);
            for (std::size_t n = 0; n != u.size(); ++n)
                p[n] = ch(u[n]);
            log += show(u);
            int  r;
            auto rp = pick_res(r);
            a.b.reset(make(static_cast<const ch*>(p.get()), u.size(), rp));
            a.u     = u;
            a.r     = r;
            a.known = true;
            big |= u.size() > 3;
        };
        switch (g.below(14))
        {
        case 0:
            log += "=ptr,size";
            fresh([&](auto p, auto n, auto r) { return new buf(p, n, r); });
            break;
        case 1:
            log += "=ptr,ptr";
            fresh([&](auto p, auto n, auto r) { return new buf(p, p + n, r); });
            break;
        case 2:
            log += "=view";
            fresh([&](auto p, auto n, auto r) { return new buf(view<ch>{p, n}, r); });
            break;
        case 3:
            log += "=builder";
            fresh([&](auto p, auto n, auto r) {
                typename buf::builder bd(n, r);
                PBT_CHECK(bd.size() == n);
                for (std::size_t m = 0; m != n; ++m)
                    bd.data()[m] = p[m];
                return new buf(LEXY_MOV(bd).finish());
            });
            break;
        case 4:
            log += "=secondary";
            if constexpr (std::is_same_v<Enc, lexy::utf8_encoding> || std::is_same_v<Enc, lexy::byte_encoding>)
                fresh([&](auto p, auto n, auto r) {
                    auto q = reinterpret_cast<const char*>(p);
                    return g.boolean() ? new buf(q, n, r) : new buf(q, q + n, r);
                });
            else if constexpr (std::is_same_v<Enc, lexy::utf32_encoding>)
                fresh([&](auto p, auto n, auto r) { return new buf(reinterpret_cast<const wchar_t*>(p), n, r); });
            break;
        case 5:
            log += "=string_input";
            fresh([&](auto p, auto n, auto r) { return new buf(lexy::make_buffer_from_input(lexy::string_input<Enc>(p, n), r)); });
            break;
        case 6:
            log += "=range_input";
            fresh([&](auto p, auto n, auto r) {
                std::list<ch>    l(p, p + n);
                lexy::range_input<Enc, typename std::list<ch>::const_iterator> in(l.begin(), l.end());
                return new buf(lexy::make_buffer_from_input(in, r));
            });
            break;
        case 7:
            log += "=copy " + pbt::num((long long)j);
            if (i != j && b.known)
            {
                a.b.reset(new buf(*b.b));
                a.u = b.u, a.r = b.r, a.known = true;
            }
            break;
        case 8:
            log += "=copy with resource " + pbt::num((long long)j);
            if (i != j && b.known)
            {
                int  r;
                auto rp = pick_res(r);
                a.b.reset(new buf(*b.b, rp));
                a.u = b.u, a.r = r, a.known = true;
            }
            break;
        case 9:
            log += "=move " + pbt::num((long long)j);
            if (i != j && b.known)
            {
                a.b.reset(new buf(LEXY_MOV(*b.b)));
                a.u = b.u, a.r = b.r, a.known = true;
                b.known = false;
            }
            break;
        case 10:
            log += ":=" + pbt::num((long long)j);
            if (b.known)
            {
                *a.b = *b.b;
                a.u  = b.u;
                a.known = true;
            }
            break;
        case 11:
            log += ":=move " + pbt::num((long long)j);
            if (i != j && b.known)
            {
                *a.b = LEXY_MOV(*b.b);
                a.u  = b.u;
                a.known = true;
                b.known = false;
            }
            break;
        case 12:
            log += " release, adopt";
            if (a.known)
            {
                auto n = a.b->size();
                auto p = LEXY_MOV(*a.b).release();
                if constexpr (std::is_void_v<Res>)
                    a.b.reset(new buf(buf::adopt(p, n)));
                else
                    a.b.reset(new buf(buf::adopt(p, n, &res[a.r])));
            }
            break;
        default:
            log += "=empty";
            a.b.reset(new buf(pick_res(a.r)));
            a.u.clear();
            a.known = true;
        }
        g.note(log);
        for (auto& x : s)
            if (x.known)
            {
                pbt::check_eq((long long)x.b->size(), (long long)x.u.size(), "size");
                pbt::check_eq(show(to_units(x.b->data(), x.b->data() + x.b->size())), show(x.u), "data");
                presents(g, *x.b, x.u, "reader");
            }
    }
    for (auto& x : s)
        x.b.reset();
    pbt::check_eq((long long)(res[0].live.size() + res[1].live.size()), 0ll, "memory not released");
    if (ops > 2 && big)
        g.nontrivial(log);
}

//=== raw bytes ===//
enum class order
{
    little,
    big,
    bom
};
template <typename Enc>
units ref_raw(const std::vector<unsigned char>& m, order o)
{
    constexpr auto w   = sizeof(char_of<Enc>);
    std::size_t    pos = 0;
    bool           big = o != order::little;
    auto           is  = [&](std::initializer_list<unsigned> l) {
        if (m.size() < l.size())
            return false;
        std::size_t i = 0;
        for (auto x : l)
            if (m[i++] != x)
                return false;
        return true;
    };
    if (o == order::bom)
    {
        if constexpr (std::is_same_v<Enc, lexy::utf8_encoding> || std::is_same_v<Enc, lexy::utf8_char_encoding>)
        {
            if (is({0xEF, 0xBB, 0xBF}))
                pos = 3;
        }
        else if constexpr (w == 2)
        {
            if (is({0xFF, 0xFE}))
                pos = 2, big = false;
            else if (is({0xFE, 0xFF}))
                pos = 2;
        }
        else if constexpr (w == 4)
        {
            if (is({0xFF, 0xFE, 0, 0}))
                pos = 4, big = false;
            else if (is({0, 0, 0xFE, 0xFF}))
                pos = 4;
        }
    }
    units u;
    for (; pos + w <= m.size(); pos += w)
    {
        std::uint32_t v = 0;
        for (std::size_t i = 0; i != w; ++i)
            v |= std::uint32_t(m[pos + i]) << (8 * (big ? w - 1 - i : i));
        u.push_back(v);
    }
    return u;
}
std::vector<unsigned char> gen_raw(pbt::gen& g, std::size_t unit, std::size_t max)
{
    static const std::vector<unsigned char> boms[] = {{}, {0xEF, 0xBB, 0xBF}, {0xFE, 0xFF}, {0xFF, 0xFE}, {0xFF, 0xFE, 0, 0}, {0, 0, 0xFE, 0xFF}};
    auto                                    m      = g.pick(boms);
    if (!m.empty() && g.chance(1, 3))
    {
        if (g.boolean())
            m[g.below(m.size())] = static_cast<unsigned char>(g.below(256));
        else
            m.resize(g.below(m.size()));
    }
    if (g.chance(1, 6))
        m.insert(m.end(), m.begin(), m.end());
    auto n = g.size(max);
    for (std::size_t i = 0; i != n; ++i)
        m.push_back(static_cast<unsigned char>(g.chance(1, 3) ? g.below(256) : g.below(3)));
    m.resize(m.size() / unit * unit);
    return m;
}
// In-band end of input is no text.
template <typename Enc>
bool has_eof_unit(const units& u)
{
    for (auto c : u)
        if ((long long)c == enc_traits<Enc>::eof_unit)
            return true;
    return false;
}
template <typename Enc, lexy::encoding_endianness E>
void raw(pbt::gen& g)
{
    auto o = E == lexy::encoding_endianness::little ? order::little : E == lexy::encoding_endianness::big ? order::big : order::bom;
    auto m = gen_raw(g, sizeof(char_of<Enc>), 40);
    auto u = ref_raw<Enc>(m, o);
    g.note(std::string(enc_traits<Enc>::name) + " order " + pbt::num(int(o)) + " " + pbt::show_range(m.begin(), m.end()));
    std::unique_ptr<unsigned char[]> p(new unsigned char[m.size()]);
    std::copy(m.begin(), m.end(), p.get());
    resource r;
    {
        auto b = lexy::make_buffer_from_raw<Enc, E>(p.get(), m.size(), &r);
        pbt::check_eq(show(to_units(b.data(), b.data() + b.size())), show(u), "units");
        if (!has_eof_unit<Enc>(u))
            presents(g, b, u, "reader");
        auto c = lexy::make_buffer_from_raw<Enc, E>(p.get(), m.size());
        pbt::check_eq(show(to_units(c.data(), c.data() + c.size())), show(u), "units");
    }
    PBT_CHECK(r.live.empty());
    if (u.size() > 2)
        g.nontrivial(std::string(enc_traits<Enc>::name) + std::to_string(int(o)) + show(u));
    if (u.size() * sizeof(char_of<Enc>) != m.size())
        g.label("byte order mark removed");
}
template <typename F>
void each_raw(pbt::gen& g, F f)
{
    using ee    = lexy::encoding_endianness;
    auto orders = [&](auto enc) {
        switch (g.below(4))
        {
        case 0:
            return f(enc, std::integral_constant<ee, ee::little>{});
        case 1:
            return f(enc, std::integral_constant<ee, ee::big>{});
        default:
            return f(enc, std::integral_constant<ee, ee::bom>{});
        }
    };
    switch (g.below(7))
    {
    case 0:
        return f(lexy::default_encoding{}, std::integral_constant<ee, ee::bom>{});
    case 1:
        return orders(lexy::utf8_encoding{});
    case 2:
        return orders(lexy::utf8_char_encoding{});
    case 3:
        return orders(lexy::utf16_encoding{});
    case 4:
        return orders(lexy::utf32_encoding{});
    case 5:
        return f(lexy::byte_encoding{}, std::integral_constant<ee, ee::bom>{});
    default:
        return f(lexy::ascii_encoding{}, std::integral_constant<ee, ee::bom>{});
    }
}

//=== files ===//
struct scratch
{
    std::string dir, file;
    scratch()
    {
        char t[] = "/tmp/verif-c20-XXXXXX";
        if (!::mkdtemp(t))
            std::perror("mkdtemp"), std::exit(3);
        dir  = t;
        file = dir + "/f";
    }
    scratch(const scratch&) = delete;
    ~scratch()
    {
        ::unlink(file.c_str());
        ::rmdir(dir.c_str());
    }
};
std::vector<unsigned char> gen_bytes(pbt::gen& g, std::size_t unit)
{
    static const std::size_t at[] = {0, 1000, 2048, 4096, 8192, 16384, 32768, 65536, 1 << 17};
    if (g.boolean())
        return gen_raw(g, unit, 60);
    auto n = g.pick(at) + g.below(9);
    n -= std::min<std::size_t>(n, 4);
    auto m     = gen_raw(g, unit, 12);
    auto state = std::uint32_t(g.below(1u << 16)) * 2 + 1;
    while (m.size() < n)
        state = state * 1664525 + 1013904223, m.push_back(static_cast<unsigned char>(state >> 24));
    m.resize(m.size() / unit * unit);
    return m;
}
std::string brief(const std::vector<unsigned char>& m)
{
    return pbt::num((long long)m.size()) + " bytes " + pbt::show_range(m.begin(), m.begin() + std::ptrdiff_t(std::min<std::size_t>(m.size(), 24)));
}
template <typename Enc, typename Buffer>
void check_units(const Buffer& b, const units& u)
{
    auto v = to_units(b.data(), b.data() + b.size());
    if (v != u)
    {
        std::size_t i = 0;
        while (i < v.size() && i < u.size() && v[i] == u[i])
            ++i;
        pbt::fail("contents differ: " + pbt::num((long long)v.size()) + " units instead of " + pbt::num((long long)u.size()) + ", first difference at " + pbt::num((long long)i));
    }
    auto r = b.reader();
    if (!has_eof_unit<Enc>(u))
    {
        for (auto c : u)
        {
            PBT_CHECK(r.peek() == Enc::to_int_type(char_of<Enc>(c)));
            r.bump();
        }
        PBT_CHECK(r.peek() == Enc::eof());
    }
}
template <typename Enc, lexy::encoding_endianness E>
void file(pbt::gen& g)
{
    auto o = E == lexy::encoding_endianness::little ? order::little : E == lexy::encoding_endianness::big ? order::big : order::bom;
    auto m = gen_bytes(g, sizeof(char_of<Enc>));
    auto u = ref_raw<Enc>(m, o);
    g.note(std::string("file ") + enc_traits<Enc>::name + " order " + pbt::num(int(o)) + " " + brief(m));
    scratch s;
    auto    f = std::fopen(s.file.c_str(), "wb");
    PBT_CHECK(f != nullptr);
    PBT_CHECK(std::fwrite(m.data(), 1, m.size(), f) == m.size());
    std::fclose(f);
    resource r;
    {
        auto res = lexy::read_file<Enc, E>(s.file.c_str(), &r);
        PBT_CHECK(bool(res));
        check_units<Enc>(res.buffer(), u);
        auto moved = LEXY_MOV(res).buffer();
        check_units<Enc>(moved, u);
    }
    PBT_CHECK(r.live.empty());
    if (g.chance(1, 4))
    {
        auto miss = lexy::read_file<Enc, E>((s.dir + "/missing").c_str());
        PBT_CHECK(!miss);
        PBT_CHECK(miss.error() == lexy::file_error::file_not_found);
        auto below = lexy::read_file<Enc, E>((s.file + "/below").c_str());
        PBT_CHECK(!below);
        PBT_CHECK(below.error() == lexy::file_error::file_not_found);
        auto dir = lexy::read_file<Enc, E>(s.dir.c_str());
        PBT_CHECK(!dir);
        PBT_CHECK(dir.error() == lexy::file_error::os_error);
    }
    if (u.size() > 2)
        g.nontrivial(std::string("file") + enc_traits<Enc>::name + std::to_string(int(o)) + std::to_string(pbt::hash_bytes(m.data(), m.size())));
    if (m.size() > 4096)
        g.label(m.size() > 32768 ? "large file" : "medium file");
}

//=== standard input ===//
// A stream that delivers the data in pieces and may fail at the end.
struct source
{
    const std::vector<unsigned char>* data;
    std::size_t                       pos;
    std::vector<std::size_t>          pieces;
    std::size_t                       next;
    bool                              fail;
    FILE*                             f;

    source(const std::vector<unsigned char>& d, pbt::gen& g, bool fail) : data(&d), pos(0), next(0), fail(fail)
    {
        auto n = g.below(4);
        for (std::size_t i = 0; i != n; ++i)
            pieces.push_back(1 + g.below(g.boolean() ? 8 : 2000));
        cookie_io_functions_t io{};
        io.read = [](void* self, char* buf, std::size_t size) -> ::ssize_t {
            auto& s = *static_cast<source*>(self);
            auto  n = std::min(size, s.data->size() - s.pos);
            if (n == 0 && s.fail)
            {
                errno = EIO;
                return -1;
            }
            if (!s.pieces.empty())
                n = std::min(n, s.pieces[s.next++ % s.pieces.size()]);
            if (n > 0)
                std::memcpy(buf, s.data->data() + s.pos, n);
            s.pos += n;
            return ::ssize_t(n);
        };
        f = ::fopencookie(this, "rb", io);
        if (g.boolean())
            std::setvbuf(f, nullptr, _IONBF, 0);
    }
    source(const source&) = delete;
    ~source()
    {
        std::fclose(f);
    }
};
struct redirect_in
{
    FILE* old = stdin;
    explicit redirect_in(FILE* f)
    {
        stdin = f;
    }
    ~redirect_in()
    {
        stdin = old;
    }
};
struct redirect_out
{
    FILE*       old = stdout;
    char*       p   = nullptr;
    std::size_t n   = 0;
    redirect_out()
    {
        stdout = ::open_memstream(&p, &n);
    }
    std::string text()
    {
        std::fflush(stdout);
        return std::string(p, n);
    }
    ~redirect_out()
    {
        std::fclose(stdout);
        std::free(p);
        stdout = old;
    }
};
template <typename Enc, lexy::encoding_endianness E>
void standard_input(pbt::gen& g)
{
    auto o    = E == lexy::encoding_endianness::little ? order::little : E == lexy::encoding_endianness::big ? order::big : order::bom;
    auto m    = gen_bytes(g, sizeof(char_of<Enc>));
    auto u    = ref_raw<Enc>(m, o);
    auto fail = g.chance(1, 8);
    g.note(std::string("stdin ") + enc_traits<Enc>::name + " order " + pbt::num(int(o)) + " " + brief(m) + (fail ? " then an error" : ""));
    source      s(m, g, fail);
    redirect_in in(s.f);
    auto        res = lexy::read_stdin<Enc, E>();
    pbt::check_eq(bool(res), !fail, "success");
    if (res)
        check_units<Enc>(res.buffer(), u);
    else
        PBT_CHECK(res.error() == lexy::file_error::os_error);
    if (u.size() > 2)
        g.nontrivial(std::string("stdin") + enc_traits<Enc>::name + std::to_string(int(o)) + std::to_string(pbt::hash_bytes(m.data(), m.size())));
    if (m.size() > 1000)
        g.label("growing buffer");
}

//=== command line ===//
struct argument_separator
{
    static constexpr auto rule  = lexy::dsl::capture(lexy::dsl::argv_separator);
    static constexpr auto value = lexy::callback<bool>([](auto lex) { return dist(lex.begin(), lex.end()) == 1 && *lex.begin() == 0; });
};
struct arguments
{
    static constexpr auto rule = lexy::dsl::list(lexy::dsl::capture(lexy::dsl::token(lexy::dsl::while_(lexy::dsl::code_point - lexy::dsl::lit_c<'\0'>))),
                                                 lexy::dsl::sep(lexy::dsl::argv_separator))
                                 + lexy::dsl::eof;
    static constexpr auto value = lexy::as_list<std::vector<std::string>> >> lexy::forward<std::vector<std::string>>;
};
template <typename Enc>
void argv(pbt::gen& g)
{
    auto                                 n = g.below(6);
    std::vector<std::unique_ptr<char[]>> store;
    std::vector<char*>                   v;
    units                                u;
    std::string                          log = std::string("argv ") + enc_traits<Enc>::name;
    for (std::size_t i = 0; i != n; ++i)
    {
        auto a = gen_units<lexy::default_encoding>(g, 12);
        for (auto& c : a)
            if (c == 0 || (long long)c == enc_traits<Enc>::eof_unit)
                c = 'z';
        log += " " + show(a);
        store.emplace_back(new char[a.size() + 1]);
        for (std::size_t k = 0; k != a.size(); ++k)
            store.back()[k] = char(a[k]);
        store.back()[a.size()] = '\0';
        v.push_back(store.back().get());
        if (i > 1)
            u.push_back(0);
        if (i > 0)
            u.insert(u.end(), a.begin(), a.end());
    }
    v.push_back(nullptr);
    g.note(log);
    auto                  argc = int(n);
    lexy::argv_input<Enc> in(argc, v.data());
    presents(g, in, u, "command line");
    presents(g, lexy::argv_input<Enc>(lexy::argv_begin(argc, v.data()), lexy::argv_end(argc, v.data())), u, "command line range");
    presents(g, lexy::argv_input<Enc>(), {}, "no command line");
    auto b = lexy::argv_begin(argc, v.data()), e = lexy::argv_end(argc, v.data());
    pbt::check_eq(show(to_units(b, e)), show(u), "forwards");
    {
        units back;
        for (auto it = e; it != b;)
            back.insert(back.begin(), static_cast<unsigned char>(*--it));
        pbt::check_eq(show(back), show(u), "backwards");
        units s;
        for (auto it = b; it != lexy::argv_sentinel{}; it++)
            s.push_back(static_cast<unsigned char>(*it));
        pbt::check_eq(show(s), show(u), "until the sentinel");
    }
    auto p = g.below(u.size() + 1), q = p + g.below(u.size() - p + 1);
    presents(g, lexy::argv_input<Enc>(step(b, p), step(b, q)), units(u.begin() + std::ptrdiff_t(p), u.begin() + std::ptrdiff_t(q)), "part of the command line");
    // The separator matches between arguments and nowhere else.
    for (std::size_t i = 0; i <= u.size(); ++i)
    {
        lexy::argv_input<Enc> rest(step(b, i), e);
        auto r = lexy::parse<argument_separator>(rest, lexy::noop);
        pbt::check_eq(r.has_value(), i < u.size() && u[i] == 0, "separator");
        if (r.has_value())
            PBT_CHECK(r.value());
    }
    auto buf = lexy::make_buffer_from_input(in);
    pbt::check_eq(show(to_units(buf.data(), buf.data() + buf.size())), show(u), "buffer of the command line");
    if (u.size() > 2)
        g.nontrivial(log);
}

//=== strings, ranges, lexemes ===//
struct words
{
    static constexpr auto whitespace = lexy::dsl::lit_c<' '>;
    static constexpr auto rule       = lexy::dsl::list(lexy::dsl::lit_c<'a'> | lexy::dsl::lit_c<'b'> >> lexy::dsl::lit_c<'0'>) + lexy::dsl::eof;
    static constexpr auto value      = lexy::noop;
};
template <typename Input>
std::string outcome(const Input& in)
{
    err_list l;
    auto     res = lexy::validate<words>(in, collect_errors(l, in));
    return (res.is_success() ? "ok " : res.is_recovered_error() ? "recovered " : "failed ") + show_errors(l);
}
template <typename Enc>
void views(pbt::gen& g)
{
    using ch = char_of<Enc>;
    auto u   = g.boolean() ? content<Enc>(g) : gen_units<Enc>(g, 12, "aab b0", false);
    auto p   = g.below(u.size() + 1), q = p + g.below(u.size() - p + 1);
    units sub(u.begin() + std::ptrdiff_t(p), u.begin() + std::ptrdiff_t(q));
    g.note(std::string("views ") + enc_traits<Enc>::name + show(u) + " [" + pbt::num((long long)p) + ", " + pbt::num((long long)q) + ")");
    std::unique_ptr<ch[]> data(new ch[u.size()]);
    for (std::size_t i = 0; i != u.size(); ++i)
        data[i] = ch(u[i]);
    const ch* d = data.get();

    lexy::string_input<Enc> a(d, u.size()), b(d, d + u.size()), c(view<ch>{d, u.size()});
    for (auto& x : {a, b, c})
    {
        PBT_CHECK(x.data() == d && x.size() == u.size());
        presents(g, x, u, "string input");
    }
    presents(g, lexy::string_input<Enc>(), {}, "empty string input");
    if constexpr (!std::is_same_v<Enc, lexy::byte_encoding>)
    {
        units z;
        for (auto x : u)
            if (x == 0)
                break;
            else
                z.push_back(x);
        std::unique_ptr<ch[]> zs(new ch[z.size() + 1]);
        for (std::size_t i = 0; i != z.size(); ++i)
            zs[i] = ch(z[i]);
        zs[z.size()] = ch(0);
        presents(g, lexy::zstring_input<Enc>(static_cast<const ch*>(zs.get())), z, "zero-terminated input");
    }
    std::list<ch> l(d, d + u.size());
    using range = lexy::range_input<Enc, typename std::list<ch>::const_iterator>;
    range r(l.cbegin(), l.cend());
    presents(g, r, u, "range input");
    PBT_CHECK(r.begin() == l.cbegin() && r.end() == l.cend());
    lexy::buffer<Enc> buf(d, u.size());

    // Part of an input.
    auto part = [&](auto& parent, const char* what) {
        using parent_t = std::decay_t<decltype(parent)>;
        auto                         begin = parent.reader().position();
        auto                         pb = step(begin, p), pe = step(begin, q);
        lexy::lexeme_for<parent_t>   lex(pb, pe);
        lexy::lexeme_input<parent_t> x(parent, lex), y(parent, pb, pe);
        presents(g, x, sub, std::string("part of a ") + what);
        presents(g, y, sub, std::string("part of a ") + what);
        PBT_CHECK(x.lexeme().begin() == pb && x.lexeme().end() == pe);
        PBT_CHECK(x.parent_input().reader().position() == begin);
        PBT_CHECK(x.reader().position() == pb);
        lexy::string_input<Enc> s(d + p, d + q);
        if constexpr (!std::is_same_v<Enc, lexy::byte_encoding>)
        {
            pbt::check_eq(outcome(x), outcome(s), std::string("parsing a part of a ") + what);
            // Errors name positions and the input of the parent.
            auto ok = true;
            auto cb = lexy::callback([&](const auto& ctx, const auto& e) {
                ok &= ctx.input().reader().position() == begin;
                ok &= dist(begin, e.position()) >= p && dist(begin, e.position()) <= q;
            });
            (void)lexy::validate<words>(x, lexy::collect(cb));
            PBT_CHECK(ok);
            // So a report shows the lines of the parent.
            std::string report, expected;
            (void)lexy::validate<words>(x, lexy_ext::report_error.to(std::back_inserter(report)));
            auto to   = lexy_ext::report_error.to(std::back_inserter(expected));
            auto sink = to.sink();
            auto copy = lexy::callback([&](const auto& ctx, const auto& e) {
                sink(lexy::error_context<parent_t>(lexy::production_info(words{}), parent, ctx.position()), e);
            });
            (void)lexy::validate<words>(x, lexy::collect(copy));
            LEXY_MOV(sink).finish();
            pbt::check_eq(report, expected, std::string("report for a part of a ") + what);
        }
    };
    part(a, "string");
    part(r, "range");
    part(buf, "buffer");
    if (u.size() > 3)
        g.nontrivial("views" + show(u) + enc_traits<Enc>::name + std::to_string(p) + "," + std::to_string(q));
}

//=== shell ===//
template <typename Enc>
struct script
{
    std::vector<std::basic_string<char_of<Enc>>> lines; // all but the last end with a newline
    std::size_t                                  next = 0;
    bool                                         open = true;
    std::basic_string<char_of<Enc>>              written;
};
template <typename Enc>
struct scripted_prompt
{
    using encoding  = Enc;
    using char_type = char_of<Enc>;
    script<Enc>* s  = nullptr;

    void primary_prompt()
    {
        s->written += {char_type('>'), char_type(' ')};
    }
    void continuation_prompt()
    {
        s->written += {char_type('.'), char_type(' ')};
    }
    void eof_prompt()
    {
        s->written += char_type('\n');
    }
    bool is_open() const
    {
        return s->open;
    }
    struct read_line_callback
    {
        script<Enc>* s;
        std::size_t  pos = 0;
        std::size_t  operator()(char_type* buffer, std::size_t size)
        {
            if (s->next == s->lines.size())
            {
                s->open = false;
                return 0;
            }
            auto& l = s->lines[s->next];
            auto  n = std::min(size, l.size() - pos);
            std::copy(l.begin() + std::ptrdiff_t(pos), l.begin() + std::ptrdiff_t(pos + n), buffer);
            pos += n;
            if (pos == l.size() && (l.empty() || l.back() != char_type('\n')))
            {
                if (n < size)
                    s->open = false, ++s->next;
            }
            else if (pos == l.size())
                ++s->next;
            return n;
        }
        void done() && {}
    };
    auto read_line()
    {
        return read_line_callback{s};
    }
    struct write_message_callback
    {
        script<Enc>* s;
        bool         line = true;
        void         operator()(const char_type* buffer, std::size_t size)
        {
            s->written.append(buffer, size);
            if (size > 0)
                line = buffer[size - 1] == char_type('\n');
        }
        void done() &&
        {
            if (!line)
                s->written += char_type('\n');
        }
    };
    auto write_message()
    {
        return write_message_callback{s};
    }
};
template <typename Char>
std::vector<std::basic_string<Char>> gen_lines(pbt::gen& g)
{
    std::vector<std::basic_string<Char>> lines;
    auto                                 n = g.below(6);
    for (std::size_t i = 0; i != n; ++i)
    {
        static const std::size_t at[] = {20, 120, 400, 900, 1000, 2000};
        auto                     len  = g.boolean() ? g.below(6) : g.below(g.pick(at) + 4);
        std::basic_string<Char>  l;
        for (std::size_t k = 0; k != len; ++k)
            l += Char('a' + (k * 7 + i) % 26);
        if (i + 1 != n || g.chance(2, 3))
            l += Char('\n');
        if (!l.empty())
            lines.push_back(l);
    }
    return lines;
}
// Reads the shell's inputs with random peeks, bumps and resets; `model` is told what happens.
template <typename Enc, typename Shell>
std::basic_string<char_of<Enc>> use_shell(pbt::gen& g, Shell& sh, const std::vector<std::basic_string<char_of<Enc>>>& lines, std::string& log)
{
    std::basic_string<char_of<Enc>> shown; // what the user sees: prompts and messages
    auto                            show_text = [&](const char* t) {
        while (*t)
            shown += char_of<Enc>(*t++);
    };
    std::size_t next = 0; // next line to read
    bool        open = true;
    auto        inputs = 1 + g.below(4);
    for (std::size_t i = 0; i != inputs; ++i)
    {
        std::basic_string<char_of<Enc>> text;
        auto                            pull = [&] {
            if (open && next != lines.size())
            {
                text += lines[next];
                if (lines[next].back() != char_of<Enc>('\n'))
                    open = false;
                ++next;
            }
            else
                open = false;
            if (!open)
                show_text("\n");
        };
        log += " | input";
        g.note(log);
        auto in = sh.prompt_for_input();
        show_text("> ");
        pull();
        auto        r    = in.reader();
        std::size_t pos  = 0;
        auto        mark = r.current();
        std::size_t mpos = 0;
        auto        todo = g.below(6);
        for (std::size_t k = 0; k != todo; ++k)
            switch (g.below(4))
            {
            case 0:
            case 1: { // some characters
                auto n = g.boolean() ? g.below(8) : g.below(1500);
                log += " read " + pbt::num((long long)n);
                g.note(log);
                for (std::size_t m = 0; m != n; ++m)
                {
                    if (pos == text.size() && open)
                    {
                        show_text(". ");
                        pull();
                    }
                    auto c = r.peek();
                    PBT_CHECK(c == r.peek());
                    if (pos == text.size())
                    {
                        PBT_CHECK(c == Enc::eof());
                        break;
                    }
                    if (c != Enc::to_int_type(text[pos]))
                        pbt::fail("character " + pbt::num((long long)pos) + " is " + pbt::num((long long)c) + " instead of " + pbt::num((long long)text[pos]));
                    r.bump();
                    ++pos;
                }
                break;
            }
            case 2:
                log += " mark";
                mark = r.current();
                mpos = pos;
                break;
            default:
                log += " reset";
                r.reset(mark);
                pos = mpos;
            }
        auto begin = in.position();
        pbt::check_eq((long long)dist(begin, r.position()), (long long)pos, "position");
        if (pos != 0 || text.size() != 0)
        {
            auto w = sh.write_message();
            lexy::lexeme_for<typename Shell::input> lex(begin, r.position());
            w(lex);
            shown.append(text, 0, pos);
            if (pos != 0 && text[pos - 1] != char_of<Enc>('\n'))
                show_text("\n");
        }
        pbt::check_eq(sh.is_open(), open, "is_open");
    }
    return shown;
}
template <typename Enc>
void shell(pbt::gen& g)
{
    script<Enc> s;
    s.lines = gen_lines<char_of<Enc>>(g);
    std::string log = std::string("shell ") + enc_traits<Enc>::name + " lines";
    for (auto& l : s.lines)
        log += " " + pbt::num((long long)l.size()) + (l.back() == char_of<Enc>('\n') ? "" : "!");
    scripted_prompt<Enc> p;
    p.s = &s;
    lexy_ext::shell<scripted_prompt<Enc>> sh(p);
    PBT_CHECK(sh.is_open());
    auto shown = use_shell<Enc>(g, sh, s.lines, log);
    PBT_CHECK(s.written == shown);
    // Messages.
    {
        auto w = sh.write_message();
        s.written.clear();
        w(char_of<Enc>('m'));
        char_of<Enc> str[] = {char_of<Enc>('s'), char_of<Enc>('t'), char_of<Enc>(0)};
        w(str)(str, 1);
        auto it = w.output_iterator();
        *it++   = 'c';
        PBT_CHECK((s.written == std::basic_string<char_of<Enc>>{char_of<Enc>('m'), char_of<Enc>('s'), char_of<Enc>('t'), char_of<Enc>('s'), char_of<Enc>('c')}));
    }
    if (s.lines.size() > 1)
        g.nontrivial(log);
}
} // namespace

PBT_PROP(buffer, 4)
{
    auto with = [&](auto enc) {
        using e = decltype(enc);
        return g.boolean() ? buffers<e, void>(g) : buffers<e, resource>(g);
    };
    switch (g.below(7))
    {
    case 0:
        return with(lexy::default_encoding{});
    case 1:
        return with(lexy::ascii_encoding{});
    case 2:
        return with(lexy::utf8_encoding{});
    case 3:
        return with(lexy::utf8_char_encoding{});
    case 4:
        return with(lexy::utf16_encoding{});
    case 5:
        return with(lexy::utf32_encoding{});
    default:
        return with(lexy::byte_encoding{});
    }
}
PBT_PROP(raw_bytes, 6)
{
    each_raw(g, [&](auto e, auto o) { raw<decltype(e), decltype(o)::value>(g); });
}
PBT_PROP(files, 1)
{
    each_raw(g, [&](auto e, auto o) { file<decltype(e), decltype(o)::value>(g); });
}
PBT_PROP(stdin_, 1)
{
    each_raw(g, [&](auto e, auto o) { standard_input<decltype(e), decltype(o)::value>(g); });
}
PBT_PROP(command_line, 2)
{
    switch (g.below(3))
    {
    case 0:
        return argv<lexy::default_encoding>(g);
    case 1:
        return argv<lexy::utf8_encoding>(g);
    default:
        return argv<lexy::ascii_encoding>(g);
    }
}
PBT_PROP(string_range_lexeme, 3)
{
    switch (g.below(7))
    {
    case 0:
        return views<lexy::default_encoding>(g);
    case 1:
        return views<lexy::ascii_encoding>(g);
    case 2:
        return views<lexy::utf8_encoding>(g);
    case 3:
        return views<lexy::utf8_char_encoding>(g);
    case 4:
        return views<lexy::utf16_encoding>(g);
    case 5:
        return views<lexy::utf32_encoding>(g);
    default:
        return views<lexy::byte_encoding>(g);
    }
}
PBT_PROP(shell_scripted, 2)
{
    switch (g.below(4))
    {
    case 0:
        return shell<lexy::utf16_encoding>(g);
    case 1:
        return shell<lexy::utf32_encoding>(g);
    case 2:
        return shell<lexy::utf8_encoding>(g);
    default:
        return shell<lexy::default_encoding>(g);
    }
}
PBT_PROP(shell_default, 2)
{
    auto                       lines = gen_lines<char>(g);
    std::vector<unsigned char> data;
    std::string                log = "default shell, lines";
    for (auto& l : lines)
    {
        if (g.chance(1, 8))
            l[g.below(l.size())] = '\0';
        data.insert(data.end(), l.begin(), l.end());
        log += " " + pbt::num((long long)l.size()) + (l.back() == '\n' ? "" : "!");
    }
    // A zero may have replaced the newline.
    lines.clear();
    for (auto c : data)
    {
        if (lines.empty() || lines.back().back() == '\n')
            lines.emplace_back();
        lines.back() += char(c);
    }
    source       s(data, g, g.chance(1, 8));
    redirect_out out;
    redirect_in  in(s.f);
    lexy_ext::shell<> sh;
    auto shown = use_shell<lexy::default_encoding>(g, sh, lines, log);
    PBT_CHECK(out.text() == shown);
    if (lines.size() > 1)
        g.nontrivial(log);
}
