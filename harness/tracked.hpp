// Objects whose lifetime is watched: every construction and destruction is matched, and nothing is used after it was moved from.
#ifndef HARNESS_TRACKED_HPP
#define HARNESS_TRACKED_HPP
#include <map>
#include <pbt.hpp>
#include <string>
#include <utility>

namespace trk
{
enum class st
{
    full,
    moved,
};
inline std::map<const void*, st> live;
inline std::string               problem;
inline std::size_t               made = 0;

inline void complain(const char* what)
{
    if (problem.empty())
        problem = what;
}
inline void born(const void* p)
{
    ++made;
    if (!live.emplace(p, st::full).second)
        complain("an object is constructed where one still lives");
}
inline void died(const void* p)
{
    if (live.erase(p) != 1)
        complain("an object is destroyed that does not live");
}
inline void used(const void* p)
{
    auto it = live.find(p);
    if (it == live.end())
        complain("an object is used that does not live");
    else if (it->second == st::moved)
        complain("an object is used after it was moved from");
}
inline void moved_from(const void* p)
{
    used(p);
    live[p] = st::moved;
}
inline void assigned(const void* p)
{
    auto it = live.find(p);
    if (it == live.end())
        complain("an object is assigned that does not live");
    else
        it->second = st::full;
}
inline void start()
{
    live.clear();
    problem.clear();
    made = 0;
}
// At the end of a case, all objects must be gone.
inline void finish()
{
    auto n = live.size();
    live.clear();
    if (!problem.empty())
        pbt::fail(std::exchange(problem, {}));
    if (n != 0)
        pbt::fail(pbt::num((long long)n) + " objects were not destroyed");
}

// A value that can be moved and copied, or only moved.
template <typename T>
struct copyable
{
    T v{};

    copyable()
    {
        born(this);
    }
    explicit copyable(T v) : v(std::move(v))
    {
        born(this);
    }
    copyable(copyable&& o) noexcept : v(std::move(o.v))
    {
        moved_from(&o);
        born(this);
    }
    copyable(const copyable& o) : v(o.v)
    {
        used(&o);
        born(this);
    }
    copyable& operator=(copyable&& o) noexcept
    {
        if (this != &o)
        {
            moved_from(&o);
            v = std::move(o.v);
            assigned(this);
        }
        return *this;
    }
    copyable& operator=(const copyable& o)
    {
        used(&o);
        v = o.v;
        assigned(this);
        return *this;
    }
    ~copyable()
    {
        died(this);
    }
    const T& get() const
    {
        used(this);
        return v;
    }
    friend bool operator==(const copyable& a, const copyable& b)
    {
        return a.get() == b.get();
    }
    friend bool operator<(const copyable& a, const copyable& b)
    {
        return a.get() < b.get();
    }
};
template <typename T>
struct movable : copyable<T>
{
    movable() = default;
    explicit movable(T v) : copyable<T>(std::move(v)) {}
    movable(movable&&)            = default;
    movable& operator=(movable&&) = default;
};
} // namespace trk
#endif
