#include "pbt.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace
{
using namespace pbt;

constexpr std::size_t tape_max = 1u << 20;
constexpr std::size_t text_max = 1u << 16;
constexpr int         exit_fail = 77, exit_hang = 78;
constexpr long        case_cpu_limit_s = 20; // user CPU time for a single case that normally takes microseconds

struct shared
{
    std::uint64_t case_idx;
    std::uint64_t prop_idx;
    std::uint64_t len;
    char          msg[text_max];
    char          note[text_max];
    std::uint32_t note_len;
    std::uint64_t tape[tape_max];
};
shared* shm = nullptr;

//=== rng ===//
struct rng_t
{
    std::uint64_t s;
    std::uint64_t next()
    {
        auto z = (s += 0x9E3779B97F4A7C15ull);
        z      = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z      = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
} rng;

enum class source
{
    random,
    tape,
    bytes
} src
    = source::random;
const std::vector<std::uint64_t>* in_tape = nullptr;
const std::uint8_t*               in_bytes = nullptr;
std::size_t                       in_size = 0, in_pos = 0;

//=== stats ===//
struct stats_t
{
    std::uint64_t                          evaluations = 0, extra = 0;
    std::map<std::string, std::uint64_t>   labels;
    std::unordered_set<std::uint64_t>      distinct;
    std::uint64_t                          nontrivial = 0;
    std::vector<std::string>               samples;
    std::map<std::string, std::uint64_t>   per_prop;
    std::map<std::string, std::uint64_t>   per_prop_nontrivial;
} stats;
bool case_nontrivial = false;

struct prop_t
{
    const char* name;
    unsigned    weight;
    prop_fn     fn;
};
std::vector<prop_t>& props()
{
    static std::vector<prop_t> p;
    return p;
}
} // namespace

pbt::reg::reg(const char* name, unsigned weight, prop_fn fn)
{
    props().push_back({name, weight, fn});
}

std::uint64_t pbt::gen::below(std::uint64_t n)
{
    std::uint64_t v = 0;
    if (src == source::random)
    {
        auto r = rng.next();
        v      = n == 0 ? r : r % n; // n == 0: full range
    }
    else if (src == source::tape)
    {
        auto p = in_pos++;
        v      = p < in_tape->size() ? (*in_tape)[p] : 0;
        if (n != 0 && v >= n)
            v = v % n;
    }
    else
    {
        int bytes = n == 0 ? 8 : n <= 0x100 ? 1 : n <= 0x10000 ? 2 : n <= 0x100000000ull ? 4 : 8;
        for (int i = 0; i != bytes && in_pos < in_size; ++i)
            v = v << 8 | in_bytes[in_pos++];
        if (n != 0)
            v %= n;
    }
    if (shm && shm->len < tape_max)
        shm->tape[shm->len++] = v;
    return v;
}
std::uint64_t pbt::gen::enumerate(std::uint64_t n)
{
    if (src != source::random)
        return below(n);
    static std::map<std::uint64_t, std::uint64_t> counter;
    static const auto shard  = std::getenv("PBT_SHARD") ? std::strtoull(std::getenv("PBT_SHARD"), nullptr, 10) : 0;
    static const auto shards = std::getenv("PBT_SHARDS") ? std::strtoull(std::getenv("PBT_SHARDS"), nullptr, 10) : 1;
    auto              v      = (counter[shm ? shm->prop_idx : 0]++ * shards + shard) % n;
    if (shm && shm->len < tape_max)
        shm->tape[shm->len++] = v;
    return v;
}
std::uint64_t pbt::gen::bits64()
{
    switch (below(4))
    {
    case 0:
        return below(256);
    case 1:
        return below(0);
    case 2: { // around powers of two
        auto s = below(64);
        auto d = below(5);
        return (std::uint64_t(1) << s) + d - 2;
    }
    default:
        return below(0) >> below(64);
    }
}
std::size_t pbt::gen::size(std::size_t max)
{
    if (max == 0)
        return 0;
    auto k = below(8);
    auto m = k < 3 ? std::min<std::size_t>(max, 4)
             : k < 5 ? std::min<std::size_t>(max, 10)
             : k < 7 ? std::min<std::size_t>(max, 24)
                     : max;
    return static_cast<std::size_t>(below(m + 1));
}
std::size_t pbt::gen::weighted(std::initializer_list<unsigned> weights)
{
    unsigned total = 0;
    for (auto w : weights)
        total += w;
    auto        v = below(total);
    std::size_t i = 0;
    for (auto w : weights)
    {
        if (v < w)
            return i;
        v -= w;
        ++i;
    }
    return weights.size() - 1;
}
void pbt::gen::note(const std::string& s)
{
    if (!shm)
        return;
    auto n = std::min<std::size_t>(s.size(), text_max - 2 - shm->note_len);
    std::memcpy(shm->note + shm->note_len, s.data(), n);
    shm->note_len += static_cast<std::uint32_t>(n);
    if (shm->note_len < text_max - 2)
        shm->note[shm->note_len++] = '\n';
    shm->note[shm->note_len] = 0;
}
void pbt::gen::label(const char* l)
{
    ++stats.labels[l];
}
void pbt::gen::nontrivial(std::uint64_t key)
{
    case_nontrivial = true;
    stats.distinct.insert(key * 31 + (shm ? shm->prop_idx : 0));
}
void pbt::gen::extra_evaluations(std::uint64_t n)
{
    stats.extra += n;
}

#ifdef PBT_FUZZ
namespace
{
const char* fuzz_fail_path()
{
    auto p = std::getenv("PBT_FAIL");
    return p ? p : "/dev/null";
}
void fuzz_dump(const char* why)
{
    auto f = std::fopen(fuzz_fail_path(), "w");
    if (!f)
        return;
    std::fprintf(f, "prop %s\nmsg %s\n---\ntape", props()[shm->prop_idx].name, why);
    for (std::size_t i = 0; i != shm->len; ++i)
        std::fprintf(f, " %llu", (unsigned long long)shm->tape[i]);
    std::fprintf(f, "\n");
    std::fclose(f);
}
std::uint64_t fuzz_runs = 0;
} // namespace
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" int  LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
    if (!shm)
    {
        shm = new shared();
        __sanitizer_set_death_callback([] { fuzz_dump("crash"); });
        std::signal(SIGABRT, [](int) {
            fuzz_dump("abort");
            _exit(77);
        });
    }
    shm->len      = 0;
    shm->note_len = 0;
    in_bytes      = data;
    in_size       = size;
    in_pos        = 0;
    src           = source::bytes;
    std::size_t pi = 0;
    if (props().size() > 1 && size > 0)
    {
        unsigned total = 0;
        for (auto& p : props())
            total += p.weight;
        auto v = unsigned(data[0]) * 1u % total;
        in_pos = 1;
        while (v >= props()[pi].weight)
            v -= props()[pi++].weight;
    }
    shm->prop_idx = pi;
    ++fuzz_runs;
    try
    {
        gen g;
        props()[pi].fn(g);
    }
    catch (std::exception& e)
    {
        std::fprintf(stderr, "PBT failure: %s\n%s\n", e.what(), shm->note);
        fuzz_dump("property violated");
        _exit(77);
    }
    stats.labels.clear();
    stats.distinct.clear();
    return 0;
}
#else
namespace
{
void run_case(std::size_t prop_idx)
{
    shm->len      = 0;
    shm->note_len = 0;
    shm->note[0]  = 0;
    shm->msg[0]   = 0;
    shm->prop_idx = prop_idx;
    in_pos        = 0;

    itimerval tv{};
    tv.it_value.tv_sec = case_cpu_limit_s;
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);

    gen g;
    try
    {
        props()[prop_idx].fn(g);
    }
    catch (std::exception& e)
    {
        std::snprintf(shm->msg, text_max, "%s", e.what());
        _exit(exit_fail);
    }
    catch (...)
    {
        std::snprintf(shm->msg, text_max, "unknown exception escaped");
        _exit(exit_fail);
    }
}

void on_hang(int)
{
    _exit(exit_hang);
}

std::string json_escape(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7F)
        {
            char buf[8];
            std::snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        }
        else
            r += char(c);
    }
    return r;
}

void write_stats(const std::string& path)
{
    if (path.empty())
        return;
    auto f = std::fopen(path.c_str(), "w");
    if (!f)
        std::exit(4);
    std::fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"labels\":{",
                 (unsigned long long)(stats.evaluations + stats.extra), (unsigned long long)stats.nontrivial,
                 stats.distinct.size());
    auto first = true;
    for (auto& [k, v] : stats.labels)
    {
        std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(k).c_str(), (unsigned long long)v);
        first = false;
    }
    std::fprintf(f, "},\"per_prop\":{");
    first = true;
    for (auto& [k, v] : stats.per_prop)
    {
        std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", json_escape(k).c_str(), (unsigned long long)v);
        first = false;
    }
    std::fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : stats.samples)
    {
        std::fprintf(f, "%s\"%s\"", first ? "" : ",", json_escape(s).c_str());
        first = false;
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
    f = std::fopen((path + ".hashes").c_str(), "wb");
    for (auto h : stats.distinct)
        std::fwrite(&h, sizeof h, 1, f);
    std::fclose(f);
}

double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Forks and runs fn in the child; returns 0 (ok), exit_fail, exit_hang, or -1 (crash).
template <typename Fn>
int in_child(Fn fn, bool quiet)
{
    std::fflush(nullptr);
    auto pid = fork();
    if (pid < 0)
        std::exit(4);
    if (pid == 0)
    {
        if (quiet)
        {
            auto fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
        }
        std::signal(SIGVTALRM, on_hang);
        fn();
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
    {}
    if (WIFEXITED(status))
    {
        auto c = WEXITSTATUS(status);
        if (c == 0 || c == exit_fail || c == exit_hang || c == 66)
            return c;
        return -1;
    }
    return -1;
}

struct found
{
    std::size_t                prop;
    std::vector<std::uint64_t> tape;
    int                        kind;
    std::string                msg, note;
};

int replay(std::size_t prop, const std::vector<std::uint64_t>& tape, found* out, bool quiet = true)
{
    auto r = in_child(
        [&] {
            src     = source::tape;
            in_tape = &tape;
            run_case(prop);
        },
        quiet);
    if (r != 0 && out)
    {
        out->prop = prop;
        out->kind = r;
        out->tape.assign(shm->tape, shm->tape + shm->len);
        out->msg  = r == exit_fail  ? shm->msg
                    : r == exit_hang ? "case exceeded " + std::to_string(case_cpu_limit_s) + " s of CPU time (hang)"
                                     : "crash (signal, sanitizer report or failed assertion)";
        out->note = shm->note;
    }
    return r;
}

// Shards of one run share a stop file: the first one to reproduce a failure shrinks it, the others end.
bool stop_requested()
{
    auto p = std::getenv("PBT_STOP");
    return p && access(p, F_OK) == 0;
}
void request_stop(bool on)
{
    auto p = std::getenv("PBT_STOP");
    if (!p)
        return;
    if (on)
    {
        auto fd = open(p, O_CREAT | O_WRONLY, 0644);
        if (fd >= 0)
            close(fd);
    }
    else
        unlink(p);
}

found shrink(found f)
{
    if (f.kind == exit_hang)
        return f;
    auto deadline = now() + 25;
    int  attempts = 0;
    auto try_tape = [&](const std::vector<std::uint64_t>& t) {
        if (now() > deadline || ++attempts > 4000)
            return false;
        found g;
        auto  r = replay(f.prop, t, &g);
        if (r != 0 && r == f.kind)
        {
            // Only accept if it is simpler.
            if (g.tape.size() < f.tape.size()
                || (g.tape.size() == f.tape.size()
                    && std::lexicographical_compare(g.tape.begin(), g.tape.end(), f.tape.begin(), f.tape.end())))
            {
                f = g;
                return true;
            }
        }
        return false;
    };
    bool improved = true;
    while (improved && now() < deadline && attempts < 4000)
    {
        improved = false;
        // Delete chunks.
        for (std::size_t chunk = std::max<std::size_t>(f.tape.size() / 2, 1); chunk >= 1; chunk /= 2)
        {
            for (std::size_t i = 0; i + chunk <= f.tape.size();)
            {
                auto t = f.tape;
                t.erase(t.begin() + long(i), t.begin() + long(i + chunk));
                if (try_tape(t))
                    improved = true;
                else
                    i += chunk;
            }
            if (now() > deadline)
                break;
        }
        // Zero / reduce values.
        for (std::size_t i = 0; i < f.tape.size(); ++i)
        {
            if (f.tape[i] == 0)
                continue;
            auto t = f.tape;
            t[i]   = 0;
            if (try_tape(t))
            {
                improved = true;
                continue;
            }
            // Delete one and decrement an earlier count.
            std::uint64_t lo = 0;
            while (i < f.tape.size() && lo + 1 < f.tape[i] && now() < deadline)
            {
                auto mid = lo + (f.tape[i] - lo) / 2;
                t        = f.tape;
                t[i]     = mid;
                if (try_tape(t))
                    improved = true;
                else
                    lo = mid;
            }
            // Decrement a length together with deleting one of the following entries.
            for (std::size_t k = 1; k <= 3 && i + k < f.tape.size(); ++k)
            {
                t = f.tape;
                if (t[i] == 0)
                    break;
                t[i] -= 1;
                t.erase(t.begin() + long(i + k));
                if (try_tape(t))
                    improved = true;
            }
        }
    }
    return f;
}

void write_fail(const std::string& path, const found& f)
{
    auto out = std::fopen(path.c_str(), "w");
    if (!out)
        std::exit(4);
    std::fprintf(out, "prop %s\n%s\n%s\n---\ntape", props()[f.prop].name, f.msg.c_str(), f.note.c_str());
    for (auto v : f.tape)
        std::fprintf(out, " %llu", (unsigned long long)v);
    std::fprintf(out, "\n");
    std::fclose(out);
}
} // namespace

int main(int argc, char** argv)
{
    std::uint64_t seed = 1, cases = 1000;
    double        seconds = 1e9;
    std::string   stats_path, fail_path = "fail.tape", replay_path, only;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto        v = [&] {
            if (++i >= argc)
                std::exit(4);
            return std::string(argv[i]);
        };
        if (a == "--seed")
            seed = std::stoull(v());
        else if (a == "--cases")
            cases = std::stoull(v());
        else if (a == "--seconds")
            seconds = std::stod(v());
        else if (a == "--stats")
            stats_path = v();
        else if (a == "--fail")
            fail_path = v();
        else if (a == "--replay")
            replay_path = v();
        else if (a == "--prop")
            only = v();
        else if (a == "--list")
        {
            for (auto& p : props())
                std::printf("%s %u\n", p.name, p.weight);
            return 0;
        }
        else
            return 4;
    }

    shm = static_cast<shared*>(
        mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (shm == MAP_FAILED)
        return 4;
    std::sort(props().begin(), props().end(),
              [](const prop_t& a, const prop_t& b) { return std::strcmp(a.name, b.name) < 0; });

    if (!replay_path.empty())
    {
        auto f = std::fopen(replay_path.c_str(), "r");
        if (!f)
            return 4;
        std::string text;
        char        buf[4096];
        for (std::size_t n; (n = std::fread(buf, 1, sizeof buf, f)) > 0;)
            text.append(buf, n);
        std::fclose(f);
        auto tp = text.rfind("\ntape");
        if (text.rfind("prop ", 0) != 0 || tp == std::string::npos)
            return 4;
        auto                       name = text.substr(5, text.find('\n') - 5);
        std::vector<std::uint64_t> tape;
        auto                       p = text.c_str() + tp + 5;
        for (char* e; true; p = e)
        {
            auto x = std::strtoull(p, &e, 10);
            if (e == p)
                break;
            tape.push_back(x);
        }
        for (std::size_t i = 0; i != props().size(); ++i)
            if (name == props()[i].name)
            {
                found fd;
                auto  r = replay(i, tape, &fd, false);
                if (r == 0)
                {
                    std::printf("replay: property holds on this case\n%s", shm->note);
                    return 0;
                }
                std::printf("replay: %s\n%s\n", fd.msg.c_str(), fd.note.c_str());
                return 1;
            }
        return 4;
    }

    // Which property is run in which case: a weighted round-robin schedule.
    std::vector<std::size_t> schedule;
    {
        unsigned maxw = 0;
        for (auto& p : props())
            maxw = std::max(maxw, p.weight);
        for (unsigned w = 0; w < maxw; ++w)
            for (std::size_t i = 0; i != props().size(); ++i)
                if (w < props()[i].weight && (only.empty() || only == props()[i].name))
                    schedule.push_back(i);
    }
    if (schedule.empty())
        return 4;

    auto start      = now();
    auto first_case = std::uint64_t(0);
    int  flaky      = 0;
    while (true)
    {
        auto r = in_child(
            [&] {
                for (auto i = first_case; i != cases; ++i)
                {
                    if ((i & 63) == 0 && stop_requested())
                    {
                        ++stats.labels["(stopped: another shard failed)"];
                        break;
                    }
                    if ((i & 15) == 0 && now() - start > seconds)
                    {
                        ++stats.labels["(stopped early by time budget)"];
                        break;
                    }
                    shm->case_idx   = i;
                    src             = source::random;
                    rng.s           = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 12345;
                    auto p          = schedule[i % schedule.size()];
                    case_nontrivial = false;
                    run_case(p);
                    ++stats.evaluations;
                    ++stats.per_prop[props()[p].name];
                    if (case_nontrivial)
                    {
                        ++stats.nontrivial;
                        auto& n = stats.per_prop_nontrivial[props()[p].name];
                        // Keep a few samples per sub-property, spread over the run.
                        if (n < 2 || n == 100 || n == 1000)
                            stats.samples.push_back(std::string(props()[p].name) + ": "
                                                    + std::string(shm->note).substr(0, 400));
                        ++n;
                    }
                }
                stats.labels["(unreproducible failures)"] += unsigned(flaky);
                write_stats(stats_path);
            },
            false);
        if (r == 0)
            return 0;

        found f;
        f.prop = shm->prop_idx;
        f.tape.assign(shm->tape, shm->tape + shm->len);
        auto failing = shm->case_idx;
        if (replay(f.prop, f.tape, &f) == 0)
        {
            // Not reproducible from its tape: never reported as a violation.
            if (++flaky > 5)
                return 5;
            first_case = failing + 1;
            continue;
        }
        if (stop_requested())
            return 0; // another shard already reports a violation
        request_stop(true);
        auto original = f;
        f             = shrink(f);
        // Confirm three times.
        for (auto& cand : {f, original})
        {
            auto ok = 0;
            for (int i = 0; i != 3; ++i)
            {
                found g;
                if (replay(cand.prop, cand.tape, &g) != 0)
                    ++ok;
            }
            if (ok == 3)
            {
                write_fail(fail_path, cand);
                std::printf("FAILED %s: %s\n%s\n", props()[cand.prop].name, cand.msg.c_str(), cand.note.c_str());
                return 1;
            }
        }
        request_stop(false);
        if (++flaky > 5)
            return 5;
        first_case = failing + 1;
    }
}
#endif
