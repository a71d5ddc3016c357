// Common runtime-monitor support: case driver, oracles' reporting channel, coverage accounting.
#pragma once
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <execinfo.h>

namespace mon {

inline uint64_t hash64(const std::string& s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c: s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 32;
    return h;
}

struct Ctx
{
    std::string test;
    uint64_t index = 0;
    std::mt19937_64 rng;
    bool thorough = false;
    double uni(double a, double b) { return a + (b - a) * (static_cast<double>(rng() >> 11) * (1.0 / 9007199254740992.0)); }
    double gauss()
    {
        const double u1 = std::max(uni(0, 1), 1e-300), u2 = uni(0, 1);
        return std::sqrt(-2.0 * std::log(u1)) * std::cos(2.0 * M_PI * u2);
    }
    // log-uniform magnitude
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    int64_t irange(int64_t a, int64_t b) { return a + static_cast<int64_t>(rng() % static_cast<uint64_t>(b - a + 1)); }
    bool coin(double p = 0.5) { return uni(0, 1) < p; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[static_cast<size_t>(rng() % v.size())]; }
};

struct State
{
    std::mutex mut;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::set<uint64_t>> states; // distinct non trivial situations, by monitor
    struct V { std::string key, msg, test; uint64_t index; };
    std::vector<V> violations;
    std::map<std::string, uint64_t> violationCount;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> samplePer;
    Ctx* current = nullptr;
    char* beacon = nullptr; // mmaped page naming the running case, survives a crash
};
inline State& st() { static State* s = new State; return *s; }

// a monitor looked at an execution event and evaluated its oracle
inline void observe(const std::string& what, uint64_t n = 1) { std::scoped_lock l(st().mut); st().counters[what] += n; }
// the situation was non trivial: sig identifies its class
inline void nontrivial(const std::string& monitor, const std::string& sig)
{
    std::scoped_lock l(st().mut);
    auto& s = st().states[monitor];
    if (s.size() < 200000) s.insert(hash64(sig));
}
inline std::string jesc(const std::string& s)
{
    std::string o;
    for (char c: s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (static_cast<unsigned char>(c) < 0x20) o += ' ';
        else o += c;
    }
    return o;
}
inline std::string vfmt(const char* f, va_list ap)
{
    char buf[2048];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); auto s = vfmt(f, ap); va_end(ap); return s; }

inline void sample(const std::string& what, const std::string& text)
{
    std::scoped_lock l(st().mut);
    if (st().samplePer[what]++ < 2 && st().samples.size() < 40) st().samples.push_back(what + ": " + text);
}
inline void violation(const std::string& key, const std::string& msg)
{
    std::scoped_lock l(st().mut);
    if (st().violationCount[key]++ < 3)
        st().violations.push_back({key, msg, st().current ? st().current->test : "", st().current ? st().current->index : 0});
}
// Evaluate an oracle. Returns the condition.
inline bool check(bool cond, const std::string& key, const char* f, ...) __attribute__((format(printf, 3, 4)));
inline bool check(bool cond, const std::string& key, const char* f, ...)
{
    observe("oracle." + key);
    if (!cond) { va_list ap; va_start(ap, f); violation(key, vfmt(f, ap)); va_end(ap); }
    return cond;
}
// |a-b| <= abs + rel*max(|a|,|b|), NaN never accepted
inline bool near(double a, double b, double rel, double abst = 0.0)
{
    if (!(std::isfinite(a) && std::isfinite(b))) return false;
    return std::abs(a - b) <= abst + rel * std::max(std::abs(a), std::abs(b));
}

struct Test { std::string name; uint64_t quick, thorough; std::function<void(Ctx&)> fn; };
inline std::vector<Test>& tests() { static auto* t = new std::vector<Test>; return *t; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Ctx&)> f) { tests().push_back({n, q, t, std::move(f)}); } };
#define MON_TEST(name, quick, thorough)                                                                                \
    static void mon_test_##name(mon::Ctx&);                                                                            \
    static mon::Reg mon_reg_##name(#name, quick, thorough, mon_test_##name);                                           \
    static void mon_test_##name([[maybe_unused]] mon::Ctx& c)

struct Options
{
    std::string tier = "quick", out, only, beacon, workdir = ".";
    uint64_t seed = 1;
    int64_t onlyCase = -1;
    int config = 0;
    double scale = 1.0;
    int shard = 0, shards = 1;
};
inline Options& opt() { static Options o; return o; }

inline void write_out()
{
    if (opt().out.empty()) return;
    std::ofstream f(opt().out + ".tmp");
    State& s = st();
    f << "{\n\"counters\":{";
    bool first = true;
    for (auto& [k, v]: s.counters) { f << (first ? "" : ",") << "\n \"" << jesc(k) << "\":" << v; first = false; }
    f << "},\n\"states\":{";
    first = true;
    for (auto& [k, v]: s.states) { f << (first ? "" : ",") << "\n \"" << jesc(k) << "\":" << v.size(); first = false; }
    f << "},\n\"samples\":[";
    first = true;
    for (auto& v: s.samples) { f << (first ? "" : ",") << "\n \"" << jesc(v) << "\""; first = false; }
    f << "],\n\"violation_counts\":{";
    first = true;
    for (auto& [k, v]: s.violationCount) { f << (first ? "" : ",") << "\n \"" << jesc(k) << "\":" << v; first = false; }
    f << "},\n\"violations\":[";
    first = true;
    for (auto& v: s.violations)
    {
        f << (first ? "" : ",") << "\n {\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"test\":\""
          << jesc(v.test) << "\",\"case\":" << v.index << "}";
        first = false;
    }
    f << "]}\n";
    f.close();
    rename((opt().out + ".tmp").c_str(), opt().out.c_str());
}

inline int run_main(int argc, char** argv, std::function<void()> init = {})
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") opt().tier = nx();
        else if (a == "--out") opt().out = nx();
        else if (a == "--test") opt().only = nx();
        else if (a == "--case") opt().onlyCase = std::stoll(nx());
        else if (a == "--seed") opt().seed = std::stoull(nx());
        else if (a == "--config") opt().config = std::stoi(nx());
        else if (a == "--scale") opt().scale = std::stod(nx());
        else if (a == "--beacon") opt().beacon = nx();
        else if (a == "--workdir") opt().workdir = nx();
        else if (a == "--shard") opt().shard = std::stoi(nx());
        else if (a == "--shards") opt().shards = std::stoi(nx());
        else if (a == "--list") { for (auto& t: tests()) printf("%s %lu %lu\n", t.name.c_str(), t.quick, t.thorough); return 0; }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (!opt().beacon.empty())
    {
        int fd = open(opt().beacon.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0)
            st().beacon = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
    if (init) init();
    const bool thorough = opt().tier == "thorough";
    for (auto& t: tests())
    {
        if (!opt().only.empty() && opt().only != t.name) continue;
        uint64_t n = static_cast<uint64_t>(std::ceil(static_cast<double>(thorough ? t.thorough : t.quick) * opt().scale));
        if (n == 0) continue;
        for (uint64_t i = 0; i < n; ++i)
        {
            if (opt().onlyCase >= 0 && static_cast<uint64_t>(opt().onlyCase) != i) continue;
            if (opt().shards > 1 && opt().onlyCase < 0 && static_cast<int>(i % static_cast<uint64_t>(opt().shards)) != opt().shard) continue;
            Ctx c;
            c.test = t.name;
            c.index = i;
            c.thorough = thorough;
            c.rng.seed(hash64(t.name + "/" + std::to_string(i) + "/" + std::to_string(opt().config), opt().seed * 0x9E3779B97F4A7C15ULL + 12345));
            st().current = &c;
            if (st().beacon) snprintf(st().beacon, 4096, "%s %lu", t.name.c_str(), i);
            try { t.fn(c); }
            catch (const std::exception& e) { violation("unexpected_exception." + t.name, std::string("exception escaped: ") + e.what()); }
            catch (...) { violation("unexpected_exception." + t.name, "unknown exception escaped"); }
            observe("cases." + t.name);
            st().current = nullptr;
        }
    }
    if (st().beacon) snprintf(st().beacon, 4096, "done");
    write_out();
    fflush(stdout);
    _exit(0); // do not run destructors of the code under test's statics
}

} // namespace mon
