// Shared runtime of all monitors: deterministic cases, failure reporting,
// coverage accounting, hang detection.  One case = f(seed, property, number).
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf
{

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s{mix(seed)} {}
    uint64_t next() { return mix(s += 0x9e3779b97f4a7c15ull); }
    // inclusive
    int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
    double d01() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double d(double a, double b) { return a + (b - a) * d01(); }
    float f(double a, double b) { return float(d(a, b)); }
    bool chance(double p) { return d01() < p; }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    // log-uniform
    float logf_(double a, double b) { return float(std::exp(d(std::log(a), std::log(b)))); }
    template <class T>
    void shuffle(std::vector<T>& v)
    {
        for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]);
    }
};

struct CaseFail
{
    std::string sig, msg;
};

struct Hash
{
    uint64_t h = 0x1234567;
    Hash& add(uint64_t x) { h = mix(h ^ x); return *this; }
    Hash& add(float f)
    {
        uint32_t u; std::memcpy(&u, &f, 4); return add(uint64_t(u));
    }
    Hash& add(double f)
    {
        uint64_t u; std::memcpy(&u, &f, 8); return add(u);
    }
};

struct Stats
{
    std::map<std::string, double> counters;  // summed over workers
    std::map<std::string, double> maxima;    // maximum over workers
    std::unordered_set<uint64_t> states;     // distinct non-trivial situations
    std::vector<std::string> samples;
    long evaluations = 0;
};
inline Stats& stats() { static Stats s; return s; }

struct Ctx
{
    const char* prop;
    uint64_t seed;
    long caseNo;
    bool thorough;
    bool verbose;
    Rng rng;

    void count(const char* name, double n = 1) { stats().counters[name] += n; }
    void max(const char* name, double v)
    {
        auto& m = stats().maxima[name];
        if (v > m) m = v;
    }
    void eval(long n = 1) { stats().evaluations += n; }
    void state(uint64_t h) { if (stats().states.size() < 2000000) stats().states.insert(h); }
    void state(const Hash& h) { state(h.h); }
    __attribute__((format(printf, 2, 3))) void sample(const char* fmt, ...)
    {
        if (stats().samples.size() >= 4) return;
        char buf[600]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
        stats().samples.push_back(buf);
    }
    __attribute__((format(printf, 2, 3))) void log(const char* fmt, ...)
    {
        if (!verbose) return;
        va_list a; va_start(a, fmt); vfprintf(stderr, fmt, a); va_end(a); fputc('\n', stderr);
    }
    [[noreturn]] __attribute__((format(printf, 3, 4))) void fail(const char* sig, const char* fmt, ...)
    {
        char buf[2000]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
        throw CaseFail{sig, buf};
    }
};

#define VF_CHECK(ctx, cond, sig, ...)                                          \
    do {                                                                       \
        (ctx).eval();                                                          \
        if (!(cond)) (ctx).fail(sig, __VA_ARGS__);                             \
    } while (0)

typedef void (*CaseFn)(Ctx&);
struct Registry
{
    std::map<std::string, CaseFn> fns;
    static Registry& get() { static Registry r; return r; }
};
struct Registrar
{
    Registrar(const char* n, CaseFn f) { Registry::get().fns[n] = f; }
};
#define VF_PROPERTY(id)                                                        \
    static void run_##id(vf::Ctx& ctx);                                        \
    static vf::Registrar reg_##id{#id, &run_##id};                             \
    static void run_##id(vf::Ctx& ctx)

int mainImpl(int argc, char** argv);

} // namespace vf
