#include "common.hpp"
#include <exception>
#include <fcntl.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef VF_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace
{
volatile long g_case = -1;
const char* g_prop = "";
double g_caseCpu = 20;

void say(const char* what)
{
    char b[128];
    int n = snprintf(b, sizeof b, "\n%s prop=%s case=%ld\n", what, g_prop, long(g_case));
    if (write(1, b, size_t(n)) < 0) {}
}
void onDeath() { say("CRASH"); }
void onProf(int)
{
    say("HANG");
    _exit(3);
}
void onSig(int s)
{
    say("CRASH");
    signal(s, SIG_DFL);
    raise(s);
}
void arm()
{
    itimerval t{};
    t.it_value.tv_sec = long(g_caseCpu);
    setitimer(ITIMER_PROF, &t, nullptr);
}
std::string esc(const std::string& s)
{
    std::string o;
    for (char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
} // namespace

int main(int argc, char** argv)
{
    uint64_t seed = 1;
    long start = 0, count = 1, stride = 1;
    bool thorough = false, verbose = false;
    const char* out = nullptr;
    for (int k = 1; k < argc; ++k)
    {
        std::string a = argv[k];
        auto val = [&] { return argv[++k]; };
        if (a == "--prop") g_prop = val();
        else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else if (a == "--start") start = atol(val());
        else if (a == "--count") count = atol(val());
        else if (a == "--stride") stride = atol(val());
        else if (a == "--thorough") thorough = true;
        else if (a == "--verbose") verbose = true;
        else if (a == "--out") out = val();
        else if (a == "--case-cpu") g_caseCpu = atof(val());
    }
    auto it = vf::Registry::get().fns.find(g_prop);
    if (it == vf::Registry::get().fns.end())
    {
        fprintf(stderr, "unknown property %s\n", g_prop);
        return 2;
    }
#ifdef VF_ASAN
    __sanitizer_set_death_callback(&onDeath);
#else
    signal(SIGSEGV, onSig);
    signal(SIGBUS, onSig);
    signal(SIGFPE, onSig);
#endif
    signal(SIGABRT, onSig);
    signal(SIGPROF, onProf);

    uint64_t ph = 0;
    for (const char* c = g_prop; *c; ++c) ph = ph * 131 + (unsigned char)*c;

    long done = 0, fails = 0;
    for (long c = start; done < count; c += stride, ++done)
    {
        g_case = c;
        arm();
        vf::Ctx ctx{g_prop, seed, c, thorough, verbose, vf::Rng{vf::mix(seed * 1000003ull + ph) ^ vf::mix(uint64_t(c))}};
        std::string sig, msg;
        try
        {
            it->second(ctx);
        }
        catch (const vf::CaseFail& f)
        {
            sig = f.sig;
            msg = f.msg;
        }
        catch (const std::exception& e)
        {
            sig = "unexpected-exception";
            msg = e.what();
        }
        if (!sig.empty())
        {
            ++fails;
            printf("FAIL prop=%s case=%ld sig=%s msg=%s\n", g_prop, c, sig.c_str(), esc(msg).c_str());
            fflush(stdout);
            if (fails >= 10) { ++done; break; }
        }
    }
    itimerval t{};
    setitimer(ITIMER_PROF, &t, nullptr);
    g_case = -2;

    auto& s = vf::stats();
    if (out != nullptr)
    {
        std::string base = out;
        FILE* f = fopen((base + ".json").c_str(), "w");
        fprintf(f, "{\"cases\": %ld, \"evaluations\": %ld, \"fails\": %ld, \"counters\": {", done, s.evaluations, fails);
        bool first = true;
        for (auto& [k, v] : s.counters) { fprintf(f, "%s\"%s\": %.17g", first ? "" : ", ", k.c_str(), v); first = false; }
        fprintf(f, "}, \"maxima\": {");
        first = true;
        for (auto& [k, v] : s.maxima) { fprintf(f, "%s\"%s\": %.9g", first ? "" : ", ", k.c_str(), std::isfinite(v) ? v : 1e308); first = false; }
        fprintf(f, "}, \"samples\": [");
        first = true;
        for (auto& x : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(x).c_str()); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
        f = fopen((base + ".states").c_str(), "wb");
        for (uint64_t h : s.states) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    printf("DONE prop=%s cases=%ld fails=%ld\n", g_prop, done, fails);
    fflush(stdout);
    return fails ? 1 : 0;
}
