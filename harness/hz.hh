// shared by the oracle harnesses: seeded generator, case bookkeeping, failure reports, watchdog
#ifndef HZ_HH
#define HZ_HH
#include <signal.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace hz {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template <typename T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // small, boundary and arbitrary 64-bit values
    int64_t value() {
        static const int64_t b[] = {0, 1, -1, 2, 3, 7, 8, 63, 64, 255, 256, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1,
                                    INT32_MAX, INT32_MIN, 1ll << 32, (1ll << 32) - 1, 0x7fffffffffffff00ll};
        switch (below(4)) {
            case 0: return b[below(sizeof(b) / sizeof(*b))];
            case 1: return range(-8, 8);
            case 2: return int64_t(next() >> below(64));
            default: return int64_t(next());
        }
    }
};

inline std::string& cur() { static std::string s; return s; }
inline std::string& group() { static std::string s; return s; }
inline uint64_t& seed() { static uint64_t s = 1; return s; }
inline uint64_t& index() { static uint64_t s = 0; return s; }
inline uint64_t& cases() { static uint64_t s = 0; return s; }
inline uint64_t& fails() { static uint64_t s = 0; return s; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline std::string esc(const std::string& s) {
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    return r;
}

// one line per failure: FAIL <group> seed index | input | what
inline void report(const char* what) {
    fails()++;
    printf("FAIL %s %llu %llu | %s | %s\n", group().c_str(), (unsigned long long)seed(), (unsigned long long)index(),
           esc(cur()).c_str(), esc(what).c_str());
    fflush(stdout);
}
inline void fail(const std::string& what) { report(what.c_str()); }
inline bool check(bool ok, const std::string& what) { if (!ok) report(what.c_str()); return ok; }
template <typename A, typename B>
inline bool same(const char* what, const A& got, const B& want) {
    if (got == want) return true;
    if constexpr (std::is_arithmetic_v<A>) report((std::string(what) + ": got " + std::to_string(got) + ", want " + std::to_string(want)).c_str());
    else if constexpr (std::is_same_v<A, std::string>) report((std::string(what) + ": got " + got + ", want " + std::string(want)).c_str());
    else report((std::string(what) + ": differs").c_str());
    return false;
}
inline double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }
inline double& cpu0() { static double c; return c; }
inline double& cpu1() { static double c; return c; }
inline int& alarms() { static int n; return n; }
constexpr unsigned window = 15;
inline void on_signal(int sig) {
    static bool in = false;
    if (sig == SIGALRM && !in) {
        // the machine may have been suspended or busy: only a case that computes for long, or that stays idle over
        // several alarms, does not terminate
        double c = cpu(), used = c - cpu0(), last = c - cpu1();
        cpu1() = c;
        if (used < 30 && (++alarms() < 3 || last > 0.2) && alarms() < 12) { alarm(window); return; }
    }
    if (!in) { in = true; report(sig == SIGALRM ? "does not terminate" : (std::string("killed by signal ") + strsignal(sig)).c_str()); }
    _exit(3);
}
inline void on_death() {
    static bool in = false;
    if (!in) { in = true; report("sanitizer: memory error or undefined behaviour (see stderr)"); }
}
// describe the input before it reaches the code
inline void input(const std::string& s) { cur() = s; }
inline void more(const std::string& s) { cur() += s; }


struct Group {
    const char* name;
    std::function<void(Rng&)> run;
    unsigned weight = 1;
};

// argv: seed seconds [group index]
inline int main_(int argc, char** argv, const std::vector<Group>& gs) {
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) signal(s, on_signal);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    seed() = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
    double secs = argc > 2 ? atof(argv[2]) : 5;
    auto one = [&](const Group& g, uint64_t i) {
        group() = g.name;
        index() = i;
        cases()++;
        uint64_t h = 1469598103934665603ull;
        for (const char* p = g.name; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
        Rng r(seed() * 1000003 + i * 7919 + h);
        alarms() = 0;
        cpu0() = cpu1() = cpu();
        alarm(window);
        try {
            g.run(r);
        } catch (std::exception& e) {
            report((std::string("uncaught exception ") + e.what()).c_str());
        } catch (...) {
            report("uncaught exception");
        }
        alarm(0);
    };
    if (argc > 4) {
        for (auto& g : gs)
            if (!strcmp(g.name, argv[3])) one(g, strtoull(argv[4], nullptr, 10));
    } else {
        unsigned tot = 0;
        for (auto& g : gs) tot += g.weight;
        for (auto& g : gs) {
            double t0 = now(), lim = secs * g.weight / tot;
            uint64_t f0 = fails();
            for (uint64_t i = 0; i < 64 || now() - t0 < lim; i++) {
                one(g, i);
                if (fails() - f0 >= 3) break;
                if (now() - t0 > lim * 4 + 20) break;
            }
            printf("GROUP %s cases %llu\n", g.name, (unsigned long long)(index() + 1));
        }
    }
    printf("DONE cases %llu failures %llu\n", (unsigned long long)cases(), (unsigned long long)fails());
    fflush(stdout);
    _exit(fails() ? 1 : 0);
}
}  // namespace hz
#endif
