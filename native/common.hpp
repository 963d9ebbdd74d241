// shared scaffolding of the replay harnesses: seeded choices, property-tagged checks, traces
#pragma once
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
namespace h {
inline uint64_t st = 1;
inline uint64_t rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1DULL; }
inline uint64_t below(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
inline bool chance(uint64_t n, uint64_t d) { return below(d) < n; }
template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
inline std::vector<uint64_t> hints;
inline std::string prop, focus;
inline std::vector<std::string> trace;
inline uint64_t iter = 0;
inline void log(const char* f, ...) {
    char b[600];
    va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    trace.emplace_back(b);
}
inline void dump() {
    printf("iteration %llu\n", (unsigned long long)iter);
    size_t from = trace.size() > 60 ? trace.size() - 60 : 0;
    if (from) printf("  ... %zu earlier steps\n", from);
    for (size_t i = from; i < trace.size(); ++i) printf("  %s\n", trace[i].c_str());
    fflush(stdout);
}
[[noreturn]] inline void die(const char* props, const std::string& msg) {
    printf("FAIL %s: %s\n", props, msg.c_str());
    dump();
    _exit(3);
}
inline bool mine(const char* props) { return prop.empty() || strstr(props, prop.c_str()); }
// a failed check counts only for the property being replayed
#define CHK(props, cond, ...) do { if (!(cond) && h::mine(props)) { char b_[400]; snprintf(b_, sizeof b_, __VA_ARGS__); h::die(props, std::string(b_) + "  [" #cond "]"); } } while (0)
inline void on_abort(int sig) { printf("FAIL %s: crash (signal %d)\n", prop.c_str(), sig); dump(); _exit(4); }
extern "C" inline void vf_death() { printf("FAIL %s: memory error (sanitizer)\n", prop.c_str()); dump(); }
}  // namespace h
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#include <csignal>
namespace h {
template <class F> int main(int argc, char** argv, F one) {
    uint64_t seed = 1, only = ~0ull; double secs = 10; uint64_t maxit = ~0ull;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto v = [&] { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--prop") prop = v();
        else if (a == "--seed") seed = strtoull(v(), 0, 0);
        else if (a == "--secs") secs = atof(v());
        else if (a == "--iters") maxit = strtoull(v(), 0, 0);
        else if (a == "--focus") focus = v();
        else if (a == "--iter") only = strtoull(v(), 0, 0);
        else if (a == "--hint") hints.push_back(strtoull(v(), 0, 0));
    }
    __sanitizer_set_death_callback(vf_death);
    signal(SIGABRT, on_abort);
    auto t0 = std::chrono::steady_clock::now();
    uint64_t n = 0;
    for (iter = only == ~0ull ? 0 : only; iter < maxit; ++iter) {
        trace.clear();
        st = (seed * 0x9E3779B97F4A7C15ULL) ^ ((iter + 1) * 0xD1B54A32D192ED03ULL);
        if (!st) st = 1;
        for (int i = 0; i < 4; ++i) rnd();
        one();
        ++n;
        if (only != ~0ull) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    }
    printf("OK iterations=%llu\n", (unsigned long long)n);
    return 0;
}
}  // namespace h
