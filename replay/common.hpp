// Shared by the replay drivers: they run the real code against the contract's specification function on concrete
// inputs, to turn a failed obligation into a failing input.  Usage: driver <property> <seed> <seconds>
#pragma once
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>

struct Rng {
    std::uint64_t s;
    std::uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    bool          chance(unsigned percent) { return below(100) < percent; }
};

inline char        g_case[1 << 16];
inline std::size_t g_len;
inline std::string g_prop;
inline unsigned    g_patience = 10;    // seconds one case may take

inline void say(char const* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (g_len < sizeof g_case - 256) {
        int n = vsnprintf(g_case + g_len, sizeof g_case - g_len, fmt, ap);
        if (n > 0) g_len += (std::size_t)n;
    }
    va_end(ap);
}
inline void begin() { g_len = 0; g_case[0] = 0; }
inline void put_all(char const* s, std::size_t n)
{
    while (n) {
        ssize_t k = write(1, s, n);
        if (k <= 0) return;
        s += k;
        n -= (std::size_t)k;
    }
}
inline void report(char const* what)
{
    static volatile sig_atomic_t once;
    if (once) return;
    once = 1;
    put_all("FAILING-INPUT: ", 15);
    put_all(g_case, strnlen(g_case, sizeof g_case));
    put_all("\nOBSERVED: ", 11);
    put_all(what, strlen(what));
    put_all("\n", 1);
}
[[noreturn]] inline void fail(char const* fmt, ...)
{
    static char b[2048];
    va_list     ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    report(b);
    _exit(1);
}
inline void on_signal(int s)
{
    report(s == SIGALRM ? "the operation does not return" : s == SIGABRT ? "abort (assertion of the library or of the runtime)" :
           s == SIGSEGV ? "invalid memory access" : s == SIGFPE ? "arithmetic fault" : "fatal signal");
    _exit(1);
}
#ifndef VP_SCHED
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#else
inline void __sanitizer_set_death_callback(void (*)(void)) {}
#endif
extern "C" inline void on_death() { report("the sanitizer stopped the program (see its report)"); }
extern "C" inline char const* __asan_default_options() { return "handle_segv=0:handle_abort=0:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=1"; }
extern "C" inline char const* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1"; }

#define EXPECT(c, ...)          \
    do {                        \
        if (!(c)) fail(__VA_ARGS__); \
    } while (0)

void run(std::string const& prop, Rng& r);    // one random case

int main(int argc, char** argv)
{
    g_prop            = argc > 1 ? argv[1] : "";
    std::uint64_t seed = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
    double        secs = argc > 3 ? atof(argv[3]) : 5;
    for (int s : {SIGALRM, SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) signal(s, on_signal);
    __sanitizer_set_death_callback(on_death);
    auto          t0 = std::chrono::steady_clock::now();
    std::uint64_t n  = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
        Rng r{seed * 1000003ull + n};
        begin();
        alarm(g_patience);
        run(g_prop, r);
        ++n;
    }
    alarm(0);
    printf("CASES: %llu\n", (unsigned long long)n);
    fflush(stdout);
    _exit(0);
}
