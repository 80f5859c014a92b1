// Bounded stand-in support: a native program that evaluates the same contracts on the real code over
// an enumerated / seeded family of inputs.  Always labelled bounded; never counted as proved.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <sstream>
#include <iostream>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <chrono>
#include <exception>
namespace nb {
    struct Rng {
        uint64_t s; explicit Rng(uint64_t seed): s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
        uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        // values near representation boundaries are as likely as uniform ones
        uint64_t edgy(unsigned bits) {
            uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
            switch (below(4)) { case 0: return next() & m; case 1: { uint64_t k = below(bits + 1); uint64_t v = k >= 64 ? 0 : (1ull << k); return (v + below(3) - 1) & m; } case 2: { unsigned k = below(bits) + 1; return next() & m & (k >= 64 ? ~0ull : ((1ull << k) - 1)); } default: return below(8) & m; }
        }
    };
    inline uint64_t cases = 0; inline std::set<uint64_t> distinct; inline std::string current; inline std::string section; inline std::map<std::string, uint64_t> perSection; inline std::vector<std::string> samples;
    inline bool thorough = false; inline uint64_t seed = 1; inline std::chrono::steady_clock::time_point t0; inline double budget = 20; inline std::string only;
    inline void note(uint64_t h) { cases++; perSection[section]++; if (distinct.size() < 2000000) distinct.insert(h * 0x9E3779B97F4A7C15ull + std::hash<std::string>()(section)); }
    inline void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(section + ": " + s); }
    [[noreturn]] inline void fail(const std::string &what) {
        printf("FAIL section=%s what=%s\ninput: %s\n", section.c_str(), what.c_str(), current.c_str()); fflush(stdout); _exit(1);
    }
    inline void check(bool c, const std::string &what) { if (!c) fail(what); }
    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    inline void onsig(int s) { char b[256]; snprintf(b, 256, "FAIL section=%s what=%s %d\ninput: ", section.c_str(), s == SIGALRM ? "no end within two minutes: signal" : "signal", s); (void)!write(1, b, strlen(b)); (void)!write(1, current.data(), current.size()); (void)!write(1, "\n", 1); _exit(1); }
    struct Section { std::string name; std::function<void(Rng &)> fn; };
    inline std::vector<Section> &sections() { static std::vector<Section> s; return s; }
    struct Reg { Reg(const char *n, std::function<void(Rng &)> f) { sections().push_back({n, f}); } };
    // share of the time budget available to each section
    inline double share() { return budget / (sections().size() ? sections().size() : 1); }
    // runs body(rng, i) until n cases are done or the section's time share is used up
    inline void loop(uint64_t n, Rng &r, std::function<void(Rng &, uint64_t)> body) {
        double t1 = elapsed(); double s = share(); if (thorough) n *= 20;
        for (uint64_t i = 0; i < n; i++) { alarm(120); body(r, i); alarm(0); if ((i & 15) == 15 && elapsed() - t1 > s) break; }
    }
}
#define NB_SECTION(id, title) static void nb_##id(nb::Rng &rng); static nb::Reg nb_reg_##id(title, nb_##id); static void nb_##id(nb::Rng &rng)
#define NB_CHECK(c) do { if (!(c)) nb::fail(#c); } while (0)
#define NB_MAIN int main(int argc, char **argv) { \
    nb::seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1; nb::thorough = argc > 2 && !strcmp(argv[2], "thorough"); nb::budget = argc > 3 ? atof(argv[3]) : 20; if (argc > 4) nb::only = argv[4]; nb::t0 = std::chrono::steady_clock::now(); \
    for (int s : {SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, nb::onsig); \
    for (auto &s : nb::sections()) { if (!nb::only.empty() && nb::only != s.name) continue; nb::section = s.name; nb::current.clear(); nb::Rng r(nb::seed ^ std::hash<std::string>()(s.name)); \
        try { s.fn(r); } catch (std::exception &e) { nb::fail(std::string("unexpected exception: ") + e.what()); } } \
    printf("CASES %llu DISTINCT %llu\n", (unsigned long long)nb::cases, (unsigned long long)nb::distinct.size()); \
    for (auto &p : nb::perSection) printf("SECTION %llu %s\n", (unsigned long long)p.second, p.first.c_str()); \
    for (auto &s : nb::samples) printf("SAMPLE %s\n", s.c_str()); fflush(stdout); _exit(0); }
