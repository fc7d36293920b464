// shared plumbing of the native drivers: they run the real code of /repo (compiled by g++ with the
// address and undefined-behaviour sanitizers) against an independent oracle, print "FAIL <input>" and exit 1.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <unistd.h>

static std::mt19937_64 rng_;
static double tend_;
static inline double now_() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static inline bool time_left() { return now_() < tend_; }
static inline uint64_t rnd() { return rng_(); }
static inline int64_t rndr(int64_t a, int64_t b) { return a + (int64_t)(rnd() % (uint64_t)(b - a + 1)); }
static inline double rndu() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
// the case under test, printed if the code under test crashes or aborts
static char cur_[4096];
static FILE* out_;
#define CASE(...) snprintf(cur_, sizeof cur_, __VA_ARGS__)
[[noreturn]] static inline void fail_(const std::string& s) {
    fprintf(out_, "FAIL %s  [%s]\n", cur_, s.c_str());
    fflush(out_);
    _exit(1);
}
#define CHECK(c, ...)                             \
    do {                                          \
        if (!(c)) {                               \
            char b_[1024];                        \
            snprintf(b_, sizeof b_, __VA_ARGS__); \
            fail_(b_);                            \
        }                                         \
    } while (0)
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
#include <csignal>
static void died_() {
    fprintf(out_, "FAIL %s  [sanitizer report / undefined behaviour]\n", cur_);
    fflush(out_);
    _exit(1);
}
// gcc links the undefined-behaviour runtime separately: this is its own hook
extern "C" __attribute__((visibility("default"))) void __ubsan_on_report(void) { died_(); }
static void sig_(int s) {
    fprintf(out_, "FAIL %s  [signal %d]\n", cur_, s);
    fflush(out_);
    _exit(1);
}
static void alarm_(int) {
    fprintf(out_, "FAIL %s  [call does not return]\n", cur_);
    fflush(out_);
    _exit(1);
}
// bound the time one batch of calls may take: watch(10) ... watch(0)
static inline void watch(int sec) { alarm(sec); }
// random words biased to boundary values
template <typename I>
I rint() {
    using U = typename std::make_unsigned<I>::type;
    U r = (U)rnd();
    switch (rnd() % 8) {
        case 0: return (I)(r & 7);
        case 1: return (I)((U)0 - (r & 7));
        case 2: return (I)((U)1 << (rnd() % (8 * sizeof(I))));
        case 3: return (I)(((U)1 << (rnd() % (8 * sizeof(I)))) - 1);
        case 4: return (I)(r >> (rnd() % (8 * sizeof(I))));
        case 5: return (I)((U)0 - (U)(r >> (rnd() % (8 * sizeof(I)))));
        default: return (I)r;
    }
}
static std::vector<std::map<std::string, std::string>> hints_;
static void read_hints(const char* f) {
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l)) {
        std::map<std::string, std::string> m;
        size_t p = 0;
        while ((p = l.find('"', p)) != std::string::npos) {
            size_t e = l.find('"', p + 1);
            if (e == std::string::npos) break;
            std::string k = l.substr(p + 1, e - p - 1);
            size_t v = l.find('"', e + 1);
            if (v == std::string::npos) break;
            size_t ve = l.find('"', v + 1);
            if (ve == std::string::npos) break;
            m[k] = l.substr(v + 1, ve - v - 1);
            p = ve + 1;
        }
        if (!m.empty()) hints_.push_back(m);
    }
}
static inline bool hint(const std::map<std::string, std::string>& m, const char* k, uint64_t& v) {
    auto it = m.find(k);
    if (it == m.end()) return false;
    char* e = nullptr;
    const char* s = it->second.c_str();
    if (*s == '-') v = (uint64_t)strtoll(s, &e, 10);
    else v = strtoull(s, &e, 10);
    return e != s;
}
static inline bool hintd(const std::map<std::string, std::string>& m, const char* k, double& v) {
    auto it = m.find(k);
    if (it == m.end()) return false;
    std::string s = it->second;
    double num = atof(s.c_str());
    size_t p = s.find('/');
    if (p != std::string::npos) num /= atof(s.c_str() + p + 1);
    v = num;
    return true;
}
void search();
int main(int argc, char** argv) {
    out_ = fdopen(dup(1), "w");
    freopen("/dev/null", "w", stdout);   // the library prints diagnostics
    freopen("/dev/null", "w", stderr);
    std::cout.setstate(std::ios::badbit);
    std::cerr.setstate(std::ios::badbit);
    uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
    double secs = argc > 3 ? atof(argv[3]) : 10;
    if (argc > 4) read_hints(argv[4]);
    rng_.seed(seed * 7919 + 17);
    tend_ = now_() + secs;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(died_);
    signal(SIGALRM, alarm_);
    signal(SIGABRT, sig_);
    signal(SIGFPE, sig_);
    signal(SIGSEGV, sig_);
    try {
        search();
    } catch (const std::exception& e) {
        fprintf(out_, "FAIL %s  [unexpected exception %s]\n", cur_, e.what());
        fflush(out_);
        _exit(1);
    }
    fprintf(out_, "no failing input found\n");
    fflush(out_);
    _exit(0);
}
