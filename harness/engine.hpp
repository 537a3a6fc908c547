// Property-based testing engine: recorded choice sequences, forked workers, shrinking, replay.
#pragma once
#include "ferret.hpp"

struct CaseFail { std::string tag, msg; };
struct CaseDiscard {};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string esc(const std::string &s, size_t max = 60);

// The source of every random decision of a case.  Small values are simple; replaying a prefix of
// a recorded sequence continues with zeros.
struct Src {
    uint64_t s[2];
    const uint32_t *rep = nullptr; size_t rep_n = 0; bool replay = false;
    uint32_t *rec = nullptr; volatile uint32_t *rec_n = nullptr; size_t rec_cap = 0;
    size_t pos = 0;
    uint64_t next64();
    uint32_t draw(uint32_t n);                    // 0..n-1
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }   // inclusive
    bool chance(uint32_t num, uint32_t den) { uint32_t v = draw(den); return v >= den - num; } // 0 => false
    bool more(uint32_t pct) { return chance(pct, 100); }
    // small values are likely, up to hi inclusive
    uint32_t geo(uint32_t hi, uint32_t cont_pct = 60) { uint32_t v = 0; while (v < hi && more(cont_pct)) v++; return v; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
    // weighted choice: index into weights
    uint32_t weighted(std::initializer_list<uint32_t> w) {
        uint32_t tot = 0; for (auto x : w) tot += x;
        uint32_t v = draw(tot), i = 0; for (auto x : w) { if (v < x) return i; v -= x; i++; } return 0; }
};

struct Ctx {
    Src src;
    bool tracing = false;
    bool thorough = false;
    std::string trace;             // human readable account of the case (only when tracing)
    int trace_fd = -1;             // the same, written at once so that it survives a crash
    bool nontrivial = false;
    uint64_t case_no = 0;
    std::map<std::string, uint64_t> labels;
    std::string scratch;           // an empty directory for this case
    void t(const char *f, ...) __attribute__((format(printf, 2, 3)));
    void label(const char *l, uint64_t n = 1) { labels[l] += n; }
};

[[noreturn]] void fail(const char *tag, const char *f, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, tag, ...) do { if (!(cond)) fail(tag, __VA_ARGS__); } while (0)

struct Prop {
    const char *id;
    void (*run)(Ctx &c);
    uint64_t quick_cases, thorough_cases;
    const char *rule;
    const char *level;                        // evidence level
    bool needs_scratch;
    unsigned cpu_limit_s;                     // CPU seconds for one case
};
extern const Prop the_props[];               // terminated by id == NULL

// Runs f, catching a Ferret exception; returns 0 or its code (message in last_error()).
extern std::string g_last_error;
template <class F> __attribute__((noinline)) int frt_try(F f)
{
    volatile int code = 0;
    FRT_TRY
        f();
    FRT_XCATCHALL
        code = xcontext.excode;
        g_last_error = xcontext.msg ? xcontext.msg : "";
        FRT_HANDLED();
    FRT_XENDTRY
    return code;
}
// Like frt_try but any error is a failure of the property.
#define MUST(tag, ...) do { int rc__ = frt_try([&] { __VA_ARGS__; }); \
    if (rc__) fail(tag, "unexpected error %d: %s", rc__, g_last_error.c_str()); } while (0)

void rm_rf(const std::string &dir);          // removes a scratch directory created by the engine
