// Minimal property-based testing engine: a case is a sequence of recorded choices; every case runs in a
// forked child (crashes, aborts and hangs of the library become failures, no state leaks between cases);
// failures are shrunk on the choice sequence and saved as replay files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

typedef uint64_t u64;

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

struct Source {
    u64 state = 1;
    bool replay = false;
    std::vector<u64> in, rec;
    u64 *live = nullptr;                   // shared-memory copy of the choices (survives crashes)
    size_t *live_n = nullptr, live_max = 0;
    long first = -1;                       // forced value of the very first choice (stratification)
    u64 next();
    u64 below(u64 n);                      // uniform choice in [0,n), shrinks towards 0
    double unit() { return below(1 << 24) / (double)(1 << 24); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logreal(double lo, double hi);
    bool chance(int num, int den) { return below(den) >= (u64)(den - num); }  // shrinks towards false
    int range(int lo, int hi) { return lo + (int)below(hi - lo + 1); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Ctx {
    Source src;
    bool thorough = false;
    bool explain = false;                  // replay mode: print details
    bool nontriv = false;
    long elementary = 0;                   // elementary comparisons made inside the case
    double worst = 0;                      // largest observed error / tolerance
    char *live_desc = nullptr;
    size_t live_desc_n = 0;
    void describe(const std::string &s);   // readable form of the case; survives crashes
    std::set<std::string> labels;
    std::string scratch;                   // per-worker scratch directory (created on demand)
    void label(const std::string &s) { labels.insert(s); }
    void nontrivial() { nontriv = true; }
    void fail(const std::string &m) { throw Fail(m); }
    void require(bool c, const std::string &m) { if (!c) throw Fail(m); }
    void ratio(double r) { if (r > worst) worst = r; }
};

// a fixed case: run first, reported as known finding when its id is listed in the known-findings file
struct Fixed { std::string id, what; std::function<void(Ctx &)> fn; };

struct Property {
    std::string id;
    std::vector<Fixed> fixed;
    std::string technique_rule;            // how cases are made and what is non-trivial
    std::function<void(Ctx &)> fn;
    int modes = 1;                         // first choice is stratified over this many modes
    long quick_cases = 1000, thorough_cases = 10000;
    int quick_budget_s = 240, thorough_budget_s = 780;
    int cpu_limit_s = 120;                 // a single case using more CPU than this is a hang
    int jobs = 8;
    int confirm = 2;                       // replays (of 12) that must fail before a failure is reported; 0: report even if none does
    bool init_parent = true;               // call libgrpp_init() once before forking
    std::function<void()> setup;           // run once in the parent, before the workers fork
};

int engine_main(int argc, char **argv, const std::vector<Property> &props);
