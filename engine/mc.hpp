// mc.hpp - a small stateless model-checking engine.
//
// A scenario is a function void(mc::Run&) that drives the real code and a
// reference model in lockstep.  Every nondeterministic decision (which graph,
// which operation, which thread runs next, which call fails, ...) is taken by
// Run::choose(n); the engine enumerates ALL choice sequences depth-first,
// re-executing the scenario from scratch for each of them.
//
// The exploration is split over worker processes by the prefix of the first
// `shard_depth` choices.  A worker that dies (signal, sanitizer report,
// assertion) or hangs is turned into a violation after the choice sequence it
// was executing has been replayed alone and failed again.
#pragma once

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Violation
{
    std::string msg;
};
struct Prune
{};

using u64 = std::uint64_t;

inline u64 mix(u64 h, u64 v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
inline u64 hash_str(const std::string& s, u64 h = 1469598103934665603ull)
{
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

struct Engine;

class Run
{
public:
    // nondeterministic choice in [0,n)
    int choose(int n);
    // choose that is not explored in depth when only one value
    bool flip() { return choose(2) != 0; }
    // one transition (operation applied to the implementation and the model)
    void step() { ++steps_; }
    // record a reference-model state (canonical hash)
    void state(u64 h);
    // record an observed outcome
    void outcome(u64 h);
    // log an operation (only formatted when logging is on)
    bool logging() const { return logging_; }
    void log(const std::string& s) { log_.push_back(s); }
    // tier dependent bound
    int bound(int quick, int thorough) const { return thorough_ ? thorough : quick; }
    bool thorough() const { return thorough_; }
    // abandon the execution (not counted)
    [[noreturn]] void prune() { throw Prune{}; }
    [[noreturn]] void fail(const std::string& m) { throw Violation{m}; }
    // a violation that may be listed in the known-findings file
    void finding(const std::string& key, const std::string& m);

    Engine* eng          = nullptr;
    bool logging_        = false;
    bool thorough_       = false;
    u64 steps_           = 0;
    std::vector<std::string> log_;
    // choice sequence
    std::vector<int> seq; // chosen values
    std::vector<int> max; // number of alternatives
    size_t pos = 0;
    bool replaying = false;
};

#define MC_LOG(run, expr)                                                      \
    do {                                                                       \
        if ((run).logging()) {                                                 \
            std::ostringstream os_;                                            \
            os_ << expr;                                                       \
            (run).log(os_.str());                                              \
        }                                                                      \
    } while (0)

#define MC_CHECK(run, cond, expr)                                              \
    do {                                                                       \
        if (!(cond)) {                                                         \
            std::ostringstream os_;                                            \
            os_ << expr;                                                       \
            (run).fail(os_.str());                                             \
        }                                                                      \
    } while (0)

using ScenarioFn = std::function<void(Run&)>;

struct Scenario
{
    std::string name;
    ScenarioFn fn;
    int shard_depth    = 2;     // choices used to split work over workers
    bool thorough_only = false;
};

void add(std::string name,
         ScenarioFn fn,
         int shard_depth    = 2,
         bool thorough_only = false);

int main(int argc, char** argv);

struct Reg
{
    Reg(std::string name, ScenarioFn fn, int shard_depth = 2, bool t = false)
    {
        add(std::move(name), std::move(fn), shard_depth, t);
    }
};

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SCENARIO(name, shard_depth)                                         \
    static void MC_CAT(scn_, name)(::mc::Run&);                                \
    static ::mc::Reg MC_CAT(reg_, name){#name, MC_CAT(scn_, name), shard_depth}; \
    static void MC_CAT(scn_, name)(::mc::Run & run)
#define MC_SCENARIO_THOROUGH(name, shard_depth)                                \
    static void MC_CAT(scn_, name)(::mc::Run&);                                \
    static ::mc::Reg MC_CAT(reg_, name){                                       \
        #name, MC_CAT(scn_, name), shard_depth, true};                         \
    static void MC_CAT(scn_, name)(::mc::Run & run)

} // namespace mc
