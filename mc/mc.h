// Exhaustive explorer.  A check is a set of suites; a suite is a list of cases
// (programs, operation sequences, inputs ...) and, inside each case, a tree of
// choices made by the environment (schedules, completions, faults ...).  Every
// case is run, and inside a case every combination of choices whose number of
// departures from the default (choice 0) is within the suite's bound.
#pragma once
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Ctx {
    // choose(): 0 is the default answer; any other one costs one deviation.
    int choose(int n, const char *label = "");
    // freeChoose(): all answers are explored regardless of the bound.
    int freeChoose(int n, const char *label = "");
    bool canDeviate() const;              // is there any deviation budget left?
    void fail(const std::string &msg, const std::string &key = "");
    bool failed() const { return failed_; }
    void state(uint64_t h);               // a state was visited (distinct ones are counted)
    void step(uint64_t n = 1);            // transitions taken
    void stepTo(uint64_t total) { step(total >= seen_ ? total - seen_ : total); seen_ = total; } // the same, from a running total
    void outcome(uint64_t h);             // the observable outcome of an execution
    void validated();                     // a trace of the reference model was compared with the implementation
    bool thorough = false;
    bool verbose = false;
    std::string note;                     // attached to a violation (e.g. a rendering of the history)
    // --- internals
    struct Pt { int chosen, n, cost; };
    std::vector<Pt> path; size_t pos = 0; int devs = 0, bound = 0; bool failed_ = false; std::string msg_, key_; std::string trace_; bool diverged = false; uint64_t seen_ = 0;
};

struct Suite {
    std::string name;
    std::function<size_t(bool thorough)> cases;
    std::function<void(Ctx &, size_t)> run;
    std::function<int(bool thorough)> bound = [](bool) { return 0; };
    std::function<std::string(size_t)> describe;
    std::function<void()> init;           // once per process, before the first case
    size_t recycle = 400;                 // executions per worker process
    std::string bounds;                   // human-readable bounds, for the evidence
};

struct Check {
    std::string id;
    std::vector<Suite> suites;
    std::vector<std::string> assumptions;
};

int main(int argc, char **argv, const Check &c);

// helpers
std::string hex(const std::string &s);
std::string show(const std::string &s);   // C-like rendering of bytes
void resetStatics(); // the static variables of the code under test as in a new process
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull);
uint64_t mix(uint64_t a, uint64_t b);
} // namespace mc
