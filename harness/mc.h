// Stateless explicit-state exploration of the real library.
//
// A "scenario" is an ordinary function that drives the real code through its public API and calls
// Run::choose(n) wherever the environment may take one of n actions.  The explorer enumerates, depth
// first and without omission, every vector of choices (work is split dynamically over worker
// processes).  Every execution starts from a freshly constructed system, so a choice vector is a
// complete, replayable counterexample.  Assertion failures, signals and hangs of the code under test
// happen inside a worker process and are attributed to the choice vector that was running.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace mc {

static const int MAXC = 480;      // maximum number of choices in one execution
static const int MSGLEN = 1500;

struct Violation { std::string sig, msg; };

struct Slot {                       // one per worker, in shared memory
    volatile int active;            // an execution is under way
    volatile int len;               // choices taken so far in the current execution
    int base;                       // choices [0,base) belong to the popped prefix
    uint16_t choice[MAXC];
    uint16_t limit[MAXC];           // alternatives >= limit were given away / do not exist
    volatile uint64_t execs, transitions, heartbeat, checks;
    volatile int vector_len;        // length of the vector being replayed
    char sig[240];
    char msg[MSGLEN];
};

class Run {
public:
    // take one of n alternatives (n >= 1)
    int choose(int n);
    // pick from a list
    template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
    bool flip() { return choose(2) == 1; }
    // one step of the system under test was executed
    void transition(uint64_t k = 1) { mTransitions += k; }
    // an oracle comparison was made
    void checked(uint64_t k = 1) { mChecks += k; }
    // the observable state reached (counts distinct states)
    void state(uint64_t h);
    // cut this execution: not a meaningful execution (illegal op in this state)
    [[noreturn]] void prune();
    [[noreturn]] void fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    bool verbose = false;
    bool thorough = false;
    const char* scenario = "";
    std::vector<std::string> log;
    uint64_t mTransitions = 0, mChecks = 0;
    std::vector<uint16_t> prefix;     // forced choices
    std::vector<uint16_t> plim;       // limits inherited for the forced choices
    std::vector<uint16_t> taken, lim;
    Slot* slot = nullptr;
};

#define MC_LOG(r, ...) do { if ((r).verbose) (r).note(__VA_ARGS__); } while (0)
#define MC_CHECK(r, cond, sig, ...) do { (r).checked(); if (!(cond)) (r).fail(sig, __VA_ARGS__); } while (0)

struct Scenario {
    std::string name;
    std::function<void(Run&)> fn;
    std::string bounds;               // what is enumerated, in words
    int quick = 1;                    // run in quick tier?
    int hangSeconds = 30;
};

struct Hash {
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (i * 8)) & 0xff; h *= 1099511628211ull; } }
    void d(double v) { uint64_t x; v = v == 0 ? 0 : v; memcpy(&x, &v, 8); u(x); }
    void s(const char* p) { while (*p) { h ^= (unsigned char)*p++; h *= 1099511628211ull; } }
};

int main(int argc, char** argv, const char* property, const std::vector<Scenario>& scenarios,
         const std::string& assumptions = "");

} // namespace mc
