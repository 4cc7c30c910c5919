// Controlled scheduler: the threads of a scenario are fibers, and every interleaving up to a preemption bound is executed.
#pragma once
#include <functional>
#include <string>
#include <cstdio>

namespace mc {

struct options {
    int bound = 2;                  // preemptions (a spurious wake-up costs one, too)
    long limit = 50000000;          // executions
    long steps = 20000;             // scheduling points of one execution
    bool spurious = true;
    bool race_free = true;          // a data race is a failure
};

// Explores the scenario; prints a summary line and returns 0, or prints the failing schedule and exits with 10.
int explore(const std::function<void()> & scenario, const options & opt);

[[noreturn]] void fail(const std::string & message);
inline void check(bool condition, const char * message) { if (!condition) { fail(message); } }

// A scheduling point, and a wait until the condition holds (re-evaluated whenever the thread could run).
void point();
void wait_until(const std::function<bool()> & condition);
int choose(int n);                  // data choice of the scenario
void outcome(long value);           // collected and counted

}
