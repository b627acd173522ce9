// sched.hpp - controlled scheduler for real threads running real code.
//
// The code under test is compiled with -fsanitize=thread, but linked with the
// runtime in sched.cpp instead of libtsan: every atomic operation and every
// pthread mutex/condition operation is a scheduling point decided by
// Run::choose(), and every plain memory access is checked against
// happens-before vector clocks, so data races are found in every explored
// schedule without relying on timing.  Memory freed during an execution is
// quarantined: touching it is reported.
//
// All interleavings with at most `preemptions` preemptive switches are
// explored (switches at blocking points and at thread ends are free).
#pragma once

#include "mc.hpp"

#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Result
{
    unsigned long points = 0; // scheduling points in this execution
};

// Runs the bodies as concurrent threads to completion under the scheduler.
// Throws mc::Violation on a data race, a deadlock, an escaped exception or a
// violation raised by a body.
Result run(mc::Run& run,
           const std::vector<std::function<void()>>& bodies,
           int preemptions);

// inside a body: block until cond() holds (evaluated without scheduling)
void wait_until(const std::function<bool()>& cond);
// inside a body: an explicit scheduling point
void point();
// the index of the calling body
int self();
// inside a body, code that the scheduler and the race detector must not see
struct Quiet
{
    Quiet();
    ~Quiet();
    bool old;
};
// inside a body: report a violation
void fail(const std::string& msg);

} // namespace sched
