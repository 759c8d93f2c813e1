// Simulated threads: real threads that run one at a time, switched by the
// simulator at memory accesses, locks and GSL calls of the library.
#pragma once
#include "sim.h"
namespace sim {
// Runs the functions as threads under a drawn schedule and returns when all
// have ended. An exception that leaves one is a violation.
void run_threads(const std::vector<std::function<void()>> &f);
int self();                         // 0: not in a simulated thread
void pass();                        // lets another thread run
void preempt();                     // an explicit yield point
}
