// Operations of the library that touch files, as repeatable attempts.
#pragma once
#include "sim.h"
namespace sim {
struct Activity {
    std::string what;
    std::function<void()> attempt;      // everything it creates is gone when it returns or throws
    std::function<void()> verify;       // after a success, faults off: the result is right
    std::function<void(bool)> after;    // (M01) what holds after an attempt that failed or not
};
Activity gen_activity(unsigned i);      // prepares its files; faults off
}
