// Captures what the process writes to standard output, whichever way it does.
#pragma once
#include "sim.h"
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
namespace sim {
struct Capture {
    int fd, old;
    Capture() { fflush(stdout); std::cout.flush(); fd = memfd_create("stdout", 0); old = dup(1); dup2(fd, 1); }
    ~Capture() { fflush(stdout); std::cout.flush(); dup2(old, 1); ::close(old); ::close(fd); }
    std::string text() { fflush(stdout); std::cout.flush(); off_t n = lseek(fd, 0, SEEK_END); std::string s((size_t)n, 0); off_t o = 0; while (o < n) { ssize_t k = pread(fd, &s[o], (size_t)(n - o), o); if (k <= 0) break; o += k; } return s; }
    size_t size() { fflush(stdout); std::cout.flush(); return (size_t)lseek(fd, 0, SEEK_END); }
    std::vector<std::string> lines() { std::vector<std::string> v; std::string s = text(), c; for (char x : s) if (x == '\n') { v.push_back(c); c.clear(); } else c += x; if (!c.empty()) v.push_back(c + "(no end of line)"); return v; }
};
}
