// A deterministic scheduler for the concurrency drivers.  A driver is compiled
// with -fsanitize=thread, so that every memory access calls into a runtime;
// instead of ThreadSanitizer's, it is linked with the one in sched.cpp, which
// makes every access to a shared range a point at which another thread may
// go on.  Threads are fibers of one real thread.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {
// Memory whose accesses are scheduling points.
void share(const void* p, std::size_t n, int tag);
void unshare_all();

// Accesses of the current thread to shared memory since the last call:
// kind: 'a' (atomic), 'f' (failed compare-exchange), 'p' (plain), '|' (fence)
struct access {
    char kind;
    int order;
    int tag;
    long offset;
};
std::vector<access> take_accesses();

int self();                       // number of the current thread, or -1
// Append to the history of the current execution.
void event(const std::string& s);

struct program {
    std::function<void()> reset;                       // before each execution
    std::vector<std::function<void()>> threads;
    std::function<void()> finish;                      // after it; may call event
};
struct limits {
    int preemptions = 2;
    int executions = 1000;        // systematic ones
    int random = 50;              // random ones
    std::uint64_t seed = 1;
};
struct result {
    std::vector<std::vector<std::string>> histories;   // the different ones
    long executions = 0;
    bool complete = false;        // all schedules within the bound
};
result explore(const program& p, const limits& l);
}  // namespace sched
