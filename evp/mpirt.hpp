// Control side of the simulated MPI job (not seen by the application).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace mpirt {
struct Ctl {
    int ranks = 1;
    uint64_t seed = 1;
    bool shuffle = false;     // seeded schedule and reduction order; otherwise round robin and rank order
    int crash_rank = -1;      // this rank is killed ...
    uint64_t crash_at = 0;    // ... at its nth communication call (1-based)
    uint64_t max_switches = 5000000;
};
struct End {
    enum { done, exited, threw, aborted, oracle, killed } how = done;
    int code = 0;
    std::string what, detail;
};
struct Out {
    std::vector<End> ends;
    std::string bad, detail;     // deadlock, mismatched collectives, misuse
    uint64_t switches = 0, collectives = 0, calls = 0, order_hash = 1469598103934665603ull;
    bool crashed = false;
};
struct Killed {};
Out run(const Ctl& c, const std::function<void(int)>& body);
void yield_point();   // a rank may lose control here (called from file operations too)
bool in_rank();
int rank();
}  // namespace mpirt
