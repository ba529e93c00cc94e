// One simulated execution of a micromechanics program: an MPI job on a simulated machine.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "dst.hpp"
#include "mpirt.hpp"
namespace evp {
struct Options {
    int ranks = 1;
    bool split = false;
    int order = 0;
    uint64_t seed = 1;
    bool shuffle = false;
    int crash_rank = -1;
    uint64_t crash_at = 0;
    uint64_t max_iterations = 40000000, max_steps = 20000000000ull;
    std::vector<dst::IoFault> faults;
    long capacity = -1;
};
struct Result {
    enum { done, exited, threw, aborted, oracle, killed } how = done;
    int code = 0;
    std::string what, detail, out;
    std::map<std::string, std::string> files;
    std::vector<std::string> fired;
    bool crashed = false, frozen = false;
    uint64_t kernels = 0, iterations = 0, permuted = 0, switches = 0, collectives = 0, order_hash = 0, calls = 0, steps = 0;
};
Result run(const std::map<std::string, std::string>& files, const std::vector<std::string>& args, const Options& o);
std::string how_text(const Result& r);
}
