// One simulated execution of the multiphysics program: input files on the simulated disk, the real
// driver and solvers on the simulated device, and what could be observed.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "dst.hpp"

namespace mp {
struct Arr {
    size_t rows = 0, cols = 1;
    std::vector<double> v;
    double operator()(size_t i, size_t j = 0) const { return v[i * cols + j]; }
    bool empty() const { return v.empty(); }
};
struct Snap {  // the state on the device at one moment
    std::string at;  // output file being opened, or "start" / "end"
    bool frozen = false;  // the simulated machine had crashed before
    std::map<std::string, Arr> a;
    const Arr& operator[](const std::string& k) const { static const Arr none; auto i = a.find(k); return i == a.end() ? none : i->second; }
};
struct MeshInfo {
    size_t dims = 0, nodes = 0, elems = 0, nodes_in_elem = 0, corners = 0, patches = 0, bdy_patches = 0, bdy_nodes = 0, bdy_sets = 0;
    std::vector<std::vector<size_t>> elem;          // nodes of each element
    std::vector<std::vector<size_t>> set_nodes;     // nodes of each boundary set (device view)
    std::vector<std::vector<std::vector<size_t>>> set_patches;  // node lists of the patches of each set
    std::vector<double> solver_start, solver_end;
};
struct Options {
    bool split = false;
    int order = 0;
    uint64_t seed = 1;
    uint64_t max_iterations = 40000000;
    uint64_t max_steps = 20000000000ull;  // basic blocks of the program; more = it does not come to an end
    bool cycle_snaps = false;    // snapshot the state whenever an output file is opened
    bool execute = true;         // false: stop after setup
    std::vector<dst::IoFault> faults;
    long capacity = -1;          // bytes on the simulated disk
};
struct Result {
    enum { done, exited, threw, aborted, oracle } how = done;
    int code = 0;
    std::string what;            // message of the exception / abort, key of the oracle
    std::string detail;
    std::string out;             // standard output of the program
    MeshInfo mesh;
    std::vector<Snap> snaps;
    Snap start, end;             // after setup, after execute
    bool ran = false;            // execute was reached
    std::map<std::string, std::string> files;  // simulated disk afterwards
    std::vector<std::string> fired;
    std::vector<std::string> commands;  // shell commands the program ran
    uint64_t kernels = 0, iterations = 0, permuted = 0, order_hash = 0, to_host = 0, to_device = 0, atomics = 0, steps = 0;
};
// files: path relative to the working directory -> content; yaml: the input file's path
Result run(const std::map<std::string, std::string>& files, const std::string& yaml, const Options& o);
std::string how_text(const Result& r);
}  // namespace mp
