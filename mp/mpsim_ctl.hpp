// Control side of the simulated device (not seen by the application).
#pragma once
#include "mpsim.hpp"
#include "dst.hpp"
namespace mpsim {
enum { kForward = 0, kReverse = 1, kRandom = 2, kBlocked = 3, kStrided = 4, kMixed = 5 };
struct Ctl { bool split = false; int order = kForward; uint64_t seed = 1; uint64_t max_iterations = 0; };
struct Stats { uint64_t kernels = 0, iterations = 0, permuted = 0, atomics = 0, to_host = 0, to_device = 0, blocks = 0, bytes = 0, order_hash = 1469598103934665603ull; };
void begin(const Ctl& c);
void end();
bool failed(std::string& key, std::string& detail);
Stats& stats();
}  // namespace mpsim
