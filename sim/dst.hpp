// Deterministic simulation core: PRNG, traces, faults, simulated disk, allocation
// accounting, step counting and a baton scheduler for real threads.
//
// Everything a run does is a function of its trace (a list of text lines); a trace is
// generated from one 64-bit seed before the run starts.  Replaying a trace file
// reproduces the run exactly.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace dst {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    template <typename C> auto& pick(const C& c) { return c[below(c.size())]; }
};

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- traces
using Trace = std::vector<std::string>;
// Words are space separated; payload words are percent encoded.
std::string enc(const std::string& s);
std::string dec(const std::string& s);
std::vector<std::string> words(const std::string& line);
long to_l(const std::string& s);

// ---------------------------------------------------------------- verdicts
struct Violation {
    std::string key;     // short, stable identification of what failed
    std::string detail;  // human readable
};
[[noreturn]] void fail(const std::string& key, const std::string& detail = "");

struct Ctx {
    uint64_t hash = 0;                       // hash of everything observed in the run
    std::map<std::string, uint64_t> faults;  // injected faults by kind (those that really fired)
    std::map<std::string, uint64_t> ops;     // operations executed by kind
    std::unordered_set<uint64_t>* states = nullptr;  // distinct abstract states
    uint64_t steps = 0;                      // simulated steps (basic blocks of the code under test)
    bool nontrivial = false;
    bool verbose = false;
    void observe(const std::string& s);
    void state(uint64_t h) { if (states) states->insert(h); }
    void op(const std::string& k) { ops[k]++; }
};

struct Prop {
    std::string id;
    std::function<Trace(Rng&, int tier)> gen;
    std::function<void(const Trace&, Ctx&)> exec;
    std::function<void()> warmup;  // may be empty
};
std::vector<Prop>& props();
struct Register { Register(Prop p) { props().push_back(std::move(p)); } };
int main_(int argc, char** argv);

// ---------------------------------------------------------------- steps (sanitizer coverage)
void steps_begin(uint64_t limit);  // count basic blocks; more than limit = no progress -> worker exits
uint64_t steps_end();
uint64_t steps_now();
uint64_t edges_seen();             // distinct basic blocks of the code under test ever reached
uint64_t path_hash();              // hash of the basic-block sequence since steps_begin

// ---------------------------------------------------------------- allocations
void alloc_track(bool on);         // allocations made now belong to the code under test
void alloc_arm(long nth);          // the nth (1-based) tracked allocation throws bad_alloc; 0 disarms
bool alloc_fired();                // did the armed failure fire
long alloc_count();                // tracked allocations since alloc_arm
long alloc_live();                 // tracked blocks alive
void alloc_forget();               // forget tracked blocks (start of a run)
void alloc_poison(unsigned char);  // fill byte for fresh memory
struct Track { bool old; Track(bool on = true); ~Track(); };

// ---------------------------------------------------------------- simulated disk
struct IoFault {
    std::string kind;  // open_err read_err read_short read_eof read_eintr write_err write_short write_eintr close_err crash
    long nth = 0;      // fires at the nth call of that class (1-based) since disk_arm
    long arg = 0;      // errno or byte count
    std::string path;  // if given, only calls on files whose path ends with it count
    long seen = 0;     // (such calls so far)
};
struct Disk {
    std::map<std::string, std::string> files;
    std::set<std::string> dirs;
    bool frozen = false;  // after a simulated crash nothing reaches the disk
    long capacity = -1;   // total bytes, -1 = unlimited
};
Disk& disk();
void disk_reset();
void disk_arm(const std::vector<IoFault>& f);
std::vector<std::string> disk_fired();  // kinds that fired since disk_arm
long disk_open_handles();
extern const char* kRoot;  // path prefix of the simulated disk
void disk_cwd(const std::string& dir);  // relative paths resolve to this directory of the simulated disk ("" = off)
void disk_on_open_write(std::function<void(const std::string&)> f);  // called before a stdio stream is opened for writing

// ---------------------------------------------------------------- threads
struct Preempt { uint64_t at; int to; };  // at global step `at` switch to thread `to` (mod alive)
struct SchedResult { uint64_t switches = 0; uint64_t steps = 0; uint64_t order_hash = 0; };
SchedResult run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Preempt>& plan);
// race oracle: locations of the code under test touched by two threads, one of them writing
std::string race_report();
void race_enable(bool on);
}  // namespace dst
