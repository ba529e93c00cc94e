#include "evp_sut.hpp"
#include "mpsim_ctl.hpp"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

int evp_main(int argc, char** argv);
extern "C" void __wrap_exit(int code) { throw mpsim::SimExit{code}; }
static const std::string kCwd = "/sim/w";
extern "C" int system(const char* c) {  // the shell of the simulated machine knows mkdir
    if (!c) return 1;
    mpirt::yield_point();
    auto w = dst::words(c);
    if (w.size() >= 2 && w[0] == "mkdir") {
        int rc = 0;
        for (size_t i = 1; i < w.size(); i++)
            if (w[i] != "-p" && mkdir(w[i].c_str(), 0777) != 0 && !(errno == EEXIST && w[1] == "-p")) rc = 256;
        return rc;
    }
    return 127 * 256;
}
namespace evp {
struct Capture {
    int fd, saved;
    Capture() { fflush(stdout); std::cout.flush(); fd = memfd_create("out", 0); saved = dup(1); dup2(fd, 1); }
    std::string done() {
        fflush(stdout); std::cout.flush();
        dup2(saved, 1); close(saved);
        off_t n = lseek(fd, 0, SEEK_END);
        std::string s((size_t)n, 0);
        if (pread(fd, &s[0], (size_t)n, 0) < 0) s.clear();
        close(fd);
        std::cout.clear();
        return s;
    }
};
Result run(const std::map<std::string, std::string>& files, const std::vector<std::string>& args, const Options& o) {
    Result r;
    dst::disk_reset();
    dst::disk().dirs.insert(kCwd);
    for (auto& kv : files) {
        for (size_t p = kv.first.find('/'); p != std::string::npos; p = kv.first.find('/', p + 1)) dst::disk().dirs.insert(kCwd + "/" + kv.first.substr(0, p));
        dst::disk().files[kCwd + "/" + kv.first] = kv.second;
    }
    dst::disk_cwd(kCwd);
    dst::disk_arm(o.faults);
    if (o.capacity >= 0) { long n = 0; for (auto& kv : dst::disk().files) n += (long)kv.second.size(); dst::disk().capacity = n + o.capacity; }
    mpsim::Ctl c;
    c.split = o.split; c.order = o.order; c.seed = o.seed; c.max_iterations = o.max_iterations;
    mpsim::begin(c);
    mpirt::Ctl m;
    m.ranks = o.ranks; m.seed = o.seed; m.shuffle = o.shuffle; m.crash_rank = o.crash_rank; m.crash_at = o.crash_at;
    dst::disk_on_open_write([](const std::string&) { mpirt::yield_point(); });
    Capture cap;
    dst::alloc_poison(0xa5);
    dst::steps_begin(o.max_steps);
    auto tr = std::make_unique<dst::Track>();
    mpirt::Out out = mpirt::run(m, [&](int) {
        std::vector<std::string> a{"evpfft"};
        a.insert(a.end(), args.begin(), args.end());
        std::vector<char*> v;
        for (auto& s : a) v.push_back(&s[0]);
        v.push_back(nullptr);
        int rc = evp_main((int)a.size(), v.data());
        mpsim::copied("", true);
        if (rc != 0) throw mpsim::SimExit{rc};
    });
    tr.reset();
    r.steps = dst::steps_end();
    dst::disk_on_open_write(nullptr);
    { std::string k, d; if (mpsim::failed(k, d)) { r.how = Result::oracle; r.what = k; r.detail = d; } }
    mpsim::end();
    r.out = cap.done();
    for (size_t i = 0; i < out.ends.size(); i++) {
        auto& e = out.ends[i];
        std::string at = " (rank " + std::to_string(i) + ")";
        if (e.how == mpirt::End::oracle && r.how != Result::oracle) { r.how = Result::oracle; r.what = e.what; r.detail = e.detail + at; }
    }
    if (r.how != Result::oracle && !out.bad.empty()) { r.how = Result::oracle; r.what = out.bad; r.detail = out.detail; }
    for (size_t i = 0; i < out.ends.size() && r.how == Result::done; i++) {
        auto& e = out.ends[i];
        if (e.how == mpirt::End::exited) { r.how = Result::exited; r.code = e.code; }
        else if (e.how == mpirt::End::threw) { r.how = Result::threw; r.what = e.what; }
        else if (e.how == mpirt::End::aborted) { r.how = Result::aborted; r.what = e.what; }
    }
    if (r.how == Result::done && out.crashed) r.how = Result::killed;
    r.crashed = out.crashed;
    r.frozen = dst::disk().frozen;
    r.fired = dst::disk_fired();
    for (auto& kv : dst::disk().files) r.files[kv.first.substr(kCwd.size() + 1)] = kv.second;
    auto& st = mpsim::stats();
    r.kernels = st.kernels; r.iterations = st.iterations; r.permuted = st.permuted;
    r.order_hash = dst::mix(st.order_hash, out.order_hash);
    r.switches = out.switches; r.collectives = out.collectives; r.calls = out.calls;
    dst::disk_cwd("");
    return r;
}
std::string how_text(const Result& r) {
    switch (r.how) {
    case Result::done: return "finished";
    case Result::exited: return "exit(" + std::to_string(r.code) + ")";
    case Result::threw: return "exception: " + r.what;
    case Result::aborted: return "Kokkos::abort: " + r.what;
    case Result::killed: return "killed";
    default: return "oracle: " + r.what + " [" + r.detail + "]";
    }
}
}
