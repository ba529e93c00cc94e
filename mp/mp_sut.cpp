#include "mp_sut.hpp"
#include "mpsim_ctl.hpp"
#include "driver.hpp"
#include "sgh_solver_3D.hpp"
#include <cerrno>
#include <cstdio>
#include <fnmatch.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void __wrap_exit(int code) { throw mpsim::SimExit{code}; }
static std::vector<std::string>* g_cmds = nullptr;
static const std::string kCwd = "/sim/w";
// The shell of the simulated machine: mkdir and rm on the simulated disk.
extern "C" int system(const char* c) {
    if (!c) return 1;
    std::string s = c;
    if (g_cmds) g_cmds->push_back(s);
    auto w = dst::words(s);
    if (w.size() >= 2 && w[0] == "mkdir") {
        int rc = 0;
        for (size_t i = 1; i < w.size(); i++) {
            if (w[i] == "-p") continue;
            if (mkdir(w[i].c_str(), 0777) != 0 && !(errno == EEXIST && w[1] == "-p")) rc = 256;
        }
        return rc;
    }
    if (w.size() >= 2 && w[0] == "rm") {
        int n = 0;
        for (size_t i = 1; i < w.size(); i++) {
            if (w[i][0] == '-') continue;
            std::string pat = kCwd + "/" + w[i];
            for (auto it = dst::disk().files.begin(); it != dst::disk().files.end();) {
                if (fnmatch(pat.c_str(), it->first.c_str(), FNM_PATHNAME) == 0) { it = dst::disk().files.erase(it); n++; } else ++it;
            }
        }
        return n ? 0 : 256;
    }
    return 127 * 256;
}

namespace mp {
template <class A> static Arr dense(const A& x, size_t rows, size_t cols) {
    Arr r;
    if (x.size() == 0) return r;
    r.rows = rows; r.cols = cols;
    size_t n = std::min(rows * cols, x.size());
    r.v.resize(n);
    auto* p = x.pointer();
    for (size_t i = 0; i < n; i++) r.v[i] = (double)p[i];
    return r;
}
template <class A> static void ragged(Snap& s, const std::string& nm, const A& x, size_t m, size_t n, bool host = false) {
    if (x.size() == 0) return;
    size_t cols = x.ix_.e1_ * x.ix_.e2_;
    if (m >= x.ix_.rows_) return;
    Arr r;
    r.cols = cols;
    size_t st = x.ix_.start_[m], en = x.ix_.start_[m + 1];
    r.rows = std::min(n, en - st);
    auto* p = host ? x.hp_ : x.p_;
    for (size_t i = 0; i < r.rows * cols; i++) r.v.push_back((double)p[st * cols + i]);
    s.a[nm + "@" + std::to_string(m)] = r;
}
static Snap snap(Driver& d, const std::string& at) {
    Snap s;
    s.at = at;
    s.frozen = dst::disk().frozen;
    auto& S = d.State;
    size_t nn = d.mesh.num_nodes, ne = d.mesh.num_elems, D = d.mesh.num_dims;
    auto put = [&](const char* nm, const DCArrayKokkos<double>& x, size_t r, size_t c) { if (x.size()) s.a[nm] = dense(x, r, c); };
    put("coords", S.node.coords, nn, D);
    put("vel", S.node.vel, nn, D);
    put("vel_n0", S.node.vel_n0, nn, D);
    put("node_mass", S.node.mass, nn, 1);
    put("temp", S.node.temp, nn, 1);
    put("force", S.node.force, nn, D);
    put("grad_level_set", S.node.gradient_level_set, nn, D);
    put("vol", S.GaussPoints.vol, ne, 1);
    put("div", S.GaussPoints.div, ne, 1);
    put("vel_grad", S.GaussPoints.vel_grad, ne, ne ? S.GaussPoints.vel_grad.size() / ne : 0);
    put("level_set", S.GaussPoints.level_set, ne, 1);
    size_t nm = d.Materials.num_mats;
    Arr cnt;
    for (size_t m = 0; m < nm && S.MaterialPoints.num_material_points.size() > m; m++) {
        size_t np = S.MaterialPoints.num_material_points.pointer()[m];
        cnt.v.push_back((double)np);
        cnt.rows++;
        auto& P = S.MaterialPoints;
        ragged(s, "elem", S.MaterialToMeshMaps.elem_in_mat_elem, m, np);
        ragged(s, "den", P.den, m, np);
        ragged(s, "pres", P.pres, m, np);
        ragged(s, "stress", P.stress, m, np);
        ragged(s, "sie", P.sie, m, np);
        ragged(s, "sspd", P.sspd, m, np);
        ragged(s, "mass", P.mass, m, np);
        ragged(s, "volfrac", P.volfrac, m, np);
        ragged(s, "geo_volfrac", P.geo_volfrac, m, np);
        ragged(s, "eroded", P.eroded, m, np);
        ragged(s, "conductivity", P.conductivity, m, np);
        ragged(s, "specific_heat", P.specific_heat, m, np);
        ragged(s, "q_flux", P.q_flux, m, np);
        ragged(s, "strength_vars", P.strength_state_vars, m, np);
        ragged(s, "eos_vars", P.eos_state_vars, m, np);
    }
    s.a["points"] = cnt;
    return s;
}
static MeshInfo info(Driver& d) {
    MeshInfo m;
    auto& M = d.mesh;
    m.dims = M.num_dims; m.nodes = M.num_nodes; m.elems = M.num_elems; m.nodes_in_elem = M.num_nodes_in_elem;
    m.corners = M.num_corners; m.patches = M.num_patches; m.bdy_patches = M.num_bdy_patches; m.bdy_nodes = M.num_bdy_nodes;
    if (M.nodes_in_elem.size())
        for (size_t e = 0; e < m.elems; e++) {
            std::vector<size_t> v;
            for (size_t k = 0; k < m.nodes_in_elem; k++) v.push_back(M.nodes_in_elem(e, k));
            m.elem.push_back(v);
        }
    m.bdy_sets = M.num_bdy_sets;
    for (size_t s = 0; s < m.bdy_sets; s++) {
        std::vector<size_t> v;
        if (M.num_bdy_nodes_in_set.size())
            for (size_t k = 0; k < M.num_bdy_nodes_in_set(s); k++) v.push_back(M.bdy_nodes_in_set(s, k));
        m.set_nodes.push_back(v);
        std::vector<std::vector<size_t>> ps;
        if (M.bdy_patches_in_set.r_.b)
            for (size_t k = 0; k < M.bdy_patches_in_set.stride(s); k++) {
                size_t p = M.bdy_patches_in_set(s, k);
                std::vector<size_t> q;
                for (size_t n = 0; n < M.num_nodes_in_patch; n++) q.push_back(M.nodes_in_patch(p, n));
                ps.push_back(q);
            }
        m.set_patches.push_back(ps);
    }
    for (auto* s : d.solvers) { m.solver_start.push_back(s->time_start); m.solver_end.push_back(s->time_end); }
    return m;
}

struct Capture {  // standard output of the program
    int fd, saved;
    Capture() {
        fflush(stdout); std::cout.flush();
        fd = memfd_create("out", 0);
        saved = dup(1);
        dup2(fd, 1);
    }
    std::string done() {
        fflush(stdout); std::cout.flush();
        dup2(saved, 1); close(saved); saved = -1;
        off_t n = lseek(fd, 0, SEEK_END);
        std::string s((size_t)n, 0);
        if (pread(fd, &s[0], (size_t)n, 0) < 0) s.clear();
        close(fd);
        std::cout.clear();
        return s;
    }
};

Result run(const std::map<std::string, std::string>& files, const std::string& yaml, const Options& o) {
    Result r;
    dst::disk_reset();
    dst::disk().dirs.insert(kCwd);
    for (auto& kv : files) {
        for (size_t p = kv.first.find('/'); p != std::string::npos; p = kv.first.find('/', p + 1)) dst::disk().dirs.insert(kCwd + "/" + kv.first.substr(0, p));
        dst::disk().files[kCwd + "/" + kv.first] = kv.second;
    }
    dst::disk_cwd(kCwd);
    dst::disk_arm(o.faults);
    if (o.capacity >= 0) { long n = 0; for (auto& kv : dst::disk().files) n += (long)kv.second.size(); dst::disk().capacity = n + o.capacity; }
    std::vector<std::string> cmds;
    g_cmds = &cmds;
    std::string path = yaml;
    Driver* d = nullptr;
    mpsim::Ctl c;
    c.split = o.split; c.order = o.order; c.seed = o.seed; c.max_iterations = o.max_iterations;
    mpsim::begin(c);
    if (o.cycle_snaps) dst::disk_on_open_write([&](const std::string& p) { if (d) { mpsim::Quiet q; r.snaps.push_back(snap(*d, p.substr(kCwd.size() + 1))); } });
    Capture cap;
    std::streambuf* cb = std::cout.rdbuf();
    dst::alloc_poison(0xa5);
    dst::steps_begin(o.max_steps);
    try {
        dst::Track t;
        d = new Driver((char*)path.c_str());
        d->initialize();
        d->setup();
        { mpsim::Quiet q; dst::Track off(false); r.start = snap(*d, "start"); r.mesh = info(*d); }
        if (o.execute) {
            r.ran = true;
            d->execute();
            { mpsim::Quiet q; dst::Track off(false); r.end = snap(*d, "end"); }
            d->finalize();
        }
        mpsim::copied("", true);  // last chance to report what was recorded
    } catch (mpsim::SimExit& e) { r.how = Result::exited; r.code = e.code;
    } catch (mpsim::SimAbort& e) { r.how = Result::aborted; r.what = e.msg;
    } catch (mpsim::Oracle& e) { r.how = Result::oracle; r.what = e.key; r.detail = e.detail;
    } catch (dst::Violation&) { r.how = Result::oracle; throw;
    } catch (std::exception& e) { r.how = Result::threw; r.what = e.what();
    } catch (const char* e) { r.how = Result::threw; r.what = e;
    } catch (...) { r.how = Result::threw; r.what = "(unknown exception)"; }
    dst::alloc_track(false);
    r.steps = dst::steps_end();
    { std::string k, dd; if (r.how != Result::oracle && mpsim::failed(k, dd)) { r.how = Result::oracle; r.what = k; r.detail = dd; } }
    dst::disk_on_open_write(nullptr);
    { mpsim::Quiet q; if (r.how == Result::done) delete d; }
    mpsim::end();
    std::cout.rdbuf(cb);
    r.out = cap.done();
    r.fired = dst::disk_fired();
    for (auto& kv : dst::disk().files) r.files[kv.first.substr(kCwd.size() + 1)] = kv.second;
    auto& st = mpsim::stats();
    r.kernels = st.kernels; r.iterations = st.iterations; r.permuted = st.permuted; r.order_hash = st.order_hash;
    r.to_host = st.to_host; r.to_device = st.to_device; r.atomics = st.atomics;
    r.commands = cmds;
    g_cmds = nullptr;
    dst::disk_cwd("");
    return r;
}
std::string how_text(const Result& r) {
    switch (r.how) {
    case Result::done: return "finished";
    case Result::exited: return "exit(" + std::to_string(r.code) + ")";
    case Result::threw: return "exception: " + r.what;
    case Result::aborted: return "Kokkos::abort: " + r.what;
    default: return "oracle: " + r.what + " [" + r.detail + "]";
    }
}
}  // namespace mp
