// Simulated MPI job: one fiber per rank, a seeded scheduler, matched collectives, the transforms of
// heFFTe and the files of HDF5.
#include "mpirt.hpp"
#include "shim/mpi.h"
#include "shim/hdf5.h"
#include "shim/heffte.h"
#include "mpsim.hpp"
#include "dst.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <getopt.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <ucontext.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace mpirt {
struct Eh { void* caught; unsigned int uncaught; };
static Eh* eh() { return (Eh*)__cxxabiv1::__cxa_get_globals(); }
struct Fiber {
    ucontext_t ctx;
    Eh ehs{nullptr, 0};
    int opt_ind = 0, opt_opt = 0;
    char* opt_arg = nullptr;
    enum { ready, waiting, over } st = ready;
    std::string want;                    // signature of the collective waited in
    std::function<void()> arrive;
    uint64_t calls = 0;
    bool inited = false, finalized = false;
    End end;
};
static const size_t kStack = 4u << 20;
static char* g_stack[16];
static ucontext_t g_main;
static Eh g_main_eh;
static std::vector<std::unique_ptr<Fiber>> g_f;
static int g_cur = -1;
static bool g_kill = false;
static Ctl g_ctl;
static Out g_out;
static dst::Rng g_rng(1);
static std::function<void(int)> g_body;
static std::set<int> g_types;
static int g_next_type = 100;

bool in_rank() { return g_cur >= 0; }
int rank() { return g_cur; }

static void to_main() {
    Fiber& f = *g_f[g_cur];
    int me = g_cur;
    f.ehs = *eh();
    f.opt_ind = optind; f.opt_opt = optopt; f.opt_arg = optarg;
    *eh() = g_main_eh;
    g_cur = -1;
    swapcontext(&f.ctx, &g_main);
    g_cur = me;
}
static void resume(int i) {
    Fiber& f = *g_f[i];
    g_out.switches++;
    g_out.order_hash = (g_out.order_hash ^ (uint64_t)(i + 1)) * 1099511628211ull;
    g_main_eh = *eh();
    *eh() = f.ehs;
    optind = f.opt_ind; optopt = f.opt_opt; optarg = f.opt_arg;
    g_cur = i;
    swapcontext(&g_main, &f.ctx);
    g_cur = -1;
}
static void entry(int i) {
    Fiber& f = *g_f[i];
    try {
        g_body(i);
        if (!f.finalized && g_out.bad.empty()) { g_out.bad = "a rank ended without MPI_Finalize"; g_out.detail = "rank " + std::to_string(i); }
    } catch (Killed&) { f.end.how = End::killed;
    } catch (mpsim::SimExit& e) { f.end.how = End::exited; f.end.code = e.code;
    } catch (mpsim::SimAbort& e) { f.end.how = End::aborted; f.end.what = e.msg;
    } catch (mpsim::Oracle& e) { f.end.how = End::oracle; f.end.what = e.key; f.end.detail = e.detail;
    } catch (dst::Violation& e) { f.end.how = End::oracle; f.end.what = e.key; f.end.detail = e.detail;
    } catch (std::exception& e) { f.end.how = End::threw; f.end.what = e.what();
    } catch (const char* e) { f.end.how = End::threw; f.end.what = e;
    } catch (...) { f.end.how = End::threw; f.end.what = "(unknown exception)"; }
    f.st = Fiber::over;
    if (f.end.how != End::done) g_kill = true;
    to_main();
    abort();
}
static void tramp(unsigned i) { entry((int)i); }

static void check_kill() {
    if (g_kill && !std::uncaught_exceptions()) throw Killed();
}
static bool g_in_carry = false;
void yield_point() {
    if (g_cur < 0 || g_in_carry) return;
    check_kill();
    if (!g_ctl.shuffle || g_rng.chance(1, 2)) return;
    to_main();
    check_kill();
}
static void call() {  // every communication call
    if (g_cur < 0) throw mpsim::Oracle{"MPI call outside a rank", ""};
    Fiber& f = *g_f[g_cur];
    check_kill();
    g_out.calls++;
    f.calls++;
    if (!f.inited || f.finalized) throw mpsim::Oracle{"MPI call outside MPI_Init and MPI_Finalize", ""};
    if (g_ctl.crash_rank == g_cur && f.calls == g_ctl.crash_at) { g_out.crashed = true; g_kill = true; throw Killed(); }
    yield_point();
}
// All ranks meet here; the last one to arrive carries the collective out.
static std::function<void()> g_carry;
static void meet(const std::string& sig, const std::function<void()>& arrive, const std::function<void()>& carry) {
    call();
    Fiber& f = *g_f[g_cur];
    f.want = sig;
    arrive();
    f.st = Fiber::waiting;
    bool all = true;
    for (auto& g : g_f) if (g->st != Fiber::waiting) all = false;
    if (all) {
        for (size_t i = 0; i < g_f.size(); i++)
            if (g_f[i]->want != sig) {
                g_out.bad = "mismatched collectives";
                g_out.detail = "rank " + std::to_string(g_cur) + " calls " + sig + ", rank " + std::to_string(i) + " calls " + g_f[i]->want;
                g_kill = true;
                f.st = Fiber::ready;
                throw Killed();
            }
        g_out.collectives++;
        g_in_carry = true;
        try { carry(); } catch (...) { g_in_carry = false; throw; }
        g_in_carry = false;
        for (auto& g : g_f) g->st = Fiber::ready;
    } else {
        to_main();
        check_kill();
    }
    f.want.clear();
}

Out run(const Ctl& c, const std::function<void(int)>& body) {
    g_ctl = c; g_out = Out(); g_body = body; g_kill = false; g_cur = -1;
    g_rng = dst::Rng(c.seed * 2654435761u + 17);
    g_types.clear(); g_next_type = 100;
    g_f.clear();
    for (int i = 0; i < c.ranks; i++) {
        if (!g_stack[i]) {
            char* p = (char*)mmap(nullptr, kStack + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) { perror("mmap"); _Exit(3); }
            mprotect(p, 4096, PROT_NONE);
            g_stack[i] = p + 4096;
        }
        g_f.emplace_back(new Fiber);
        Fiber& f = *g_f.back();
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = g_stack[i];
        f.ctx.uc_stack.ss_size = kStack;
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, (void (*)())tramp, 1, (unsigned)i);
    }
    int last = -1;
    for (;;) {
        std::vector<int> r;
        bool alive = false;
        for (int i = 0; i < c.ranks; i++) {
            Fiber& f = *g_f[i];
            if (f.st == Fiber::over) continue;
            alive = true;
            if (f.st == Fiber::ready || g_kill) r.push_back(i);
        }
        if (!alive) break;
        if (r.empty()) {
            g_out.bad = "deadlock";
            for (int i = 0; i < c.ranks; i++) g_out.detail += (i ? "; rank " : "rank ") + std::to_string(i) + (g_f[i]->st == Fiber::over ? " has ended" : " waits in " + g_f[i]->want);
            g_kill = true;
            continue;
        }
        if (g_out.switches > c.max_switches && !g_kill) { g_out.bad = "no progress: too many communication steps"; g_kill = true; continue; }
        int p = r[0];
        if (c.shuffle) p = g_rng.pick(r);
        else for (int i : r) if (i > last) { p = i; break; }
        last = p;
        resume(p);
    }
    for (auto& f : g_f) g_out.ends.push_back(f->end);
    g_f.clear();
    g_body = nullptr;
    return g_out;
}

// ------------------------------------------------------------------ collectives over numbers
static size_t tsize(MPI_Datatype t) {
    switch (t) {
    case MPI_CHAR: case MPI_C_BOOL: return 1;
    case MPI_INT: case MPI_FLOAT: case MPI_UNSIGNED: return 4;
    case MPI_DOUBLE: case MPI_LONG: case MPI_UNSIGNED_LONG: return 8;
    case MPI_LONG_DOUBLE: return 16;
    default: throw mpsim::Oracle{"MPI call with an unusable datatype", std::to_string(t)};
    }
}
template <class T> static void fold(T* a, const T* b, int n, MPI_Op op) {
    for (int i = 0; i < n; i++) switch (op) {
        case MPI_SUM: a[i] = a[i] + b[i]; break;
        case MPI_PROD: a[i] = a[i] * b[i]; break;
        case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
        case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
        case MPI_LOR: a[i] = (T)(a[i] || b[i]); break;
        case MPI_LAND: a[i] = (T)(a[i] && b[i]); break;
        default: throw mpsim::Oracle{"MPI call with an unusable operation", std::to_string(op)};
    }
}
static void fold(void* a, const void* b, int n, MPI_Datatype t, MPI_Op op) {
    switch (t) {
    case MPI_INT: fold((int*)a, (const int*)b, n, op); break;
    case MPI_UNSIGNED: fold((unsigned*)a, (const unsigned*)b, n, op); break;
    case MPI_LONG: fold((long*)a, (const long*)b, n, op); break;
    case MPI_UNSIGNED_LONG: fold((unsigned long*)a, (const unsigned long*)b, n, op); break;
    case MPI_FLOAT: fold((float*)a, (const float*)b, n, op); break;
    case MPI_DOUBLE: fold((double*)a, (const double*)b, n, op); break;
    case MPI_LONG_DOUBLE: fold((long double*)a, (const long double*)b, n, op); break;
    case MPI_C_BOOL: case MPI_CHAR: fold((signed char*)a, (const signed char*)b, n, op); break;
    default: tsize(t);
    }
}
struct Part { const void* in; void* out; std::vector<char> v; const int* counts; const int* displs; int n; };
static std::vector<Part> g_part;
static std::string sig(const char* w, long a = 0, long b = 0, long c = 0, long d = 0) {
    char t[120];
    snprintf(t, sizeof t, "%s(%ld,%ld,%ld,%ld)", w, a, b, c, d);
    return t;
}
static void arrive(const void* in, void* out, size_t bytes, const int* counts = nullptr, const int* displs = nullptr, int n = 0) {
    if (g_part.size() != g_f.size()) g_part.resize(g_f.size());
    Part& p = g_part[g_cur];
    p.in = in; p.out = out; p.counts = counts; p.displs = displs; p.n = n;
    const char* src = (const char*)(in == MPI_IN_PLACE ? out : in);
    p.v.assign(src, src + bytes);
}
static std::vector<int> order() {
    std::vector<int> o(g_f.size());
    for (size_t i = 0; i < o.size(); i++) o[i] = (int)i;
    if (g_ctl.shuffle) for (size_t i = o.size(); i-- > 1;) std::swap(o[i], o[g_rng.below(i + 1)]);
    return o;
}
static void comm_ok(MPI_Comm c) { if (c != MPI_COMM_WORLD && c < 1000) throw mpsim::Oracle{"MPI call on a communicator that is not valid", std::to_string(c)}; }
static void reduce_to(MPI_Datatype t, int n, MPI_Op op, int root) {
    std::vector<int> o = order();
    std::vector<char> acc = g_part[o[0]].v;
    for (size_t k = 1; k < o.size(); k++) fold(acc.data(), g_part[o[k]].v.data(), n, t, op);
    for (size_t r = 0; r < g_part.size(); r++) if (root < 0 || (int)r == root) memcpy(g_part[r].out, acc.data(), acc.size());
}
}  // namespace mpirt
using namespace mpirt;

int MPI_Init(int*, char***) {
    if (g_cur < 0 || g_f[g_cur]->inited) throw mpsim::Oracle{"MPI_Init called twice", ""};
    g_f[g_cur]->inited = true;
    yield_point();
    return 0;
}
int MPI_Initialized(int* f) { *f = g_f[g_cur]->inited; return 0; }
int MPI_Finalize() { meet("MPI_Finalize", [] {}, [] {}); g_f[g_cur]->finalized = true; return 0; }
int MPI_Abort(MPI_Comm, int code) { throw mpsim::SimExit{code ? code : 1}; }
int MPI_Comm_rank(MPI_Comm c, int* r) { call(); comm_ok(c); *r = g_cur; return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { call(); comm_ok(c); *n = (int)g_f.size(); return 0; }
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*) { throw mpsim::Oracle{"MPI_Comm_split is not simulated", ""}; }
int MPI_Comm_free(MPI_Comm*) { return 0; }
double MPI_Wtime() { return (double)g_out.switches * 1e-3; }
int MPI_Barrier(MPI_Comm c) { comm_ok(c); meet("MPI_Barrier", [] {}, [] {}); return 0; }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    comm_ok(c);
    meet(sig("MPI_Allreduce", n, t, op), [&] { arrive(in, out, tsize(t) * n); }, [&] { reduce_to(t, n, op, -1); });
    return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    comm_ok(c);
    meet(sig("MPI_Reduce", n, t, op, root), [&] { arrive(in, out, tsize(t) * n); }, [&] { reduce_to(t, n, op, root); });
    return 0;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c) {
    comm_ok(c);
    meet(sig("MPI_Bcast", n, t, root), [&] { arrive(p, p, tsize(t) * n); }, [&] { for (auto& q : g_part) memcpy(q.out, g_part[root].v.data(), q.v.size()); });
    return 0;
}
static void gather(const char* nm, const void* in, int n, MPI_Datatype t, void* out, int m, int root) {
    meet(sig(nm, n, t, m, root), [&] { arrive(in == MPI_IN_PLACE ? (char*)out + tsize(t) * m * g_cur : in, out, tsize(t) * n); }, [&] {
        for (size_t r = 0; r < g_part.size(); r++)
            if (root < 0 || (int)r == root)
                for (size_t k = 0; k < g_part.size(); k++) memcpy((char*)g_part[r].out + tsize(t) * m * k, g_part[k].v.data(), g_part[k].v.size());
    });
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype, MPI_Comm c) { comm_ok(c); gather("MPI_Allgather", in, n, t, out, m, -1); return 0; }
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int m, MPI_Datatype, int root, MPI_Comm c) { comm_ok(c); gather("MPI_Gather", in, n, t, out, n, root); (void)m; return 0; }
static void gatherv(const char* nm, const void* in, int n, MPI_Datatype t, void* out, const int* counts, const int* displs, int root) {
    if (in == MPI_IN_PLACE) throw mpsim::Oracle{"MPI_IN_PLACE is not simulated here", nm};
    meet(sig(nm, t, root), [&] { arrive(in, out, tsize(t) * n, counts, displs, n); }, [&] {
        for (size_t r = 0; r < g_part.size(); r++) {
            if (root >= 0 && (int)r != root) continue;
            for (size_t k = 0; k < g_part.size(); k++) {
                if (g_part[r].counts[k] != g_part[k].n) throw mpsim::Oracle{std::string(nm) + " with a wrong count", std::to_string(g_part[r].counts[k]) + " for " + std::to_string(g_part[k].n)};
                memcpy((char*)g_part[r].out + tsize(t) * g_part[r].displs[k], g_part[k].v.data(), g_part[k].v.size());
            }
        }
    });
}
int MPI_Gatherv(const void* in, int n, MPI_Datatype t, void* out, const int* counts, const int* displs, MPI_Datatype, int root, MPI_Comm c) { comm_ok(c); gatherv("MPI_Gatherv", in, n, t, out, counts, displs, root); return 0; }
int MPI_Allgatherv(const void* in, int n, MPI_Datatype t, void* out, const int* counts, const int* displs, MPI_Datatype, MPI_Comm c) { comm_ok(c); gatherv("MPI_Allgatherv", in, n, t, out, counts, displs, -1); return 0; }
static void scan(const char* nm, const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, bool ex) {
    meet(sig(nm, n, t, op), [&] { arrive(in, out, tsize(t) * n); }, [&] {
        std::vector<char> acc;
        for (auto& p : g_part) {
            std::vector<char> next = p.v;
            if (!acc.empty()) fold(next.data(), acc.data(), n, t, op);
            const std::vector<char>& r = ex ? acc : next;
            if (!r.empty()) memcpy(p.out, r.data(), r.size());
            acc = next;
        }
    });
}
int MPI_Exscan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { comm_ok(c); scan("MPI_Exscan", in, out, n, t, op, true); return 0; }
int MPI_Scan(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { comm_ok(c); scan("MPI_Scan", in, out, n, t, op, false); return 0; }
struct Msg { int from, to, tag; std::vector<char> v; };
static std::vector<Msg> g_msg;
int MPI_Send(const void* p, int n, MPI_Datatype t, int to, int tag, MPI_Comm c) {
    call(); comm_ok(c);
    g_msg.push_back({g_cur, to, tag, std::vector<char>((const char*)p, (const char*)p + tsize(t) * n)});
    return 0;
}
int MPI_Recv(void* p, int n, MPI_Datatype t, int from, int tag, MPI_Comm c, MPI_Status*) {
    call(); comm_ok(c);
    for (uint64_t tries = 0;; tries++) {
        for (size_t i = 0; i < g_msg.size(); i++)
            if (g_msg[i].to == g_cur && g_msg[i].from == from && g_msg[i].tag == tag) {
                if (g_msg[i].v.size() > tsize(t) * n) throw mpsim::Oracle{"MPI message longer than the receive buffer", ""};
                memcpy(p, g_msg[i].v.data(), g_msg[i].v.size());
                g_msg.erase(g_msg.begin() + (long)i);
                return 0;
            }
        if (tries > 100000) throw mpsim::Oracle{"deadlock: a message that is never sent", sig("MPI_Recv", from, tag)};
        to_main();
        check_kill();
    }
}
static int new_type(MPI_Datatype* t) { *t = g_next_type++; g_types.insert(*t); return 0; }
int MPI_Type_create_subarray(int nd, const int* sizes, const int* sub, const int* start, int, MPI_Datatype, MPI_Datatype* t) {
    for (int i = 0; i < nd; i++) if (sub[i] < 1) throw mpsim::SimExit{12};   // MPI_ERR_ARG: the job is aborted
    for (int i = 0; i < nd; i++)
        if (sub[i] < 1 || sub[i] > sizes[i] || start[i] < 0 || start[i] + sub[i] > sizes[i]) throw mpsim::Oracle{"MPI_Type_create_subarray with a part outside the array", sig("dimension", i, sizes[i], sub[i], start[i])};
    return new_type(t);
}
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype* t) { return new_type(t); }
int MPI_Type_commit(MPI_Datatype* t) { if (!g_types.count(*t)) throw mpsim::Oracle{"MPI_Type_commit of a type that is not valid", ""}; return 0; }
int MPI_Type_free(MPI_Datatype* t) {
    if (g_cur >= 0 && !g_kill && (!g_types.erase(*t) || g_f[g_cur]->finalized) && g_out.bad.empty()) g_out.bad = "MPI_Type_free of a type that is not valid or after MPI_Finalize";
    *t = MPI_DATATYPE_NULL;
    return 0;
}
int MPI_Info_create(MPI_Info* i) { *i = 7; return 0; }
int MPI_Info_set(MPI_Info, const char*, const char*) { return 0; }
int MPI_Info_free(MPI_Info* i) { *i = MPI_INFO_NULL; return 0; }
static int noio() { throw mpsim::Oracle{"MPI-IO is not simulated", ""}; }
int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*) { return noio(); }
int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char*, MPI_Info) { return noio(); }
int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*) { return noio(); }
int MPI_File_write_all(MPI_File, const void*, int, MPI_Datatype, MPI_Status*) { return noio(); }
int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*) { return noio(); }
int MPI_File_close(MPI_File*) { return noio(); }

// ------------------------------------------------------------------ heFFTe
typedef std::complex<double> cd;
static void dft(std::vector<cd>& a, const int n[3], int d, bool fwd) {
    int N = n[d];
    if (N < 2) return;
    long st = d == 0 ? 1 : d == 1 ? n[0] : (long)n[0] * n[1];
    std::vector<cd> w(N), x(N);
    for (int k = 0; k < N; k++) w[k] = std::polar(1.0, (fwd ? -2 : 2) * M_PI * k / N);
    for (int i2 = 0; i2 < (d == 2 ? 1 : n[2]); i2++)
        for (int i1 = 0; i1 < (d == 1 ? 1 : n[1]); i1++)
            for (int i0 = 0; i0 < (d == 0 ? 1 : n[0]); i0++) {
                cd* p = &a[i0 + (long)n[0] * (i1 + (long)n[1] * i2)];
                for (int k = 0; k < N; k++) {
                    cd s = 0;
                    for (int j = 0; j < N; j++) s += p[j * st] * w[(long)j * k % N];
                    x[k] = s;
                }
                for (int k = 0; k < N; k++) p[k * st] = x[k];
            }
}
struct FPart { int il[3], ih[3], ol[3], oh[3]; const double* in; cd* out; double* back; const cd* cin; };
static std::vector<FPart> g_fp;
template <class F> static void cells(const int* l, const int* h, F f) {
    long q = 0;
    for (int k = l[2]; k <= h[2]; k++) for (int j = l[1]; j <= h[1]; j++) for (int i = l[0]; i <= h[0]; i++) f(i, j, k, q++);
}
void mpirt::fft_r2c(MPI_Comm c, const int* il, const int* ih, const int* ol, const int* oh, int dir, const double* in, cd* out, bool fwd, bool scale, double* back, const cd* cin) {
    comm_ok(c);
    meet(sig(fwd ? "fft forward" : "fft backward", dir, scale), [&] {
        if (g_fp.size() != g_f.size()) g_fp.resize(g_f.size());
        FPart& p = g_fp[g_cur];
        for (int d = 0; d < 3; d++) { p.il[d] = il[d]; p.ih[d] = ih[d]; p.ol[d] = ol[d]; p.oh[d] = oh[d]; }
        p.in = in; p.out = out; p.back = back; p.cin = cin;
    }, [&] {
        int n[3] = {0, 0, 0}, m[3] = {0, 0, 0};
        for (auto& p : g_fp) for (int d = 0; d < 3; d++) { n[d] = std::max(n[d], p.ih[d] + 1); m[d] = std::max(m[d], p.oh[d] + 1); }
        for (int d = 0; d < 3; d++) if (m[d] != (d == dir ? n[d] / 2 + 1 : n[d])) throw mpsim::Oracle{"fft: the boxes do not fit each other", sig("dimension", d, n[d], m[d])};
        std::vector<cd> a((size_t)n[0] * n[1] * n[2]);
        std::vector<char> seen(a.size(), 0);
        size_t cnt = 0;
        for (auto& p : g_fp) cells(fwd ? p.il : p.ol, fwd ? p.ih : p.oh, [&](int i, int j, int k, long q) {
            if (i < 0 || j < 0 || k < 0) throw mpsim::Oracle{"fft: a box outside the domain", ""};
            size_t at = i + (size_t)n[0] * (j + (size_t)n[1] * k);
            if (seen[at]++) throw mpsim::Oracle{"fft: overlapping boxes", ""};
            cnt++;
            a[at] = fwd ? cd(p.in[q], 0) : p.cin[q];
        });
        size_t want = fwd ? a.size() : (size_t)m[0] * m[1] * m[2];
        if (cnt != want) throw mpsim::Oracle{"fft: the boxes do not cover the domain", ""};
        double f = scale ? 1.0 / (double)a.size() : 1.0;
        if (fwd) {
            for (int d = 0; d < 3; d++) dft(a, n, d, true);
            for (auto& p : g_fp) cells(p.ol, p.oh, [&](int i, int j, int k, long q) { p.out[q] = a[i + (size_t)n[0] * (j + (size_t)n[1] * k)] * f; });
        } else {
            for (int d = 0; d < 3; d++) if (d != dir) dft(a, n, d, false);
            // complex to real: the other half is the conjugate of this one
            int lo[3] = {0, 0, 0}, hi[3] = {n[0] - 1, n[1] - 1, n[2] - 1};
            cells(lo, hi, [&](int i, int j, int k, long q) {
                int x[3] = {i, j, k};
                if (x[dir] == 0 || 2 * x[dir] == n[dir]) a[q] = a[q].real();
                if (x[dir] < m[dir]) return;
                x[dir] = n[dir] - x[dir];
                a[q] = std::conj(a[x[0] + (size_t)n[0] * (x[1] + (size_t)n[1] * x[2])]);
            });
            dft(a, n, dir, false);
            for (auto& p : g_fp) cells(p.il, p.ih, [&](int i, int j, int k, long q) { p.back[q] = a[i + (size_t)n[0] * (j + (size_t)n[1] * k)].real() * f; });
        }
    });
}

// ------------------------------------------------------------------ HDF5
struct HSet { int type = 0; std::vector<hsize_t> dims; std::string data; };
struct HFile { std::string path; std::map<std::string, HSet> sets; bool write = false; int open = 0; FILE* f = nullptr; };
struct HObj { int kind = 0; std::shared_ptr<HFile> file; std::string name; std::vector<hsize_t> dims, start, stride, count; };
static std::map<hid_t, HObj> g_h;
static hid_t g_hn = 1000;
static hid_t hnew(HObj o) { g_h[++g_hn] = std::move(o); return g_hn; }
static HObj* hget(hid_t id, int kind) { auto i = g_h.find(id); return i == g_h.end() || (kind && i->second.kind != kind) ? nullptr : &i->second; }
enum { kFile = 1, kGroup, kSet, kSpace, kPlist };
static size_t hsize(hid_t t) { return t == H5T_NATIVE_INT || t == H5T_NATIVE_FLOAT ? 4 : t == H5T_NATIVE_DOUBLE ? 8 : t == H5T_NATIVE_LDOUBLE ? 16 : 0; }
static std::shared_ptr<HFile> g_hopen;
static bool hstore(HFile& f) {
    std::string s = "SIMH5\n";
    for (auto& kv : f.sets) {
        s += kv.first + "\n" + std::to_string(kv.second.type) + " " + std::to_string(kv.second.dims.size());
        for (auto d : kv.second.dims) s += " " + std::to_string(d);
        s += "\n" + kv.second.data;
    }
    if (!f.f) return false;
    bool ok = fwrite(s.data(), 1, s.size(), f.f) == s.size();
    ok = fclose(f.f) == 0 && ok;
    f.f = nullptr;
    return ok;
}
static bool hload(HFile& f) {
    FILE* p = fopen(f.path.c_str(), "rb");
    if (!p) return false;
    std::string s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, p)) > 0) s.append(b, n);
    bool bad = ferror(p);
    fclose(p);
    if (bad || s.compare(0, 6, "SIMH5\n") != 0) return false;
    size_t at = 6;
    while (at < s.size()) {
        size_t e = s.find('\n', at);
        if (e == std::string::npos) return false;
        std::string nm = s.substr(at, e - at);
        size_t e2 = s.find('\n', e + 1);
        if (e2 == std::string::npos) return false;
        auto w = dst::words(s.substr(e + 1, e2 - e - 1));
        if (w.size() < 2) return false;
        HSet h;
        h.type = atoi(w[0].c_str());
        size_t len = hsize(h.type);
        for (size_t i = 2; i < w.size(); i++) { h.dims.push_back(strtoull(w[i].c_str(), nullptr, 10)); len *= h.dims.back(); }
        if (e2 + 1 + len > s.size()) return false;
        h.data = s.substr(e2 + 1, len);
        at = e2 + 1 + len;
        f.sets[nm] = h;
    }
    return true;
}
static hid_t hopen(const char* p, bool create) {
    std::string path = p;
    meet((create ? "H5Fcreate " : "H5Fopen ") + path, [] {}, [&] {
        auto f = std::make_shared<HFile>();
        f->path = path; f->write = create; f->open = (int)g_f.size();
        g_hopen = f;
        if (create) { f->f = fopen(p, "wb"); if (!f->f) g_hopen = nullptr; }
        else if (!hload(*f)) g_hopen = nullptr;
    });
    if (!g_hopen) return -1;
    HObj o; o.kind = kFile; o.file = g_hopen;
    return hnew(o);
}
hid_t H5Fcreate(const char* p, unsigned, hid_t, hid_t) { return hopen(p, true); }
hid_t H5Fopen(const char* p, unsigned, hid_t) { return hopen(p, false); }
herr_t H5Fclose(hid_t id) {
    HObj* o = hget(id, kFile);
    if (!o) return -1;
    auto f = o->file;
    g_h.erase(id);
    if (std::uncaught_exceptions() > 0) return -1;   // the process is ending, nobody waits for anybody any more
    static bool ok;
    meet("H5Fclose " + f->path, [] {}, [&] { ok = !f->write || hstore(*f); });
    return ok ? 0 : -1;
}
herr_t H5Fflush(hid_t, int) { return 0; }
static std::string hpath(HObj* o, const char* n) { std::string s = n; if (s.empty() || s[0] != '/') s = o->name + "/" + s; return s; }
hid_t H5Gcreate(hid_t loc, const char* n, hid_t, hid_t, hid_t) {
    HObj* o = hget(loc, 0);
    if (!o || !o->file) return -1;
    HObj g; g.kind = kGroup; g.file = o->file; g.name = hpath(o, n);
    return hnew(g);
}
herr_t H5Gclose(hid_t g) { return g_h.erase(g) ? 0 : -1; }
hid_t H5Dcreate2(hid_t loc, const char* n, hid_t type, hid_t space, hid_t, hid_t, hid_t) {
    HObj *o = hget(loc, 0), *s = hget(space, kSpace);
    if (!o || !o->file || !s || !hsize(type)) return -1;
    HObj d; d.kind = kSet; d.file = o->file; d.name = hpath(o, n);
    HSet& h = d.file->sets[d.name];
    if (h.type == 0) {
        h.type = (int)type; h.dims = s->dims;
        size_t len = hsize(type);
        for (auto x : h.dims) len *= x;
        h.data.assign(len, 0);
    }
    return hnew(d);
}
hid_t H5Dopen2(hid_t loc, const char* n, hid_t) {
    HObj* o = hget(loc, 0);
    if (!o || !o->file) return -1;
    HObj d; d.kind = kSet; d.file = o->file; d.name = hpath(o, n);
    if (!d.file->sets.count(d.name)) return -1;
    return hnew(d);
}
hid_t H5Dget_space(hid_t ds) {
    HObj* o = hget(ds, kSet);
    if (!o) return -1;
    HObj s; s.kind = kSpace; s.dims = o->file->sets[o->name].dims;
    return hnew(s);
}
static bool hcells(HObj* s, std::vector<size_t>& out) {
    if (s->count.empty()) { size_t n = 1; for (auto d : s->dims) n *= d; for (size_t i = 0; i < n; i++) out.push_back(i); return true; }
    std::vector<hsize_t> ix(s->dims.size(), 0);
    size_t total = 1;
    for (size_t d = 0; d < ix.size(); d++) {
        total *= s->count[d];
        if (s->count[d] && s->start[d] + (s->count[d] - 1) * s->stride[d] >= s->dims[d]) return false;
    }
    for (size_t t = 0; t < total; t++) {
        size_t q = t, at = 0;
        for (size_t d = ix.size(); d-- > 0;) { ix[d] = s->start[d] + (q % s->count[d]) * s->stride[d]; q /= s->count[d]; }
        for (size_t d = 0; d < ix.size(); d++) at = at * s->dims[d] + ix[d];
        out.push_back(at);
    }
    return true;
}
template <class A, class B> static void hconv(A* a, const B* b) { *a = (A)*b; }
static void hmove(char* to, int tt, const char* from, int ft) {
    long double v = 0;
    if (ft == H5T_NATIVE_INT) { int x; memcpy(&x, from, 4); v = x; } else if (ft == H5T_NATIVE_FLOAT) { float x; memcpy(&x, from, 4); v = x; } else { double x; memcpy(&x, from, 8); v = x; }
    if (tt == H5T_NATIVE_INT) { int x = (int)v; memcpy(to, &x, 4); } else if (tt == H5T_NATIVE_FLOAT) { float x = (float)v; memcpy(to, &x, 4); } else { double x = (double)v; memcpy(to, &x, 8); }
}
static herr_t hxfer(hid_t ds, hid_t type, hid_t mem, hid_t file, char* buf, bool write) {
    HObj *o = hget(ds, kSet), *m = hget(mem, kSpace), *f = hget(file, kSpace);
    if (!o || !m || !f || !hsize(type)) return -1;
    HSet& h = o->file->sets[o->name];
    std::vector<size_t> a, b;
    if (!hcells(m, a) || !hcells(f, b) || a.size() != b.size()) return -1;
    size_t ms = hsize(type), fs = hsize(h.type);
    for (size_t i = 0; i < a.size(); i++) {   // (the library does not compare the extents of the selection with those of the data)
        if ((b[i] + 1) * fs > h.data.size()) return -1;
        if (write) hmove(&h.data[b[i] * fs], h.type, buf + a[i] * ms, (int)type);
        else hmove(buf + a[i] * ms, (int)type, &h.data[b[i] * fs], h.type);
    }
    return 0;
}
herr_t H5Dread(hid_t ds, hid_t type, hid_t mem, hid_t file, hid_t, void* p) { return hxfer(ds, type, mem, file, (char*)p, false); }
herr_t H5Dwrite(hid_t ds, hid_t type, hid_t mem, hid_t file, hid_t, const void* p) { return hxfer(ds, type, mem, file, (char*)p, true); }
herr_t H5Dclose(hid_t d) { return g_h.erase(d) ? 0 : -1; }
hid_t H5Screate_simple(int n, const hsize_t* d, const hsize_t*) { HObj s; s.kind = kSpace; s.dims.assign(d, d + n); return hnew(s); }
herr_t H5Sselect_hyperslab(hid_t id, H5S_seloper_t, const hsize_t* st, const hsize_t* sd, const hsize_t* ct, const hsize_t*) {
    HObj* s = hget(id, kSpace);
    if (!s) return -1;
    size_t n = s->dims.size();
    s->start.assign(st, st + n);
    if (sd) s->stride.assign(sd, sd + n); else s->stride.assign(n, 1);
    s->count.assign(ct, ct + n);
    return 0;
}
int H5Sget_simple_extent_ndims(hid_t id) { HObj* s = hget(id, kSpace); return s ? (int)s->dims.size() : -1; }
int H5Sget_simple_extent_dims(hid_t id, hsize_t* d, hsize_t*) { HObj* s = hget(id, kSpace); if (!s) return -1; for (size_t i = 0; i < s->dims.size(); i++) d[i] = s->dims[i]; return (int)s->dims.size(); }
herr_t H5Sclose(hid_t id) { return g_h.erase(id) ? 0 : -1; }
hid_t H5Pcreate(hid_t) { HObj p; p.kind = kPlist; return hnew(p); }
herr_t H5Pclose(hid_t id) { return g_h.erase(id) ? 0 : -1; }
herr_t H5Pset_fapl_mpio(hid_t, MPI_Comm, MPI_Info) { return 0; }
herr_t H5Pset_dxpl_mpio(hid_t, H5FD_mpio_xfer_t) { return 0; }
herr_t H5Pset_coll_metadata_write(hid_t, bool) { return 0; }
herr_t H5Pset_all_coll_metadata_ops(hid_t, bool) { return 0; }
