#include "dst.hpp"
#include <cassert>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <memory>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <typeinfo>
#include <unistd.h>

namespace dst {

uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567);
    return r.next();
}

std::string enc(const std::string& s) {
    std::string o = "'";
    char b[8];
    for (unsigned char c : s) {
        if (isalnum(c) || c == 0x5f || c == 0x2e || c == 0x2d || c == 0x2f) o += (char)c;
        else { snprintf(b, sizeof b, "%%%02x", c); o += b; }
    }
    return o;
}
std::string dec(const std::string& s) {
    std::string o;
    size_t i = (!s.empty() && s[0] == '\'') ? 1 : 0;
    for (; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += s[i];
    }
    return o;
}
std::vector<std::string> words(const std::string& l) {
    std::vector<std::string> w;
    size_t i = 0;
    while (i < l.size()) {
        while (i < l.size() && l[i] == ' ') i++;
        size_t j = i;
        while (j < l.size() && l[j] != ' ') j++;
        if (j > i) w.push_back(l.substr(i, j - i));
        i = j;
    }
    return w;
}
long to_l(const std::string& s) { return strtol(s.c_str(), nullptr, 10); }

void fail(const std::string& key, const std::string& detail) { throw Violation{key, detail}; }

void Ctx::observe(const std::string& s) {
    hash = fnv(s, hash ? hash : 1469598103934665603ull);
    if (verbose) fprintf(stderr, "  %s\n", s.c_str());
}

std::vector<Prop>& props() { static std::vector<Prop> p; return p; }

// ------------------------------------------------------------------ allocation
static thread_local bool t_track = false;
static thread_local int t_cb = 0;  // inside a callback of ours
static long g_arm = 0, g_count = 0, g_live = 0;
static bool g_fired = false;
static int g_poison = -1;
struct PtrTable {
    void** tab = nullptr;
    size_t cap = 0, n = 0;
    static size_t h(void* p) { return (size_t)(((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 20); }
    void grow() {
        size_t oc = cap; void** ot = tab;
        cap = cap ? cap * 2 : 4096;
        tab = (void**)calloc(cap, sizeof(void*));
        n = 0;
        for (size_t i = 0; i < oc; i++) if (ot[i]) put(ot[i]);
        free(ot);
    }
    void put(void* p) {
        if ((n + 1) * 2 > cap) grow();
        size_t i = h(p) & (cap - 1);
        while (tab[i]) i = (i + 1) & (cap - 1);
        tab[i] = p; n++;
    }
    bool take(void* p) {
        if (!n) return false;
        size_t i = h(p) & (cap - 1);
        while (tab[i] && tab[i] != p) i = (i + 1) & (cap - 1);
        if (!tab[i]) return false;
        n--;
        size_t j = i;
        for (;;) {  // backward shift
            tab[i] = nullptr;
            for (;;) {
                j = (j + 1) & (cap - 1);
                if (!tab[j]) return true;
                size_t k = h(tab[j]) & (cap - 1);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
                break;
            }
            tab[i] = tab[j];
            i = j;
        }
    }
    void clear() { if (n) memset(tab, 0, cap * sizeof(void*)); n = 0; }
};
static PtrTable g_tab;

void alloc_track(bool on) { t_track = on; }
void alloc_arm(long nth) { g_arm = nth; g_count = 0; g_fired = false; }
bool alloc_fired() { return g_fired; }
long alloc_count() { return g_count; }
long alloc_live() { return g_live; }
void alloc_forget() { g_tab.clear(); g_live = 0; }
void alloc_poison(unsigned char c) { g_poison = c; }
Track::Track(bool on) : old(t_track) { t_track = on; }
Track::~Track() { t_track = old; }

static void yield_point();
static void race_free(void* p, size_t n);
static bool g_race_on = false;

static void* do_new(size_t n) {
    if (t_track && !t_cb) {
        yield_point();
        g_count++;
        if (g_arm && g_count == g_arm) { g_fired = true; throw std::bad_alloc(); }
        if (n > ((size_t)1 << 31)) throw std::bad_alloc();  // a simulated machine has finite memory
        void* p = malloc(n ? n : 1);
        if (!p) throw std::bad_alloc();
        if (g_poison >= 0) memset(p, g_poison, n);
        if (g_race_on) race_free(p, malloc_usable_size(p));
        g_live++;
        t_cb++; g_tab.put(p); t_cb--;
        return p;
    }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (g_race_on && !t_cb) race_free(p, malloc_usable_size(p));
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    if (!t_cb) {
        if (g_tab.take(p)) g_live--;
        if (g_race_on) race_free(p, malloc_usable_size(p));
    }
    free(p);
}
}  // namespace dst

void* operator new(size_t n) { return dst::do_new(n); }
void* operator new[](size_t n) { return dst::do_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return dst::do_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return dst::do_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { dst::do_delete(p); }
void operator delete[](void* p) noexcept { dst::do_delete(p); }
void operator delete(void* p, size_t) noexcept { dst::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { dst::do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dst::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dst::do_delete(p); }

namespace dst {
// ------------------------------------------------------------------ steps
static uint64_t g_steps = 0, g_limit = 0, g_path = 0;
static uint32_t g_nguards = 0;
static uint8_t* g_edge = nullptr;
static uint64_t g_edges = 0;
static bool g_counting = false;

static void die(int code, const char* key) {
    char b[256];
    int n = snprintf(b, sizeof b, "\n{\"t\":\"dead\",\"key\":\"%s\"}\n", key);
    if (write(2, b, n) < 0) {}
    _exit(code);
}
void steps_begin(uint64_t limit) { g_steps = 0; g_limit = limit; g_path = 1469598103934665603ull; g_counting = true; }
uint64_t steps_end() { g_counting = false; return g_steps; }
uint64_t steps_now() { return g_steps; }
uint64_t edges_seen() { return g_edges; }
uint64_t path_hash() { return g_path; }
}  // namespace dst

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) {
    if (a == b || *a) return;
    for (uint32_t* p = a; p < b; p++) *p = ++dst::g_nguards;
    dst::g_edge = (uint8_t*)realloc(dst::g_edge, dst::g_nguards + 1);
    memset(dst::g_edge, 0, dst::g_nguards + 1);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
    if (!dst::g_counting || dst::t_cb || !dst::t_track) return;
    uint32_t id = *g;
    if (!dst::g_edge[id]) { dst::g_edge[id] = 1; dst::g_edges++; }
    dst::g_path = (dst::g_path ^ id) * 1099511628211ull;
    if (++dst::g_steps > dst::g_limit) dst::die(78, "no-progress: step bound exceeded");
    dst::yield_point();
}

namespace dst {
// ------------------------------------------------------------------ race oracle
struct Cell { int8_t reader = -1, reader2 = -1, writer = -1; uint64_t locks = ~0ull; };
static thread_local uint64_t t_locks = 0;  // mutexes held by this thread, one bit each
static thread_local int t_init = 0;        // inside the guarded initialisation of a function-local static
static std::map<uintptr_t, Cell>* g_cells = nullptr;
static std::string g_race;
static int cur_thread();
void race_enable(bool on) {
    t_cb++;
    if (!g_cells) g_cells = new std::map<uintptr_t, Cell>;
    g_cells->clear();
    g_race.clear();
    t_cb--;
    g_race_on = on;
}
std::string race_report() { return g_race; }
static void race_free(void* p, size_t n) {
    t_cb++;
    auto a = g_cells->lower_bound((uintptr_t)p), b = g_cells->lower_bound((uintptr_t)p + n);
    g_cells->erase(a, b);
    t_cb--;
}
static void access(uintptr_t a, size_t n, bool w, void* pc) {
    if (!g_race_on || t_cb || !t_track || t_init) return;
    int me = cur_thread();
    if (me < 0) return;
    t_cb++;
    for (size_t i = 0; i < n; i++) {
        Cell& c = (*g_cells)[a + i];
        bool race = false;
        c.locks &= t_locks;
        if (w) {
            race = (c.writer >= 0 && c.writer != me) || (c.reader >= 0 && c.reader != me) || (c.reader2 >= 0 && c.reader2 != me);
            c.writer = me;
        } else {
            race = c.writer >= 0 && c.writer != me;
            if (c.reader < 0) c.reader = me; else if (c.reader != me) c.reader2 = me;
        }
        if (race && !c.locks && g_race.empty()) {
            Dl_info di, dp; memset(&di, 0, sizeof di); memset(&dp, 0, sizeof dp);
            dladdr((void*)a, &di); dladdr(pc, &dp);
            g_race = std::string(w ? "write" : "read") + " of shared location " + (di.dli_sname ? di.dli_sname : "(unnamed)") +
                     " in " + (dp.dli_sname ? dp.dli_sname : "(code)");
        }
    }
    t_cb--;
}
}  // namespace dst
#define PC __builtin_return_address(0)
#ifndef DST_NO_ACCESS  // a worker with its own memory oracle defines these callbacks itself
extern "C" {
void __sanitizer_cov_load1(uint8_t* p) { dst::access((uintptr_t)p, 1, false, PC); }
void __sanitizer_cov_load2(uint16_t* p) { dst::access((uintptr_t)p, 2, false, PC); }
void __sanitizer_cov_load4(uint32_t* p) { dst::access((uintptr_t)p, 4, false, PC); }
void __sanitizer_cov_load8(uint64_t* p) { dst::access((uintptr_t)p, 8, false, PC); }
void __sanitizer_cov_load16(__uint128_t* p) { dst::access((uintptr_t)p, 16, false, PC); }
void __sanitizer_cov_store1(uint8_t* p) { dst::access((uintptr_t)p, 1, true, PC); }
void __sanitizer_cov_store2(uint16_t* p) { dst::access((uintptr_t)p, 2, true, PC); }
void __sanitizer_cov_store4(uint32_t* p) { dst::access((uintptr_t)p, 4, true, PC); }
void __sanitizer_cov_store8(uint64_t* p) { dst::access((uintptr_t)p, 8, true, PC); }
void __sanitizer_cov_store16(__uint128_t* p) { dst::access((uintptr_t)p, 16, true, PC); }
}
#endif

namespace dst {
// ------------------------------------------------------------------ threads
struct Th { pthread_t th; sem_t sem; bool done = false; const std::function<void()>* body = nullptr; int id = 0; std::exception_ptr err; };
static std::vector<Th*>* g_ths = nullptr;
static thread_local int t_me = -1;
static int g_cur = -1;
static const std::vector<Preempt>* g_plan = nullptr;
static size_t g_planpos = 0;
static SchedResult g_res;
static sem_t g_main;
static int cur_thread() { return t_me; }

static void switch_to(int to) {  // called by running thread
    if (to == t_me) return;
    g_res.switches++;
    g_res.order_hash = mix(g_res.order_hash, (g_res.steps << 4) + to);
    int me = t_me;
    g_cur = to;
    sem_post(&(*g_ths)[to]->sem);
    while (sem_wait(&(*g_ths)[me]->sem) != 0) {}
}
static void yield_point() {
    if (!g_ths || t_me < 0 || t_init) return;
    g_res.steps++;
    if (!g_plan || g_planpos >= g_plan->size() || g_res.steps < (*g_plan)[g_planpos].at) return;
    t_cb++;
    const Preempt& p = (*g_plan)[g_planpos++];
    std::vector<int> alive;
    for (auto* t : *g_ths) if (!t->done) alive.push_back(t->id);
    int to = alive[p.to % alive.size()];
    t_cb--;
    switch_to(to);
}
static pthread_key_t g_exitkey;
static void th_exit(void* a);
static void* th_main(void* a) {
    Th* t = (Th*)a;
    while (sem_wait(&t->sem) != 0) {}
    t_me = t->id;
    try { (*t->body)(); } catch (...) { t->err = std::current_exception(); }
    t_track = false;
    pthread_setspecific(g_exitkey, t);  // the baton moves on only after all thread_local objects are gone
    return nullptr;
}
static void th_exit(void* a) {
    Th* t = (Th*)a;
    t->done = true;
    t_me = -1;
    int nxt = -1;
    for (auto* o : *g_ths) if (!o->done) { nxt = o->id; break; }
    if (nxt >= 0) { g_cur = nxt; sem_post(&(*g_ths)[nxt]->sem); }
    else sem_post(&g_main);
}
static void pass_baton() {  // the running thread cannot go on: let the next one run
    t_cb++;
    std::vector<int> alive;
    for (auto* t : *g_ths) if (!t->done) alive.push_back(t->id);
    t_cb--;
    for (size_t i = 0; i < alive.size(); i++)
        if (alive[i] == t_me) { switch_to(alive[(i + 1) % alive.size()]); return; }
}
static uint64_t lock_bit(void* m) { return 1ull << (((uintptr_t)m >> 3) * 0x9E3779B97F4A7C15ull >> 58); }
SchedResult run_threads(const std::vector<std::function<void()>>& bodies, const std::vector<Preempt>& plan) {
    static bool once = (pthread_key_create(&g_exitkey, th_exit), true);
    (void)once;
    g_res = SchedResult();
    std::vector<Th*> ths;
    sem_init(&g_main, 0, 0);
    for (size_t i = 0; i < bodies.size(); i++) {
        Th* t = new Th;
        t->id = (int)i; t->body = &bodies[i];
        sem_init(&t->sem, 0, 0);
        ths.push_back(t);
    }
    g_ths = &ths; g_plan = &plan; g_planpos = 0;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
    for (auto* t : ths) pthread_create(&t->th, &at, th_main, t);
    pthread_attr_destroy(&at);
    g_cur = 0;
    sem_post(&ths[0]->sem);
    while (sem_wait(&g_main) != 0) {}
    for (auto* t : ths) pthread_join(t->th, nullptr);
    g_ths = nullptr; g_plan = nullptr;
    std::exception_ptr e;
    for (auto* t : ths) { if (t->err && !e) e = t->err; t->err = nullptr; sem_destroy(&t->sem); delete t; }
    sem_destroy(&g_main);
    if (e) std::rethrow_exception(e);
    return g_res;
}

}  // namespace dst
// Function-local statics: their initialisation happens before every use of them, and runs without preemption
// (a thread that waited for it would sleep with the baton).
extern "C" int __cxa_guard_acquire(int64_t* g) {
    static int (*real)(int64_t*) = nullptr;
    if (!real) real = (int (*)(int64_t*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int r = real(g);
    if (r) dst::t_init++;
    return r;
}
extern "C" void __cxa_guard_release(int64_t* g) noexcept {
    static void (*real)(int64_t*) = nullptr;
    if (!real) real = (void (*)(int64_t*))dlsym(RTLD_NEXT, "__cxa_guard_release");
    dst::t_init--;
    real(g);
}
extern "C" void __cxa_guard_abort(int64_t* g) noexcept {
    static void (*real)(int64_t*) = nullptr;
    if (!real) real = (void (*)(int64_t*))dlsym(RTLD_NEXT, "__cxa_guard_abort");
    dst::t_init--;
    real(g);
}
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) {
    static int (*real)(pthread_once_t*, void (*)()) = nullptr;
    if (!real) real = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
    struct In { In() { dst::t_init++; } ~In() { dst::t_init--; } } in;
    return real(o, f);
}
// Mutexes under the baton scheduler: a blocked thread hands the baton on instead of sleeping with it.
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static auto lock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (dst::t_me < 0 || dst::t_cb || !dst::t_track) return lock ? lock(m) : 0;
    int r, n = 0;
    while ((r = pthread_mutex_trylock(m)) == EBUSY) {
        if (++n > 100000) dst::die(78, "no-progress: deadlock");
        dst::pass_baton();
    }
    if (r == 0) dst::t_locks |= dst::lock_bit(m);
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    static auto unlock = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    if (dst::t_me >= 0 && !dst::t_cb && dst::t_track) dst::t_locks &= ~dst::lock_bit(m);
    return unlock ? unlock(m) : 0;
}
namespace dst {
// ------------------------------------------------------------------ disk
const char* kRoot = "/sim/";
static Disk* g_disk = nullptr;
Disk& disk() { if (!g_disk) g_disk = new Disk; return *g_disk; }
struct Handle { std::string path; size_t pos = 0; bool rd = false, wr = false, app = false; int fd = -1; FILE* f = nullptr; };
static std::map<int, Handle*>* g_fds = nullptr;
static std::map<FILE*, Handle*>* g_files = nullptr;
static std::vector<IoFault>* g_io = nullptr;
static std::vector<std::string>* g_iofired = nullptr;
static std::map<std::string, long>* g_iocnt = nullptr;
static void init_io() {
    if (g_fds) return;
    g_fds = new std::map<int, Handle*>; g_files = new std::map<FILE*, Handle*>;
    g_io = new std::vector<IoFault>; g_iofired = new std::vector<std::string>; g_iocnt = new std::map<std::string, long>;
}
struct Cb { Cb() { t_cb++; } ~Cb() { t_cb--; } };
void disk_cwd(const std::string&);
void disk_reset() { Cb c; init_io(); disk_cwd(""); disk_on_open_write(nullptr); disk() = Disk(); g_io->clear(); g_iofired->clear(); g_iocnt->clear(); }
void disk_arm(const std::vector<IoFault>& f) { Cb c; init_io(); *g_io = f; g_iofired->clear(); g_iocnt->clear(); }
std::vector<std::string> disk_fired() { Cb c; init_io(); return *g_iofired; }
long disk_open_handles() { init_io(); return (long)(g_fds->size() + g_files->size()); }

static IoFault* hit(const char* cls, const std::string& path) {  // cls: open read write close any
    for (auto& f : *g_io)
        if (!f.path.empty() && path.size() >= f.path.size() && path.compare(path.size() - f.path.size(), f.path.size(), f.path) == 0 &&
            (f.kind == "crash" || f.kind.compare(0, strlen(cls), cls) == 0) && ++f.seen == f.nth) { g_iofired->push_back(f.kind); return &f; }
    long n = ++(*g_iocnt)[cls];
    for (auto& f : *g_io)
        if (f.path.empty() && f.nth == n && f.kind.compare(0, strlen(cls), cls) == 0) { g_iofired->push_back(f.kind); return &f; }
    long k = ++(*g_iocnt)["any"];
    for (auto& f : *g_io)
        if (f.path.empty() && f.kind == "crash" && f.nth == k) { g_iofired->push_back("crash"); return &f; }
    return nullptr;
}
static long used() { long n = 0; for (auto& kv : disk().files) n += (long)kv.second.size(); return n; }

static ssize_t sim_read(Handle* h, char* b, size_t n) {
    IoFault* f = hit("read", h->path);
    const std::string& c = disk().files[h->path];
    if (f) {
        if (f->kind == "read_err") { errno = (int)f->arg; return -1; }
        if (f->kind == "read_eintr") { errno = EINTR; return -1; }
        if (f->kind == "read_eof") return 0;
        if (f->kind == "read_short") n = n ? 1 + (size_t)f->arg % n : 0;
        if (f->kind == "crash") disk().frozen = true;
    }
    if (!h->rd) { errno = EBADF; return -1; }
    size_t av = h->pos < c.size() ? c.size() - h->pos : 0;
    if (n > av) n = av;
    memcpy(b, c.data() + h->pos, n);
    h->pos += n;
    return (ssize_t)n;
}
static ssize_t sim_write(Handle* h, const char* b, size_t n) {
    IoFault* f = hit("write", h->path);
    if (f) {
        if (f->kind == "write_err") { errno = (int)f->arg; return -1; }
        if (f->kind == "write_eintr") { errno = EINTR; return -1; }
        if (f->kind == "write_short") n = n ? 1 + (size_t)f->arg % n : 0;
    }
    if (!h->wr) { errno = EBADF; return -1; }
    size_t put = n;
    if (f && f->kind == "crash") put = n ? (size_t)f->arg % n : 0;  // torn write
    if (!disk().frozen) {
        if (disk().capacity >= 0) {
            long room = disk().capacity - used();
            if (room <= 0 && put > 0) { g_iofired->push_back("disk_full"); errno = ENOSPC; return -1; }
            if ((long)put > room) { put = (size_t)room; n = put; g_iofired->push_back("disk_full_short"); }
        }
        std::string& c = disk().files[h->path];
        if (h->app) h->pos = c.size();
        if (c.size() < h->pos + put) c.resize(h->pos + put);
        memcpy(&c[h->pos], b, put);
    }
    if (f && f->kind == "crash") disk().frozen = true;
    h->pos += n;
    return (ssize_t)n;
}
static Handle* sim_open(const std::string& path, const char* mode) {
    IoFault* f = hit("open", path);
    if (f && f->kind == "crash") disk().frozen = true;
    if (f && f->kind == "open_err") { errno = (int)f->arg; return nullptr; }
    bool r = strchr(mode, 'r'), w = strchr(mode, 'w'), a = strchr(mode, 'a'), p = strchr(mode, '+');
    if (disk().dirs.count(path)) { errno = EISDIR; if (w || a || p) return nullptr; }
    bool ex = disk().files.count(path) > 0;
    if (r && !ex && !disk().dirs.count(path)) { errno = ENOENT; return nullptr; }
    size_t sl = path.rfind('/');
    std::string dir = path.substr(0, sl);
    if (!ex && dir + "/" != kRoot && !disk().dirs.count(dir)) { errno = ENOENT; return nullptr; }
    if (!disk().frozen) {
        if (w) disk().files[path] = "";
        else if (a && !ex) disk().files[path] = "";
    }
    Handle* h = new Handle;
    h->path = path; h->rd = r || p; h->wr = w || a || p; h->app = a;
    return h;
}
static int sim_close(Handle* h) {
    IoFault* f = hit("close", h->path);
    if (f && f->kind == "crash") disk().frozen = true;
    int rc = 0;
    if (f && f->kind == "close_err") { errno = (int)f->arg; rc = -1; }
    delete h;
    return rc;
}
static std::string* g_cwd = nullptr;  // relative paths of the code under test live here (empty: on the real disk)
void disk_cwd(const std::string& d) { Cb cb; if (!g_cwd) g_cwd = new std::string; *g_cwd = d; }
static std::function<void(const std::string&)>* g_on_open = nullptr;
void disk_on_open_write(std::function<void(const std::string&)> f) { Cb cb; if (!g_on_open) g_on_open = new std::function<void(const std::string&)>; *g_on_open = f; }
// path on the simulated disk, or null for the real one
static const char* simpath(const char* p, std::string& buf) {
    if (!p) return nullptr;
    if (strncmp(p, kRoot, strlen(kRoot)) == 0) return p;
    if (g_cwd && !g_cwd->empty() && p[0] != '/') { buf = *g_cwd + "/" + (strncmp(p, "./", 2) == 0 ? p + 2 : p); return buf.c_str(); }
    return nullptr;
}
template <typename F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

static Handle* by_fd(int fd) {
    if (!g_fds || g_fds->empty()) return nullptr;
    auto it = g_fds->find(fd);
    return it == g_fds->end() ? nullptr : it->second;
}
}  // namespace dst
using namespace dst;

// Streams of libstdc++ (std::fstream) call fopen/read/write/writev/lseek/fclose: these
// definitions take precedence over libc's for that shared library.
static FILE* sim_fopen_fd(const char* path, const char* mode) {
    Cb cb;
    init_io();
    Handle* h = sim_open(path, mode);
    if (!h) return nullptr;
    int fd = memfd_create("sim", 0);
    FILE* f = fdopen(fd, "r+");
    h->fd = fd; h->f = f;
    (*g_fds)[fd] = h; (*g_files)[f] = h;
    return f;
}
extern "C" FILE* fopen(const char* path, const char* mode) {
    { std::string pb; if (const char* q = simpath(path, pb)) return sim_fopen_fd(q, mode); }
    static auto r = real<FILE* (*)(const char*, const char*)>("fopen");
    return r(path, mode);
}
extern "C" FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
// Application stdio (linked with --wrap=fopen): a cookie stream, so that the C library's
// own buffering stays real and only the device below it is simulated.
static ssize_t ck_read(void* c, char* b, size_t n) { Cb cb; return sim_read((Handle*)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    Cb cb;
    size_t o = 0;
    while (o < n) {
        ssize_t k = sim_write((Handle*)c, b + o, n - o);
        if (k < 0) { if (errno == EINTR) continue; return 0; }
        o += (size_t)k;
    }
    return (ssize_t)o;
}
static int ck_seek(void* c, off64_t* off, int wh) {
    Cb cb;
    Handle* h = (Handle*)c;
    off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)h->pos : (off64_t)disk().files[h->path].size();
    if (base + *off < 0) { errno = EINVAL; return -1; }
    h->pos = (size_t)(base + *off); *off = (off64_t)h->pos;
    return 0;
}
static int ck_close(void* c) { Cb cb; Handle* h = (Handle*)c; g_files->erase(h->f); return sim_close(h); }
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* path, const char* mode) {
    std::string pb;
    const char* sp = simpath(path, pb);
    if (!sp) { static auto r = real<FILE* (*)(const char*, const char*)>("fopen"); return r(path, mode); }
    if (g_on_open && *g_on_open && strchr(mode, 'w')) (*g_on_open)(sp);
    Cb cb;
    init_io();
    Handle* h = sim_open(sp, mode);
    if (!h) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE* f = fopencookie(h, mode, io);
    h->f = f;
    (*g_files)[f] = h;
    return f;
}
extern "C" ssize_t read(int fd, void* b, size_t n) {
    if (t_cb == 0 || g_fds) if (Handle* h = by_fd(fd)) { Cb cb; return sim_read(h, (char*)b, n); }
    static auto r = real<ssize_t (*)(int, void*, size_t)>("read");
    return r(fd, b, n);
}
extern "C" ssize_t write(int fd, const void* b, size_t n) {
    if (Handle* h = by_fd(fd)) { Cb cb; return sim_write(h, (const char*)b, n); }
    static auto r = real<ssize_t (*)(int, const void*, size_t)>("write");
    return r(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
    if (Handle* h = by_fd(fd)) {
        Cb cb;
        std::string s;
        for (int i = 0; i < c; i++) s.append((const char*)v[i].iov_base, v[i].iov_len);
        return sim_write(h, s.data(), s.size());
    }
    static auto r = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
    return r(fd, v, c);
}
extern "C" off_t lseek(int fd, off_t o, int wh) noexcept {
    if (Handle* h = by_fd(fd)) {
        off64_t x = o;
        if (disk().dirs.count(h->path)) { if (wh == SEEK_END) return 0x7fffffffffffffffll; }
        return ck_seek(h, &x, wh) ? -1 : (off_t)x;
    }
    static auto r = real<off_t (*)(int, off_t, int)>("lseek");
    return r(fd, o, wh);
}
extern "C" off64_t lseek64(int fd, off64_t o, int wh) noexcept { return lseek(fd, o, wh); }
extern "C" int fclose(FILE* f) {
    if (g_files && !g_files->empty()) {
        auto it = g_files->find(f);
        if (it != g_files->end()) {
            Handle* h = it->second;
            static auto r = real<int (*)(FILE*)>("fclose");
            if (h->fd >= 0) {  // fd stream
                Cb cb;
                g_fds->erase(h->fd); g_files->erase(it);
                r(f);
                return sim_close(h);
            }
            return r(f);  // cookie: ck_close does the rest
        }
    }
    static auto r = real<int (*)(FILE*)>("fclose");
    return r(f);
}
static void fill_stat(struct stat* st, const std::string& p) {
    memset(st, 0, sizeof *st);
    if (disk().dirs.count(p)) st->st_mode = S_IFDIR | 0755;
    else { st->st_mode = S_IFREG | 0644; st->st_size = (off_t)disk().files[p].size(); }
    st->st_nlink = 1;
}
extern "C" int fstat(int fd, struct stat* st) noexcept {
    if (Handle* h = by_fd(fd)) { Cb cb; fill_stat(st, h->path); return 0; }
    static auto r = real<int (*)(int, struct stat*)>("fstat");
    return r(fd, st);
}
extern "C" int stat(const char* p, struct stat* st) noexcept {
    std::string pb;
    if (const char* sp = simpath(p, pb)) {
        Cb cb;
        std::string s = sp;
        while (s.size() > 1 && s.back() == '/') s.pop_back();
        if (s + "/" == kRoot) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
        if (!disk().dirs.count(s) && !disk().files.count(s)) { errno = ENOENT; return -1; }
        fill_stat(st, s);
        return 0;
    }
    static auto r = real<int (*)(const char*, struct stat*)>("stat");
    return r(p, st);
}
extern "C" int lstat(const char* p, struct stat* st) noexcept {
    { std::string pb; if (simpath(p, pb)) return stat(p, st); }
    static auto r = real<int (*)(const char*, struct stat*)>("lstat");
    return r(p, st);
}
extern "C" int mkdir(const char* p, mode_t m) noexcept {
    std::string pb;
    if (const char* sp = simpath(p, pb)) {
        Cb cb;
        init_io();
        std::string s = sp;
        while (s.size() > 1 && s.back() == '/') s.pop_back();
        IoFault* f = hit("mkdir", s);
        if (f && f->kind == "mkdir_err") { errno = (int)f->arg; return -1; }
        if (disk().dirs.count(s) || disk().files.count(s)) { errno = EEXIST; return -1; }
        if (!disk().frozen) disk().dirs.insert(s);
        return 0;
    }
    static auto r = real<int (*)(const char*, mode_t)>("mkdir");
    return r(p, m);
}

namespace dst {
// ------------------------------------------------------------------ worker
static std::string js(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
struct Outcome { bool bad = false; Violation v; Ctx c; };
static Outcome run_once(Prop& p, const Trace& t, std::unordered_set<uint64_t>* states, bool verbose = false) {
    Outcome o;
    o.c.states = states;
    o.c.verbose = verbose;
    alloc_forget(); alloc_arm(0); disk_reset(); t_track = false; g_counting = false;
    try {
        p.exec(t, o.c);
    } catch (Violation& v) {
        t_track = false;
        o.bad = true; o.v = v;
    } catch (std::exception& e) {
        t_track = false;
        o.bad = true; o.v = {std::string("escaped-exception:") + typeid(e).name(), e.what()};
    }
    t_track = false; alloc_arm(0); g_counting = false; race_enable(false);
    if (o.bad) o.c.observe("VIOLATION " + o.v.key);
    return o;
}
static volatile sig_atomic_t g_stop = 0;
static void on_term(int) { g_stop = 1; }
static void on_terminate() { die(79, "std::terminate called"); }

int main_(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    std::set_terminate(on_terminate);
    init_io();
    if (a.count("--list")) { for (auto& p : props()) printf("%s\n", p.id.c_str()); return 0; }
    Prop* p = nullptr;
    for (auto& q : props()) if (q.id == a["--prop"]) p = &q;
    if (!p) { fprintf(stderr, "no such property\n"); return 2; }
    int tier = (int)to_l(a["--tier"]);
    std::unordered_set<uint64_t> states;
    if (p->warmup) p->warmup();
    if (a.count("--gen")) {
        Rng r(strtoull(a["--gen"].c_str(), nullptr, 10));
        for (auto& l : p->gen(r, tier)) printf("%s\n", l.c_str());
        return 0;
    }
    if (a.count("--replay")) {
        Trace t;
        FILE* f = fopen(a["--replay"].c_str(), "r");
        if (!f) { perror("replay"); return 2; }
        char* b = nullptr; size_t cap = 0; ssize_t n;
        while ((n = getline(&b, &cap, f)) > 0) {
            while (n && (b[n - 1] == '\n')) b[--n] = 0;
            if (n && b[0] != '#') t.push_back(b);
        }
        free(b);
        fclose(f);
        Outcome o = run_once(*p, t, &states, a.count("--verbose") > 0);
        printf("{\"t\":\"replay\",\"bad\":%s,\"key\":%s,\"detail\":%s,\"hash\":\"%016llx\"}\n", o.bad ? "true" : "false",
               js(o.v.key).c_str(), js(o.v.detail).c_str(), (unsigned long long)o.c.hash);
        return o.bad ? 1 : 0;
    }
    uint64_t base = strtoull(a["--seed"].c_str(), nullptr, 10);
    long start = to_l(a["--start"]), stride = std::max(1l, to_l(a["--stride"])), maxruns = a.count("--runs") ? to_l(a["--runs"]) : 1l << 60;
    double secs = a.count("--seconds") ? atof(a["--seconds"].c_str()) : 1e9;
    long maxviol = a.count("--max-viol") ? to_l(a["--max-viol"]) : 8;
    FILE* st = a.count("--status") ? fopen(a["--status"].c_str(), "w") : nullptr;
    std::string outdir = a["--outdir"];
    signal(SIGTERM, on_term);
    auto t0 = std::chrono::steady_clock::now();
    std::map<std::string, uint64_t> faults, ops;
    std::map<std::string, int> seenkeys;
    uint64_t runs = 0, nontriv = 0, steps = 0, dets = 0, detbad = 0, viols = 0, faulty = 0;
    std::unordered_set<uint64_t> hashes;
    std::string samples;
    int nsamples = 0;
    auto sumline = [&](const char* kind) {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        printf("{\"t\":\"%s\",\"runs\":%llu,\"nontrivial\":%llu,\"faulty\":%llu,\"steps\":%llu,\"edges\":%llu,\"states\":%zu,\"distinct\":%zu,\"det\":%llu,\"detbad\":%llu,\"secs\":%.3f,\"faults\":{",
               kind, (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)faulty, (unsigned long long)steps, (unsigned long long)edges_seen(),
               states.size(), hashes.size(), (unsigned long long)dets, (unsigned long long)detbad, el);
        bool first = true;
        for (auto& kv : faults) { printf("%s%s:%llu", first ? "" : ",", js(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
        printf("},\"ops\":{");
        first = true;
        for (auto& kv : ops) { printf("%s%s:%llu", first ? "" : ",", js(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
        printf("},\"samples\":[%s]}\n", samples.c_str());
        fflush(stdout);
    };
    for (long i = start; (long)runs < maxruns; i += stride) {
        if (g_stop || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        uint64_t seed = mix(base, (uint64_t)i);
        if (st) { rewind(st); fprintf(st, "%ld %llu\n", i, (unsigned long long)seed); fflush(st); }
        Rng r(seed);
        Trace t = p->gen(r, tier);
        Outcome o = run_once(*p, t, &states);
        runs++;
        if (o.c.nontrivial) { nontriv++; hashes.insert(o.c.hash); }
        if (!o.c.faults.empty()) faulty++;
        steps += o.c.steps;
        for (auto& kv : o.c.faults) faults[kv.first] += kv.second;
        for (auto& kv : o.c.ops) ops[kv.first] += kv.second;
        if (nsamples < 3 && o.c.nontrivial) {
            std::string s;
            for (size_t k = 0; k < t.size() && k < 12; k++) s += (k ? "; " : "") + t[k];
            char b[64]; snprintf(b, sizeof b, "seed %llu: ", (unsigned long long)seed);
            samples += std::string(nsamples ? "," : "") + js(b + s);
            nsamples++;
        }
        bool det = runs % 97 == 1 || o.bad;
        if (det) {
            Outcome o2 = run_once(*p, t, nullptr);
            dets++;
            if (o2.c.hash != o.c.hash) {
                detbad++;
                printf("{\"t\":\"nondet\",\"seed\":\"%llu\",\"h1\":\"%016llx\",\"h2\":\"%016llx\"}\n", (unsigned long long)seed, (unsigned long long)o.c.hash, (unsigned long long)o2.c.hash);
            }
        }
        if (o.bad) {
            viols++;
            if (seenkeys[o.v.key]++ < 2) {
                std::string path = outdir + "/viol-" + p->id + "-" + std::to_string(seed) + ".trace";
                FILE* f = fopen(path.c_str(), "w");
                if (f) { for (auto& l : t) fprintf(f, "%s\n", l.c_str()); fclose(f); }
                printf("{\"t\":\"viol\",\"seed\":\"%llu\",\"key\":%s,\"detail\":%s,\"trace\":%s,\"hash\":\"%016llx\"}\n", (unsigned long long)seed,
                       js(o.v.key).c_str(), js(o.v.detail).c_str(), js(path).c_str(), (unsigned long long)o.c.hash);
                fflush(stdout);
            }
            if ((long)seenkeys.size() >= maxviol) break;
        }
    }
    sumline("sum");
    if (st) fclose(st);
    return 0;
}
}  // namespace dst
