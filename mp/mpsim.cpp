// The simulated device: memory spaces, kernel iteration order and the access oracle.
//
// Device arrays (and, in split mode, their host mirrors) live in arenas of one reserved region.
// Compiler-inserted callbacks report every load and store of the application; accesses inside the
// region are judged against a shadow that knows, per granule, which iterations of the current
// kernel read it and changed it.
#include "mpsim_ctl.hpp"
#include <algorithm>
#include <cstdio>
#include <map>
#include <sys/mman.h>

namespace mpsim {
bool g_split = false, g_in_kernel = false;
int g_quiet = 0;

struct Sh {
    uint32_t run;         // run in which the granule belongs to a live block
    uint32_t wep, wit;    // kernel and iteration of the last plain write
    uint32_t rep, rit;    // kernel and (first) iteration of the plain reads
    uint32_t aep, ait;    // kernel and iteration of the last atomic update
    uint32_t pre;         // value before
    uint8_t rmulti, changed, conflict, amulti;
};
static const size_t kData4 = 1ull << 29, kData1 = 1ull << 26;
static char* g_base = nullptr;
static size_t g_total = 0;
struct Arena { size_t off, cap, top, gran; Sh* sh; int space; };
static Arena g_ar[4];  // host4 host1 dev4 dev1
static std::map<char*, Block*>* g_live = nullptr;
static std::map<std::pair<int, size_t>, std::vector<char*>>* g_free = nullptr;
static uint32_t g_run = 0, g_epoch = 0, g_iter = 0;
static const char* g_file = "";
static int g_line = 0;
static Ctl g_ctl;
static Stats g_st;
static std::string g_badkey, g_baddetail;
static std::vector<std::pair<Sh*, char*>>* g_list = nullptr;
static dst::Rng g_rng(1);
static std::vector<uint32_t>* g_ord = nullptr;

Stats& stats() { return g_st; }
static const char* base(const char* f) { const char* s = f ? strrchr(f, '/') : nullptr; return s ? s + 1 : f ? f : ""; }

static void setup() {
    if (g_base) return;
    g_live = new std::map<char*, Block*>;
    g_free = new std::map<std::pair<int, size_t>, std::vector<char*>>;
    g_list = new std::vector<std::pair<Sh*, char*>>;
    g_ord = new std::vector<uint32_t>;
    g_total = 2 * (kData4 + kData1);
    auto map = [](size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _Exit(3); } return (char*)p; };
    g_base = map(g_total);
    size_t off = 0;
    for (int a = 0; a < 4; a++) {
        Arena& r = g_ar[a];
        r.off = off; r.cap = a % 2 ? kData1 : kData4; r.gran = a % 2 ? 1 : 4; r.space = a / 2; r.top = 4096;
        r.sh = (Sh*)map(r.cap / r.gran * sizeof(Sh));
        off += r.cap;
    }
}
void begin(const Ctl& c) {
    setup();
    g_ctl = c;
    g_split = c.split;
    g_run++;
    g_quiet = 0; g_in_kernel = false;
    g_rng = dst::Rng(c.seed);
    g_badkey.clear(); g_baddetail.clear();
    g_st = Stats();
    for (auto& a : g_ar) {
        if (a.top > (8u << 20)) { madvise(g_base + a.off, a.top, MADV_DONTNEED); madvise(a.sh, a.top / a.gran * sizeof(Sh), MADV_DONTNEED); }
        a.top = 4096;
    }
    g_live->clear(); g_free->clear();
    g_file = ""; g_line = 0;
}
static bool g_ended = true;
bool failed(std::string& key, std::string& detail) { key = g_badkey; detail = g_baddetail; return !key.empty(); }
void end() { g_in_kernel = false; g_quiet = 1000000; }

static Block* find(char* p) {
    auto it = g_live->upper_bound(p);
    if (it == g_live->begin()) return nullptr;
    --it;
    return p < it->first + std::max<size_t>(it->second->bytes, 1) ? it->second : nullptr;
}
static void bad(const char* what, char* p, const std::string& extra) {
    if (!g_badkey.empty()) return;
    g_quiet++;
    Block* b = find(p);
    std::string nm = b ? b->name : "(no array)";
    g_badkey = std::string(what) + ": " + nm + " in " + base(g_file);
    char t[160];
    snprintf(t, sizeof t, "%s of array %s, element byte %ld of %zu, kernel %s:%d%s", what, nm.c_str(), b ? (long)(p - b->p) : -1L, b ? b->bytes : 0, base(g_file), g_line, g_in_kernel ? "" : " (host code after this kernel)");
    g_baddetail = std::string(t) + (extra.empty() ? "" : ", " + extra);
    g_quiet--;
}
static inline void raise() {
    if (__builtin_expect(!g_badkey.empty(), 0) && !std::uncaught_exceptions()) { g_in_kernel = false; throw Oracle{g_badkey, g_baddetail}; }
}

Block* alloc(size_t bytes, size_t elem, int space, const char* name) {
    setup();
    Quiet q;
    int ai = space * 2 + ((elem == 4 || elem == 8) ? 0 : 1);
    Arena& a = g_ar[ai];
    size_t need = ((bytes ? bytes : 1) + 63) / 64 * 64 + 64;
    char* p = nullptr;
    auto f = g_free->find({ai, need});
    if (f != g_free->end() && f->second.size() > 3) { p = f->second.front(); f->second.erase(f->second.begin()); }
    else {
        if (need > a.cap || a.top + need > a.cap) throw std::bad_alloc();
        p = g_base + a.off + a.top;
        a.top += need;
    }
    Block* b = new Block;
    b->p = p; b->bytes = bytes; b->space = space; b->name = name ? name : ""; b->run = g_run;
    Sh* s = a.sh + (p - g_base - a.off) / a.gran;
    size_t n = (bytes + a.gran - 1) / a.gran;
    for (size_t i = 0; i < n; i++) s[i].run = g_run;
    (*g_live)[p] = b;
    g_st.blocks++;
    g_st.bytes += bytes;
    return b;
}
void release(Block* b) {
    Quiet q;
    if (b->run == g_run) {
        if (b->destroy) b->destroy(b->p, b->count);
        size_t off = (size_t)(b->p - g_base);
        for (int i = 0; i < 4; i++) {
            Arena& a = g_ar[i];
            if (off < a.off || off >= a.off + a.cap) continue;
            Sh* s = a.sh + (off - a.off) / a.gran;
            size_t n = (b->bytes + a.gran - 1) / a.gran;
            for (size_t k = 0; k < n; k++) s[k].run = 0;
            memset(b->p, 0xdb, b->bytes);
            g_live->erase(b->p);
            (*g_free)[{i, ((b->bytes ? b->bytes : 1) + 63) / 64 * 64 + 64}].push_back(b->p);
            break;
        }
    }
    delete b;
}
void oob(const char* what, const std::string& name, const char* arg, size_t i, size_t n) {
    Quiet q;
    char t[200];
    snprintf(t, sizeof t, "%s '%s': %s %zd, limit %zu, in or after kernel %s:%d", what, name.c_str(), arg, (ssize_t)i, n, base(g_file), g_line);
    g_in_kernel = false;
    throw Oracle{std::string("index out of range: ") + what + " " + name + " in " + base(g_file), t};
}
void abort_(const char* m) { g_in_kernel = false; throw SimAbort{m ? m : ""}; }

void kernel_begin(const char* f, int l, uint64_t n) {
    raise();
    if (g_in_kernel) throw Oracle{std::string("nested kernel in ") + base(f), "a kernel was started inside a kernel"};
    g_file = f; g_line = l;
    g_epoch++;
    g_st.kernels++; g_st.iterations += n;
    if (g_ctl.max_iterations && g_st.iterations > g_ctl.max_iterations) throw Oracle{"no-progress: kernel bound exceeded", base(f)};
    g_in_kernel = true;
}
void kernel_end() { g_in_kernel = false; g_list->clear(); }
const uint32_t* kernel_order(uint64_t n) {
    Quiet q;
    if (g_ord->size() < n) g_ord->resize(n);
    auto& o = *g_ord;
    int m = g_ctl.order;
    if (m == kMixed) m = (int)g_rng.below(5);
    switch (n < 2 ? 0 : m) {
    case kForward: for (uint64_t i = 0; i < n; i++) o[i] = (uint32_t)i; break;
    case kReverse: for (uint64_t i = 0; i < n; i++) o[i] = (uint32_t)(n - 1 - i); break;
    case kRandom:
        for (uint64_t i = 0; i < n; i++) o[i] = (uint32_t)i;
        for (uint64_t i = n; i-- > 1;) std::swap(o[i], o[g_rng.below(i + 1)]);
        break;
    case kBlocked: {  // a few workers, each with a contiguous block, advancing in random alternation
        int w = 2 + (int)g_rng.below(6);
        std::vector<uint64_t> at(w), en(w);
        for (int k = 0; k < w; k++) { at[k] = n * k / w; en[k] = n * (k + 1) / w; }
        for (uint64_t t = 0; t < n;) { int k = (int)g_rng.below(w); if (at[k] < en[k]) o[t++] = (uint32_t)at[k]++; else { for (k = 0; at[k] >= en[k]; k++) {} o[t++] = (uint32_t)at[k]++; } }
        break;
    }
    default: {  // strided, as on a GPU
        uint64_t t = 0, w = 2 + g_rng.below(31);
        for (uint64_t s = 0; s < w; s++) for (uint64_t i = s; i < n; i += w) o[t++] = (uint32_t)i;
    }
    }
    if (m != kForward && n > 1) g_st.permuted++;
    g_st.order_hash = (g_st.order_hash ^ dst::fnv(o.data(), std::min<uint64_t>(n, 64) * 4)) * 1099511628211ull;
    return o.data();
}
void iter_begin(uint32_t i) { g_iter = i; }
void iter_end() {
    for (auto& e : *g_list) {
        Sh& s = *e.first;
        uint32_t cur = 0;
        bool one = e.first >= g_ar[1].sh && e.first < g_ar[1].sh + kData1;
        one = one || (e.first >= g_ar[3].sh && e.first < g_ar[3].sh + kData1);
        memcpy(&cur, e.second, one ? 1 : 4);
        if (cur != s.pre) {
            if (s.conflict) bad("write-write race", e.second, "two iterations leave different values");
            s.changed = 1;
            if (s.rep == g_epoch && (s.rmulti || s.rit != g_iter)) bad("read-write race", e.second, "one iteration reads what another changes");
            if (s.aep == g_epoch && (s.amulti || s.ait != g_iter)) bad("write-atomic race", e.second, "one iteration changes what another updates atomically");
        }
    }
    g_list->clear();
    raise();
}
int reduce_chunks(uint64_t n) { return g_ctl.order == kForward || n < 2 ? 1 : 1 + (int)g_rng.below(std::min<uint64_t>(n, 6)); }
void reduce_combine_order(int k, int* o) {
    for (int i = 0; i < k; i++) o[i] = i;
    if (g_ctl.order != kForward) for (int i = k; i-- > 1;) std::swap(o[i], o[g_rng.below(i + 1)]);
}
static inline Sh* shadow(char* p, int& ai, size_t& gran) {
    size_t off = (size_t)(p - g_base);
    ai = off < kData4 ? 0 : off < kData4 + kData1 ? 1 : off < 2 * kData4 + kData1 ? 2 : 3;
    Arena& a = g_ar[ai];
    gran = a.gran;
    return a.sh + (off - a.off) / a.gran;
}
void atomic_enter(void* vp, size_t n) {
    char* p = (char*)vp;
    if ((size_t)(p - g_base) < g_total && g_in_kernel) {
        g_st.atomics++;
        int ai; size_t gr;
        Sh* s = shadow(p, ai, gr);
        for (size_t k = 0; k < (n + gr - 1) / gr; k++, s++) {
            if (s->wep == g_epoch && s->changed && s->wit != g_iter) bad("write-atomic race", p, "one iteration changes what another updates atomically");
            if (s->rep == g_epoch && (s->rmulti || s->rit != g_iter)) bad("read-atomic race", p, "one iteration reads what another updates atomically");
            if (s->aep == g_epoch && s->ait != g_iter) s->amulti = 1;
            if (s->aep != g_epoch) s->amulti = 0;
            s->aep = g_epoch; s->ait = g_iter;
        }
    }
    g_quiet++;
}
void atomic_leave() { g_quiet--; }
void copied(const char*, bool to_host) { raise(); (to_host ? g_st.to_host : g_st.to_device)++; }

static __attribute__((noinline)) void judge(char* p, size_t n, bool w) {
    int ai; size_t gr;
    Sh* s = shadow(p, ai, gr);
    bool dev = ai >= 2;
    if (s->run != g_run) { bad("access outside arrays", p, w ? "store" : "load"); return; }
    if (!g_in_kernel) {
        if (g_split && dev) bad(w ? "host code writes device memory" : "host code reads device memory", p, "");
        return;
    }
    if (!dev) { if (g_split) bad(w ? "kernel writes host memory" : "kernel reads host memory", p, ""); return; }
    char* q = p;
    for (size_t k = 0; k < (n + gr - 1) / gr; k++, s++, q += gr) {
        if (s->run != g_run) { bad("access outside arrays", q, w ? "store" : "load"); return; }
        if (w) {
            if (s->wep != g_epoch || s->wit != g_iter) {
                s->pre = 0;
                memcpy(&s->pre, q, gr);
                s->conflict = s->wep == g_epoch;
                if (!s->conflict) s->changed = 0;
                s->wep = g_epoch; s->wit = g_iter;
                g_list->push_back({s, q});
            }
        } else {
            if (s->wep == g_epoch && s->wit != g_iter && s->changed) bad("read-write race", q, "one iteration reads what another changes");
            if (s->aep == g_epoch && (s->amulti || s->ait != g_iter)) bad("read-atomic race", q, "one iteration reads what another updates atomically");
            if (s->rep != g_epoch) { s->rep = g_epoch; s->rit = g_iter; s->rmulti = 0; }
            else if (s->rit != g_iter) s->rmulti = 1;
        }
    }
}
}  // namespace mpsim
#define ACC(nm, ty, n, w) \
    extern "C" void __sanitizer_cov_##nm##n(ty* p) { if ((size_t)((char*)p - mpsim::g_base) < mpsim::g_total && !mpsim::g_quiet) mpsim::judge((char*)p, n, w); }
ACC(load, uint8_t, 1, false) ACC(load, uint16_t, 2, false) ACC(load, uint32_t, 4, false) ACC(load, uint64_t, 8, false) ACC(load, __uint128_t, 16, false)
ACC(store, uint8_t, 1, true) ACC(store, uint16_t, 2, true) ACC(store, uint32_t, 4, true) ACC(store, uint64_t, 8, true) ACC(store, __uint128_t, 16, true)
