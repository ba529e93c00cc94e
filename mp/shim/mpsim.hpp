// Simulated Kokkos device: memory spaces, kernel scheduler and access oracle.  The application is
// compiled against this shim in place of Kokkos/MATAR/ELEMENTS; every kernel iteration order and
// every host/device copy goes through here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <new>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace mpsim {
struct SimExit { int code; };              // the program called exit
struct SimAbort { std::string msg; };      // the program called Kokkos::abort
struct Oracle { std::string key, detail; };  // the memory oracle or an index check failed

struct Block {
    char* p = nullptr;
    size_t bytes = 0;
    long refs = 0;
    int space = 0;  // 0 host, 1 device
    void (*destroy)(void*, size_t) = nullptr;
    size_t count = 0;
    std::string name;
    unsigned run = 0;
};
extern int g_quiet;  // accesses made by the device runtime itself are not judged
struct Quiet { Quiet() { g_quiet++; } ~Quiet() { g_quiet--; } };
Block* alloc(size_t bytes, size_t elem, int space, const char* name);
void release(Block* b);
[[noreturn]] void oob(const char* what, const std::string& name, const char* arg, size_t i, size_t n);
[[noreturn]] void abort_(const char* msg);
extern bool g_split;      // separate host and device memories
extern bool g_in_kernel;

// kernels
void kernel_begin(const char* file, int line, uint64_t n);
void kernel_end();
const uint32_t* kernel_order(uint64_t n);     // permutation for this kernel (valid until kernel_end)
void iter_begin(uint32_t i);
void iter_end();
int reduce_chunks(uint64_t n);                // number of partial results of a reduction
void reduce_combine_order(int k, int* ord);   // order in which they are combined
void atomic_enter(void* p, size_t n);
void atomic_leave();
void copied(const char* name, bool to_host);

struct Kernel {
    Kernel(const char* f, int l, uint64_t n) { kernel_begin(f, l, n); }
    ~Kernel() { kernel_end(); }
};

template <class F>
inline void run1(const char* file, int line, long a, long b, const F& f) {
    if (b <= a) return;
    uint64_t n = (uint64_t)(b - a);
    Kernel k(file, line, n);
    const uint32_t* ord = kernel_order(n);
    for (uint64_t t = 0; t < n; t++) { iter_begin(ord[t]); f((int)(a + ord[t])); iter_end(); }
}
template <class F>
inline void run2(const char* file, int line, long a, long b, long c, long d, const F& f) {
    if (b <= a || d <= c) return;
    uint64_t m = (uint64_t)(d - c), n = (uint64_t)(b - a) * m;
    Kernel k(file, line, n);
    const uint32_t* ord = kernel_order(n);
    for (uint64_t t = 0; t < n; t++) { iter_begin(ord[t]); f((int)(a + ord[t] / m), (int)(c + ord[t] % m)); iter_end(); }
}
template <class F>
inline void run3(const char* file, int line, long a, long b, long c, long d, long e, long g, const F& f) {
    if (b <= a || d <= c || g <= e) return;
    uint64_t m2 = (uint64_t)(g - e), m1 = (uint64_t)(d - c), n = (uint64_t)(b - a) * m1 * m2;
    Kernel k(file, line, n);
    const uint32_t* ord = kernel_order(n);
    for (uint64_t t = 0; t < n; t++) {
        uint64_t q = ord[t];
        iter_begin((uint32_t)q);
        f((int)(a + q / (m1 * m2)), (int)(c + (q / m2) % m1), (int)(e + q % m2));
        iter_end();
    }
}
struct OpSum { template <class T> static T id() { return T(); } template <class T> static void join(T& a, const T& b) { a += b; } };
struct OpMax { template <class T> static T id() { return std::numeric_limits<T>::lowest(); } template <class T> static void join(T& a, const T& b) { if (b > a) a = b; } };
struct OpMin { template <class T> static T id() { return std::numeric_limits<T>::max(); } template <class T> static void join(T& a, const T& b) { if (b < a) a = b; } };
template <class Op, class T, class F>
inline void reduce_n(const char* file, int line, uint64_t n, T& result, const F& f) {
    T total = Op::template id<T>();
    if (n) {
        Kernel k(file, line, n);
        const uint32_t* ord = kernel_order(n);
        int c = reduce_chunks(n);
        std::vector<T> part(c, Op::template id<T>());
        std::vector<int> co(c);
        for (int q = 0; q < c; q++)
            for (uint64_t t = n * q / c; t < n * (q + 1) / c; t++) { iter_begin(ord[t]); f(ord[t], part[q]); iter_end(); }
        reduce_combine_order(c, co.data());
        for (int q = 0; q < c; q++) Op::join(total, part[co[q]]);
    }
    result = total;
}
template <class Op, class T, class F>
inline void reduce1(const char* file, int line, long a, long b, T& result, const F& f) {
    reduce_n<Op>(file, line, b > a ? (uint64_t)(b - a) : 0, result, [&](uint64_t i, T& v) { f((int)(a + (long)i), v); });
}
template <class Op, class T, class F>
inline void reduce2(const char* file, int line, long a, long b, long c, long d, T& result, const F& f) {
    uint64_t m = d > c ? (uint64_t)(d - c) : 0, n = b > a ? (uint64_t)(b - a) * m : 0;
    reduce_n<Op>(file, line, n, result, [&](uint64_t i, T& v) { f((int)(a + (long)(i / m)), (int)(c + (long)(i % m)), v); });
}
template <class Op, class T, class F>
inline void reduce3(const char* file, int line, long a, long b, long c, long d, long e, long g, T& result, const F& f) {
    uint64_t m2 = g > e ? (uint64_t)(g - e) : 0, m1 = d > c ? (uint64_t)(d - c) : 0, n = b > a ? (uint64_t)(b - a) * m1 * m2 : 0;
    reduce_n<Op>(file, line, n, result, [&](uint64_t q, T& v) { f((int)(a + (long)(q / (m1 * m2))), (int)(c + (long)((q / m2) % m1)), (int)(e + (long)(q % m2)), v); });
}
}  // namespace mpsim
