#pragma once
#include "mpsim.hpp"
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <math.h>      // as with the real headers, abs of a double is a double
#include <cstdarg>
#include <stdlib.h>
#include <cstdio>
#include <iostream>
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
namespace Kokkos {
inline void fence() {}
inline void fence(const char*) {}
inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
[[noreturn]] inline void abort(const char* m) { mpsim::abort_(m); }
inline bool is_initialized() { return true; }
struct ScopeGuard { ScopeGuard(int&, char**) {} ScopeGuard() {} };
template <class... A> inline void printf(const char* f, A... a) { ::printf(f, a...); }
template <class T> inline bool isfinite(T v) { return std::isfinite(v); }
template <class T> inline bool isnan(T v) { return std::isnan(v); }
template <class T> inline bool isinf(T v) { return std::isinf(v); }
#define MP_KM1(f) template <class T> inline auto f(T v) { return std::f(v); }
#define MP_KM2(f) template <class T, class U> inline auto f(T v, U w) { return std::f(v, w); }
MP_KM1(sqrt) MP_KM1(cbrt) MP_KM1(fabs) MP_KM1(abs) MP_KM1(exp) MP_KM1(exp2) MP_KM1(log) MP_KM1(log2) MP_KM1(log10) MP_KM1(sin) MP_KM1(cos) MP_KM1(tan) MP_KM1(asin) MP_KM1(acos) MP_KM1(atan)
MP_KM1(sinh) MP_KM1(cosh) MP_KM1(tanh) MP_KM1(erf) MP_KM1(erfc) MP_KM1(floor) MP_KM1(ceil) MP_KM1(round) MP_KM1(trunc)
MP_KM2(pow) MP_KM2(fmin) MP_KM2(fmax) MP_KM2(atan2) MP_KM2(hypot) MP_KM2(fmod) MP_KM2(copysign)
template <class T> inline const T& max(const T& a, const T& b) { return b > a ? b : a; }
template <class T> inline const T& min(const T& a, const T& b) { return b < a ? b : a; }
template <class T> inline void swap(T& a, T& b) { T c = a; a = b; b = c; }
template <class T, size_t N> using Array = std::array<T, N>;
struct Timer {
    std::chrono::steady_clock::time_point t = std::chrono::steady_clock::now();
    double seconds() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); }
    void reset() { t = std::chrono::steady_clock::now(); }
};
namespace Experimental {
template <class T> struct finite_max { static constexpr T value = std::numeric_limits<T>::max(); };
template <class T> struct finite_min { static constexpr T value = std::numeric_limits<T>::lowest(); };
template <class T> struct epsilon { static constexpr T value = std::numeric_limits<T>::epsilon(); };
}
template <class T> struct Sum { typedef T value_type; typedef mpsim::OpSum op; T& v; Sum(T& x) : v(x) {} };
template <class T> struct Max { typedef T value_type; typedef mpsim::OpMax op; T& v; Max(T& x) : v(x) {} };
template <class T> struct Min { typedef T value_type; typedef mpsim::OpMin op; T& v; Min(T& x) : v(x) {} };
template <class R, class = void> struct RedOf { typedef R value_type; typedef mpsim::OpSum op; static R& ref(R& r) { return r; } };
template <class R> struct RedOf<R, std::void_t<typename R::op>> { typedef typename R::value_type value_type; typedef typename R::op op; static value_type& ref(const R& r) { return r.v; } };
enum class Iterate { Default, Left, Right };
template <int N, Iterate O = Iterate::Default, Iterate I = Iterate::Default> struct Rank { static constexpr int rank = N; };
template <class... X> struct RangePolicy { long a, b; RangePolicy(long a_, long b_) : a(a_), b(b_) {} };
template <class R, class... X> struct MDRangePolicy {
    static constexpr int rank = R::rank;
    long a[R::rank], b[R::rank];
    template <class A, class B> MDRangePolicy(std::initializer_list<A> x, std::initializer_list<B> y) { set(x, y); }
    MDRangePolicy(std::initializer_list<long> x, std::initializer_list<long> y) { set(x, y); }
    template <class T> MDRangePolicy(const std::array<T, R::rank>& x, const std::array<T, R::rank>& y) { for (int i = 0; i < rank; i++) { a[i] = (long)x[i]; b[i] = (long)y[i]; } }
    template <class X1, class X2> void set(const X1& x, const X2& y) { int i = 0; for (auto v : x) if (i < rank) a[i++] = (long)v; i = 0; for (auto v : y) if (i < rank) b[i++] = (long)v; }
};
template <class F> inline void parallel_for(const char* nm, const RangePolicy<>& p, const F& f) { mpsim::run1(nm, 0, p.a, p.b, f); }
template <class... X, class F> inline void parallel_for(const RangePolicy<X...>& p, const F& f) { mpsim::run1("parallel_for", 0, p.a, p.b, f); }
template <class F> inline void parallel_for(long n, const F& f) { mpsim::run1("parallel_for", 0, 0, n, f); }
template <class F> inline void parallel_for(int n, const F& f) { mpsim::run1("parallel_for", 0, 0, n, f); }
template <class F> inline void parallel_for(size_t n, const F& f) { mpsim::run1("parallel_for", 0, 0, (long)n, f); }
template <class F> inline void parallel_for(const char* nm, size_t n, const F& f) { mpsim::run1(nm, 0, 0, (long)n, f); }
template <class F> inline void parallel_for(const std::string& nm, size_t n, const F& f) { mpsim::run1(nm.c_str(), 0, 0, (long)n, f); }
template <class R, class... X, class F> inline void parallel_for(const char* nm, const MDRangePolicy<R, X...>& p, const F& f) {
    if constexpr (R::rank == 2) mpsim::run2(nm, 0, p.a[0], p.b[0], p.a[1], p.b[1], f);
    else mpsim::run3(nm, 0, p.a[0], p.b[0], p.a[1], p.b[1], p.a[2], p.b[2], f);
}
template <class R, class... X, class F> inline void parallel_for(const MDRangePolicy<R, X...>& p, const F& f) { parallel_for("parallel_for", p, f); }
template <class R, class... X, class F, class T> inline void parallel_reduce(const char* nm, const MDRangePolicy<R, X...>& p, const F& f, T&& out) {
    typedef RedOf<std::decay_t<T>> Q;
    typedef typename Q::value_type V;
    if constexpr (R::rank == 2) mpsim::reduce2<typename Q::op>(nm, 0, p.a[0], p.b[0], p.a[1], p.b[1], Q::ref(out), f);
    else mpsim::reduce3<typename Q::op>(nm, 0, p.a[0], p.b[0], p.a[1], p.b[1], p.a[2], p.b[2], Q::ref(out), f);
}
template <class R, class... X, class F, class T> inline void parallel_reduce(const MDRangePolicy<R, X...>& p, const F& f, T&& out) { parallel_reduce("parallel_reduce", p, f, std::forward<T>(out)); }
template <class F, class T> inline void parallel_reduce(const char* nm, const RangePolicy<>& p, const F& f, T&& out) { typedef RedOf<std::decay_t<T>> Q; mpsim::reduce1<typename Q::op>(nm, 0, p.a, p.b, Q::ref(out), f); }
template <class... X, class F, class T> inline void parallel_reduce(const RangePolicy<X...>& p, const F& f, T&& out) { typedef RedOf<std::decay_t<T>> Q; mpsim::reduce1<typename Q::op>("parallel_reduce", 0, p.a, p.b, Q::ref(out), f); }
template <class F, class T> inline void parallel_reduce(size_t n, const F& f, T&& out) { typedef RedOf<std::decay_t<T>> Q; mpsim::reduce1<typename Q::op>("parallel_reduce", 0, 0, (long)n, Q::ref(out), f); }
template <class F, class T> inline void parallel_reduce(const char* nm, size_t n, const F& f, T&& out) { typedef RedOf<std::decay_t<T>> Q; mpsim::reduce1<typename Q::op>(nm, 0, 0, (long)n, Q::ref(out), f); }
template <class T, class U> inline void atomic_add(T* p, U v) { mpsim::atomic_enter(p, sizeof(T)); *p += v; mpsim::atomic_leave(); }
template <class T, class U> inline T atomic_fetch_add(T* p, U v) { mpsim::atomic_enter(p, sizeof(T)); T o = *p; *p += v; mpsim::atomic_leave(); return o; }
template <class T> inline void atomic_increment(T* p) { atomic_add(p, T(1)); }
template <class T, class U> inline T atomic_fetch_max(T* p, U v) { mpsim::atomic_enter(p, sizeof(T)); T o = *p; if (v > o) *p = v; mpsim::atomic_leave(); return o; }
template <class T, class U> inline T atomic_fetch_min(T* p, U v) { mpsim::atomic_enter(p, sizeof(T)); T o = *p; if (v < o) *p = v; mpsim::atomic_leave(); return o; }
template <class T, class U> inline void atomic_max(T* p, U v) { atomic_fetch_max(p, v); }
template <class T, class U> inline void atomic_min(T* p, U v) { atomic_fetch_min(p, v); }
template <class T, class U> inline T atomic_exchange(T* p, U v) { mpsim::atomic_enter(p, sizeof(T)); T o = *p; *p = v; mpsim::atomic_leave(); return o; }
template <class T, class U, class V> inline T atomic_compare_exchange(T* p, U c, V v) { mpsim::atomic_enter(p, sizeof(T)); T o = *p; if (o == (T)c) *p = v; mpsim::atomic_leave(); return o; }
struct AUTO_t {};
static const AUTO_t AUTO{};
template <class... X> struct TeamPolicy {
    struct member_type { int rank, size; int league_rank() const { return rank; } int league_size() const { return size; } int team_rank() const { return 0; } int team_size() const { return 1; } void team_barrier() const {} };
    long n;
    TeamPolicy(long n_, AUTO_t) : n(n_) {}
    TeamPolicy(long n_, int) : n(n_) {}
};
struct TTR { long a, b; };
template <class M> inline TTR TeamThreadRange(const M&, long n) { return TTR{0, n}; }
template <class M> inline TTR TeamThreadRange(const M&, long a, long b) { return TTR{a, b}; }
template <class... X, class F> inline void parallel_for(const char* name, const TeamPolicy<X...>& p, const F& f) {
    typename TeamPolicy<X...>::member_type m;
    mpsim::run1(name, 0, 0, p.n, [&](int i) { typename TeamPolicy<X...>::member_type t{i, (int)p.n}; f(t); });
}
template <class F, class T> inline void parallel_reduce(const TTR& r, const F& f, T& out) {
    T v = T(0);
    for (long i = r.a; i < r.b; i++) f((int)i, v);
    out = v;
}
template <class F> inline void parallel_for(const TTR& r, const F& f) { for (long i = r.a; i < r.b; i++) f((int)i); }
}  // namespace Kokkos
