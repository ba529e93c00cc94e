// MATAR on the simulated device.
#pragma once
#include "Kokkos_Core.hpp"
#include <algorithm>
#include <cassert>
#include <limits>
#include <chrono>
#include <cstdio>
#include <fstream>
#include <iomanip>
#include <map>
#include <memory>
#include <sstream>
#include <sys/stat.h>

#define MP_CAT(a, b) a##b
#define MATAR_INITIALIZE(...)
#define MATAR_FINALIZE(...)
#define MATAR_FENCE(...) Kokkos::fence()
#define MP_PICK(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, NAME, ...) NAME
#define FOR_1(i, x0, x1, fcn) mpsim::run1(__FILE__, __LINE__, (long)(x0), (long)(x1), KOKKOS_LAMBDA(const int i) { fcn })
#define FOR_2(i, x0, x1, j, y0, y1, fcn) mpsim::run2(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), KOKKOS_LAMBDA(const int i, const int j) { fcn })
#define FOR_3(i, x0, x1, j, y0, y1, k, z0, z1, fcn) mpsim::run3(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), (long)(z0), (long)(z1), KOKKOS_LAMBDA(const int i, const int j, const int k) { fcn })
#define FOR_ALL(...) MP_PICK(__VA_ARGS__, e13, e12, e11, FOR_3, e9, e8, FOR_2, e6, e5, FOR_1, e3, e2, e1)(__VA_ARGS__)
#define FORC_1(i, x0, x1, fcn) mpsim::run1(__FILE__, __LINE__, (long)(x0), (long)(x1), KOKKOS_CLASS_LAMBDA(const int i) { fcn })
#define FORC_2(i, x0, x1, j, y0, y1, fcn) mpsim::run2(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), KOKKOS_CLASS_LAMBDA(const int i, const int j) { fcn })
#define FORC_3(i, x0, x1, j, y0, y1, k, z0, z1, fcn) mpsim::run3(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), (long)(z0), (long)(z1), KOKKOS_CLASS_LAMBDA(const int i, const int j, const int k) { fcn })
#define FOR_ALL_CLASS(...) MP_PICK(__VA_ARGS__, e13, e12, e11, FORC_3, e9, e8, FORC_2, e6, e5, FORC_1, e3, e2, e1)(__VA_ARGS__)
#define RUN(...) mpsim::run1(__FILE__, __LINE__, 0, 1, KOKKOS_LAMBDA(const int) { __VA_ARGS__ })
#define RUN_CLASS(...) mpsim::run1(__FILE__, __LINE__, 0, 1, KOKKOS_CLASS_LAMBDA(const int) { __VA_ARGS__ })
#define RED_1(OP, i, x0, x1, var, fcn, result) mpsim::reduce1<mpsim::OP>(__FILE__, __LINE__, (long)(x0), (long)(x1), result, KOKKOS_LAMBDA(const int i, decltype(var)& var) { fcn })
#define RED_2(OP, i, x0, x1, j, y0, y1, var, fcn, result) mpsim::reduce2<mpsim::OP>(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), result, KOKKOS_LAMBDA(const int i, const int j, decltype(var)& var) { fcn })
#define REDC_1(OP, i, x0, x1, var, fcn, result) mpsim::reduce1<mpsim::OP>(__FILE__, __LINE__, (long)(x0), (long)(x1), result, KOKKOS_CLASS_LAMBDA(const int i, decltype(var)& var) { fcn })
#define REDC_2(OP, i, x0, x1, j, y0, y1, var, fcn, result) mpsim::reduce2<mpsim::OP>(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), result, KOKKOS_CLASS_LAMBDA(const int i, const int j, decltype(var)& var) { fcn })
#define MP_RED(OP, ...) MP_PICK(__VA_ARGS__, e13, RED_3, e11, e10, RED_2, e8, e7, RED_1, e5, e4, e3, e2, e1)(OP, __VA_ARGS__)
#define MP_REDC(OP, ...) MP_PICK(__VA_ARGS__, e13, REDC_3, e11, e10, REDC_2, e8, e7, REDC_1, e5, e4, e3, e2, e1)(OP, __VA_ARGS__)
#define RED_3(OP, i, x0, x1, j, y0, y1, k, z0, z1, var, fcn, result) mpsim::reduce3<mpsim::OP>(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), (long)(z0), (long)(z1), result, KOKKOS_LAMBDA(const int i, const int j, const int k, decltype(var)& var) { fcn })
#define REDC_3(OP, i, x0, x1, j, y0, y1, k, z0, z1, var, fcn, result) mpsim::reduce3<mpsim::OP>(__FILE__, __LINE__, (long)(x0), (long)(x1), (long)(y0), (long)(y1), (long)(z0), (long)(z1), result, KOKKOS_CLASS_LAMBDA(const int i, const int j, const int k, decltype(var)& var) { fcn })
#define FOR_REDUCE_SUM(...) MP_RED(OpSum, __VA_ARGS__)
#define FOR_REDUCE_MAX(...) MP_RED(OpMax, __VA_ARGS__)
#define FOR_REDUCE_MIN(...) MP_RED(OpMin, __VA_ARGS__)
#define FOR_REDUCE_SUM_CLASS(...) MP_REDC(OpSum, __VA_ARGS__)
#define FOR_REDUCE_MAX_CLASS(...) MP_REDC(OpMax, __VA_ARGS__)
#define FOR_REDUCE_MIN_CLASS(...) MP_REDC(OpMin, __VA_ARGS__)
#ifndef MP_NO_REAL_T
typedef double real_t;
#endif
#ifndef PI
#define PI 3.14159265358979323846
#endif

namespace mtr {
using mpsim::Block;

template <class T>
struct Ref {  // counted reference to simulated memory
    Block* b = nullptr;
    Ref() {}
    Ref(const Ref& o) : b(o.b) { if (b) b->refs++; }
    Ref(Ref&& o) noexcept : b(o.b) { o.b = nullptr; }
    Ref& operator=(Ref o) noexcept { std::swap(b, o.b); return *this; }
    ~Ref() { drop(); }
    void drop() { if (b && --b->refs == 0) mpsim::release(b); b = nullptr; }
    T* make(size_t n, int space, const std::string& name, bool zero) {
        drop();
        mpsim::Quiet quiet;
        if (n > (size_t)PTRDIFF_MAX / sizeof(T)) throw std::bad_alloc();
        b = mpsim::alloc(n * sizeof(T), sizeof(T), space, name.c_str());
        b->refs = 1;
        b->count = n;
        T* p = (T*)b->p;
        if constexpr (!std::is_trivially_default_constructible<T>::value || !std::is_trivially_destructible<T>::value) {
            for (size_t i = 0; i < n; i++) new (p + i) T();
            b->destroy = [](void* q, size_t k) { for (size_t i = 0; i < k; i++) ((T*)q)[i].~T(); };
        } else if (zero) memset((void*)p, 0, n * sizeof(T));
        else memset((void*)p, 0x7f, n * sizeof(T));
        return p;
    }
};
template <class T> inline void transfer(T* to, const T* from, size_t n) {
    if (to == from || !n) return;
    mpsim::Quiet quiet;
    if constexpr (std::is_trivially_copyable<T>::value) memcpy((void*)to, (const void*)from, n * sizeof(T));
    else for (size_t i = 0; i < n; i++) to[i] = from[i];
}

template <class T>
struct Shape {
    size_t dims_[7] = {0, 0, 0, 0, 0, 0, 0};
    size_t order_ = 0, length_ = 0;
    template <class... I> void shape(I... i) {
        size_t d[] = {(size_t)i...};
        order_ = sizeof...(I);
        length_ = 1;
        for (size_t k = 0; k < order_; k++) { dims_[k] = d[k]; length_ *= d[k]; }
    }
    size_t size() const { return length_; }
    size_t extent() const { return length_; }
    size_t order() const { return order_; }
    size_t dims(size_t i) const { return dims_[i]; }
};
template <class... I> struct last_is_string { static constexpr bool value = false; };

// C-order index with bounds checks
template <int BASE = 0, class... I>
inline size_t cindex(const size_t* d, size_t order, const std::string* name, const char* what, I... i) {
    const size_t ix[] = {(size_t)i...};
    if (__builtin_expect(sizeof...(I) != order, 0)) mpsim::oob(what, name ? *name : std::string(), "rank", sizeof...(I), order);
    size_t q = 0;
    for (size_t k = 0; k < sizeof...(I); k++) {
        if (__builtin_expect(ix[k] - BASE >= d[k], 0)) mpsim::oob(what, name ? *name : std::string(), "index", ix[k], d[k]);
        q = q * d[k] + (ix[k] - BASE);
    }
    return q;
}
template <class... I>
inline size_t findex(const size_t* d, size_t order, const std::string* name, const char* what, I... i) {
    const size_t ix[] = {(size_t)i...};
    if (__builtin_expect(sizeof...(I) != order, 0)) mpsim::oob(what, name ? *name : std::string(), "rank", sizeof...(I), order);
    size_t q = 0;
    for (size_t k = sizeof...(I); k-- > 0;) {
        if (__builtin_expect(ix[k] >= d[k], 0)) mpsim::oob(what, name ? *name : std::string(), "index", ix[k], d[k]);
        q = q * d[k] + ix[k];
    }
    return q;
}

template <class T>
struct ViewCArray : Shape<T> {
    T* p_ = nullptr;
    ViewCArray() {}
    template <class... I> explicit ViewCArray(T* p, I... i) : p_(p) { this->shape(i...); }
    template <class... I> T& operator()(I... i) const { return p_[cindex(this->dims_, this->order_, nullptr, "view", i...)]; }
    T* pointer() const { return p_; }
    void set_values(T v) const { for (size_t i = 0; i < this->length_; i++) p_[i] = v; }
};
template <class T> struct ViewCArrayKokkos : ViewCArray<T> { using ViewCArray<T>::ViewCArray; };

#define MP_CTORS(CLS)                                                                                                              \
    CLS() {}                                                                                                                       \
    CLS(size_t a, const std::string& n = "arr") { init(n, a); }                                                                   \
    CLS(size_t a, size_t b, const std::string& n = "arr") { init(n, a, b); }                                                      \
    CLS(size_t a, size_t b, size_t c, const std::string& n = "arr") { init(n, a, b, c); }                                         \
    CLS(size_t a, size_t b, size_t c, size_t d, const std::string& n = "arr") { init(n, a, b, c, d); }                            \
    CLS(size_t a, size_t b, size_t c, size_t d, size_t e, const std::string& n = "arr") { init(n, a, b, c, d, e); }

template <class T>
struct CArray : Shape<T> {
    std::shared_ptr<T> h_;
    T* p_ = nullptr;
    MP_CTORS(CArray)
    template <class... I> void init(const std::string&, I... i) {
        this->shape(i...);
        p_ = new T[this->length_];
        if constexpr (std::is_trivially_default_constructible<T>::value) memset((void*)p_, 0x7f, this->length_ * sizeof(T));
        h_ = std::shared_ptr<T>(p_, [](T* q) { delete[] q; });
    }
    template <class... I> T& operator()(I... i) const { return p_[cindex(this->dims_, this->order_, nullptr, "CArray", i...)]; }
    T* pointer() const { return p_; }
    void set_values(T v) const { for (size_t i = 0; i < this->length_; i++) p_[i] = v; }
};
template <class T>
struct CMatrix : Shape<T> {
    std::shared_ptr<T> h_;
    T* p_ = nullptr;
    MP_CTORS(CMatrix)
    template <class... I> void init(const std::string&, I... i) { this->shape(i...); p_ = new T[this->length_]; h_ = std::shared_ptr<T>(p_, [](T* q) { delete[] q; }); }
    template <class... I> T& operator()(I... i) const { return p_[cindex<1>(this->dims_, this->order_, nullptr, "CMatrix", i...)]; }
    T* pointer() const { return p_; }
};
template <class T>
struct CArrayKokkos : Shape<T> {
    Ref<T> r_;
    T* p_ = nullptr;
    MP_CTORS(CArrayKokkos)
    template <class... I> void init(const std::string& n, I... i) { this->shape(i...); p_ = r_.make(this->length_, 1, n, true); }
    template <class... I> T& operator()(I... i) const { return p_[cindex(this->dims_, this->order_, r_.b ? &r_.b->name : nullptr, "CArrayKokkos", i...)]; }
    T* pointer() const { return p_; }
    void set_values(T v) const { T* p = p_; mpsim::run1("set_values", 0, 0, (long)this->length_, [=](int i) { p[i] = v; }); }
};
template <class T, bool F>
struct Dual : Shape<T> {
    Ref<T> r_, rh_;
    T *p_ = nullptr, *hp_ = nullptr;
    ViewCArray<T> host;
    template <class... I> void init(const std::string& n, I... i) {
        this->shape(i...);
        p_ = r_.make(this->length_, 1, n, true);
        if (mpsim::g_split) hp_ = rh_.make(this->length_, 0, n, true);
        else hp_ = p_;
        host = ViewCArray<T>(hp_, i...);
    }
    template <class... I> T& operator()(I... i) const {
        const std::string* nm = r_.b ? &r_.b->name : nullptr;
        return p_[F ? findex(this->dims_, this->order_, nm, "DFArrayKokkos", i...) : cindex(this->dims_, this->order_, nm, "DCArrayKokkos", i...)];
    }
    T* pointer() const { return p_; }
    T* device_pointer() const { return p_; }
    T* host_pointer() const { return hp_; }
    void set_values(T v) const { T* p = p_; mpsim::run1("set_values", 0, 0, (long)this->length_, [=](int i) { p[i] = v; }); }
    void update_host() const { if (r_.b) { transfer(hp_, p_, this->length_); mpsim::copied(r_.b->name.c_str(), true); } }
    void update_device() const { if (r_.b) { transfer(p_, hp_, this->length_); mpsim::copied(r_.b->name.c_str(), false); } }
};
template <class T> struct DCArrayKokkos : Dual<T, false> { using Dual<T, false>::init; MP_CTORS(DCArrayKokkos) };
template <class T> struct DFArrayKokkos : Dual<T, true> { using Dual<T, true>::init; MP_CTORS(DFArrayKokkos) };

// Fortran-order and 1-based types
template <class T>
struct ViewFMatrix : Shape<T> {
    T* p_ = nullptr;
    ViewFMatrix() {}
    template <class... I> explicit ViewFMatrix(T* p, I... i) : p_(p) { this->shape(i...); }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, nullptr, "view", ((size_t)i - 1)...)]; }
    size_t dims(size_t i) const { return this->dims_[i - 1]; }
    T* pointer() const { return p_; }
    void set_values(T v) const { for (size_t i = 0; i < this->length_; i++) p_[i] = v; }
};
template <class T> struct ViewFMatrixKokkos : ViewFMatrix<T> { using ViewFMatrix<T>::ViewFMatrix; };
template <class T>
struct ViewFArray : Shape<T> {
    T* p_ = nullptr;
    ViewFArray() {}
    template <class... I> explicit ViewFArray(T* p, I... i) : p_(p) { this->shape(i...); }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, nullptr, "view", i...)]; }
    T* pointer() const { return p_; }
};
template <class T> struct ViewFArrayKokkos : ViewFArray<T> { using ViewFArray<T>::ViewFArray; };
template <class T>
struct ViewCMatrix : Shape<T> {
    T* p_ = nullptr;
    ViewCMatrix() {}
    template <class... I> explicit ViewCMatrix(T* p, I... i) : p_(p) { this->shape(i...); }
    template <class... I> T& operator()(I... i) const { return p_[cindex<1>(this->dims_, this->order_, nullptr, "view", i...)]; }
    size_t dims(size_t i) const { return this->dims_[i - 1]; }
    T* pointer() const { return p_; }
};
template <class T> struct ViewCMatrixKokkos : ViewCMatrix<T> { using ViewCMatrix<T>::ViewCMatrix; };
template <class T>
struct FArray : Shape<T> {
    std::shared_ptr<T> h_;
    T* p_ = nullptr;
    MP_CTORS(FArray)
    template <class... I> void init(const std::string&, I... i) { this->shape(i...); p_ = new T[this->length_]; h_ = std::shared_ptr<T>(p_, [](T* q) { delete[] q; }); }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, nullptr, "FArray", i...)]; }
    T* pointer() const { return p_; }
    void set_values(T v) const { for (size_t i = 0; i < this->length_; i++) p_[i] = v; }
};
#define MP_FCTORS(CLS)                                                                                                            \
    MP_CTORS(CLS)                                                                                                                 \
    CLS(size_t a, size_t b, size_t c, size_t d, size_t e, size_t f, const std::string& n = "arr") { init(n, a, b, c, d, e, f); }  \
    CLS(size_t a, size_t b, size_t c, size_t d, size_t e, size_t f, size_t g, const std::string& n = "arr") { init(n, a, b, c, d, e, f, g); }
template <class T>
struct FMatrix : Shape<T> {  // host memory, also of interest to the access oracle
    Ref<T> r_;
    T* p_ = nullptr;
    MP_FCTORS(FMatrix)
    template <class... I> void init(const std::string& n, I... i) { this->shape(i...); p_ = r_.make(this->length_, 0, n, false); }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, nullptr, "FMatrix", ((size_t)i - 1)...)]; }
    size_t dims(size_t i) const { return this->dims_[i - 1]; }
    T* pointer() const { return p_; }
    void set_values(T v) const { for (size_t i = 0; i < this->length_; i++) p_[i] = v; }
};
template <class T>
struct FMatrixKokkos : Shape<T> {
    Ref<T> r_;
    T* p_ = nullptr;
    MP_FCTORS(FMatrixKokkos)
    template <class... I> void init(const std::string& n, I... i) { this->shape(i...); p_ = r_.make(this->length_, 1, n, true); }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, r_.b ? &r_.b->name : nullptr, "FMatrixKokkos", ((size_t)i - 1)...)]; }
    size_t dims(size_t i) const { return this->dims_[i - 1]; }
    T* pointer() const { return p_; }
    void set_values(T v) const { T* p = p_; mpsim::run1("set_values", 0, 0, (long)this->length_, [=](int i) { p[i] = v; }); }
};
template <class T>
struct DFMatrixKokkos : Shape<T> {
    Ref<T> r_, rh_;
    T *p_ = nullptr, *hp_ = nullptr;
    ViewFMatrix<T> host;
    MP_FCTORS(DFMatrixKokkos)
    template <class... I> void init(const std::string& n, I... i) {
        this->shape(i...);
        p_ = r_.make(this->length_, 1, n, true);
        hp_ = mpsim::g_split ? rh_.make(this->length_, 0, n, true) : p_;
        host = ViewFMatrix<T>(hp_, i...);
    }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, r_.b ? &r_.b->name : nullptr, "DFMatrixKokkos", ((size_t)i - 1)...)]; }
    size_t dims(size_t i) const { return this->dims_[i - 1]; }
    T* pointer() const { return p_; }
    T* device_pointer() const { return p_; }
    T* host_pointer() const { return hp_; }
    void set_values(T v) const { T* p = p_; mpsim::run1("set_values", 0, 0, (long)this->length_, [=](int i) { p[i] = v; }); }
    void update_host() const { if (r_.b) { transfer(hp_, p_, this->length_); mpsim::copied(r_.b->name.c_str(), true); } }
    void update_device() const { if (r_.b) { transfer(p_, hp_, this->length_); mpsim::copied(r_.b->name.c_str(), false); } }
};
// wraps host memory with a device copy made at construction
template <class T>
struct DViewFMatrixKokkos : Shape<T> {
    Ref<T> r_;
    T *p_ = nullptr, *hp_ = nullptr;
    DViewFMatrixKokkos() {}
    template <class... I> explicit DViewFMatrixKokkos(T* h, I... i) : hp_(h) {
        this->shape(i...);
        if (mpsim::g_split) {
            p_ = r_.make(this->length_, 1, "DView", true);
            transfer(p_, hp_, this->length_);
        } else
            p_ = hp_;
    }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, r_.b ? &r_.b->name : nullptr, "DViewFMatrixKokkos", ((size_t)i - 1)...)]; }
    size_t dims(size_t i) const { return this->dims_[i - 1]; }
    void update_host() const { if (r_.b) transfer(hp_, p_, this->length_); }
    void update_device() const { if (r_.b) transfer(p_, hp_, this->length_); }
};
template <class T>
struct CMatrixKokkos : Shape<T> {
    Ref<T> r_;
    T* p_ = nullptr;
    MP_CTORS(CMatrixKokkos)
    template <class... I> void init(const std::string& n, I... i) { this->shape(i...); p_ = r_.make(this->length_, 1, n, true); }
    template <class... I> T& operator()(I... i) const { return p_[cindex<1>(this->dims_, this->order_, r_.b ? &r_.b->name : nullptr, "CMatrixKokkos", i...)]; }
    T* pointer() const { return p_; }
};
template <class T>
struct FArrayKokkos : Shape<T> {
    Ref<T> r_;
    T* p_ = nullptr;
    MP_CTORS(FArrayKokkos)
    template <class... I> void init(const std::string& n, I... i) { this->shape(i...); p_ = r_.make(this->length_, 1, n, true); }
    template <class... I> T& operator()(I... i) const { return p_[findex(this->dims_, this->order_, r_.b ? &r_.b->name : nullptr, "FArrayKokkos", i...)]; }
    T* pointer() const { return p_; }
};

// ragged: row starts and strides live on the device (and a host image for the host view)
struct RaggedIndex {
    Ref<size_t> rs_, rsh_, rd_;
    size_t *start_ = nullptr, *hstart_ = nullptr, *dyn_ = nullptr;
    size_t rows_ = 0, e1_ = 1, e2_ = 1, rank_ = 2, length_ = 0;
    void build(const size_t* strides, size_t rows, size_t e1, size_t e2, size_t rank, const std::string& n) {
        mpsim::Quiet quiet;
        rows_ = rows; e1_ = e1; e2_ = e2; rank_ = rank;
        start_ = rs_.make(rows + 1, 1, n + ".start", true);
        if (mpsim::g_split) hstart_ = rsh_.make(rows + 1, 0, n + ".start", true);
        else hstart_ = start_;
        std::vector<size_t> s(rows + 1, 0);
        for (size_t i = 0; i < rows; i++) s[i + 1] = s[i] + strides[i];
        memcpy(start_, s.data(), (rows + 1) * sizeof(size_t));
        memcpy(hstart_, s.data(), (rows + 1) * sizeof(size_t));
        length_ = s[rows] * e1 * e2;
    }
    size_t at(const size_t* start, const std::string* nm, size_t rank, size_t i, size_t j, size_t k, size_t l) const {
        static const std::string none;
        if (__builtin_expect(rank != rank_, 0)) mpsim::oob("Ragged", nm ? *nm : none, "rank", rank, rank_);
        if (__builtin_expect(i >= rows_, 0)) mpsim::oob("Ragged", nm ? *nm : none, "row", i, rows_);
        size_t a = start[i], b = start[i + 1];
        if (__builtin_expect(j >= b - a, 0)) mpsim::oob("Ragged", nm ? *nm : none, "column", j, b - a);
        if (__builtin_expect(k >= e1_, 0)) mpsim::oob("Ragged", nm ? *nm : none, "index2", k, e1_);
        if (__builtin_expect(l >= e2_, 0)) mpsim::oob("Ragged", nm ? *nm : none, "index3", l, e2_);
        return ((a + j) * e1_ + k) * e2_ + l;
    }
};
template <class T>
struct RaggedHost {
    T* p_ = nullptr;
    const RaggedIndex* own_ = nullptr;
    RaggedIndex ix_;
    T& operator()(size_t i, size_t j) const { return p_[ix_.at(ix_.hstart_, nullptr, 2, i, j, 0, 0)]; }
    T& operator()(size_t i, size_t j, size_t k) const { return p_[ix_.at(ix_.hstart_, nullptr, 3, i, j, k, 0)]; }
    T& operator()(size_t i, size_t j, size_t k, size_t l) const { return p_[ix_.at(ix_.hstart_, nullptr, 4, i, j, k, l)]; }
    T* pointer() const { return p_; }
    size_t stride(size_t i) const { return ix_.hstart_[i + 1] - ix_.hstart_[i]; }
};
template <class T, bool DUAL>
struct RaggedBase {
    Ref<T> r_, rh_;
    T *p_ = nullptr, *hp_ = nullptr;
    RaggedIndex ix_;
    RaggedHost<T> host;
    void init(const size_t* s, size_t rows, size_t e1, size_t e2, size_t rank, const std::string& n) {
        ix_.build(s, rows, e1, e2, rank, n);
        p_ = r_.make(ix_.length_, 1, n, true);
        if (DUAL) {
            hp_ = mpsim::g_split ? rh_.make(ix_.length_, 0, n, true) : p_;
            host.p_ = hp_;
            host.ix_ = ix_;
        }
    }
    const std::string* nm() const { return r_.b ? &r_.b->name : nullptr; }
    T& operator()(size_t i, size_t j) const { return p_[ix_.at(ix_.start_, nm(), 2, i, j, 0, 0)]; }
    T& operator()(size_t i, size_t j, size_t k) const { return p_[ix_.at(ix_.start_, nm(), 3, i, j, k, 0)]; }
    T& operator()(size_t i, size_t j, size_t k, size_t l) const { return p_[ix_.at(ix_.start_, nm(), 4, i, j, k, l)]; }
    size_t stride(size_t i) const { return ix_.start_[i + 1] - ix_.start_[i]; }
    size_t stride_host(size_t i) const { return ix_.hstart_[i + 1] - ix_.hstart_[i]; }
    size_t size() const { return ix_.length_; }
    size_t dims(size_t i) const { return i == 0 ? ix_.rows_ : i == 2 ? ix_.e1_ : ix_.e2_; }
    T* pointer() const { return p_; }
    void set_values(T v) const { T* p = p_; mpsim::run1("set_values", 0, 0, (long)ix_.length_, [=](int i) { p[i] = v; }); }
    void update_host() const { if (DUAL && r_.b) { transfer(hp_, p_, ix_.length_); mpsim::copied(r_.b->name.c_str(), true); } }
    void update_device() const { if (DUAL && r_.b) { transfer(p_, hp_, ix_.length_); mpsim::copied(r_.b->name.c_str(), false); } }
};
#define MP_RAGGED(CLS)                                                                                                                                    \
    CLS() {}                                                                                                                                              \
    template <class S> CLS(const S& s, const std::string& n = "ragged") { this->init(s.pointer(), s.size(), 1, 1, 2, n); }                              \
    template <class S> CLS(const S& s, size_t a, const std::string& n = "ragged") { this->init(s.pointer(), s.size(), a, 1, 3, n); }                    \
    template <class S> CLS(const S& s, size_t a, size_t b, const std::string& n = "ragged") { this->init(s.pointer(), s.size(), a, b, 4, n); }          \
    CLS(size_t* s, size_t rows, const std::string& n = "ragged") { this->init(s, rows, 1, 1, 2, n); }
template <class T> struct RaggedRightArrayKokkos : RaggedBase<T, false> { MP_RAGGED(RaggedRightArrayKokkos) };
template <class T> struct DRaggedRightArrayKokkos : RaggedBase<T, true> { MP_RAGGED(DRaggedRightArrayKokkos) };

template <class T>
struct DynamicRaggedRightArrayKokkos {
    Ref<T> r_;
    Ref<size_t> rs_;
    T* p_ = nullptr;
    size_t *s_ = nullptr, d1_ = 0, d2_ = 0;
    DynamicRaggedRightArrayKokkos() {}
    DynamicRaggedRightArrayKokkos(size_t a, size_t b, const std::string& n = "dyn") : d1_(a), d2_(b) { p_ = r_.make(a * b, 1, n, true); s_ = rs_.make(a, 1, n + ".stride", true); }
    size_t& stride(size_t i) const { if (i >= d1_) mpsim::oob("DynamicRagged", r_.b->name, "row", i, d1_); return s_[i]; }
    T& operator()(size_t i, size_t j) const {
        if (i >= d1_) mpsim::oob("DynamicRagged", r_.b->name, "row", i, d1_);
        if (j >= d2_) mpsim::oob("DynamicRagged", r_.b->name, "column", j, d2_);
        return p_[i * d2_ + j];
    }
    size_t size() const { return d1_ * d2_; }
    size_t dims(size_t i) const { return i ? d2_ : d1_; }
    void set_values(T v) const { T* p = p_; mpsim::run1("set_values", 0, 0, (long)(d1_ * d2_), [=](int i) { p[i] = v; }); }
};
}  // namespace mtr
using namespace mtr;
