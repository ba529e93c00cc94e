// heFFTe on the simulated machine: the box geometry of heFFTe, and transforms computed once per
// collective call from the pieces of all ranks.
#pragma once
#include <mpi.h>
#include <array>
#include <cmath>
#include <complex>
#include <stdexcept>
#include <vector>
namespace mpirt {
void fft_r2c(MPI_Comm c, const int* in_low, const int* in_high, const int* out_low, const int* out_high, int dir, const double* in, std::complex<double>* out, bool forward, bool scale, double* back, const std::complex<double>* cin);
}
namespace heffte {
namespace backend { struct fftw {}; struct stock {}; }
enum class scale { none, full, symmetric };
enum class reshape_algorithm { alltoallv = 0, alltoall = 3, p2p_plined = 1, p2p = 2 };
struct plan_options { bool use_reorder = true; reshape_algorithm algorithm = reshape_algorithm::alltoallv; bool use_pencils = true; bool use_gpu_aware = true; };
template <class B> plan_options default_options() { return plan_options(); }
namespace mpi {
inline int comm_rank(MPI_Comm c) { int r; MPI_Comm_rank(c, &r); return r; }
inline int comm_size(MPI_Comm c) { int r; MPI_Comm_size(c, &r); return r; }
}
template <class I = int> struct box3d {
    std::array<I, 3> low, high, size;
    box3d(std::array<I, 3> l, std::array<I, 3> h) : low(l), high(h), size({h[0] - l[0] + 1, h[1] - l[1] + 1, h[2] - l[2] + 1}) {}
    bool empty() const { return size[0] <= 0 || size[1] <= 0 || size[2] <= 0; }
    long long count() const { return empty() ? 0 : (long long)size[0] * size[1] * size[2]; }
    box3d r2c(int dim) const { auto h = high; h[dim] = low[dim] + size[dim] / 2; return box3d(low, h); }
    bool operator==(const box3d& o) const { return low == o.low && high == o.high; }
    bool operator!=(const box3d& o) const { return !(*this == o); }
};
template <class I> inline std::array<int, 3> proc_setup_min_surface(const box3d<I>& w, int n) {
    std::array<I, 3> all = w.size;
    auto surface = [&](const std::array<int, 3>& p) {
        std::array<I, 3> b = {all[0] / p[0], all[1] / p[1], all[2] / p[2]};
        return b[0] * b[1] + b[1] * b[2] + b[2] * b[0];
    };
    std::array<int, 3> best = {1, 1, n};
    I bs = surface(best);
    for (int i = 1; i <= n; i++) {
        if (n % i) continue;
        int m = n / i;
        for (int j = 1; j <= m; j++) {
            if (m % j) continue;
            std::array<int, 3> c = {i, j, m / j};
            I s = surface(c);
            if (s < bs) { bs = s; best = c; }
        }
    }
    return best;
}
template <class I> inline std::vector<box3d<I>> split_world(const box3d<I>& w, const std::array<int, 3>& g) {
    auto at = [&](int d, int i) { return w.low[d] + i * (w.size[d] / g[d]) + std::min<I>(i, w.size[d] % g[d]); };
    std::vector<box3d<I>> r;
    for (int k = 0; k < g[2]; k++)
        for (int j = 0; j < g[1]; j++)
            for (int i = 0; i < g[0]; i++)
                r.push_back(box3d<I>({at(0, i), at(1, j), at(2, k)}, {at(0, i + 1) - 1, at(1, j + 1) - 1, at(2, k + 1) - 1}));
    return r;
}
template <class B, class I = int> struct fft3d_base {
    template <class T> using buffer_container = std::vector<T>;
};
template <class B, class I = int> struct fft3d_r2c : fft3d_base<B, I> {
    box3d<I> in, out;
    int dir;
    MPI_Comm c;
    fft3d_r2c(const box3d<I>& a, const box3d<I>& b, int d, MPI_Comm comm, plan_options = plan_options()) : in(a), out(b), dir(d), c(comm) {}
    size_t size_workspace() const { return (size_t)(in.count() + out.count()); }
    size_t size_inbox() const { return (size_t)in.count(); }
    size_t size_outbox() const { return (size_t)out.count(); }
    void forward(const double* x, std::complex<double>* y, std::complex<double>* = nullptr, scale s = scale::none) const {
        mpirt::fft_r2c(c, in.low.data(), in.high.data(), out.low.data(), out.high.data(), dir, x, y, true, s == scale::full, nullptr, nullptr);
    }
    void backward(const std::complex<double>* x, double* y, std::complex<double>* = nullptr, scale s = scale::none) const {
        mpirt::fft_r2c(c, in.low.data(), in.high.data(), out.low.data(), out.high.data(), dir, nullptr, nullptr, false, s == scale::full, y, x);
    }
    template <class T> void forward(const float*, T*, std::complex<float>* = nullptr, scale = scale::none) const { throw std::runtime_error("single precision"); }
};
template <class B, class I = int> struct fft3d : fft3d_base<B, I> {
    fft3d(const box3d<I>&, const box3d<I>&, MPI_Comm, plan_options = plan_options()) {}
    size_t size_workspace() const { return 1; }
    template <class X, class Y, class W> void forward(const X*, Y*, W*, scale = scale::none) const { throw std::runtime_error("complex transform"); }
    template <class X, class Y, class W> void backward(const X*, Y*, W*, scale = scale::none) const { throw std::runtime_error("complex transform"); }
};
}  // namespace heffte
