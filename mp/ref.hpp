// Independent geometry for the reference checks.
#pragma once
#include <array>
#include <cmath>
#include <vector>
#include "mp_sut.hpp"

namespace ref {
// Volume of a trilinear hexahedron whose nodes are in i-fastest order, by 3x3x3 Gauss points (exact).
inline double vol3(const mp::Arr& x, const std::vector<size_t>& e) {
    static const double g[3] = {-std::sqrt(0.6), 0, std::sqrt(0.6)}, w[3] = {5. / 9, 8. / 9, 5. / 9};
    double V = 0;
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) {
        double J[3][3] = {{0}};
        for (int n = 0; n < 8; n++) {
            double s[3] = {n & 1 ? 1. : -1., n & 2 ? 1. : -1., n & 4 ? 1. : -1.}, p[3] = {1 + s[0] * g[a], 1 + s[1] * g[b], 1 + s[2] * g[c]};
            double dN[3] = {s[0] * p[1] * p[2] / 8, p[0] * s[1] * p[2] / 8, p[0] * p[1] * s[2] / 8};
            for (int d = 0; d < 3; d++) for (int q = 0; q < 3; q++) J[d][q] += dN[q] * x(e[(size_t)n], (size_t)d);
        }
        double det = J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
        V += w[a] * w[b] * w[c] * det;
    }
    return V;
}
// Volume per radian of a counter-clockwise polygon revolved around the x axis.
inline double vol_rz(const mp::Arr& x, const std::vector<size_t>& e) {
    double v = 0;
    for (size_t a = 0; a < e.size(); a++) {
        size_t p = e[a], q = e[(a + 1) % e.size()];
        v += (x(p, 0) * x(q, 1) - x(q, 0) * x(p, 1)) * (x(p, 1) + x(q, 1)) / 6;
    }
    return v;
}
// Volume (area in 2D) and its derivative by each node's position: the outward corner areas.
inline double corners(const mp::Arr& x, const std::vector<size_t>& e, size_t D, std::vector<double>& b) {
    size_t K = e.size();
    b.assign(K * D, 0);
    double V = 0;
    if (D == 2) {
        for (size_t k = 0; k < 4; k++) {
            size_t n = e[(k + 1) % 4], l = e[(k + 3) % 4], i = e[k];
            V += 0.5 * (x(i, 0) * x(n, 1) - x(n, 0) * x(i, 1));
            b[k * 2] = 0.5 * (x(n, 1) - x(l, 1));
            b[k * 2 + 1] = 0.5 * (x(l, 0) - x(n, 0));
        }
        return V;
    }
    static const double g[3] = {-std::sqrt(0.6), 0, std::sqrt(0.6)}, w[3] = {5. / 9, 8. / 9, 5. / 9};
    for (int A = 0; A < 3; A++) for (int B = 0; B < 3; B++) for (int C = 0; C < 3; C++) {
        double J[3][3] = {{0}}, dN[8][3], W = w[A] * w[B] * w[C], cof[3][3];
        for (int n = 0; n < 8; n++) {
            double s[3] = {n & 1 ? 1. : -1., n & 2 ? 1. : -1., n & 4 ? 1. : -1.}, t[3] = {1 + s[0] * g[A], 1 + s[1] * g[B], 1 + s[2] * g[C]};
            dN[n][0] = s[0] * t[1] * t[2] / 8; dN[n][1] = t[0] * s[1] * t[2] / 8; dN[n][2] = t[0] * t[1] * s[2] / 8;
            for (int d = 0; d < 3; d++) for (int c = 0; c < 3; c++) J[d][c] += dN[n][c] * x(e[(size_t)n], (size_t)d);
        }
        for (int d = 0; d < 3; d++) for (int c = 0; c < 3; c++) { int d1 = (d + 1) % 3, d2 = (d + 2) % 3, c1 = (c + 1) % 3, c2 = (c + 2) % 3; cof[d][c] = J[d1][c1] * J[d2][c2] - J[d1][c2] * J[d2][c1]; }
        V += W * (J[0][0] * cof[0][0] + J[0][1] * cof[0][1] + J[0][2] * cof[0][2]);
        for (int n = 0; n < 8; n++) for (int d = 0; d < 3; d++) b[(size_t)n * 3 + (size_t)d] += W * (dN[n][0] * cof[d][0] + dN[n][1] * cof[d][1] + dN[n][2] * cof[d][2]);
    }
    return V;
}
}  // namespace ref
