// Reference model of the small-strain elasto-viscoplastic spectral method: the whole run, written
// down from the formulation in plain arrays (one process, direct transform, closed-form rotations).
#pragma once
#include <complex>
#include "esc.hpp"

namespace ref {
using esc::Prob; using esc::Phase;
typedef std::array<double, 9> M3;      // row major
typedef std::array<double, 6> V6;      // 11 22 33 sqrt2*23 sqrt2*13 sqrt2*12
struct M6 { double a[6][6]; };
static const int VI[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
static const int VO[3][3] = {{0, 5, 4}, {5, 1, 3}, {4, 3, 2}};
static const double R2 = 1.4142135623730951;
inline V6 to6(const M3& m) { V6 v; for (int k = 0; k < 6; k++) { int i = VI[k][0], j = VI[k][1]; v[k] = k < 3 ? m[4 * k] : (m[3 * i + j] + m[3 * j + i]) / R2; } return v; }
inline M3 to9(const V6& v) { M3 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[3 * i + j] = i == j ? v[i] : v[VO[i][j]] / R2; return m; }
template <int N> inline bool solve(const double (&A0)[N][N], double (&X)[N][N]) {       // inverse, partial pivoting
    double A[N][2 * N];
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { A[i][j] = A0[i][j]; A[i][N + j] = i == j; }
    for (int c = 0; c < N; c++) {
        int p = c; for (int r = c + 1; r < N; r++) if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r;
        if (A[p][c] == 0) return false;
        for (int k = 0; k < 2 * N; k++) std::swap(A[p][k], A[c][k]);
        double q = 1 / A[c][c];
        for (int k = 0; k < 2 * N; k++) A[c][k] *= q;
        for (int r = 0; r < N; r++) if (r != c) { double f = A[r][c]; if (f) for (int k = 0; k < 2 * N; k++) A[r][k] -= f * A[c][k]; }
    }
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) X[i][j] = A[i][N + j];
    return true;
}
inline V6 mul(const M6& m, const V6& v) { V6 r; for (int i = 0; i < 6; i++) { r[i] = 0; for (int j = 0; j < 6; j++) r[i] += m.a[i][j] * v[j]; } return r; }
inline double comp(const M6& m, int i, int j, int k, int l) { int a = VO[i][j], b = VO[k][l]; return m.a[a][b] / ((a > 2 ? R2 : 1) * (b > 2 ? R2 : 1)); }
inline double vm_strain(const M3& d) { double t = (d[0] + d[4] + d[8]) / 3, s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = (d[3 * i + j] + d[3 * j + i]) / 2 - (i == j ? t : 0); s += x * x; } return std::sqrt(2.0 / 3 * s); }
inline double vm_stress(const M3& d) { double t = (d[0] + d[4] + d[8]) / 3, s = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = (d[3 * i + j] + d[3 * j + i]) / 2 - (i == j ? t : 0); s += x * x; } return std::sqrt(1.5 * s); }
inline M3 bunge(double p1, double P, double p2) {      // sample -> crystal
    p1 *= M_PI / 180; P *= M_PI / 180; p2 *= M_PI / 180;
    double c1 = cos(p1), s1 = sin(p1), c2 = cos(p2), s2 = sin(p2), C = cos(P), S = sin(P);
    return {c1 * c2 - s1 * s2 * C, s1 * c2 + c1 * s2 * C, s2 * S, -c1 * s2 - s1 * c2 * C, -s1 * s2 + c1 * c2 * C, c2 * S, s1 * S, -c1 * S, C};
}
struct System { double n[3], b[3], tau_f, tau_b, tau1, th0, th1, gam0; int nrs, mode; };
struct Crystal { bool gas; std::vector<System> sys; std::vector<std::vector<double>> hard; double C[3][3][3][3]; };
inline Crystal crystal(const Phase& f) {
    Crystal c;
    c.gas = f.gas;
    if (c.gas) return c;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) c.C[i][j][k][l] = f.C[VO[i][j]][VO[k][l]];
    bool hex = f.cry[0] == 'H' || f.cry[0] == 'h';
    double ca = f.cdim[2] / f.cdim[0];
    for (auto& m : f.modes) {
        if (std::find(f.used.begin(), f.used.end(), m.label) == f.used.end()) continue;
        for (auto& s : m.sys) {
            System q;
            double n[3], b[3];
            if (hex) {
                n[0] = s[0]; n[1] = (s[0] + 2.0 * s[1]) / std::sqrt(3.0); n[2] = s[3] / ca;
                b[0] = 1.5 * s[4]; b[1] = (s[4] / 2.0 + s[5]) * std::sqrt(3.0); b[2] = s[7] * ca;
            } else for (int k = 0; k < 3; k++) { n[k] = s[k] / f.cdim[k]; b[k] = s[3 + k] * f.cdim[k]; }
            double ln = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), lb = std::sqrt(b[0] * b[0] + b[1] * b[1] + b[2] * b[2]);
            for (int k = 0; k < 3; k++) { q.n[k] = n[k] / ln; q.b[k] = b[k] / lb; if (std::fabs(q.n[k]) < 1e-3) q.n[k] = 0; if (std::fabs(q.b[k]) < 1e-3) q.b[k] = 0; }
            q.tau_f = m.tau0f; q.tau_b = m.tau0b; q.tau1 = m.tau1; q.th0 = m.thet0; q.th1 = m.thet1;
            if (q.tau1 <= 1e-6) { q.tau1 = 1e-6; q.th0 = q.th1; }       // linear hardening
            q.gam0 = m.gamd0; q.nrs = m.nrs; q.mode = m.label;
            c.sys.push_back(q);
        }
    }
    auto mode = [&](int l) -> const esc::Mode& { for (auto& m : f.modes) if (m.label == l) return m; return f.modes[0]; };
    for (size_t i = 0; i < c.sys.size(); i++) { c.hard.emplace_back(); for (size_t j = 0; j < c.sys.size(); j++) c.hard[i].push_back(i == j ? mode(c.sys[i].mode).hself : mode(c.sys[i].mode).hlat[(size_t)c.sys[j].mode - 1]); }
    return c;
}
inline M6 rotated(const Crystal& c, const M3& ag) {      // ag: crystal -> sample
    double T[3][3][3][3], U[3][3][3][3];
    memcpy(T, c.C, sizeof T);
    for (int w = 0; w < 4; w++) {
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) {
            double s = 0;
            for (int q = 0; q < 3; q++) s += w == 0 ? ag[3 * i + q] * T[q][j][k][l] : w == 1 ? ag[3 * j + q] * T[i][q][k][l] : w == 2 ? ag[3 * k + q] * T[i][j][q][l] : ag[3 * l + q] * T[i][j][k][q];
            U[i][j][k][l] = s;
        }
        memcpy(T, U, sizeof T);
    }
    M6 m;
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) m.a[a][b] = T[VI[a][0]][VI[a][1]][VI[b][0]][VI[b][1]] * (a > 2 ? R2 : 1) * (b > 2 ? R2 : 1);
    return m;
}
inline M3 rotvec_apply(const M3& w, const M3& a) {        // exp(w) a for a skew w
    double v[3] = {w[7], w[2], w[3]};
    double th = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
    M3 R{1, 0, 0, 0, 1, 0, 0, 0, 1};
    if (th > 0) {
        double s = std::sin(th) / th, c = (1 - std::cos(th)) / (th * th);
        if (th < 1e-4) { s = 1 - th * th / 6; c = 0.5 - th * th / 24; }
        M3 K{0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0};
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double k2 = 0; for (int q = 0; q < 3; q++) k2 += K[3 * i + q] * K[3 * q + j]; R[3 * i + j] += s * K[3 * i + j] + c * k2; }
    }
    M3 r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[3 * i + j] = 0; for (int q = 0; q < 3; q++) r[3 * i + j] += R[3 * i + q] * a[3 * q + j]; }
    return r;
}
// direct transform along one axis after the other, all nine components
typedef std::vector<std::complex<double>> CF;
inline void dft(CF& f, const int* n, int sign) {
    size_t st[3] = {1, (size_t)n[0], (size_t)n[0] * n[1]}, tot = st[2] * n[2];
    for (int ax = 0; ax < 3; ax++) {
        int m = n[ax];
        if (m == 1) continue;
        std::vector<std::complex<double>> w((size_t)m), t((size_t)m);
        for (int k = 0; k < m; k++) w[k] = std::polar(1.0, sign * 2 * M_PI * k / m);
        for (size_t c = 0; c < tot; c++) {
            if (c / st[ax] % (size_t)m) continue;
            for (int k = 0; k < m; k++) { std::complex<double> s = 0; for (int j = 0; j < m; j++) s += f[c + st[ax] * j] * w[(size_t)((long)k * j % m)]; t[k] = s; }
            for (int k = 0; k < m; k++) f[c + st[ax] * k] = t[k];
        }
    }
}
struct Step {
    M3 E, S, EP, V, VP;
    double evm, evmp, dvm, dvmp, svm, svm1;
    std::vector<M3> strain, stress, plrate, elstrain, ag;
    std::vector<std::array<double, 5>> err;      // iteration, erre, errs, svm, mean Newton iterations
};
struct Model {
    std::vector<Step> steps;
    bool loose = false;        // the count of local iterations is not predicted exactly
    bool tainted = false;      // a decision of the iteration was too close to call: later steps are not predicted
    std::string why;
    long newton = 0;
};
inline void harden(const Crystal& c, const std::vector<double>& gd, double dt, double& gac, std::vector<std::array<double, 2>>& crss) {
    double dgam = 0;
    for (double g : gd) dgam += std::fabs(g) * dt;
    if (!(dgam > 0)) return;
    for (size_t q = 0; q < c.sys.size(); q++) {
        double h = 0;
        for (size_t r = 0; r < c.sys.size(); r++) h += c.hard[q][r] * std::fabs(gd[r]) * dt;
        auto& z = c.sys[q];
        // increase of tau1 + ... : integral of the Voce curve tau(G) = tau0 + (tau1 + th1 G)(1 - exp(-G th0/tau1)) from G to G + dgam
        double tiny = 1e-4 * z.tau_f, inc = 0;
        if (std::fabs(z.th0) > tiny) {
            inc = z.th1 * dgam;
            if (std::fabs(z.tau1) > tiny) {
                double f = std::fabs(z.th0 / z.tau1), G0 = gac, G1 = G0 + dgam;
                inc = (z.tau1 + z.th1 * G1) * -std::expm1(-G1 * f) - (z.tau1 + z.th1 * G0) * -std::expm1(-G0 * f);
            }
        }
        crss[q][0] += h * inc / dgam; crss[q][1] += h * inc / dgam;
    }
    gac += dgam;
}
// Inverse pole figure colour of the sample's z axis in the standard triangle of a cubic crystal (red 001, green 101, blue 111); ag takes crystal to sample.
inline std::array<double, 3> ipf(const M3& ag) {
    double d[3] = {std::fabs(ag[6]), std::fabs(ag[7]), std::fabs(ag[8])};
    std::sort(d, d + 3);
    double phi = std::min(std::atan(1.0), std::acos(std::min(1.0, d[2]))), th = std::atan2(d[0], d[1]);
    double red = 1 - std::sin(1.6 * phi), green = (1 - red) * std::cos(2 * th), blue = (1 - red) * std::sin(2 * th), m = std::max(red, std::max(green, blue));
    return {255 * red / m, 255 * green / m, 255 * blue / m};
}
inline Model run(const Prob& p) {
    Model M;
    const size_t N = p.cells();
    const double wgt = 1.0 / (double)N;
    std::vector<Crystal> cr;
    for (auto& f : p.ph) cr.push_back(crystal(f));
    std::vector<M3> ag(N), dg(N), dg0(N), sg(N), ept(N), edp(N), velgrad(N);
    std::vector<M6> C(N), S(N);
    std::vector<std::vector<std::array<double, 2>>> crss(N);
    std::vector<std::vector<double>> gd(N);
    std::vector<std::vector<V6>> sch(N);
    std::vector<double> gac(N, 0.0);
    M6 c0, s0;
    memset(&c0, 0, sizeof c0);
    double w1 = 0;
    for (size_t v = 0; v < N; v++) {
        M3 R = bunge(p.eul[v][0], p.eul[v][1], p.eul[v][2]);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ag[v][3 * i + j] = R[3 * j + i];
        const Crystal& c = cr[(size_t)p.phase[v] - 1];
        dg[v].fill(0); ept[v].fill(0); edp[v].fill(0); sg[v].fill(0);
        if (p.phase[v] == 1) w1 += wgt;
        if (c.gas) continue;
        C[v] = rotated(c, ag[v]);
        solve<6>(C[v].a, S[v].a);
        for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) c0.a[a][b] += C[v].a[a][b] * wgt;
        for (auto& s : c.sys) crss[v].push_back({s.tau_f, s.tau_b});
        gd[v].assign(c.sys.size(), 0.0);
        sch[v].resize(c.sys.size());
    }
    solve<6>(c0.a, s0.a);
    M3 udot;
    for (int k = 0; k < 9; k++) udot[k] = p.udot[k];
    double dvm = vm_strain(udot), dt = p.ictrl == 0 ? p.dt / dvm : p.dt, evm = dvm * dt;
    M3 mac, mact{}, dmac{}, acc{};
    for (int k = 0; k < 9; k++) mac[k] = udot[k] * dt;
    for (size_t v = 0; v < N; v++) if (!cr[(size_t)p.phase[v] - 1].gas) sg[v] = to9(mul(C[v], to6(mac)));
    auto close_call = [&](double x, double lim, double rel) { return !(std::fabs(x - lim) > rel * lim); };
    const int* n = p.n;
    for (int step = 1; step <= p.nsteps; step++) {
        Step st;
        for (size_t v = 0; v < N; v++) { dg0[v] = dg[v]; for (int k = 0; k < 9; k++) dg[v][k] += udot[k] * dt; }
        if (step == 1 || p.iupdate) for (size_t v = 0; v < N; v++) {
            const Crystal& c = cr[(size_t)p.phase[v] - 1];
            for (size_t s = 0; s < sch[v].size(); s++) {
                double nn[3], bb[3];
                for (int i = 0; i < 3; i++) { nn[i] = bb[i] = 0; for (int q = 0; q < 3; q++) { nn[i] += ag[v][3 * i + q] * c.sys[s].n[q]; bb[i] += ag[v][3 * i + q] * c.sys[s].b[q]; } }
                M3 m; double tr = (nn[0] * bb[0] + nn[1] * bb[1] + nn[2] * bb[2]) / 3;
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[3 * i + j] = (nn[i] * bb[j] + nn[j] * bb[i]) / 2 - (i == j ? tr : 0);
                sch[v][s] = to6(m);
            }
        }
        dmac.fill(0); acc.fill(0);
        double erre = 2 * p.err, errs = 2 * p.err, svm = 0, svm1 = 0;
        M3 sav{};
        for (int it = 1; it <= p.itmax && (errs > p.err || erre > p.err); it++) {
            std::vector<CF> w(9, CF(N));
            for (int k = 0; k < 9; k++) { for (size_t v = 0; v < N; v++) w[k][v] = sg[v][k]; dft(w[k], n, -1); }
            for (size_t v = 0; v < N; v++) {
                int q[3] = {(int)(v % (size_t)n[0]), (int)(v / (size_t)n[0] % (size_t)n[1]), (int)(v / ((size_t)n[0] * n[1]))};
                std::complex<double> in[9], out[9];
                for (int k = 0; k < 9; k++) { in[k] = w[k][v]; out[k] = 0; }
                bool nyq = false;
                for (int k = 0; k < 3; k++) nyq = nyq || (n[k] > 1 && n[k] % 2 == 0 && q[k] == n[k] / 2);
                if (v == 0) {
                } else if (nyq) {
                    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) out[3 * i + j] -= comp(s0, i, j, k, l) * in[3 * k + l];
                } else {
                    double x[3], nx = 0;
                    for (int k = 0; k < 3; k++) { x[k] = (q[k] > n[k] / 2 ? q[k] - n[k] : q[k]) / (p.d[k] * n[k]); nx += x[k] * x[k]; }
                    nx = std::sqrt(nx);
                    for (double& y : x) y /= nx;
                    double A[3][3], G[3][3];
                    for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { A[i][k] = 0; for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) A[i][k] += comp(c0, i, j, k, l) * x[j] * x[l]; }
                    solve<3>(A, G);
                    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) out[3 * a + b] -= G[a][i] * x[b] * x[j] * in[3 * i + j];
                }
                for (int k = 0; k < 9; k++) w[k][v] = out[k];
            }
            for (int k = 0; k < 9; k++) dft(w[k], n, 1);
            for (size_t v = 0; v < N; v++) for (int k = 0; k < 9; k++) dg[v][k] += dmac[k] + w[k][v].real() * wgt;
            errs = erre = 0; double nit = 0;
            for (size_t v = 0; v < N; v++) {
                const Crystal& c = cr[(size_t)p.phase[v] - 1];
                if (c.gas) { sg[v].fill(0); edp[v].fill(0); continue; }
                const V6 lam = to6(sg[v]), ep = to6(ept[v]), e = to6(dg[v]);
                V6 s = lam, ed{}, ceq{};
                double ln = 0;
                for (double x : lam) ln += x * x;
                ln = std::sqrt(ln);
                double erral = 1; int k1 = 0;
                while (k1 < 100 && erral > 1e-7) {
                    k1++; M.newton++;
                    V6 old = s;
                    ed.fill(0);
                    double J[6][6], Ji[6][6], D[6][6];
                    memset(D, 0, sizeof D);
                    for (size_t q = 0; q < c.sys.size(); q++) {
                        double r = 0;
                        for (int i = 0; i < 6; i++) r += sch[v][q][i] * s[i];
                        if (c.sys[q].tau_f != c.sys[q].tau_b && c.sys[q].nrs == 1 && std::fabs(r) < 1e-9 * (ln + 1)) { M.tainted = true; M.why = "a resolved shear stress of zero"; }
                        double t = crss[v][q][r < 0 ? 1 : 0];
                        r /= t;
                        double pw = std::pow(std::fabs(r), c.sys[q].nrs - 1);
                        double g = c.sys[q].gam0 * pw * r;
                        double dg1 = c.sys[q].gam0 * c.sys[q].nrs * pw / t;
                        gd[v][q] = g;
                        for (int i = 0; i < 6; i++) { ed[i] += sch[v][q][i] * g; for (int j = 0; j < 6; j++) D[i][j] += sch[v][q][i] * sch[v][q][j] * dg1; }
                    }
                    V6 el = mul(S[v], s), diff, res;
                    for (int i = 0; i < 6; i++) { ceq[i] = ep[i] + ed[i] * dt + el[i]; diff[i] = ceq[i] - e[i]; }
                    V6 cd = mul(c0, diff);
                    for (int i = 0; i < 6; i++) res[i] = s[i] - lam[i] + cd[i];
                    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { J[i][j] = i == j; for (int k = 0; k < 6; k++) J[i][j] += c0.a[i][k] * (S[v].a[k][j] + D[k][j] * dt); }
                    if (!solve<6>(J, Ji)) { M.tainted = true; M.why = "singular"; }
                    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) s[i] -= Ji[i][j] * res[j];
                    double a = 0;
                    for (int i = 0; i < 6; i++) a += (s[i] - old[i]) * (s[i] - old[i]);
                    erral = a / ln;
                    if (!std::isfinite(erral) || close_call(erral, 1e-7, 1e-4)) { M.tainted = true; M.why = "a local iteration ended close to its limit"; }
                    if (M.tainted) return M;
                }
                double a = 0, b = 0;
                for (int i = 0; i < 6; i++) { a += (s[i] - lam[i]) * (s[i] - lam[i]); b += (ceq[i] - e[i]) * (ceq[i] - e[i]); }
                errs += a * wgt; erre += b * wgt; nit += k1 * wgt;
                sg[v] = to9(s); edp[v] = to9(ed);
            }
            sav.fill(0);
            M3 sav1{};
            for (size_t v = 0; v < N; v++) for (int k = 0; k < 9; k++) { sav[k] += sg[v][k] * wgt; if (p.phase[v] == 1) sav1[k] += sg[v][k] * wgt / w1; }
            dmac.fill(0);
            for (int a = 0; a < 6; a++) if (p.iscau[a]) {
                int i = VI[a][0], j = VI[a][1];
                for (int b = 0; b < 6; b++) if (p.iscau[b]) dmac[3 * i + j] += comp(s0, i, j, VI[b][0], VI[b][1]) * (p.scau[b] - sav[3 * VI[b][0] + VI[b][1]]);
            }
            for (int k = 0; k < 9; k++) acc[k] += dmac[k];
            svm = vm_stress(sav); svm1 = vm_stress(sav1);
            if (evm > 0) erre /= evm;
            if (svm > 0) errs /= svm;
            st.err.push_back({(double)it, erre, errs, svm, nit});
            if (!std::isfinite(erre) || !std::isfinite(errs) || close_call(erre, p.err, 1e-5) || close_call(errs, p.err, 1e-5)) { M.tainted = true; M.why = "the iteration ended close to its limit"; return M; }
        }
        M3 actual;
        for (size_t v = 0; v < N; v++) for (int k = 0; k < 9; k++) velgrad[v][k] = (dg[v][k] - dg0[v][k]) / dt;
        for (int k = 0; k < 9; k++) { actual[k] = mac[k] + acc[k]; st.V[k] = (actual[k] - mact[k]) / dt; mact[k] = actual[k]; mac[k] = mact[k] + udot[k] * dt; }
        st.E = actual; st.S = sav;
        evm = vm_strain(actual);
        st.evm = evm; st.dvm = vm_strain(st.V); st.svm = svm; st.svm1 = svm1;
        st.EP.fill(0); st.VP.fill(0); st.evmp = st.dvmp = 0;
        for (size_t v = 0; v < N; v++) for (int k = 0; k < 9; k++) { ept[v][k] += edp[v][k] * dt; st.EP[k] += ept[v][k] * wgt; st.VP[k] += edp[v][k] * wgt; }
        for (int k = 0; k < 9; k++) { st.evmp += st.EP[k] * st.EP[k]; st.dvmp += st.VP[k] * st.VP[k]; }
        st.evmp = std::sqrt(2.0 / 3 * st.evmp); st.dvmp = std::sqrt(2.0 / 3 * st.dvmp);
        if (p.iupdate) for (size_t v = 0; v < N; v++) {
            const Crystal& c = cr[(size_t)p.phase[v] - 1];
            if (c.gas) continue;
            M3 L{};
            for (size_t q = 0; q < c.sys.size(); q++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
                double bi = 0, nj = 0;
                for (int z = 0; z < 3; z++) { bi += ag[v][3 * i + z] * c.sys[q].b[z]; nj += ag[v][3 * j + z] * c.sys[q].n[z]; }
                L[3 * i + j] += bi * nj * gd[v][q];
            }
            M3 W;
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) W[3 * i + j] = ((velgrad[v][3 * i + j] - velgrad[v][3 * j + i]) / 2 - (L[3 * i + j] - L[3 * j + i]) / 2) * dt;
            ag[v] = rotvec_apply(W, ag[v]);
        }
        if (p.iuphard) for (size_t v = 0; v < N; v++) {
            const Crystal& c = cr[(size_t)p.phase[v] - 1];
            if (c.gas) continue;
            harden(c, gd[v], dt, gac[v], crss[v]);
        }
        for (size_t v = 0; v < N; v++) {
            bool gas = cr[(size_t)p.phase[v] - 1].gas;
            st.strain.push_back(dg[v]); st.stress.push_back(sg[v]); st.plrate.push_back(edp[v]);
            if (gas) { M3 x; x.fill(-100); st.elstrain.push_back(x); } else st.elstrain.push_back(to9(mul(S[v], to6(sg[v]))));
            st.ag.push_back(ag[v]);
        }
        M.steps.push_back(st);
    }
    return M;
}
}  // namespace ref
