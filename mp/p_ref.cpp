// C44: the staggered-grid solvers follow their scheme. From the state at one output an independent implementation
// of the scheme, written from its equations, advances to the next output; both must arrive at the same state.
#include <algorithm>
#include "any.hpp"
#include "ref.hpp"
using namespace scen;
namespace {
typedef std::vector<double> V;
struct Mat {
    bool gas = true, hypo = false, mars = true, directional = false, erodes = false;
    double eos[4] = {0, 0, 0, 0}, strength[2] = {0, 0}, q1 = 0, q1ex = 0, q2 = 0, q2ex = 0, floor = 0, curl_floor = 0, tension = 0, thin = 0;
    std::vector<size_t> elem;
    V sie, sie0, stress, stress0, den, pres, sspd, mass, vf, gvf, force;
    std::vector<char> eroded;
};
struct Ref {
    bool rz = false, tainted = false;
    std::map<std::vector<size_t>, double> side;
    size_t D = 3, N = 0, E = 0, K = 8;
    const mp::Result* run = nullptr;
    const Scen* scen = nullptr;
    std::vector<std::vector<size_t>> near, around;  // elements sharing a node; nodes sharing an edge
    V x, x0, v, v0, nm, ext, vol, area, L, b, F;
    std::vector<Mat> m;
    double fuzz = 1e-16, tiny = 1e-12, small = 1e-8;

    const std::vector<size_t>& el(size_t e) const { return run->mesh.elem[e]; }
    mp::Arr pos() const { mp::Arr a; a.rows = N; a.cols = D; a.v = x; return a; }
    bool setup(const mp::Result& r, const Scen& s) {
        run = &r; scen = &s;
        D = r.mesh.dims; N = r.mesh.nodes; E = r.mesh.elems; rz = D == 2; K = rz ? 4 : 8;
        near.assign(E, {}); around.assign(N, {});
        std::vector<std::vector<size_t>> of(N);
        for (size_t e = 0; e < E; e++) for (size_t n : el(e)) of[n].push_back(e);
        for (size_t e = 0; e < E; e++) { std::set<size_t> q; for (size_t n : el(e)) for (size_t f : of[n]) if (f != e) q.insert(f); near[e].assign(q.begin(), q.end()); }
        for (size_t e = 0; e < E; e++) for (size_t k = 0; k < K; k++) for (size_t j = 0; j < K; j++) if (adjacent(k, j)) around[el(e)[k]].push_back(el(e)[j]);
        auto ms = s.all("mat");
        m.assign(ms.size(), Mat());
        for (auto* i : ms) {
            size_t id = (size_t)i->l("id");
            if (id >= m.size()) return false;
            Mat& a = m[id];
            auto ev = i->v("eos_global_vars"), dv = i->v("dissipation_global_vars"), sv = i->v("strength_global_vars");
            ev.resize(4); dv.resize(6); sv.resize(2);
            std::string eos = i->str("eos_model"), d = i->str("dissipation_model");
            if (eos == "gamma_law_gas") a.gas = true; else if (eos == "linear_elastic_eos") a.gas = false; else return false;
            a.hypo = i->has("strength_model");
            a.mars = d.find("MARS") != std::string::npos;
            a.directional = d.compare(0, 11, "directional") == 0;
            for (int k = 0; k < 4; k++) a.eos[k] = ev[(size_t)k];
            for (int k = 0; k < 2; k++) a.strength[k] = sv[(size_t)k];
            a.q1 = dv[0]; a.q1ex = dv[1]; a.q2 = dv[2]; a.q2ex = dv[3]; a.floor = dv[4]; a.curl_floor = dv[5];
            a.erodes = i->str("erosion_model") == "basic";
            a.tension = i->d("erode_tension_val"); a.thin = i->d("erode_density_val");
        }
        return true;
    }
    bool adjacent(size_t k, size_t j) const { return rz ? (k + 1) % 4 == j || (j + 1) % 4 == k : (k ^ j) == 1 || (k ^ j) == 2 || (k ^ j) == 4; }
    void load(const mp::Snap& s, bool first) {
        x = s["coords"].v; v = s["vel"].v; nm = s["node_mass"].v;
        if (first && rz) { ext.assign(N, 0); for (size_t n = 0; n < N; n++) ext[n] = nm[n] * x[n * D + 1]; }
        for (size_t k = 0; k < m.size(); k++) {
            std::string M = "@" + std::to_string(k);
            Mat& a = m[k];
            a.elem.clear();
            for (double e : s["elem" + M].v) a.elem.push_back((size_t)e);
            a.sie = s["sie" + M].v; a.stress = s["stress" + M].v; a.den = s["den" + M].v; a.pres = s["pres" + M].v; a.sspd = s["sspd" + M].v;
            a.mass = s["mass" + M].v; a.vf = s["volfrac" + M].v; a.gvf = s["geo_volfrac" + M].v;
            a.eroded.clear();
            for (double e : s["eroded" + M].v) a.eroded.push_back(e != 0);
        }
        geometry();
    }
    // volumes and dV/dx of every element at the present positions
    void geometry() {
        mp::Arr p = pos();
        vol.assign(E, 0); area.assign(E, 0); b.assign(E * K * D, 0);
        for (size_t e = 0; e < E; e++) {
            auto& q = el(e);
            if (rz) {
                vol[e] = ref::vol_rz(p, q);
                for (size_t k = 0; k < 4; k++) {
                    size_t n = q[(k + 1) % 4], l = q[(k + 3) % 4], i = q[k];
                    area[e] += 0.5 * (p(i, 0) * p(n, 1) - p(n, 0) * p(i, 1));
                    b[(e * 4 + k) * 2] = 0.5 * (p(n, 1) - p(l, 1));
                    b[(e * 4 + k) * 2 + 1] = 0.5 * (p(l, 0) - p(n, 0));
                }
                continue;
            }
            static const double g[3] = {-std::sqrt(0.6), 0, std::sqrt(0.6)}, w[3] = {5. / 9, 8. / 9, 5. / 9};
            for (int A = 0; A < 3; A++) for (int B = 0; B < 3; B++) for (int C = 0; C < 3; C++) {
                double J[3][3] = {{0}}, dN[8][3], W = w[A] * w[B] * w[C];
                for (int n = 0; n < 8; n++) {
                    double s[3] = {n & 1 ? 1. : -1., n & 2 ? 1. : -1., n & 4 ? 1. : -1.}, t[3] = {1 + s[0] * g[A], 1 + s[1] * g[B], 1 + s[2] * g[C]};
                    dN[n][0] = s[0] * t[1] * t[2] / 8; dN[n][1] = t[0] * s[1] * t[2] / 8; dN[n][2] = t[0] * t[1] * s[2] / 8;
                    for (int d = 0; d < 3; d++) for (int c = 0; c < 3; c++) J[d][c] += dN[n][c] * p(q[(size_t)n], (size_t)d);
                }
                double cof[3][3];
                for (int d = 0; d < 3; d++) for (int c = 0; c < 3; c++) { int d1 = (d + 1) % 3, d2 = (d + 2) % 3, c1 = (c + 1) % 3, c2 = (c + 2) % 3; cof[d][c] = J[d1][c1] * J[d2][c2] - J[d1][c2] * J[d2][c1]; }
                vol[e] += W * (J[0][0] * cof[0][0] + J[0][1] * cof[0][1] + J[0][2] * cof[0][2]);
                for (int n = 0; n < 8; n++) for (int d = 0; d < 3; d++) b[(e * 8 + (size_t)n) * 3 + (size_t)d] += W * (dN[n][0] * cof[d][0] + dN[n][1] * cof[d][1] + dN[n][2] * cof[d][2]);
            }
        }
    }
    void gradients() {
        L.assign(E * 9, 0);
        for (size_t e = 0; e < E; e++) {
            auto& q = el(e);
            double inv = 1 / (rz ? area[e] : vol[e]), vr = 0;
            for (size_t k = 0; k < K; k++) {
                for (size_t i = 0; i < D; i++) for (size_t j = 0; j < D; j++) L[e * 9 + i * 3 + j] += v[q[k] * D + i] * b[(e * K + k) * D + j] * inv;
                if (rz) vr += 0.25 * v[q[k] * 2 + 1];
            }
            if (rz) L[e * 9 + 8] = vr * area[e] / vol[e];
        }
    }
    double div(size_t e) const { return L[e * 9] + L[e * 9 + 4] + L[e * 9 + 8]; }
    double speed_change(size_t e) const {  // scale of the velocity differences over the element
        double s = 0;
        for (int k = 0; k < 9; k++) s = std::max(s, std::fabs(L[e * 9 + (size_t)k]));
        return s;
    }
    void dissipation(const Mat& a, size_t p, V& f) {
        size_t e = a.elem[p];
        auto& q = el(e);
        double d = div(e), mean[3] = {0, 0, 0}, curl, mu[8], sum = 0, star[3] = {0, 0, 0};
        const double* G = &L[e * 9];
        if (rz) curl = std::fabs(G[3] - G[1]);
        else curl = std::sqrt((G[7] - G[5]) * (G[7] - G[5]) + (G[2] - G[6]) * (G[2] - G[6]) + (G[3] - G[1]) * (G[3] - G[1]));
        for (size_t k = 0; k < K; k++) for (size_t i = 0; i < D; i++) mean[i] += v[q[k] * D + i] / (double)K;
        double noise = 1e-10 * speed_change(e);
        double vmax = 0, h = rz ? std::sqrt(std::fabs(area[e])) : std::cbrt(std::fabs(vol[e]));
        for (size_t k = 0; k < K; k++) for (size_t i = 0; i < D; i++) vmax = std::max(vmax, std::fabs(v[q[k] * D + i]));
        noise = std::max(noise, 1e-12 * vmax / (h + 1e-300));
        if (std::fabs(d) <= noise && a.floor > 0 && (a.q1 != a.q1ex || a.q2 != a.q2ex)) tainted = true;
        for (size_t k = 0; k < K; k++) {
            const double* A = &b[(e * K + k) * D];
            double mag = 0, an = 0, dir[3] = {0, 0, 0}, w = 0;
            for (size_t i = 0; i < D; i++) { mag += (v[q[k] * D + i] - mean[i]) * (v[q[k] * D + i] - mean[i]); an += A[i] * A[i]; }
            mag = std::sqrt(mag); an = std::sqrt(an);
            if (a.directional && std::fabs(mag - small) < 1e-12 + 1e-10 * vmax) tainted = true;
            for (size_t i = 0; i < D; i++) dir[i] = mag > small ? (v[q[k] * D + i] - mean[i]) / mag : -A[i] / an;
            if (a.directional) {
                for (size_t j = 0; j < K; j++) if (adjacent(k, j)) { double t = 0; for (size_t i = 0; i < D; i++) t += dir[i] * 0.5 * (A[i] - b[(e * K + j) * D + i]); w += std::fabs(t); }
            } else w = an;
            mu[k] = w * a.den[p] * (d < 0 ? a.q1 * a.sspd[p] + a.q2 * mag : a.q1ex * a.sspd[p] + a.q2ex * mag);
            sum += mu[k];
            for (size_t i = 0; i < D; i++) star[i] += mu[k] * v[q[k] * D + i];
        }
        for (size_t i = 0; i < D; i++) star[i] = sum > fuzz ? star[i] / sum : 0;
        double r = 1;
        for (size_t n : near[e]) r = std::min(r, 0.9 * (div(n) + small) / (d + small));
        double phi = 1 - std::max(0.0, r);
        phi *= std::min(1.0, 20 * h * std::fabs(d) / (a.sspd[p] + fuzz));
        phi = std::min(phi, std::max(a.curl_floor, std::min(1.0, (rz ? 4 : 1) * std::fabs(d) / (curl + fuzz))));
        phi = std::max(a.floor, phi);
        for (size_t k = 0; k < K; k++) for (size_t i = 0; i < D; i++) f[k * D + i] = phi * mu[k] * (star[i] - v[q[k] * D + i]);
    }
    void forces(Mat& a) {
        a.force.assign(a.elem.size() * K * D, 0);
        for (size_t p = 0; p < a.elem.size(); p++) {
            if (a.eroded[p]) continue;
            size_t e = a.elem[p];
            auto& q = el(e);
            V f(K * D, 0.0);
            if (a.mars) dissipation(a, p, f);
            double T[9], share = a.vf[p] * a.gvf[p], part[4] = {0, 0, 0, 0}, cx[2] = {0, 0}, tri[4];
            for (int k = 0; k < 9; k++) T[k] = a.stress[p * 9 + (size_t)k] - (k % 4 == 0 ? a.pres[p] : 0);
            if (rz) {
                for (size_t k = 0; k < 4; k++) for (size_t i = 0; i < 2; i++) cx[i] += 0.25 * x[q[k] * 2 + i];
                for (size_t k = 0; k < 4; k++) { const double *A = &x[q[k] * 2], *B = &x[q[(k + 1) % 4] * 2]; tri[k] = 0.5 * std::fabs((A[0] - cx[0]) * (B[1] - cx[1]) - (B[0] - cx[0]) * (A[1] - cx[1])); }
                for (size_t k = 0; k < 4; k++) part[k] = (5 * tri[(k + 3) % 4] + 5 * tri[k] + tri[(k + 1) % 4] + tri[(k + 2) % 4]) / 12 * area[e] / vol[e];
            }
            for (size_t k = 0; k < K; k++) for (size_t i = 0; i < D; i++) {
                double s = f[k * D + i];
                for (size_t j = 0; j < D; j++) s -= b[(e * K + k) * D + j] * T[j * 3 + i];
                if (rz) s += part[k] * (i == 0 ? T[3] : T[4] - T[8]);
                s *= share;
                a.force[(p * K + k) * D + i] = s;
                F[q[k] * D + i] += s;
            }
        }
    }
    void stresses(Mat& a, double h) {  // Jaumann rate of the deviator, returned radially to the yield surface
        for (size_t p = 0; p < a.elem.size(); p++) {
            const double* G = &L[a.elem[p] * 9];
            double s[9], n[9], d3 = div(a.elem[p]) / 3, J = 0;
            for (size_t k = 0; k < 9; k++) s[k] = a.stress[p * 9 + k];
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
                double r = 2 * a.strength[0] * (0.5 * (G[i * 3 + j] + G[j * 3 + i]) - (i == j ? d3 : 0));
                for (int k = 0; k < 3; k++) r += 0.5 * (G[i * 3 + k] - G[k * 3 + i]) * s[k * 3 + j] - s[i * 3 + k] * 0.5 * (G[k * 3 + j] - G[j * 3 + k]);
                n[i * 3 + j] = a.stress0[p * 9 + (size_t)(i * 3 + j)] + h * r;
            }
            for (double t : n) J += t * t;
            double c = std::min(1.0, a.strength[1] / std::sqrt(1.5 * J + 1e-16));
            for (size_t k = 0; k < 9; k++) a.stress[p * 9 + k] = n[k] * c;
        }
    }
    void traction(double time) {
        auto bc = scen->all("bc");
        for (size_t q = 0; q < bc.size() && q < run->mesh.set_patches.size(); q++) {
            std::string t = bc[q]->str("stress_model");
            if (t.empty()) continue;
            auto w = bc[q]->v("stress_bc_global_vars");
            w.resize(9);
            double f = 1;
            if (t == "time_varying") { if (time < w[7] || time > w[8]) continue; f = std::exp(-w[6] * (time - w[7])); }
            double S[3][3] = {{w[0], w[5], w[4]}, {w[5], w[1], w[3]}, {w[4], w[3], w[2]}};
            for (auto& P : run->mesh.set_patches[q]) {
                std::set<size_t> ps(P.begin(), P.end());
                double ctr[3] = {0, 0, 0}, pc[3] = {0, 0, 0}, A[3], out = 0;
                for (size_t e = 0; e < E; e++) { size_t in = 0; for (size_t n : el(e)) in += ps.count(n); if (in == ps.size()) for (size_t n : el(e)) for (size_t i = 0; i < 3; i++) ctr[i] += x[n * 3 + i] / 8; }
                for (size_t n : P) for (size_t i = 0; i < 3; i++) pc[i] += x[n * 3 + i] / 4;
                double g[3], h[3];
                for (size_t i = 0; i < 3; i++) { g[i] = x[P[2] * 3 + i] - x[P[0] * 3 + i]; h[i] = x[P[3] * 3 + i] - x[P[1] * 3 + i]; }
                for (int i = 0; i < 3; i++) A[i] = 0.5 * (g[(i + 1) % 3] * h[(i + 2) % 3] - g[(i + 2) % 3] * h[(i + 1) % 3]);
                for (int i = 0; i < 3; i++) out += A[i] * (pc[i] - ctr[i]);
                auto sg = side.emplace(P, out < 0 ? -1.0 : 1.0).first;  // the side is that of the undeformed element
                for (size_t n : P) for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) F[n * 3 + i] += sg->second * f * S[i][j] * A[j] / 4;
            }
        }
    }
    void prescribe(double time) {
        auto bc = scen->all("bc");
        for (size_t q = 0; q < bc.size() && q < run->mesh.set_nodes.size(); q++) {
            std::string t = bc[q]->str("velocity_model");
            auto w = bc[q]->v("velocity_bc_global_vars");
            w.resize(8);
            if (t.empty()) continue;
            double len = 0, val = 0;
            for (size_t i = 0; i < D; i++) len += w[i] * w[i];
            len = std::sqrt(len);
            if (t == "piston" || t == "time_varying") {
                double t0 = w[t == "piston" ? 6 : 5], t1 = w[t == "piston" ? 7 : 6], dt = time - t0;
                if (time < t0 || time > t1) continue;
                val = t == "piston" ? w[3] + w[4] * dt + 0.5 * w[5] * dt * dt : w[3] * std::exp(-w[4] * dt);
            }
            for (size_t n : run->mesh.set_nodes[q]) {
                if (t == "fixed" || t == "constant") { for (size_t i = 0; i < D; i++) v[n * D + i] = t == "fixed" ? 0 : w[i]; continue; }
                double s = 0;
                for (size_t i = 0; i < D; i++) s += v[n * D + i] * w[i] / len;
                for (size_t i = 0; i < D; i++) v[n * D + i] += (val - s) * w[i] / len;
            }
        }
    }
    void state(Mat& a) {
        for (size_t p = 0; p < a.elem.size(); p++) {
            a.den[p] = a.mass[p] / (vol[a.elem[p]] * a.vf[p] * a.gvf[p] + 1e-20);
            if (a.gas) {
                a.pres[p] = (a.eos[0] - 1) * a.den[p] * a.sie[p];
                double c2 = a.eos[0] * (a.eos[0] - 1) * a.sie[p];
                a.sspd[p] = std::max(c2 > 0 ? std::sqrt(c2) : 0, a.eos[1]);
                if (std::fabs(c2) < 1e-14) tainted = true;
            } else {
                a.pres[p] = a.eos[0] * (a.den[p] / a.eos[2] - 1);
                a.sspd[p] = std::max(a.eos[3], std::sqrt((a.eos[0] + 4.0 / 3 * a.eos[1]) / a.den[p]));
            }
            if (!a.erodes) continue;
            if (a.pres[p] <= a.tension || a.den[p] <= a.thin) a.eroded[p] = 1;
            if (close(a.pres[p], a.tension, 1e-9, 1e-12) || close(a.den[p], a.thin, 1e-9, 1e-12)) tainted = true;
            if (a.eroded[p]) { a.pres[p] = 0; a.den[p] = a.sspd[p] = 1e-32; for (size_t k = 0; k < 9; k++) a.stress[p * 9 + k] = 0; }
        }
    }
    void cycle(double time, double dt, int stages) {
        x0 = x; v0 = v;
        for (auto& a : m) { a.sie0 = a.sie; a.stress0 = a.stress; }
        for (int st = 0; st < stages; st++) {
            double h = dt / (stages - st);
            gradients();
            F.assign(N * D, 0);
            for (auto& a : m) { forces(a); if (a.hypo) stresses(a, h); }
            if (!rz) traction(time);
            for (size_t n = 0; n < N; n++) for (size_t i = 0; i < D; i++) v[n * D + i] = v0[n * D + i] + h * F[n * D + i] / nm[n];
            prescribe(time);
            for (auto& a : m) for (size_t p = 0; p < a.elem.size(); p++) {
                double w = 0;
                for (size_t k = 0; k < K; k++) for (size_t i = 0; i < D; i++) { size_t n = el(a.elem[p])[k]; w += a.force[(p * K + k) * D + i] * 0.5 * (v[n * D + i] + v0[n * D + i]) * (rz ? x[n * D + 1] : 1); }
                a.sie[p] = a.sie0[p] - h * w / a.mass[p];
            }
            for (size_t n = 0; n < N * D; n++) x[n] = x0[n] + h * 0.5 * (v[n] + v0[n]); if (rz) for (size_t n = 0; n < N; n++) x[n * 2 + 1] = std::max(0.0, x[n * 2 + 1]);  // no node crosses the axis
            geometry();
            for (auto& a : m) state(a);
            if (rz) {
                for (size_t n = 0; n < N; n++) nm[n] = x[n * 2 + 1] > tiny ? ext[n] / x[n * 2 + 1] : 0;
                for (size_t n = 0; n < N; n++) if (x[n * 2 + 1] < tiny) for (size_t o : around[n]) if (x[o * 2 + 1] > tiny) nm[n] = std::max(nm[n], nm[o] / 2);
            }
        }
    }
    double step(double dt, double time, double gtime, double tfinal, double dtmin, double dtmax, double cfl) const {
        double best = dtmax;
        for (auto& a : m) {
            double d = 1.1 * dt, low = 1e300;
            for (size_t p = 0; p < a.elem.size(); p++) {
                auto& q = el(a.elem[p]);
                double h = 1e300;
                for (size_t i = 0; i < K; i++) for (size_t j = i + 1; j < K; j++) { double s = 0; for (size_t k = 0; k < D; k++) s += (x[q[i] * D + k] - x[q[j] * D + k]) * (x[q[i] * D + k] - x[q[j] * D + k]); h = std::min(h, std::sqrt(s)); }
                low = std::min(low, std::max(dtmin, std::min(dtmax, a.eroded[p] ? 1e32 : cfl * h / (a.sspd[p] + fuzz))));
            }
            d = std::min(d, low);
            d = std::min(d, std::max(fuzz, gtime - time) + tiny);
            d = std::min(d, tfinal - time + tiny);
            best = std::min(best, d);
        }
        return best;
    }
    bool sane() const {
        for (double t : vol) if (!(t > 0)) return false;
        for (const V* a : {&x, &v, &nm}) for (double t : *a) if (!std::isfinite(t)) return false;
        if (rz) for (double t : nm) if (!(t > 0)) return false;
        for (auto& a : m) for (const V* q : {&a.sie, &a.pres, &a.den, &a.sspd, &a.stress}) for (double t : *q) if (!std::isfinite(t)) return false;
        return true;
    }
};
dst::Trace gen(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = tier ? 4 : 3;
    a.cycles = tier ? 30 : 12;
    a.kinds = 1u << kSgh | 1u << kSghRz | 1u << kMulti;
    Scen s = any(r, a);
    if (auto* q = s.find("multi")) q->del("mat_equilibration_model").del("mat_equilibration_global_vars");
    Item* o = s.find("out");
    if (!o) o = &s.add("out");
    o->kv.clear();
    o->set("timer_output_level", "thorough").set("output_file_format", "viz").set("graphics_iteration_step", std::to_string(r.chance(1, 2) ? 1 : r.range(1, 4)));
    o->set("graphics_time_step", r.chance(1, 4) ? s.d("dyn", "dt_start") * (0.5 + 3 * r.unit()) : 1.0);
    if (r.chance(1, 4)) s.find("dyn")->set("time_final", s.d("dyn", "dt_start") * (1 + 8 * r.unit()));
    if (r.chance(1, 2)) s.find("dyn")->set("dt_start", 1e-3 * (1 + 9 * r.unit()));
    s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return s.trace();
}
void exec(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s) || !s.find("out")) return;
    mp::Options o;
    o.cycle_snaps = true;
    o.max_iterations = 8000000;
    if (auto* q = s.find("sched")) { o.order = (int)q->l("order"); o.seed = (uint64_t)q->l("seed", 1); o.split = q->l("split") != 0; }
    mp::Result r = mp::run(files(s), "in.yaml", o);
    account(c, r);
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail);
    if (r.how != mp::Result::done) dst::fail("a valid problem was not run to its end", mp::how_text(r));
    std::vector<const mp::Snap*> d;
    for (auto& q : r.snaps) if (q.at == "vtk/Fierro.solver0.pvd") d.push_back(&q);
    if (d.empty()) dst::fail("no output was written");
    Ref R;
    if (!R.setup(r, s)) return;
    const Item& dy = *s.find("dyn");
    R.fuzz = dy.d("fuzz", 1e-16); R.tiny = dy.d("tiny", 1e-12); R.small = dy.d("small", 1e-8);
    int stages = (int)dy.l("rk_num_stages", 2), cycles = (int)dy.l("cycle_stop"), every = (int)s.l("out", "graphics_iteration_step", 2000000);
    double tf = dy.d("time_final"), dt = dy.d("dt_start", 1e-5), dtmin = dy.d("dt_min", 1e-8), dtmax = dy.d("dt_max", 1e-2), cfl = dy.d("dt_cfl", 0.4), ival = s.d("out", "graphics_time_step", 1.0);
    double time = 0, gtime = ival;
    int outputs = 1, compared = 0;
    R.load(*d[0], true);
    bool alive = R.sane();
    for (int n = 0; n < cycles && alive; n++) {
        double cached = dt;
        dt = R.step(dt, time, gtime, tf, dtmin, dtmax, cfl);
        R.cycle(time, dt, stages);
        time += dt;
        bool fin = time >= tf;
        if (!R.sane()) break;  // tangled: outside the scheme's domain
        if (((n + 1) % every == 0 && n > 0) || fin || time >= gtime) {
            std::string at = "cycle " + std::to_string(n + 1) + ", output " + std::to_string(outputs);
            if ((size_t)outputs >= d.size()) dst::fail("an output of the schedule was not written", at);
            const mp::Snap& q = *d[(size_t)outputs];
            if (!R.tainted) {
                auto cmp = [&](const std::string& f, const V& mine, double floor = 0) {
                    const double rel = 1e-6;  // MARS divides by (div + small): rounding grows by 1/small
                    const mp::Arr& got = q[f];
                    if (got.v.size() != mine.size()) dst::fail("state has the wrong size: " + f, at);
                    double big = 0;
                    for (double z : mine) big = std::max(big, std::fabs(z));
                    for (size_t k = 0; k < mine.size(); k++)
                        if (!close(got.v[k], mine[k], rel, rel * big + floor + 1e-14))
                            dst::fail("state differs from the scheme: " + f.substr(0, f.find('@')), at + ": " + f + "[" + std::to_string(k / std::max<size_t>(1, got.cols)) + "," + std::to_string(k % std::max<size_t>(1, got.cols)) + "] is " + num(got.v[k]) + ", by the scheme " + num(mine[k]));
                };
                cmp("vol", R.vol); cmp("vel", R.v); cmp("coords", R.x); cmp("node_mass", R.nm); cmp("vel_grad", R.L);
                double v2 = 1e-13;
                for (double z : R.v) v2 = std::max(v2, 1e-13 * z * z);
                for (size_t k = 0; k < R.m.size(); k++) {
                    std::string M = "@" + std::to_string(k);
                    Mat& a = R.m[k];
                    V er(a.eroded.begin(), a.eroded.end());
                    double dmax = 0, slow = 1e300;  // what rounding of the velocities can do to a cold material
                    for (double z : a.den) dmax = std::max(dmax, z);
                    for (double z : a.sspd) slow = std::min(slow, z);
                    double stiff = a.gas ? v2 * dmax : v2 + 1e-12 * (a.eos[0] + a.eos[1]);
                    cmp("sie" + M, a.sie, v2); cmp("stress" + M, a.stress, stiff); cmp("den" + M, a.den); cmp("pres" + M, a.pres, stiff); cmp("sspd" + M, a.sspd, a.gas ? v2 / (slow + 1e-12) : 0); cmp("eroded" + M, er); cmp("mass" + M, a.mass);
                    for (double z : er) if (z != 0) { c.op("step with an eroded point"); break; }
                    if (a.hypo) c.op("step with strength");
                    if (a.directional) c.op("step with directional dissipation");
                }
                compared++;
                c.op(R.rz ? "axisymmetric step compared" : "3D step compared");
            } else c.op("step at a switch of the scheme, not compared");
            R.tainted = false;
            outputs++;
            gtime = outputs * ival;
            dt = cached;
            R.load(q, false);
            alive = R.sane();
            if (fin) break;
        }
        if (fin) break;
    }
    uint64_t h = 7;
    for (auto& kv : r.end.a) h = dst::fnv(kv.second.v.data(), kv.second.v.size() * 8, dst::fnv(kv.first, h));
    c.observe(std::to_string(h));
    if (compared) c.nontrivial = true;
}
dst::Register reg({"C44", gen, exec, nullptr});
}  // namespace
