// Reference model of the large-strain elasto-viscoplastic spectral method (LS-EVPFFT, LS-EVPFFT-J2).
#pragma once
#include "ref_small.hpp"

namespace ref {
inline M3 eye() { return {1, 0, 0, 0, 1, 0, 0, 0, 1}; }
inline M3 diag(const double* d) { return {d[0], 0, 0, 0, d[1], 0, 0, 0, d[2]}; }
inline M3 mm(const M3& a, const M3& b) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r[3 * i + j] = 0; for (int k = 0; k < 3; k++) r[3 * i + j] += a[3 * i + k] * b[3 * k + j]; } return r; }
inline M3 tr(const M3& a) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[3 * i + j] = a[3 * j + i]; return r; }
inline double det(const M3& m) { return m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]); }
inline M3 inv(const M3& m) {
    double d = det(m);
    return {(m[4] * m[8] - m[5] * m[7]) / d, (m[2] * m[7] - m[1] * m[8]) / d, (m[1] * m[5] - m[2] * m[4]) / d, (m[5] * m[6] - m[3] * m[8]) / d, (m[0] * m[8] - m[2] * m[6]) / d, (m[2] * m[3] - m[0] * m[5]) / d,
            (m[3] * m[7] - m[4] * m[6]) / d, (m[1] * m[6] - m[0] * m[7]) / d, (m[0] * m[4] - m[1] * m[3]) / d};
}
inline M3 lin(double a, const M3& x, double b, const M3& y) { M3 r; for (int k = 0; k < 9; k++) r[k] = a * x[k] + b * y[k]; return r; }
inline M3 exp3(const M3& x) { M3 x2 = mm(x, x), x3 = mm(x2, x), r = eye(); for (int k = 0; k < 9; k++) r[k] += x[k] + x2[k] / 2 + x3[k] / 6; return r; }     // increments are small: third order
inline M3 rotation_of(const M3& F) {      // F = V R, Newton iteration for the orthogonal factor
    M3 a = F;
    for (int it = 0; it < 60; it++) { M3 b = lin(0.5, a, 0.5, tr(inv(a))); double e = 0; for (int k = 0; k < 9; k++) e = std::max(e, std::fabs(b[k] - a[k])); a = b; if (e < 1e-15) break; }
    return a;
}
inline M6 to66(const double (&T)[3][3][3][3]) {       // minor symmetric part
    M6 m;
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) {
        int i = VI[a][0], j = VI[a][1], k = VI[b][0], l = VI[b][1];
        m.a[a][b] = 0.25 * (T[i][j][k][l] + T[j][i][k][l] + T[i][j][l][k] + T[j][i][l][k]) * (a > 2 ? R2 : 1) * (b > 2 ? R2 : 1);
    }
    return m;
}
inline V6 deviator(const V6& v) { double t = (v[0] + v[1] + v[2]) / 3; V6 r = v; for (int k = 0; k < 3; k++) r[k] -= t; return r; }
// first: whether the program is the general one (lengths of the voxels, local operator in the stress update)
inline Model run_large(const Prob& p, bool general) {
    Model M;
    const size_t N = p.cells();
    const double wgt = 1.0 / (double)N;
    const int* n = p.n;
    std::vector<Crystal> cr;
    for (auto& f : p.ph) cr.push_back(crystal(f));
    std::vector<M3> ag(N), dg(N), sg(N), sgt(N), ept(N), edp(N), L(N), F(N), Fi(N), Fe(N), Fp(N);
    std::vector<M6> C(N), S(N), cm(N), cg(N);
    std::vector<std::vector<std::array<double, 2>>> crss(N);
    std::vector<std::vector<double>> gd(N);
    std::vector<std::vector<V6>> sch(N);
    std::vector<double> gac(N, 0.0), dF(N), w(N, wgt);
    M6 c0, s0;
    memset(&c0, 0, sizeof c0);
    double w1 = 0;
    const double one[3] = {1, 1, 1};
    const M3 F0 = diag(general ? p.d : one), F0i = inv(F0);
    M3 Havi = F0;      // inverse of the volume average of the inverse deformation gradient
    for (size_t v = 0; v < N; v++) {
        ag[v] = tr(bunge(p.eul[v][0], p.eul[v][1], p.eul[v][2]));
        const Crystal& c = cr[(size_t)p.phase[v] - 1];
        dg[v].fill(0); ept[v].fill(0); edp[v].fill(0); sg[v].fill(0); sgt[v].fill(0);
        F[v] = F0; Fi[v] = F0i; Fe[v] = Fp[v] = eye(); dF[v] = det(F0);
        if (p.phase[v] == 1) w1 += wgt;
        if (c.gas) continue;
        C[v] = rotated(c, ag[v]);
        for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) c0.a[a][b] += C[v].a[a][b] * wgt;
        for (auto& s : c.sys) crss[v].push_back({s.tau_f, s.tau_b});
        gd[v].assign(c.sys.size(), 0.0);
        sch[v].resize(c.sys.size());
    }
    M3 udot;
    for (int k = 0; k < 9; k++) udot[k] = p.udot[k];
    double dvm = vm_strain(udot), dt = p.ictrl == 0 ? p.dt / dvm : p.dt;
    for (size_t v = 0; v < N; v++) if (!cr[(size_t)p.phase[v] - 1].gas) { V6 e = to6(udot); for (double& x : e) x *= dt; sg[v] = to9(mul(C[v], e)); }
    for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) c0.a[a][b] *= dt;      // rate form
    solve<6>(c0.a, s0.a);
    auto close_call = [&](double x, double lim, double rel) { return !(std::fabs(x - lim) > rel * lim); };
    // the operator in Fourier space
    std::vector<std::array<double, 3>> xi(N);
    std::vector<char> kind(N, 0);      // 0 regular, 1 Nyquist, 2 mean
    std::vector<std::array<double, 9>> Ai(N);
    for (size_t v = 0; v < N; v++) {
        int q[3] = {(int)(v % (size_t)n[0]), (int)(v / (size_t)n[0] % (size_t)n[1]), (int)(v / ((size_t)n[0] * n[1]))};
        for (int k = 0; k < 3; k++) if (n[k] > 1 && n[k] % 2 == 0 && q[k] == n[k] / 2) kind[v] = 1;
        if (v == 0) { kind[v] = 2; continue; }
        if (kind[v]) continue;
        double nx = 0;
        for (int k = 0; k < 3; k++) { xi[v][k] = (q[k] > n[k] / 2 ? q[k] - n[k] : q[k]) / (double)n[k]; nx += xi[v][k] * xi[v][k]; }
        for (double& y : xi[v]) y /= std::sqrt(nx);
        M3 A;
        for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) { A[3 * i + k] = 0; for (int j = 0; j < 3; j++) for (int l = 0; l < 3; l++) A[3 * i + k] += comp(c0, i, j, k, l) * xi[v][j] * xi[v][l]; }
        Ai[v] = inv(A);
    }
    double G0[3][3][3][3];       // what a unit stress in one voxel does to that voxel
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) {
        double s = 0;
        for (size_t v = 0; v < N; v++) s -= kind[v] == 2 ? 0 : kind[v] == 1 ? comp(s0, i, j, k, l) : Ai[v][3 * i + k] * xi[v][j] * xi[v][l];
        G0[i][j][k][l] = s * wgt;
    }
    M3 acc{}, dmac{}, actual{}, E{};
    for (int step = 1; step <= p.nsteps; step++) {
        Step st;
        if (step == 1 || !general) { acc.fill(0); for (auto& l : L) l = udot; }
        dmac.fill(0);
        if (step == 1 || p.iupdate) for (size_t v = 0; v < N; v++) {
            const Crystal& c = cr[(size_t)p.phase[v] - 1];
            if (c.gas) continue;
            M3 a = mm(Fe[v], ag[v]), ai = inv(a);
            for (size_t s = 0; s < sch[v].size(); s++) {
                M3 bn;
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) bn[3 * i + j] = c.sys[s].b[i] * c.sys[s].n[j];
                sch[v][s] = deviator(to6(mm(mm(a, bn), ai)));
            }
        }
        for (size_t v = 0; v < N; v++) {
            double T[3][3][3][3];
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { double s = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s += comp(c0, i, a, k, b) * F[v][3 * j + a] * F[v][3 * l + b]; T[i][j][k][l] = s / dF[v]; }
            cm[v] = to66(T);
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) { double s = 0; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) s += G0[i][a][k][b] * Fi[v][3 * a + j] * Fi[v][3 * b + l]; T[i][j][k][l] = s * dF[v]; }
            M6 g = to66(T);
            for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { cg[v].a[i][j] = 0; if (general) for (int k = 0; k < 6; k++) cg[v].a[i][j] += cm[v].a[i][k] * g.a[k][j]; }
        }
        double erre = 2 * p.err, errs = 2 * p.err, svm = 0, svm1 = 0;
        M3 sav{};
        for (int it = 1; it <= p.itmax && (errs > p.err || erre > p.err); it++) {
            M3 sa{};
            for (size_t v = 0; v < N; v++) for (int k = 0; k < 9; k++) sa[k] += sg[v][k] * w[v];
            std::vector<CF> f(9, CF(N));
            for (size_t v = 0; v < N; v++) { M3 P = mm(lin(1, sg[v], -1, sa), tr(Fi[v])); for (int k = 0; k < 9; k++) f[k][v] = P[k] * dF[v]; }
            for (auto& x : f) dft(x, n, -1);
            for (size_t v = 0; v < N; v++) {
                std::complex<double> in[9], out[9];
                for (int k = 0; k < 9; k++) { in[k] = f[k][v]; out[k] = 0; }
                if (kind[v] == 1) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) for (int l = 0; l < 3; l++) out[3 * i + j] -= comp(s0, i, j, k, l) * in[3 * k + l]; }
                else if (kind[v] == 0) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) out[3 * a + b] -= Ai[v][3 * a + i] * xi[v][b] * xi[v][j] * in[3 * i + j];
                for (int k = 0; k < 9; k++) f[k][v] = out[k];
            }
            for (auto& x : f) dft(x, n, 1);
            std::vector<M3> g(N);
            M3 av{};
            for (size_t v = 0; v < N; v++) { for (int k = 0; k < 9; k++) g[v][k] = f[k][v].real() * wgt; M3 q = mm(g[v], Fi[v]); for (int k = 0; k < 9; k++) av[k] += q[k] * w[v]; }
            M3 sh = mm(lin(1, dmac, -1, av), Havi);
            for (size_t v = 0; v < N; v++) L[v] = lin(1, L[v], 1, mm(lin(1, g[v], 1, sh), Fi[v]));
            errs = erre = 0; double nit = 0;
            for (size_t v = 0; v < N; v++) {
                const Crystal& c = cr[(size_t)p.phase[v] - 1];
                if (c.gas) { sg[v].fill(0); edp[v].fill(0); continue; }
                solve<6>(C[v].a, S[v].a);
                const V6 lam = to6(sg[v]), st0 = to6(sgt[v]), e = to6(L[v]);
                V6 s = lam, ed{}, rate{}, res{}, old = lam;
                double ln = 0;
                for (double x : lam) ln += x * x;
                ln = std::sqrt(ln);
                double erral = 1, last = 1, a = 0, b = 0; int k1 = 0;
                while (k1 < 100 && erral > 1e-10) {
                    k1++; M.newton++;
                    double D[6][6], J[6][6], Ji[6][6], rn = 2 * last;
                    for (int cut = 0; rn > last && cut < 10; cut++) {
                        ed.fill(0); memset(D, 0, sizeof D);
                        for (size_t q = 0; q < c.sys.size(); q++) {
                            double r = 0;
                            for (int i = 0; i < 6; i++) r += sch[v][q][i] * s[i];
                            if (c.sys[q].tau_f != c.sys[q].tau_b && c.sys[q].nrs == 1 && std::fabs(r) < 1e-9 * (ln + 1)) { M.tainted = true; M.why = "a resolved shear stress of zero"; }
                            double t = crss[v][q][r < 0 ? 1 : 0];
                            r /= t;
                            double pw = std::pow(std::fabs(r), c.sys[q].nrs - 1), gq = c.sys[q].gam0 * pw * r, dq = c.sys[q].gam0 * c.sys[q].nrs * pw / t;
                            gd[v][q] = gq;
                            for (int i = 0; i < 6; i++) { ed[i] += sch[v][q][i] * gq; for (int j = 0; j < 6; j++) D[i][j] += sch[v][q][i] * sch[v][q][j] * dq; }
                        }
                        V6 ds, df;
                        for (int i = 0; i < 6; i++) ds[i] = (s[i] - st0[i]) / dt;
                        V6 el = mul(S[v], ds);
                        for (int i = 0; i < 6; i++) { rate[i] = ed[i] + el[i]; df[i] = rate[i] - e[i]; ds[i] = s[i] - lam[i]; }
                        V6 x = mul(cm[v], df), y = mul(cg[v], ds);
                        rn = 0;
                        for (int i = 0; i < 6; i++) { res[i] = s[i] - lam[i] + x[i] - y[i]; rn += res[i] * res[i]; }
                        rn = std::sqrt(rn);
                        if (k1 == 1) last = rn;
                        else if (close_call(rn, last, 1e-6) && rn > 1e-9 * ln) { M.tainted = true; M.why = "a cut of the local iteration was too close to call"; }
                        if (rn > last) for (int i = 0; i < 6; i++) s[i] = old[i] + (s[i] - old[i]) * 0.5;
                        if (!std::isfinite(rn)) { M.tainted = true; M.why = "the local iteration left the numbers"; return M; }
                        // round-off decides about cuts below this size; they do not change the solution
                        if (k1 > 1 && rn <= 1e-9 * ln && rn > last) { M.loose = true; break; }
                    }
                    last = rn; old = s;
                    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) { J[i][j] = (i == j) - cg[v].a[i][j]; for (int k = 0; k < 6; k++) J[i][j] += cm[v].a[i][k] * (S[v].a[k][j] / dt + D[k][j]); }
                    if (!solve<6>(J, Ji)) { M.tainted = true; M.why = "singular"; }
                    for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) s[i] -= Ji[i][j] * res[j];
                    double q = 0; a = b = 0;
                    for (int i = 0; i < 6; i++) { q += (s[i] - old[i]) * (s[i] - old[i]); a += (s[i] - lam[i]) * (s[i] - lam[i]); b += (rate[i] - e[i]) * (rate[i] - e[i]); }
                    erral = std::sqrt(q) / ln;
                    if (!std::isfinite(erral) || close_call(erral, 1e-10, 1e-2)) { M.tainted = true; M.why = "a local iteration ended close to its limit"; }
                    if (M.tainted) return M;
                }
                errs += a * w[v]; erre += b * w[v]; nit += k1 * w[v];
                sg[v] = to9(s); edp[v] = to9(ed);
            }
            sav.fill(0);
            M3 sav1{};
            for (size_t v = 0; v < N; v++) for (int k = 0; k < 9; k++) { sav[k] += sg[v][k] * w[v]; if (p.phase[v] == 1) sav1[k] += sg[v][k] * w[v] / w1; }
            dmac.fill(0);
            for (int a = 0; a < 6; a++) if (p.iscau[a]) {
                int i = VI[a][0], j = VI[a][1];
                for (int b = 0; b < 6; b++) if (p.iscau[b]) dmac[3 * i + j] += comp(s0, i, j, VI[b][0], VI[b][1]) * (p.scau[b] - sav[3 * VI[b][0] + VI[b][1]]);
            }
            for (int k = 0; k < 9; k++) acc[k] += dmac[k];
            svm = vm_stress(sav); svm1 = vm_stress(sav1);
            if (dvm > 0) erre = std::sqrt(erre) / dvm;
            if (svm > 0) errs = std::sqrt(errs) / svm;
            st.err.push_back({(double)it, erre, errs, svm, nit});
            if (!std::isfinite(erre) || !std::isfinite(errs) || close_call(erre, p.err, 1e-5) || close_call(errs, p.err, 1e-5)) { M.tainted = true; M.why = "the iteration ended close to its limit"; return M; }
        }
        sgt = sg;
        actual = lin(1, udot, 1, acc);
        E = lin(1, E, dt, actual);
        dvm = vm_strain(actual);
        st.E = E; st.S = sav; st.V = actual; st.evm = vm_strain(E); st.dvm = dvm; st.svm = svm; st.svm1 = svm1;
        st.EP.fill(0); st.VP.fill(0); st.evmp = st.dvmp = 0;
        for (size_t v = 0; v < N; v++) for (int k = 0; k < 9; k++) { ept[v][k] += edp[v][k] * dt; st.EP[k] += ept[v][k] * w[v]; st.VP[k] += edp[v][k] * w[v]; }
        for (int k = 0; k < 9; k++) { st.evmp += st.EP[k] * st.EP[k]; st.dvmp += st.VP[k] * st.VP[k]; }
        st.evmp = std::sqrt(2.0 / 3 * st.evmp); st.dvmp = std::sqrt(2.0 / 3 * st.dvmp);
        if (p.iupdate) {
            double da = 0;
            M3 Fia{}, La{};
            for (size_t v = 0; v < N; v++) {
                const Crystal& c = cr[(size_t)p.phase[v] - 1];
                if (!c.gas) {
                    M3 Lp{};
                    for (size_t q = 0; q < c.sys.size(); q++) { M3 bn; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) bn[3 * i + j] = c.sys[q].b[i] * c.sys[q].n[j]; Lp = lin(1, Lp, gd[v][q] * dt, mm(mm(ag[v], bn), tr(ag[v]))); }
                    Fp[v] = mm(exp3(Lp), Fp[v]);
                }
                M3 X; for (int k = 0; k < 9; k++) X[k] = L[v][k] * dt;
                X = exp3(X);
                F[v] = mm(X, F[v]);
                Fi[v] = inv(F[v]); dF[v] = det(F[v]);
                dg[v] = lin(1, eye(), -1, mm(F0, Fi[v]));
                L[v] = mm(L[v], inv(X));
                da += dF[v] * wgt;
                Fia = lin(1, Fia, dF[v] * wgt, Fi[v]); La = lin(1, La, dF[v] * wgt, L[v]);
            }
            for (int k = 0; k < 9; k++) { Fia[k] /= da; La[k] /= da; }
            Havi = inv(Fia);
            M3 sh = mm(lin(1, actual, -1, La), Havi);
            for (size_t v = 0; v < N; v++) {
                w[v] = wgt * dF[v] / da;
                L[v] = lin(1, L[v], 1, mm(sh, Fi[v]));
                const Crystal& c = cr[(size_t)p.phase[v] - 1];
                if (c.gas) continue;
                M3 eo = inv(Fe[v]);
                Fe[v] = mm(F[v], inv(mm(Fp[v], F0)));
                M3 R = rotation_of(mm(Fe[v], eo));
                sgt[v] = mm(mm(R, sg[v]), tr(R));
                C[v] = rotated(c, mm(rotation_of(Fe[v]), ag[v]));
                solve<6>(C[v].a, S[v].a);
            }
        }
        if (p.iuphard) for (size_t v = 0; v < N; v++) { const Crystal& c = cr[(size_t)p.phase[v] - 1]; if (!c.gas) harden(c, gd[v], dt, gac[v], crss[v]); }
        for (size_t v = 0; v < N; v++) {
            bool gas = cr[(size_t)p.phase[v] - 1].gas;
            st.strain.push_back(dg[v]); st.stress.push_back(sg[v]); st.plrate.push_back(edp[v]);
            if (gas) { M3 x; x.fill(-100); st.elstrain.push_back(x); } else st.elstrain.push_back(to9(mul(S[v], to6(sg[v]))));
            st.ag.push_back(gas ? ag[v] : mm(rotation_of(Fe[v]), ag[v]));
        }
        M.steps.push_back(st);
    }
    return M;
}
}  // namespace ref
