// Problems for the micromechanics programs: a scenario (trace lines) -> a problem -> its input files.
#pragma once
#include <array>
#include "scen.hpp"
#include "evp_sut.hpp"

namespace esc {
using namespace scen;
#ifndef EVP_APP
#define EVP_APP "EVPFFT"
#endif
inline bool app_is(const char* a) { return strcmp(EVP_APP, a) == 0; }
struct Mode { int label, nrs, isectw = 0; double gamd0, twsh = 0, tau0f, tau0b, tau1, thet0, thet1, hself; std::vector<double> hlat; std::vector<std::vector<int>> sys; };
struct Phase { int gas = 0; std::string cry = "CUBIC"; double cdim[3] = {1, 1, 1}; std::vector<Mode> modes; std::vector<int> used; bool iso = false; double E = 0, nu = 0, C[6][6]; };
struct Prob {
    int n[3], dn[3] = {0, 0, 0}; double d[3];     // dn: layers of the elastic frame (LSNP-EVPFFT)
    int igamma = 0, ibc = 0; double xc0 = 1, frame_c = 1; int itmax_out = 1;
    std::vector<Phase> ph;
    int mtype = 0, unit = 0;
    std::vector<std::array<double, 3>> eul;     // degrees, one per voxel, x fastest
    std::vector<int> grain, phase;
    int iudot[9], iscau[6]; double udot[9], scau[6];   // iscau in the order 11 22 33 23 13 12
    double dt, err; int ictrl = -1, nsteps, itmax, iupdate, iuphard, iwtex, iwfields, iwstep, isave = 0, irecover = 0;
    size_t cells() const { return (size_t)n[0] * n[1] * n[2]; }
    bool frame(size_t c) const { int x[3] = {(int)(c % (size_t)n[0]), (int)(c / (size_t)n[0] % (size_t)n[1]), (int)(c / ((size_t)n[0] * n[1]))}; for (int k = 0; k < 3; k++) if (x[k] < dn[k] || x[k] >= n[k] - dn[k]) return true; return false; }
};
inline std::vector<std::vector<int>> family(int which) {
    static const std::vector<std::vector<int>> fcc = {
        {1,1,-1,0,1,1},{1,1,-1,1,0,1},{1,1,-1,1,-1,0},{1,-1,-1,0,1,-1},{1,-1,-1,1,0,1},{1,-1,-1,1,1,0},
        {1,-1,1,0,1,1},{1,-1,1,1,0,-1},{1,-1,1,1,1,0},{1,1,1,0,1,-1},{1,1,1,1,0,-1},{1,1,1,1,-1,0}};
    static const std::vector<std::vector<int>> cube = {{1,0,0,0,1,0},{1,0,0,0,0,1},{0,1,0,1,0,0},{0,1,0,0,0,1},{0,0,1,1,0,0},{0,0,1,0,1,0}};
    static const std::vector<std::vector<int>> basal = {{0,0,0,1,2,-1,-1,0},{0,0,0,1,-1,2,-1,0},{0,0,0,1,-1,-1,2,0}};
    static const std::vector<std::vector<int>> prism = {{1,0,-1,0,-1,2,-1,0},{0,-1,1,0,2,-1,-1,0},{-1,1,0,0,-1,-1,2,0}};
    static const std::vector<std::vector<int>> pyr = {{1,0,-1,1,-1,-1,2,3},{1,0,-1,1,-2,1,1,3},{0,-1,1,1,1,1,-2,3},{0,-1,1,1,-1,2,-1,3},{-1,1,0,1,2,-1,-1,3},{-1,1,0,1,1,-2,1,3},
        {-1,0,1,1,2,-1,-1,3},{-1,0,1,1,1,1,-2,3},{0,1,-1,1,-1,-1,2,3},{0,1,-1,1,1,-2,1,3},{1,-1,0,1,-2,1,1,3},{1,-1,0,1,-1,2,-1,3}};
    switch (which) { case 0: return fcc; case 1: return cube; case 2: { auto b = fcc; for (auto& s : b) for (int k = 0; k < 3; k++) std::swap(s[k], s[k + 3]); return b; }
    case 3: return basal; case 4: return prism; default: return pyr; }
}
// ---- can the grid be dealt out to this many ranks (as heFFTe does it: no rank without a part)?
inline bool fits(const int* n, int ranks) {
    int best[3] = {1, 1, ranks};
    auto surf = [&](const int* p) { int b[3] = {n[0] / p[0], n[1] / p[1], n[2] / p[2]}; return b[0] * b[1] + b[1] * b[2] + b[2] * b[0]; };
    int bs = surf(best);
    for (int i = 1; i <= ranks; i++) {
        if (ranks % i) continue;
        for (int j = 1; j <= ranks / i; j++) { if ((ranks / i) % j) continue; int c[3] = {i, j, ranks / i / j}; int s = surf(c); if (s < bs) { bs = s; for (int k = 0; k < 3; k++) best[k] = c[k]; } }
    }
    return best[0] <= n[0] / 2 + 1 && best[0] <= n[0] && best[1] <= n[1] && best[2] <= n[2];
}
inline int fitting_ranks(const int* n, int want) { while (want > 1 && !fits(n, want)) want--; return want; }
// ---- scenario
struct GenOpt { int maxn = 4, max_steps = 3, itmax = 4; bool fields = true, gas = true, multi = true; int update = -1; bool strain_only = false; };
inline Scen generate(Rng& r, const GenOpt& g) {
    Scen s;
    auto q = [&](double a, double b) { return strtod(snum(a + (b - a) * (double)r.below(1001) / 1000.0).c_str(), nullptr); };
    Item& gr = s.add("grid");
    int n[3]; for (int k = 0; k < 3; k++) n[k] = (int)r.range(2, g.maxn);
    if (r.chance(1, 6)) n[2] = 1;
    gr.set("n", join({(double)n[0], (double)n[1], (double)n[2]}));
    if (r.chance(1, 2)) gr.set("d", "1,1,1"); else gr.set("d", join({q(0.5, 2), q(0.5, 2), q(0.5, 2)}));
    int nph = g.multi && r.chance(1, 2) ? 2 : 1;
    for (int p = 0; p < nph; p++) {
        Item& f = s.add("phase");
        if (p == 1 && g.gas && r.chance(1, 4)) { f.set("gas", "1"); continue; }
        bool hex = r.chance(1, 4);
        f.set("cry", hex ? (r.chance(1, 2) ? "HEXAGONAL" : "hexagonal") : (r.chance(1, 2) ? "CUBIC" : "cubic"));
        f.set("ca", hex ? q(1.5, 1.7) : 1.0);
        int nm = hex ? (int)r.range(1, 3) : (int)r.range(1, 2);
        std::vector<double> fam;
        for (int k = 0; k < nm; k++) fam.push_back(hex ? 3 + k : k == 0 ? (r.chance(2, 3) ? 0 : 2) : 1);
        f.set("fam", join(fam));
        if (nm > 1 && r.chance(1, 3)) f.set("skip", (double)r.below((uint64_t)nm));     // one listed mode is not used
        f.set("tau", join({q(10, 60), q(10, 60)})).set("tau1", r.chance(1, 4) ? 0.0 : q(1, 10)).set("thet", join({q(200, 400), q(0, 200)}));
        f.set("nrs", (double)r.range(1, 10)).set("gamd0", q(0.5, 2)).set("h", join({q(0.5, 1.5), q(0.5, 1.5)}));
        if (r.chance(1, 3)) f.set("iso", join({q(50000, 200000), q(0.1, 0.4)}));
        else { double c44 = q(30000, 90000), c12 = q(60000, 120000); f.set("cub", join({c12 + q(30000, 90000), c12, c44})); }
    }
    Item& m = s.add("micro");
    m.set("type", (double)(nph == 2 ? r.below(3) : r.below(2))).set("seed", (double)r.below(100000)).set("grains", (double)r.range(1, 6)).set("unit", (double)r.below(2));
    if (app_is("LSNP-EVPFFT")) {
        Item& l = s.add("frame");
        bool on = r.chance(2, 3);
        std::vector<double> dn;
        for (int k = 0; k < 3; k++) { int m = (n[k] - 1) / 2; dn.push_back(on ? (double)r.below((uint64_t)std::min(m, 2) + 1) : 0.0); }
        l.set("dn", join(dn)).set("igamma", (double)r.below(2)).set("xc0", r.chance(1, 2) ? 1.0 : q(0.8, 1.5)).set("ibc", (double)r.chance(1, 3)).set("c", q(0.1, 1)).set("out", (double)r.range(1, 2));
        if (on) m.set("type", 0.0);
    }
    Item& b = s.add("bc");
    std::vector<double> u;
    double rate = r.chance(1, 2) ? 1.0 : q(0.1, 2);
    for (int k = 0; k < 9; k++) u.push_back(r.chance(1, 2) || k % 4 == 0 ? strtod(snum(rate * q(-1, 1)).c_str(), nullptr) : 0.0);
    if (u[0] == 0 && u[4] == 0 && u[8] == 0) u[0] = rate;
    b.set("u", join(u));
    b.set("kind", (double)(g.strain_only ? 0 : r.below(5))).set("axis", (double)r.below(3));
    if (r.chance(1, 2)) b.set("s", join({q(-20, 20), q(-20, 20), q(-20, 20), q(-10, 10), q(-10, 10), q(-10, 10)}));
    Item& c = s.add("run");
    c.set("dt", r.chance(1, 2) ? q(0.00001, 0.0001) : q(0.0001, 0.001)).set("steps", (double)r.range(1, g.max_steps)).set("itmax", (double)r.range(1, g.itmax));
    c.set("ictrl", r.chance(1, 4) ? "0" : "-1");
    c.set("update", (double)(g.update >= 0 ? g.update : (int)r.below(2))).set("hard", (double)r.below(2)).set("tex", (double)r.below(2));
    c.set("fields", (double)(g.fields ? !r.chance(1, 5) : 0)).set("wstep", (double)r.range(1, 2));
    return s;
}
inline Prob problem(const Scen& s) {
    Prob p;
    auto n = s.find("grid")->v("n"), d = s.find("grid")->v("d");
    for (int k = 0; k < 3; k++) { p.n[k] = (int)n[k]; p.d[k] = d[k]; }
    for (auto* f : s.all("phase")) {
        Phase h;
        h.gas = (int)f->l("gas");
        if (!h.gas) {
            h.cry = f->str("cry"); h.cdim[2] = f->d("ca", 1);
            auto fam = f->v("fam"), tau = f->v("tau"), th = f->v("thet"), hh = f->v("h");
            int lab = 1;
            for (double w : fam) {
                Mode m;
                m.label = lab++; m.nrs = (int)f->l("nrs"); m.gamd0 = f->d("gamd0", 1); m.tau0f = tau[0] * (1 + 0.25 * (m.label - 1)); m.tau0b = tau[1]; m.tau1 = f->d("tau1");
                m.thet0 = std::max(th[0], th[1]); m.thet1 = std::min(th[0], th[1]); m.hself = hh[0];
                for (size_t k = 0; k < fam.size(); k++) m.hlat.push_back(hh[1] + 0.125 * (double)k + 0.0625 * (m.label - 1));
                m.sys = family((int)w);
                h.modes.push_back(m);
                if (!(f->has("skip") && f->l("skip") == m.label - 1)) h.used.push_back(m.label);
            }
            memset(h.C, 0, sizeof h.C);
            if (f->has("iso")) { auto e = f->v("iso"); h.iso = true; h.E = e[0]; h.nu = e[1]; double mu = e[0] / (2 * (1 + e[1])), la = 2 * mu * e[1] / (1 - 2 * e[1]); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) h.C[i][j] = la + (i == j ? 2 * mu : 0); h.C[i + 3][i + 3] = mu; } }
            else { auto c = f->v("cub"); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) h.C[i][j] = i == j ? c[0] : c[1]; h.C[i + 3][i + 3] = c[2]; } }
        }
        p.ph.push_back(h);
    }
    if (const Item* l = s.find("frame")) {
        auto dn = l->v("dn");
        for (int k = 0; k < 3; k++) p.dn[k] = (int)dn[k];
        p.igamma = (int)l->l("igamma"); p.ibc = (int)l->l("ibc"); p.xc0 = l->d("xc0", 1); p.frame_c = l->d("c", 1); p.itmax_out = (int)l->l("out", 1);
    }
    const Item* m = s.find("micro");
    p.mtype = (int)m->l("type"); p.unit = (int)m->l("unit");
    Rng r((uint64_t)m->l("seed") * 7919 + 11);
    int ng = (int)m->l("grains", 1);
    std::vector<std::array<double, 3>> ge; std::vector<int> gp;
    for (int k = 0; k < ng; k++) { ge.push_back({(double)r.range(0, 359999) / 1000, (double)r.range(0, 180000) / 1000, (double)r.range(0, 359999) / 1000}); gp.push_back(1 + (int)r.below(p.ph.size())); }
    if (p.ph[0].gas == 0) gp[0] = 1;
    bool any = false;
    for (size_t c = 0; c < p.cells(); c++) {
        int g = (int)r.below((uint64_t)ng);
        if (p.mtype == 2) { int v = (int)r.below(p.ph.size()); if (!any && c + 1 == p.cells()) v = 0; any |= v == 0; p.eul.push_back({0, 0, 0}); p.grain.push_back(v + 1); p.phase.push_back(v + 1); }
        else { if (c + 1 == p.cells() && !any) g = 0; any |= gp[g] == 1; p.eul.push_back(ge[g]); p.grain.push_back(g + 1 + (int)m->l("goff")); p.phase.push_back(gp[g]); }
    }
    const Item* b = s.find("bc");
    auto u = b->v("u");
    for (int k = 0; k < 9; k++) { p.udot[k] = u[k]; p.iudot[k] = 1; }
    int kind = p.ibc ? 0 : (int)b->l("kind"), ax = (int)b->l("axis");
    auto sc = b->has("s") ? b->v("s") : std::vector<double>(6, 0.0);
    if (kind == 1 || kind == 3) for (int k = 0; k < 3; k++) if (k != ax) p.iudot[4 * k] = 0;
    if (kind == 4) for (int k = 0; k < 3; k++) p.iudot[4 * k] = 0;
    if (kind == 2 || kind == 3 || kind == 4) { p.iudot[3] = 0; if (ax != 0) p.iudot[2] = 0; if (ax == 2) p.iudot[7] = 0; }   // 21, 13, 32
    static const int vo[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
    for (int k = 0; k < 6; k++) {
        int i = vo[k][0], j = vo[k][1];
        bool known = p.iudot[3 * i + j] && p.iudot[3 * j + i];
        p.iscau[k] = !known; p.scau[k] = known ? 0 : sc[k];
    }
    const Item* c = s.find("run");
    p.dt = c->d("dt", 1e-4); p.ictrl = (int)c->l("ictrl", -1); p.nsteps = (int)c->l("steps", 1); p.itmax = (int)c->l("itmax", 3); p.err = c->d("err", 1e-30);
    p.iupdate = (int)c->l("update"); p.iuphard = (int)c->l("hard"); p.iwtex = (int)c->l("tex"); p.iwfields = (int)c->l("fields"); p.iwstep = (int)c->l("wstep", 1);
    return p;
}
// ---- input files
inline std::string plastic_text(const Phase& f) {
    std::string o = "SLIP_SYSTEMS of the phase\n" + f.cry + "   icryst\n";
    for (int k = 0; k < 3; k++) o += " " + num(f.cdim[k]);
    o += "   crystal axes\n" + std::to_string(f.modes.size()) + "   nmodesx\n" + std::to_string(f.used.size()) + "   nmodes\n";
    for (int u : f.used) o += " " + std::to_string(u);
    o += "   mode(i)\n";
    for (auto& m : f.modes) {
        o += "MODE_" + std::to_string(m.label) + " comment\n";
        o += " " + std::to_string(m.label) + " " + std::to_string(m.sys.size()) + " " + std::to_string(m.nrs) + " " + num(m.gamd0) + " " + num(m.twsh) + " " + std::to_string(m.isectw) + "   modex,nsmx\n";
        o += " " + num(m.tau0f) + " " + num(m.tau0b) + " " + num(m.tau1) + " " + num(m.thet0) + " " + num(m.thet1) + "  tau0xf\n " + num(m.hself);
        for (double h : m.hlat) o += " " + num(h);
        o += "   hselfx,hlatex\n";
        for (auto& s : m.sys) { for (int v : s) o += " " + std::to_string(v); o += "  SLIP\n"; }
    }
    return o;
}
inline std::string elastic_text(const Phase& f) {
    std::string o;
    if (f.iso) return "1   ISO\n " + num(f.E) + " " + num(f.nu) + "   YOUNG NU\n";
    o = "0\n";
    for (int i = 0; i < 6; i++) { for (int j = 0; j < 6; j++) o += " " + num(f.C[i][j]); o += "  C\n"; }
    return o;
}
inline std::string raw(const void* p, size_t n) { return std::string((const char*)p, n); }
inline std::string micro_text(const Prob& p) {
    std::string o;
    if (p.mtype == 0) {
        size_t c = 0;
        for (int k = 1; k <= p.n[2]; k++) for (int j = 1; j <= p.n[1]; j++) for (int i = 1; i <= p.n[0]; i++, c++) {
            if (p.frame(c)) continue;
            for (int a = 0; a < 3; a++) o += num(p.eul[c][a]) + " ";
            o += std::to_string(i) + " " + std::to_string(j) + " " + std::to_string(k) + " " + std::to_string(p.grain[c]) + " " + std::to_string(p.phase[c]) + "\n";
        }
    } else if (p.mtype == 1) {
        o = "SIMH5\n";
        std::string dims = std::to_string(p.n[2]) + " " + std::to_string(p.n[1]) + " " + std::to_string(p.n[0]);
        o += "/C/Euler\n13 4 " + dims + " 3\n";
        for (auto& e : p.eul) for (double v : e) { double x = p.unit == 1 ? v * M_PI / 180.0 : v; o += raw(&x, 8); }
        o += "/C/Feature\n11 3 " + dims + "\n";
        o += raw(p.grain.data(), 4 * p.grain.size());
        o += "/C/Phase\n11 4 " + dims + " 1\n";
        o += raw(p.phase.data(), 4 * p.phase.size());
    } else {
        o = "# vtk DataFile Version 3.0\nlattice\nASCII\nDATASET STRUCTURED_POINTS\nDIMENSIONS " + std::to_string(p.n[0]) + " " + std::to_string(p.n[1]) + " " + std::to_string(p.n[2]) + "\nSCALARS density float 1\nLOOKUP_TABLE default\n";
        for (size_t c = 0; c < p.cells(); c++) o += std::to_string(p.phase[c] - 1) + ((c + 1) % (size_t)p.n[0] ? " " : "\n");
    }
    return o;
}
inline std::string input_text(const Prob& p) {
    size_t nsys = 1, nmod = 1;
    for (auto& f : p.ph) { size_t a = 0; for (auto& m : f.modes) a += m.sys.size(); nsys = std::max(nsys, a); nmod = std::max(nmod, f.modes.size()); }
    std::string o = std::to_string(p.ph.size()) + " " + std::to_string(nmod) + " 1 " + std::to_string(nsys) + "   NPHMX, NMODMX, NTWMMX, NSYSMX\n";
    o += std::to_string(p.n[0]) + " " + std::to_string(p.n[1]) + " " + std::to_string(p.n[2]) + "   dims\n";
    if (app_is("LSNP-EVPFFT")) o += std::to_string(p.dn[0]) + " " + std::to_string(p.dn[1]) + " " + std::to_string(p.dn[2]) + "   frame\n";
    o += std::to_string(p.ph.size()) + "  nph\n";
    o += num(p.d[0]) + " " + num(p.d[1]) + " " + num(p.d[2]) + "  delt\n* name of microstructure file\nmicro.txt\n";
    for (size_t k = 0; k < p.ph.size(); k++) {
        std::string t = std::to_string(k + 1);
        o += "*INFORMATION ABOUT PHASE\n" + std::to_string(p.ph[k].gas) + "  igas\n* names of single crystal files\n" + (p.ph[k].gas ? "dummy\ndummy\n" : "plastic" + t + ".txt\nelastic" + t + ".txt\n");
    }
    if (app_is("LSNP-EVPFFT")) o += "* Green's operator\n" + std::to_string(p.igamma) + "  igamma\n* Scaling of C0\n" + num(p.xc0) + "  xc0\n";
    o += "*INFORMATION ABOUT TEST CONDITIONS\n* boundary conditions\n";
    if (app_is("LSNP-EVPFFT")) o += std::to_string(p.ibc) + "  ibc\n";
    for (int i = 0; i < 3; i++) o += " " + std::to_string(p.iudot[3 * i]) + " " + std::to_string(p.iudot[3 * i + 1]) + " " + std::to_string(p.iudot[3 * i + 2]) + "  iudot |\n";
    o += "    |\n";
    for (int i = 0; i < 3; i++) o += " " + num(p.udot[3 * i]) + " " + num(p.udot[3 * i + 1]) + " " + num(p.udot[3 * i + 2]) + "  udot |\n";
    auto I = [&](int k) { return std::to_string(p.iscau[k - 1]); };
    auto S = [&](int k) { return num(p.scau[k - 1]); };
    o += "    |\n " + I(1) + " " + I(6) + " " + I(5) + "  iscau\n   " + I(2) + " " + I(4) + "\n      " + I(3) + "\n    |\n";
    o += " " + S(1) + " " + S(6) + " " + S(5) + "  scauchy\n  " + S(2) + " " + S(4) + "\n    " + S(3) + " @\n";
    if (p.ibc) o += num(p.frame_c) + "  frame_c\n1.25 10.0  mult_incr\n1.0e-3 1 " + std::to_string(p.itmax_out) + "  error_bc\n";
    o += "* other\n";
    o += num(p.dt) + "  eqincr\n" + std::to_string(p.ictrl) + "  ictrl\n*INFORMATION ABOUT RUN CONDITIONS\n" + std::to_string(p.nsteps) + "  nsteps\n" + num(p.err) + "  err\n" + std::to_string(p.itmax) + "  itmax\n";
    o += std::to_string(p.irecover) + "  IRECOVER\n" + std::to_string(p.isave) + "  ISAVE\n" + std::to_string(p.iupdate) + "  IUPDATE\n" + std::to_string(p.iuphard) + "  IUPHARD\n" + std::to_string(p.iwtex) + "  IWTEX\n";
    o += std::to_string(p.iwfields) + " " + std::to_string(p.iwstep) + "  IWFIELDS,IWSTEP\n0  ITHERMO\ndummy\n";
    return o;
}
inline std::map<std::string, std::string> files(const Prob& p) {
    std::map<std::string, std::string> f;
    f["in.txt"] = input_text(p);
    f["micro.txt"] = micro_text(p);
    for (size_t k = 0; k < p.ph.size(); k++) if (!p.ph[k].gas) { std::string t = std::to_string(k + 1); f["plastic" + t + ".txt"] = plastic_text(p.ph[k]); f["elastic" + t + ".txt"] = elastic_text(p.ph[k]); }
    return f;
}
inline std::vector<std::string> args(const Prob& p) {
    std::vector<std::string> a{"-f", "in.txt", "-m", std::to_string(p.mtype)};
    if (p.mtype == 1) for (auto* x : {"-e", "/C/Euler", "-g", "/C/Feature", "-p", "/C/Phase", "-u"}) a.push_back(x);
    if (p.mtype == 1) a.push_back(std::to_string(p.unit));
    return a;
}
// ---- outputs
struct Table { std::string header; std::vector<std::vector<double>> rows; bool ok = true; std::string why; };
inline Table table(const std::string& t, size_t cols) {
    Table r;
    size_t p = 0;
    bool first = true;
    while (p < t.size()) {
        size_t e = t.find('\n', p);
        if (e == std::string::npos) { r.ok = false; r.why = "last line is cut"; break; }
        std::string l = t.substr(p, e - p);
        p = e + 1;
        if (first) { r.header = l; first = false; continue; }
        std::vector<double> v;
        const char* c = l.c_str();
        while (*c) { char* q; double x = strtod(c, &q); if (q == c) { r.ok = false; r.why = "not a number in: " + l; return r; } v.push_back(x); c = q; if (*c == ',') c++; else if (*c) { r.ok = false; r.why = "unexpected text in: " + l; return r; } }
        if (v.size() != cols) { r.ok = false; r.why = "row with " + std::to_string(v.size()) + " values: " + l; return r; }
        r.rows.push_back(v);
    }
    if (first) { r.ok = false; r.why = "no header"; }
    return r;
}
struct Block { std::string type; int comps = 1; std::string data; std::vector<double> v; };
struct Vtu { bool ok = true; std::string why; long points = -1, cells = -1; std::map<std::string, Block> b; std::vector<std::string> pieces; };
inline std::string attr(const std::string& l, const std::string& k) { size_t a = l.find(" " + k + "=\""); if (a == std::string::npos) return ""; a += k.size() + 3; size_t e = l.find('"', a); return l.substr(a, e - a); }
inline Vtu vtu(const std::string& t) {
    Vtu r;
    auto bad = [&](const std::string& w) { if (r.ok) { r.ok = false; r.why = w; } return r; };
    size_t ap = t.find("<AppendedData encoding=\"raw\">\n_");
    if (ap == std::string::npos) return bad("no appended data");
    size_t base = ap + strlen("<AppendedData encoding=\"raw\">\n_");
    size_t p = 0;
    std::vector<std::pair<size_t, size_t>> used;
    while (p < ap) {
        size_t e = t.find('\n', p);
        std::string l = t.substr(p, e - p);
        p = e + 1;
        if (l.rfind("<Piece ", 0) == 0) {
            if (!attr(l, "Source").empty()) r.pieces.push_back(attr(l, "Source"));
            else { r.points = strtol(attr(l, "NumberOfPoints").c_str(), nullptr, 10); r.cells = strtol(attr(l, "NumberOfCells").c_str(), nullptr, 10); }
        }
        if (l.rfind("<DataArray ", 0) == 0) {
            Block b;
            b.type = attr(l, "type");
            if (!attr(l, "NumberOfComponents").empty()) b.comps = atoi(attr(l, "NumberOfComponents").c_str());
            size_t off = strtoul(attr(l, "offset").c_str(), nullptr, 10);
            uint64_t n;
            if (base + off + 8 > t.size()) return bad("block of " + attr(l, "Name") + " lies beyond the end of the file");
            memcpy(&n, t.data() + base + off, 8);
            if (n > t.size() || base + off + 8 + n > t.size()) return bad("block of " + attr(l, "Name") + " is cut");
            b.data = t.substr(base + off + 8, n);
            used.push_back({off, off + 8 + n});
            size_t w = b.type == "Float64" ? 8 : b.type == "UInt8" ? 1 : 4;
            if (n % w) return bad("block of " + attr(l, "Name") + " is no whole number of values");
            for (size_t k = 0; k < n; k += w) {
                if (w == 8) { double x; memcpy(&x, &b.data[k], 8); b.v.push_back(x); }
                else if (w == 1) b.v.push_back((unsigned char)b.data[k]);
                else { int x; memcpy(&x, &b.data[k], 4); b.v.push_back(x); }
            }
            r.b[attr(l, "Name")] = b;
        }
    }
    size_t end = 0;
    for (auto& u : used) { if (u.first != end) return bad("blocks are not back to back"); end = u.second; }
    static const std::string tail = "\n</AppendedData>\n</VTKFile>\n";
    if (t.substr(base + end) != tail) return bad("the text after the blocks is not the end of the document");
    return r;
}
inline std::string tag5(long v) { char t[16]; snprintf(t, sizeof t, "%05ld", v); return t; }
// The fields of one output step put together from all pieces, in global voxel order (x fastest).
struct Box { int lo[3], n[3]; };
struct Fields {
    bool ok = true;
    std::string why;
    double time = 0;
    std::vector<Box> box;                                 // the part of the grid each piece covers
    std::map<std::string, std::vector<double>> f;         // per voxel, comps values each
    std::map<std::string, int> comps;
    std::vector<double> points;                           // per grid point, x fastest
    double at(const std::string& k, size_t c, int i) const { auto& v = f.at(k); return v[c * (size_t)comps.at(k) + (size_t)i]; }
};
inline Fields fields(const Prob& p, const std::map<std::string, std::string>& fs, int step, int ranks, const std::vector<Box>* known = nullptr) {
    Fields o;
    auto bad = [&](const std::string& w) { if (o.ok) { o.ok = false; o.why = w; } return o; };
    std::string base = "MicroState_" + tag5(step);
    auto it = fs.find("pvtu/" + base + ".pvtu");
    if (it == fs.end()) return bad("no " + base + ".pvtu");
    Vtu head = vtu(it->second);
    if (!head.ok) return bad("pvtu file: " + head.why);
    if (!head.b.count("TimeValue") || head.b["TimeValue"].v.size() != 1) return bad("pvtu file has no time");
    o.time = head.b["TimeValue"].v[0];
    if ((int)head.pieces.size() != ranks) return bad("pvtu file lists " + std::to_string(head.pieces.size()) + " pieces for " + std::to_string(ranks) + " ranks");
    const int* n = p.n;
    std::vector<char> seen(p.cells(), 0);
    o.points.assign((size_t)(n[0] + 1) * (n[1] + 1) * (n[2] + 1) * 3, NAN);
    for (int k = 0; k < ranks; k++) {
        std::string want = base + "/" + base + "_" + tag5(k) + ".vtu";
        if (head.pieces[k] != want) return bad("pvtu file lists a piece " + head.pieces[k]);
        auto f = fs.find("pvtu/" + want);
        if (f == fs.end()) return bad("a listed piece does not exist");
        Vtu v = vtu(f->second);
        if (!v.ok) return bad("piece: " + v.why);
        if (!v.b.count("TimeValue") || v.b["TimeValue"].v.size() != 1 || v.b["TimeValue"].v[0] != o.time) return bad("the time of a piece is not the one of the pvtu file");
        auto& pt = v.b["Points"].v;
        if (v.cells < 0 || v.points < 0 || (long)pt.size() != v.points * 3) return bad("the points of a piece are not complete");
        Box b;
        if (known) b = (*known)[k];
        else {
            int hi[3];
            for (int a = 0; a < 3; a++) { b.lo[a] = (int)lround(pt[a] / p.d[a] - 0.5) + p.dn[a]; hi[a] = (int)lround(pt[pt.size() - 3 + a] / p.d[a] - 0.5) + p.dn[a]; b.n[a] = hi[a] - b.lo[a]; }
        }
        o.box.push_back(b);
        for (int a = 0; a < 3; a++) if (b.lo[a] < 0 || b.n[a] < 1 || b.lo[a] + b.n[a] > n[a]) return bad("a piece lies outside of the grid");
        if ((long)b.n[0] * b.n[1] * b.n[2] != v.cells || (long)(b.n[0] + 1) * (b.n[1] + 1) * (b.n[2] + 1) != v.points) return bad("the counts of a piece do not match its extent");
        for (auto& e : v.b) {
            const std::string& nm = e.first;
            if (nm == "TimeValue") continue;
            long cnt = nm == "Points" ? v.points : v.cells;
            long c = nm == "Points" ? 3 : nm == "connectivity" ? 8 : e.second.comps;
            if ((long)e.second.v.size() != cnt * c) return bad("array " + nm + " of a piece is not complete");
            if (nm == "Points" || nm == "connectivity" || nm == "offsets" || nm == "types") continue;
            o.comps[nm] = (int)c;
            o.f[nm].resize(p.cells() * (size_t)c, NAN);
        }
        long q = 0;
        auto pid = [&](int i, int j, int kk) { return (double)(i + (b.n[0] + 1) * (j + (long)(b.n[1] + 1) * kk)); };
        for (int z = 0; z < b.n[2]; z++) for (int y = 0; y < b.n[1]; y++) for (int x = 0; x < b.n[0]; x++, q++) {
            size_t g = (size_t)(b.lo[0] + x) + (size_t)n[0] * ((size_t)(b.lo[1] + y) + (size_t)n[1] * (size_t)(b.lo[2] + z));
            if (seen[g]++) return bad("two pieces cover the same voxel");
            for (auto& e : o.comps) for (int c = 0; c < e.second; c++) { auto& v2 = v.b[e.first].v; if (v2.empty()) return bad("array " + e.first + " is missing in a piece"); o.f[e.first][g * (size_t)e.second + c] = v2[(size_t)q * e.second + c]; }
            const double* cn = &v.b["connectivity"].v[(size_t)q * 8];
            const double w[8] = {pid(x, y, z), pid(x + 1, y, z), pid(x + 1, y + 1, z), pid(x, y + 1, z), pid(x, y, z + 1), pid(x + 1, y, z + 1), pid(x + 1, y + 1, z + 1), pid(x, y + 1, z + 1)};
            for (int c = 0; c < 8; c++) if (cn[c] != w[c]) return bad("the corners of a cell are not those of its voxel");
            if (v.b["offsets"].v[(size_t)q] != 8.0 * (q + 1) || v.b["types"].v[(size_t)q] != 12) return bad("cell offset or type");
        }
        q = 0;
        for (int z = 0; z <= b.n[2]; z++) for (int y = 0; y <= b.n[1]; y++) for (int x = 0; x <= b.n[0]; x++, q++)
            for (int c = 0; c < 3; c++) {
                double& g = o.points[3 * ((size_t)(b.lo[0] + x) + (size_t)(n[0] + 1) * ((size_t)(b.lo[1] + y) + (size_t)(n[1] + 1) * (size_t)(b.lo[2] + z))) + c];
                if (!std::isnan(g) && std::fabs(g - pt[(size_t)q * 3 + c]) > 1e-9 * (std::fabs(g) + 1)) return bad("pieces disagree about a common point");
                g = pt[(size_t)q * 3 + c];
            }
    }
    for (char c : seen) if (!c) return bad("the pieces do not cover the grid");
    return o;
}
// Everything a finished run reports.
struct Report {
    bool ok = true;
    std::string why;
    Table vm, ss, err;
    std::map<int, Fields> steps;
    std::string tex, conv;
};
inline Report report(const Prob& p, const std::map<std::string, std::string>& fs, int ranks) {
    Report r;
    auto bad = [&](const std::string& w) { if (r.ok) { r.ok = false; r.why = w; } return r; };
    auto get = [&](const char* n) { auto i = fs.find(n); return i == fs.end() ? std::string() : i->second; };
    r.vm = table(get("vm.out"), 6); if (!r.vm.ok) return bad("vm.out: " + r.vm.why);
    r.ss = table(get("str_str.out"), 35); if (!r.ss.ok) return bad("str_str.out: " + r.ss.why);
    r.err = table(get("err.out"), app_is("LSNP-EVPFFT") ? 7 : 6); if (!r.err.ok) return bad("err.out: " + r.err.why);
    if (r.vm.rows.size() != (size_t)p.nsteps) return bad("vm.out has " + std::to_string(r.vm.rows.size()) + " rows for " + std::to_string(p.nsteps) + " steps");
    if (r.ss.rows.size() != (size_t)p.nsteps) return bad("str_str.out has " + std::to_string(r.ss.rows.size()) + " rows for " + std::to_string(p.nsteps) + " steps");
    r.tex = get("tex.out"); r.conv = get("conv.out");
    if (p.iwtex && r.tex.empty()) return bad("tex.out is missing");
    if (p.iwfields) {
        r.steps[0] = fields(p, fs, 0, ranks);
        if (!r.steps[0].ok) return bad("step 0: " + r.steps[0].why);
        for (int k = p.iwstep; k <= p.nsteps; k += p.iwstep) { r.steps[k] = fields(p, fs, k, ranks, &r.steps[0].box); if (!r.steps[k].ok) return bad("output step: " + r.steps[k].why); }
    }
    return r;
}

inline bool app_vtu() { return !app_is("LS-EVPFFT-J2"); }
inline Report report_of(const Prob& p, const evp::Result& r, int ranks) {
    Prob q = p;
    if (!app_vtu()) q.iwfields = 0;
    Report R = report(q, r.files, ranks);
    if (R.ok && !app_vtu() && p.iwfields) {   // fields live in the HDF5 file
        auto i = r.files.find("micro_state_evpfft.h5");
        if (i == r.files.end() || i->second.rfind("SIMH5\n", 0) != 0) { R.ok = false; R.why = "no HDF5 file"; return R; }
        const std::string& t = i->second;
        size_t at = 6;
        while (at < t.size()) {
            size_t e = t.find('\n', at), e2 = t.find('\n', e + 1);
            std::string nm = t.substr(at, e - at);
            auto w = dst::words(t.substr(e + 1, e2 - e - 1));
            size_t ty = (size_t)atoi(w[0].c_str()), n = 1;
            for (size_t k = 2; k < w.size(); k++) n *= strtoul(w[k].c_str(), nullptr, 10);
            size_t sz = ty == 11 || ty == 12 ? 4 : 8;
            int step = atoi(nm.c_str() + strlen("/TimeStep_"));
            auto& F = R.steps[step];
            std::string key = nm.substr(nm.rfind('/') + 1);
            F.comps[key] = 1;
            if (n != p.cells()) { R.ok = false; R.why = "data set " + key + " does not cover the grid"; return R; }
            for (size_t k = 0; k < n; k++) {
                if (ty == 11) { int x; memcpy(&x, &t[e2 + 1 + 4 * k], 4); F.f[key].push_back(x); }
                else if (ty == 12) { float x; memcpy(&x, &t[e2 + 1 + 4 * k], 4); F.f[key].push_back(x); }
                else { double x; memcpy(&x, &t[e2 + 1 + 8 * k], 8); F.f[key].push_back(x); }
            }
            at = e2 + 1 + n * sz;
        }
        for (int k = p.iwstep; k <= p.nsteps; k += p.iwstep) if (!R.steps.count(k)) { R.ok = false; R.why = "an output step is missing in the HDF5 file"; }
    }
    return R;
}
// Are two reports of the same problem the same, up to the rounding of sums taken in another order?
inline bool close_to(double a, double b, double rel, double abs) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs; }
inline std::string tex_diff(const std::string& a, const std::string& b, bool exact) {
    if (a == b) return "";
    if (exact) {
        size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
        size_t l = a.rfind('\n', i ? i - 1 : 0); l = l == std::string::npos ? 0 : l + 1;
        return "tex.out differs | " + a.substr(l, a.find('\n', i) - l) + " | " + (l < b.size() ? b.substr(l, b.find('\n', std::min(i, b.size() - 1)) - l) : std::string());
    }
    auto lines = [](const std::string& t) { std::vector<std::string> r; size_t p = 0; while (p < t.size()) { size_t e = t.find('\n', p); if (e == std::string::npos) e = t.size(); r.push_back(t.substr(p, e - p)); p = e + 1; } return r; };
    auto x = lines(a), y = lines(b);
    if (x.size() != y.size()) return "tex.out has another number of lines | " + std::to_string(x.size()) + " " + std::to_string(y.size());
    for (size_t k = 0; k < x.size(); k++) {
        if (x[k] == y[k]) continue;
        auto u = dst::words(x[k]), v = dst::words(y[k]);
        if (k < 3) { if (k == 2 && u.size() == v.size()) { bool ok = true; for (size_t i = 0; i < u.size(); i++) ok = ok && std::fabs(atof(u[i].c_str()) - atof(v[i].c_str())) <= 0.00101; if (ok) continue; } return "tex.out header differs | " + x[k] + " | " + y[k]; }
        if (k == 3 || u.size() != v.size() || u.size() != 9) return "tex.out differs | " + x[k] + " | " + y[k];
        for (size_t i = 4; i < 9; i++) if (u[i] != v[i]) return "tex.out differs | " + x[k] + " | " + y[k];
        double R[2][9];
        for (int s = 0; s < 2; s++) {
            auto& w = s ? v : u;
            double p1 = atof(w[0].c_str()) * M_PI / 180, P = atof(w[1].c_str()) * M_PI / 180, p2 = atof(w[2].c_str()) * M_PI / 180;
            double c1 = cos(p1), s1 = sin(p1), c2 = cos(p2), s2 = sin(p2), C = cos(P), S = sin(P);
            double g[9] = {c1 * c2 - s1 * s2 * C, s1 * c2 + c1 * s2 * C, s2 * S, -c1 * s2 - s1 * c2 * C, -s1 * s2 + c1 * c2 * C, c2 * S, s1 * S, -c1 * S, C};
            memcpy(R[s], g, sizeof g);
        }
        for (int i = 0; i < 9; i++) if (std::fabs(R[0][i] - R[1][i]) > 1e-3) return "tex.out orientation differs | " + x[k] + " | " + y[k];
    }
    return "";
}
inline std::string report_diff(const Prob& p, const Report& a, const Report& b, double tol = 1e-6) {
    static const char* grp[] = {"strain", "stress", "plastic strain", "strain rate", "plastic strain rate", "equivalent values"};
    double sc[6] = {0, 0, 0, 0, 0, 0};
    for (auto& r : a.ss.rows) for (size_t i = 0; i < r.size(); i++) if (std::isfinite(r[i])) sc[i < 30 ? i / 6 : 5] = std::max(sc[i < 30 ? i / 6 : 5], std::fabs(r[i]));
    for (size_t k = 0; k < a.ss.rows.size(); k++)
        for (size_t i = 0; i < 35; i++) {
            int g = i < 30 ? (int)i / 6 : 5;
            double s = i < 30 ? sc[g] : std::fabs(a.ss.rows[k][i]);
            if (!close_to(a.ss.rows[k][i], b.ss.rows[k][i], 1.01e-4 + tol, tol * 10 * s + 1e-13)) return std::string("macroscopic ") + grp[g] + " differs | step " + std::to_string(k + 1) + " column " + std::to_string(i + 1) + ": " + num(a.ss.rows[k][i]) + " / " + num(b.ss.rows[k][i]);
        }
    static const char* vmn[] = {"EVM", "EVMP", "DVM", "DVMP", "SVM", "SVM1"};
    for (size_t k = 0; k < a.vm.rows.size(); k++)
        for (size_t i = 0; i < 6; i++) if (!close_to(a.vm.rows[k][i], b.vm.rows[k][i], 1.01e-4 + 10 * tol, 1e-13 + (i >= 4 ? 1e-7 * sc[1] : 0))) return std::string("vm.out: ") + vmn[i] + " differs | step " + std::to_string(k + 1) + ": " + num(a.vm.rows[k][i]) + " / " + num(b.vm.rows[k][i]);
    if (a.err.rows.size() != b.err.rows.size()) return "another number of iterations | " + std::to_string(a.err.rows.size()) + " / " + std::to_string(b.err.rows.size());
    for (auto& s : a.steps) {
        auto i = b.steps.find(s.first);
        if (i == b.steps.end()) return "an output step is missing | " + std::to_string(s.first);
        auto &x = s.second, &y = i->second;
        if (!close_to(x.time, y.time, 1e-12, 0)) return "time of an output step differs | " + num(x.time) + " / " + num(y.time);
        for (auto& f : x.f) {
            if (f.first == "rank") continue;
            if (f.first == "IPFColor" && (p.iupdate || app_is("LS-EVPFFT"))) continue;   // the colour jumps where crystal directions tie
            if (!y.f.count(f.first)) return "array " + f.first + " is missing |";
            auto& v = f.second; auto& w = y.f.at(f.first);
            double m = 0;
            for (double q : v) if (std::isfinite(q)) m = std::max(m, std::fabs(q));
            if (f.first.rfind("vm-", 0) == 0 && x.f.count(f.first.substr(3))) for (double q : x.f.at(f.first.substr(3))) if (std::isfinite(q)) m = std::max(m, std::fabs(q));
            bool ids = f.first.find("_id") != std::string::npos;
            for (size_t c = 0; c < v.size(); c++) if (!close_to(v[c], w[c], 0, ids ? 0 : f.first == "IPFColor" ? 1.0 : tol * m + 1e-14)) return "field " + f.first + " differs | step " + std::to_string(s.first) + " voxel " + std::to_string(c / (size_t)x.comps.at(f.first)) + ": " + num(v[c]) + " / " + num(w[c]) + " scale " + num(m);
        }
        for (size_t c = 0; c < x.points.size(); c++) if (!close_to(x.points[c], y.points[c], 0, tol * 10)) return "points differ | step " + std::to_string(s.first) + " " + num(x.points[c]) + " / " + num(y.points[c]);
    }
    return tex_diff(a.tex, b.tex, !p.iupdate && app_is("EVPFFT"));
}
inline void need_same(const char* what, const Prob& p, const Report& a, const Report& b, double tol = 1e-6) {
    std::string d = report_diff(p, a, b, tol);
    if (d.empty()) return;
    size_t k = d.find('|');
    dst::fail(std::string(what) + ": " + (k == std::string::npos ? d : d.substr(0, k - 1)), d);
}
// Is the run well enough behaved to be compared? (an iteration that does not converge amplifies rounding)
inline bool calm(const Report& r, double margin = 1) {
    for (auto& e : r.err.rows) for (double x : e) if (!std::isfinite(x)) return false;
    for (auto& e : r.err.rows) if (e.back() > 40 * margin || e[3] > 1e3 * margin || e[2] > 1e6 * margin) return false;
    for (auto& e : r.ss.rows) for (double x : e) if (!std::isfinite(x)) return false;
    return true;
}
inline void account(dst::Ctx& c, const evp::Result& r) {
    c.steps += r.steps;
    c.ops["kernel"] += r.kernels; c.ops["rank switch"] += r.switches; c.ops["collective"] += r.collectives;
    if (r.permuted) c.faults["kernel order permuted"] += r.permuted;
    for (auto& f : r.fired) c.faults[f]++;
    if (r.crashed) c.faults["rank killed"]++;
    c.state(r.order_hash);
    c.observe("switches " + std::to_string(r.order_hash));
}
inline void oracle(const evp::Result& r) { if (r.how == evp::Result::oracle) dst::fail(r.what, r.detail); }
}  // namespace esc
