// C41, C42: the thermal solver and the level-set solver follow their schemes. From the state at one output an
// independent implementation, written from the equations, advances to the next; both must arrive at the same state.
#include <algorithm>
#include "any.hpp"
#include "ref.hpp"
using namespace scen;
namespace {
typedef std::vector<double> V;
// ---- a box of hexahedra whose nodes are moved, boundary nodes only within their boundary planes
void jittered(G& g, Rng& r, double amount) {
    Item& m = *g.s.find("mesh");
    m.kv.clear();
    m.set("source", "file").set("num_dims", "3").set("file_path", "m.vtk").set("_jit", std::to_string(r.below(1u << 20))).set("_amount", amount);
    m.set("_n", join({(double)g.n[0], (double)g.n[1], (double)g.n[2]})).set("_o", join({g.o[0], g.o[1], g.o[2]})).set("_l", join({g.l[0], g.l[1], g.l[2]}));
}
std::string vtk_jittered(const Item& m) {
    auto n = m.v("_n"), o = m.v("_o"), l = m.v("_l");
    n.resize(3, 1); o.resize(3); l.resize(3, 1);
    size_t N[3] = {(size_t)n[0], (size_t)n[1], (size_t)n[2]};
    Rng r((uint64_t)m.l("_jit", 1) + 77);
    std::string P, C, T;
    size_t np = 0, nc = 0;
    for (size_t k = 0; k <= N[2]; k++) for (size_t j = 0; j <= N[1]; j++) for (size_t i = 0; i <= N[0]; i++, np++) {
        size_t q[3] = {i, j, k};
        for (int d = 0; d < 3; d++) {
            double h = l[(size_t)d] / (double)N[d], p = o[(size_t)d] + h * (double)q[d], u = (2 * r.unit() - 1) * m.d("_amount") * h;
            if (q[d] == 0) p = o[(size_t)d]; else if (q[d] == N[d]) p = strtod(snum(o[(size_t)d] + l[(size_t)d]).c_str(), nullptr); else p += u;
            P += num(p) + (d < 2 ? " " : "\n");
        }
    }
    auto id = [&](size_t i, size_t j, size_t k) { return i + (N[0] + 1) * (j + (N[1] + 1) * k); };
    for (size_t k = 0; k < N[2]; k++) for (size_t j = 0; j < N[1]; j++) for (size_t i = 0; i < N[0]; i++, nc++) {
        size_t q[8] = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
        C += "8";
        for (size_t x : q) C += " " + std::to_string(x);
        C += "\n"; T += "12\n";
    }
    return "# vtk DataFile Version 2.0\nbox\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS " + std::to_string(np) + " double\n" + P + "\nCELLS " + std::to_string(nc) + " " + std::to_string(nc * 9) + "\n" + C + "\nCELL_TYPES " + std::to_string(nc) + "\n" + T;
}
// ---- tables of material properties
struct Table {
    V t, y;
    double at(double x) const {
        size_t n = t.size();
        if (x <= t[0]) return y[0];
        if (x >= t[n - 1]) return y[n - 1];
        for (size_t k = 0; k + 1 < n; k++) if (x >= t[k] && x <= t[k + 1]) return t[k] == t[k + 1] ? y[k] : y[k] + (y[k + 1] - y[k]) * (x - t[k]) / (t[k + 1] - t[k]);
        return 0;
    }
};
struct Tables { Table den, con, cp; };
Tables tables(const Item& i) {
    Tables r;
    struct { Table* t; const char* k; } q[] = {{&r.den, "_den"}, {&r.con, "_con"}, {&r.cp, "_cp"}};
    for (auto& p : q) { auto v = i.v(p.k); for (size_t k = 0; k + 1 < v.size(); k += 2) { p.t->y.push_back(v[k]); p.t->t.push_back(v[k + 1]); } }
    return r;
}
std::string jmatpro(const Item& i) {
    Tables t = tables(i);
    std::string s = "****Mat_MetaData****\n***Name: m\n** MATERIALS\n*MATERIAL, NAME=m\n";
    struct { Table* t; const char* k; } q[] = {{&t.den, "*Density\n** Units in (tonne/mm^3)\n"}, {&t.con, "*CONDUCTIVITY\n** Unit: mW/(mm.K)\n"}, {&t.cp, "*SPECIFIC HEAT\n** Unit\n"}};
    int o = (int)i.l("_order") % 6, perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int k = 0; k < 3; k++) {
        auto& p = q[perm[o][k]];
        s += p.k;
        for (size_t a = 0; a < p.t->t.size(); a++) s += num(p.t->y[a]) + (i.l("_sp") ? ", " : ",") + num(p.t->t[a]) + "\n";
        if (i.l("_other")) s += "*ELASTIC, TYPE=ISOTROPIC\n2.0E5,0.3,300.\n";
    }
    return s;
}
std::map<std::string, std::string> disk(const Scen& s) {
    auto f = files(s);
    if (auto* m = s.find("mesh")) if (m->has("_jit")) f[m->str("file_path")] = vtk_jittered(*m);
    for (auto* m : s.all("mat")) if (m->has("_den")) f[m->str("tabular_model.tabular_data")] = jmatpro(*m);
    return f;
}
// ---- what both references share
struct Base {
    const mp::Result* run = nullptr;
    const Scen* s = nullptr;
    size_t D = 3, N = 0, E = 0, K = 8;
    V vol, hmin;
    std::vector<V> b;
    std::vector<std::vector<size_t>> of;  // elements at each node
    std::vector<std::vector<size_t>> elem;  // elements of each material
    double fuzz = 1e-16, tiny = 1e-12, small = 1e-8, tf = 0, dt0 = 1e-5, dtmin = 1e-8, dtmax = 1e-2, cfl = 0.4, ival = 1;
    int stages = 2, cycles = 0, every = 0;
    bool tainted = false;
    void base(const mp::Result& r, const Scen& sc, const mp::Snap& q) {
        run = &r; s = &sc; D = r.mesh.dims; N = r.mesh.nodes; E = r.mesh.elems; K = D == 2 ? 4 : 8;
        vol.assign(E, 0); hmin.assign(E, 1e300); b.assign(E, {}); of.assign(N, {});
        const mp::Arr& x = q["coords"];
        for (size_t e = 0; e < E; e++) {
            auto& n = r.mesh.elem[e];
            vol[e] = ref::corners(x, n, D, b[e]);
            for (size_t i = 0; i < K; i++) { of[n[i]].push_back(e); for (size_t j = i + 1; j < K; j++) { double d = 0; for (size_t k = 0; k < D; k++) d += (x(n[i], k) - x(n[j], k)) * (x(n[i], k) - x(n[j], k)); hmin[e] = std::min(hmin[e], std::sqrt(d)); } }
        }
        elem.clear();
        for (size_t m = 0; m < sc.all("mat").size(); m++) { elem.push_back({}); for (double e : q["elem@" + std::to_string(m)].v) elem.back().push_back((size_t)e); }
        const Item& dy = *sc.find("dyn");
        fuzz = dy.d("fuzz", 1e-16); tiny = dy.d("tiny", 1e-12); small = dy.d("small", 1e-8);
        stages = (int)dy.l("rk_num_stages", 2); cycles = (int)dy.l("cycle_stop"); every = (int)sc.l("out", "graphics_iteration_step", 2000000);
        tf = dy.d("time_final"); dt0 = dy.d("dt_start", 1e-5); dtmin = dy.d("dt_min", 1e-8); dtmax = dy.d("dt_max", 1e-2); cfl = dy.d("dt_cfl", 0.4); ival = sc.d("out", "graphics_time_step", 1.0);
    }
    double limit(double d, double time, double gtime) const { return std::min(std::min(d, std::max(fuzz, gtime - time) + tiny), tf - time + tiny); }
    void cmp(const mp::Snap& q, const std::string& at, const std::string& f, const V& mine, double rel, double floor = 0) const {
        const mp::Arr& got = q[f];
        if (got.v.size() != mine.size()) dst::fail("state has the wrong size: " + f, at);
        double big = 0;
        for (double z : mine) big = std::max(big, std::fabs(z));
        for (size_t k = 0; k < mine.size(); k++)
            if (!close(got.v[k], mine[k], rel, rel * big + floor))
                dst::fail("state differs from the scheme: " + f.substr(0, f.find('@')), at + ": " + f + "[" + std::to_string(k / std::max<size_t>(1, got.cols)) + "," + std::to_string(k % std::max<size_t>(1, got.cols)) + "] is " + num(got.v[k]) + ", by the scheme " + num(mine[k]));
    }
};
// ---- heat conduction
struct Heat : Base {
    V T, T0, nm;
    double source[3] = {0, 0, 0};
    bool moving = false;
    std::vector<V> den, con, cp;
    std::vector<std::vector<char>> melted;
    std::vector<Tables> tab;
    std::vector<char> has_tab;
    void start(const mp::Result& r, const Scen& sc, const mp::Snap& q) {
        base(r, sc, q);
        moving = sc.find("solver")->str("use_moving_heat_source") == "true";
        for (auto* m : sc.all("mat")) { tab.push_back(tables(*m)); has_tab.push_back(m->has("_den")); }
    }
    void load(const mp::Snap& q, bool first) {
        T = q["temp"].v; nm = q["node_mass"].v;
        den.clear(); con.clear(); cp.clear(); melted.clear();
        for (size_t m = 0; m < elem.size(); m++) {
            std::string M = "@" + std::to_string(m);
            den.push_back(q["den" + M].v); con.push_back(q["conductivity" + M].v); cp.push_back(q["specific_heat" + M].v);
            melted.push_back({});
            for (double z : q["eroded" + M].v) melted.back().push_back(z != 0);
        }
        if (first && moving) for (size_t m = 0; m < elem.size(); m++) if (has_tab[m]) for (size_t p = 0; p < elem[m].size(); p++) {
            double a = mean(elem[m][p]);
            std::string f = "," + s->all("mat")[m]->str("tabular_model.fields") + ",";
            if (f.find(",density,") != std::string::npos) den[m][p] = tab[m].den.at(a);
            if (f.find(",thermal_conductivity,") != std::string::npos) con[m][p] = tab[m].con.at(a);
            if (f.find(",specific_heat,") != std::string::npos) cp[m][p] = tab[m].cp.at(a);
        }
    }
    double mean(size_t e) const { double a = 0; for (size_t n : run->mesh.elem[e]) a += T[n] / 8; return a; }
    void hold() {
        auto bc = s->all("bc");
        for (size_t q = 0; q < bc.size() && q < run->mesh.set_nodes.size(); q++)
            if (bc[q]->str("temperature_model") == "constant") for (size_t n : run->mesh.set_nodes[q]) T[n] = bc[q]->v("temperature_bc_global_vars").at(0);
    }
    double step(double dt, double time, double gtime) const {
        double best = dtmax;
        for (size_t m = 0; m < elem.size(); m++) {
            double d = 1.1 * dt;
            for (size_t p = 0; p < elem[m].size(); p++) {
                double a = con[m][p] / (den[m][p] * cp[m][p]), h = hmin[elem[m][p]];
                d = std::min(d, std::max(dtmin, std::min(dtmax, std::min(1.0, 0.3 * h * h / (6 * a)))));
            }
            best = std::min(best, limit(d, time, gtime));
        }
        return best;
    }
    static void path(double t, double p[4]) {  // the tool path of the solver
        static const double P[4][5] = {{0, 100, 150, 15, 3e6}, {5, 200, 150, 15, 4e6}, {5, 100, 150, 30, 4e6}, {10, 200, 150, 30, 3e6}};
        int k = t <= 5 ? 0 : 2;
        double f = std::min(1.0, std::max(0.0, (t - P[k][0]) / (P[k + 1][0] - P[k][0])));
        for (int i = 0; i < 4; i++) p[i] = P[k][i + 1] + f * (P[k + 1][i + 1] - P[k][i + 1]);
    }
    void cycle(double time, double dt) {
        T0 = T;
        auto bc = s->all("bc");
        double now[4];
        path(time, now);
        for (int st = 0; st < stages; st++) {
            double h = dt / (stages - st);
            V q(N, 0), C(N, 0);
            for (size_t m = 0; m < elem.size(); m++) for (size_t p = 0; p < elem[m].size(); p++) {
                size_t e = elem[m][p];
                auto& n = run->mesh.elem[e];
                double g[3] = {0, 0, 0}, a = mean(e), ctr[3] = {0, 0, 0}, d2 = 0;
                if (std::fabs(a - 900) < 1e-7) tainted = true;
                if (a >= 900) melted[m][p] = 1;
                for (size_t k = 0; k < 8; k++) for (size_t i = 0; i < 3; i++) g[i] += T[n[k]] * b[e][k * 3 + i] / vol[e];
                for (size_t k = 0; k < 8; k++) for (size_t i = 0; i < 3; i++) q[n[k]] -= con[m][p] * g[i] * b[e][k * 3 + i];
                for (size_t k = 0; k < 8; k++) { C[n[k]] += cp[m][p] / (double)of[n[k]].size(); for (size_t i = 0; i < 3; i++) ctr[i] += X[n[k] * 3 + i] / 8; }
                for (int i = 0; i < 3; i++) d2 += (ctr[i] - source[i]) * (ctr[i] - source[i]);
                if (!moving) continue;
                if (std::fabs(d2 - 64) < 1e-9 * 64) tainted = true;
                if (d2 <= 64) for (size_t k = 0; k < 8; k++) q[n[k]] += now[3] / (4.0 / 3 * 3.14159 * 512) * vol[e] / 8;
            }
            for (size_t w = 0; w < bc.size() && w < run->mesh.set_patches.size(); w++) {
                std::string t = bc[w]->str("temperature_model");
                if (t != "convection" && t != "radiation") continue;
                for (auto& P : run->mesh.set_patches[w]) {
                    double g[3], k[3], A = 0;
                    for (size_t i = 0; i < 3; i++) { g[i] = X[P[2] * 3 + i] - X[P[0] * 3 + i]; k[i] = X[P[3] * 3 + i] - X[P[1] * 3 + i]; }
                    for (int i = 0; i < 3; i++) { double c = g[(i + 1) % 3] * k[(i + 2) % 3] - g[(i + 2) % 3] * k[(i + 1) % 3]; A += c * c; }
                    A = 0.5 * std::sqrt(A);
                    for (size_t n : P) q[n] -= A / 4 * (t == "convection" ? 100 * (T[n] - 293.15) : 0.2 * 5.67037442e-8 * std::pow(T[n], 4));
                }
            }
            for (size_t n = 0; n < N; n++) T[n] = T0[n] + h * q[n] / (nm[n] * C[n]);
            hold();
        }
        if (moving) { double p[4]; path(time + dt, p); for (int i = 0; i < 3; i++) source[i] = p[i]; if (std::fabs(time + dt - 5) < 1e-9) tainted = true; }
    }
    V X;
    bool sane() const { for (double t : T) if (!std::isfinite(t) || std::fabs(t) > 1e7) return false; return true; }
};
dst::Trace gen_heat(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = tier ? 4 : 3;
    a.cycles = tier ? 30 : 12;
    a.kinds = 1u << kThermal;
    Scen s;
    if (r.chance(1, 3)) {
        // the heat source on its path, with tables of properties
        G g(r);
        Item& d = g.dyn(a.cycles, r.chance(1, 4) ? g.q(0.5, 12) : 20.0);
        d.set("dt_max", 1.0).set("dt_start", g.q(0.01, 1));
        bool big = r.chance(1, 2);
        for (int k = 0; k < 3; k++) g.n[k] = r.range(1, a.maxn);
        g.o[0] = big ? 0 : g.q(85, 110); g.o[1] = big ? g.q(100, 140) : g.q(140, 148); g.o[2] = big ? 0 : g.q(5, 14);
        g.l[0] = big ? 300 : g.q(10, 40); g.l[1] = big ? g.q(20, 100) : g.q(5, 20); g.l[2] = big ? 30 : g.q(5, 15);
        if (r.chance(1, 4)) for (int k = 0; k < 3; k++) { g.o[k] = g.q(-10, -1); g.l[k] = g.q(10, 20); }  // where the source is in the first step
        g.s.add("mesh").set("source", "generate").set("num_dims", "3").set("type", "box").set("origin", join({g.o[0], g.o[1], g.o[2]})).set("length", join({g.l[0], g.l[1], g.l[2]})).set("num_elems", std::to_string(g.n[0]) + "," + std::to_string(g.n[1]) + "," + std::to_string(g.n[2]));
        g.s.add("solver").set("method", "thrmex_FE").set("id", "0").set("use_moving_heat_source", "true");
        thermal_bcs(g, 0);
        int nmat = r.chance(1, 4) ? 2 : 1;
        for (int k = 0; k < nmat; k++) g.gas(k);
        int with = (int)r.below((uint64_t)nmat);
        Item& m = *g.s.all("mat")[(size_t)with];
        static const char* F[] = {"density,thermal_conductivity,specific_heat", "density,thermal_conductivity,specific_heat", "specific_heat,density,thermal_conductivity", "thermal_conductivity", "specific_heat,thermal_conductivity", "density"};
        m.set("tabular_model.type", "temperature_dependent").set("tabular_model.file_format", "Abaqus_jmatpro").set("tabular_model.tabular_data", "steel.inp").set("tabular_model.fields", F[r.below(6)]);
        auto table = [&](double lo, double hi) { V v; double t = g.q(250, 500); int n = r.range(1, 5); for (int k = 0; k < n; k++) { v.push_back(g.q(lo, hi)); v.push_back(t); t = strtod(snum(t + g.q(5, 300)).c_str(), nullptr); } return join(v); };
        m.set("_den", table(7e-9, 8e-9)).set("_con", table(25, 600)).set("_cp", table(4e8, 7e8)).set("_order", (double)r.below(6)).set("_sp", (double)r.below(2)).set("_other", (double)r.below(2));
        int extra = (int)r.below(3);
        for (int k = 0; k <= extra; k++) {
            Item& it = g.s.add("region");
            if (k == 0) it.set("volume.type", "global"); else g.volume(it);
            it.set("solver_id", "0").set("material_id", (double)r.below((uint64_t)nmat)).set("density.type", "uniform").set("density.value", g.q(7e-9, 8e-9)).set("specific_internal_energy.type", "uniform").set("specific_internal_energy.value", 1e-10);
            it.set("velocity.type", "cartesian").set("velocity.u", 0.0).set("velocity.v", 0.0).set("velocity.w", 0.0);
            it.set("temperature.type", "uniform").set("temperature.value", g.q(280, 1000)).set("thermal_conductivity.type", "uniform").set("thermal_conductivity.value", g.q(30, 60)).set("specific_heat.type", "uniform").set("specific_heat.value", g.q(4e8, 5e8));
        }
        s = g.s;
    } else {
        s = any(r, a);
        auto len = s.find("mesh")->v("length"), org = s.find("mesh")->v("origin"), ne = s.find("mesh")->v("num_elems");
        if (r.chance(1, 2) && len.size() == 3) {
            G g(r);
            g.s = s;
            for (size_t k = 0; k < 3; k++) { g.o[k] = org[k]; g.l[k] = len[k]; g.n[k] = (int)ne[k]; }
            jittered(g, r, 0.25);
            s = g.s;
        }
        // densities and conductivities for which the conduction, not dt_max, limits the step
        if (r.chance(1, 2)) { for (auto* i : s.all("region")) { i->set("thermal_conductivity.value", 1000 * (1 + 99 * r.unit())); } if (r.chance(1, 2)) s.find("dyn")->set("dt_max", 1.0); s.find("dyn")->set("dt_start", 1e-3 * (1 + 99 * r.unit())); }
        if (r.chance(1, 3)) { for (auto* i : s.all("region")) i->set("thermal_conductivity.value", 1e-3 + 0.5 * r.unit()); s.find("dyn")->set("dt_max", 5.0).set("dt_start", 0.1 + r.unit()).set("time_final", 100.0); }
    }
    Item* o = s.find("out");
    if (!o) o = &s.add("out");
    o->kv.clear();
    o->set("timer_output_level", "thorough").set("output_file_format", "viz").set("graphics_iteration_step", std::to_string(r.chance(1, 2) ? 1 : r.range(1, 5))).set("node_field_outputs", "temp");
    o->set("graphics_time_step", r.chance(1, 3) ? s.d("dyn", "dt_start") * (0.5 + 3 * r.unit()) : 1000.0);
    if (r.chance(1, 4)) s.find("dyn")->set("time_final", s.d("dyn", "dt_start") * (1 + 8 * r.unit()));
    s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return s.trace();
}
mp::Result go(const Scen& s, dst::Ctx& c, std::vector<const mp::Snap*>& d) {
    mp::Options o;
    o.cycle_snaps = true;
    o.max_iterations = 8000000;
    if (auto* q = s.find("sched")) { o.order = (int)q->l("order"); o.seed = (uint64_t)q->l("seed", 1); o.split = q->l("split") != 0; }
    mp::Result r = mp::run(disk(s), "in.yaml", o);
    account(c, r);
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail);
    if (r.how != mp::Result::done) dst::fail("a valid problem was not run to its end", mp::how_text(r));
    uint64_t h = 7;
    for (auto& kv : r.end.a) h = dst::fnv(kv.second.v.data(), kv.second.v.size() * 8, dst::fnv(kv.first, h));
    c.observe(std::to_string(h));
    (void)d;
    return r;
}
// every output, at the time and with the state of the reference; adv advances the reference by one cycle and returns dt
template <class R, class Cmp>
int follow(R& ref, const std::vector<const mp::Snap*>& d, bool fixed_grid, const Cmp& compare) {
    double time = 0, gtime = ref.ival, dt = ref.dt0;
    size_t outputs = 1;
    int compared = 0;
    for (int n = 0; n < ref.cycles; n++) {
        double cached = dt;
        dt = ref.step(dt, time, gtime);
        ref.cycle(time, dt);
        time += dt;
        bool fin = time >= ref.tf;
        if (!ref.sane()) return compared;
        if (((n + 1) % ref.every == 0 && n > 0) || fin || time >= gtime) {
            std::string at = "cycle " + std::to_string(n + 1) + ", output " + std::to_string(outputs);
            if (outputs >= d.size()) dst::fail("an output of the schedule was not written", at);
            if (!ref.tainted) { compare(*d[outputs], at); compared++; }
            ref.tainted = false;
            ref.load(*d[outputs], false);
            outputs++;
            gtime = fixed_grid ? (double)outputs * ref.ival : time + ref.ival;
            dt = cached;
        }
        if (fin) break;
    }
    if (outputs != d.size()) dst::fail("more outputs than the schedule has", std::to_string(d.size()) + " for " + std::to_string(outputs));
    return compared;
}
std::vector<const mp::Snap*> dumps(const mp::Result& r) {
    std::vector<const mp::Snap*> d;
    for (auto& q : r.snaps) if (q.at == "vtk/Fierro.solver0.pvd") d.push_back(&q);
    if (d.empty()) dst::fail("no output was written");
    return d;
}
void exec_heat(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s) || !s.find("out") || s.find("solver")->str("method") != "thrmex_FE") return;
    for (auto* m : s.all("mat")) if (m->has("_den")) { Tables q = tables(*m); if (q.den.t.empty() || q.con.t.empty() || q.cp.t.empty()) return; }
    std::vector<const mp::Snap*> d;
    mp::Result r = go(s, c, d);
    d = dumps(r);
    Heat R;
    R.start(r, s, *d[0]);
    R.X = (*d[0])["coords"].v;
    // the held temperatures are in force in the first output
    R.T = r.start["temp"].v;
    if (R.T.size() != R.N) return;
    R.hold();
    R.cmp(*d[0], "output 0", "temp", R.T, 0);
    R.load(*d[0], true);
    int compared = follow(R, d, true, [&](const mp::Snap& q, const std::string& at) {
        R.cmp(q, at, "temp", R.T, 1e-8);
        R.cmp(q, at, "coords", R.X, 0);
        R.cmp(q, at, "vol", R.vol, 1e-9);
        for (size_t m = 0; m < R.elem.size(); m++) {
            std::string M = "@" + std::to_string(m);
            R.cmp(q, at, "den" + M, R.den[m], 1e-12); R.cmp(q, at, "conductivity" + M, R.con[m], 1e-12); R.cmp(q, at, "specific_heat" + M, R.cp[m], 1e-12);
            R.cmp(q, at, "eroded" + M, V(R.melted[m].begin(), R.melted[m].end()), 0);
            for (char z : R.melted[m]) if (z) { c.op("step with a melted element"); break; }
        }
        c.op(R.moving ? "step with the moving heat source compared" : "thermal step compared");
    });
    if (compared) c.nontrivial = true;
}
// ---- level set
struct Front : Base {
    V phi, phi0, grad, rzvol;
    std::vector<double> vn, vc;
    std::vector<char> evolves;
    void start(const mp::Result& r, const Scen& sc, const mp::Snap& q) {
        base(r, sc, q);
        rzvol = q["vol"].v;
        for (auto* m : sc.all("mat")) { evolves.push_back(m->str("level_set_type") == "evolve_front"); vn.push_back(m->d("normal_velocity")); vc.push_back(m->d("curvature_velocity")); }
    }
    void load(const mp::Snap& q, bool) { phi = q["level_set"].v; }
    double step(double dt, double time, double gtime) const {
        double best = dtmax;
        for (size_t m = 0; m < elem.size(); m++) {
            if (!evolves[m]) { best = std::min(best, dt); continue; }
            double d = 1.1 * dt;
            for (size_t e : elem[m]) d = std::min(d, std::max(dtmin, std::min(dtmax, cfl * hmin[e] / (1.5 + vn[m] + vc[m] / (3 * hmin[e]) + fuzz))));
            best = std::min(best, limit(d, time, gtime));
        }
        return best;
    }
    void cycle(double, double dt) {
        phi0 = phi;
        auto bc = s->all("bc");
        for (int st = 0; st < stages; st++) {
            double h = dt / (stages - st), pmax = 0;
            for (double z : phi) pmax = std::max(pmax, std::fabs(z));
            V vel(N * D, 0), nvol(N, 0), area(N, 0);
            grad.assign(N * D, 0);
            for (size_t e = 0; e < E; e++) for (size_t k = 0; k < K; k++) {
                size_t n = run->mesh.elem[e][k];
                nvol[n] += vol[e] / (double)K;
                double a = 0;
                for (size_t i = 0; i < D; i++) { grad[n * D + i] -= b[e][k * D + i] * phi[e]; a += std::fabs(b[e][k * D + i]); }
                area[n] += a;
            }
            for (size_t n = 0; n < N; n++) {
                double m = 0;
                for (size_t i = 0; i < D; i++) { grad[n * D + i] /= nvol[n]; m += grad[n * D + i] * grad[n * D + i]; }
                m = std::sqrt(m);
                if (m < 1e-8 * (pmax * area[n] / nvol[n] + 1e-300)) tainted = true;
                for (size_t i = 0; i < D; i++) vel[n * D + i] = grad[n * D + i] / (m + fuzz);
            }
            for (char on : evolves) if (on) for (size_t q = 0; q < bc.size() && q < run->mesh.set_nodes.size(); q++) {
                auto w = bc[q]->v("velocity_bc_global_vars");
                w.resize(3);
                std::string t = bc[q]->str("velocity_model");
                if (t.empty()) continue;
                double len = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
                for (size_t n : run->mesh.set_nodes[q]) {
                    double z = 0, m = 0;
                    for (size_t i = 0; i < D; i++) z += t == "fixed" ? 0 : vel[n * D + i] * w[i] / len;
                    for (size_t i = 0; i < D; i++) { vel[n * D + i] = t == "fixed" ? 0 : vel[n * D + i] - z * w[i] / len; m += vel[n * D + i] * vel[n * D + i]; }
                    m = std::sqrt(m);
                    if (m > 0 && m < 1e-4) tainted = true;  // what remains is rounding or close to the threshold of the normalisation
                    for (size_t i = 0; i < D; i++) vel[n * D + i] /= m + small;
                }
            }
            V now = phi;
            for (size_t m = 0; m < elem.size(); m++) if (evolves[m]) for (size_t e : elem[m]) {
                double dx = 2 * (D == 3 ? std::cbrt(rzvol[e]) : std::sqrt(rzvol[e])), sg = now[e] / std::sqrt(now[e] * now[e] + dx * dx), up = 0, hj = 0, all = 0;
                for (size_t k = 0; k < K; k++) {
                    size_t n = run->mesh.elem[e][k];
                    double w = 0, g = 0, a = 0;
                    for (size_t i = 0; i < D; i++) { w -= (vn[m] + sg) * vel[n * D + i] * b[e][k * D + i]; g += vel[n * D + i] * grad[n * D + i]; a += std::fabs(b[e][k * D + i]); }
                    up += std::max(0.0, w); hj += std::max(0.0, w) * g; all += a;
                }
                if (up < 1e-6 * all) tainted = true;
                hj /= up + fuzz;
                phi[e] = phi0[e] - h * (vn[m] * hj + sg * (hj - 1));
            }
        }
    }
    bool sane() const { for (double t : phi) if (!std::isfinite(t) || std::fabs(t) > 1e6) return false; return true; }
};
dst::Trace gen_front(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = tier ? 5 : 3;
    a.cycles = tier ? 30 : 12;
    a.kinds = 1u << kLevelSet;
    Scen s = any(r, a);
    G g(r);
    g.s = s;
    auto len = s.find("mesh")->v("length"), org = s.find("mesh")->v("origin"), ne = s.find("mesh")->v("num_elems");
    if (len.size() == 3) for (size_t k = 0; k < 3; k++) { g.o[k] = org[k]; g.l[k] = len[k]; g.n[k] = (int)ne[k]; }
    int how = (int)r.below(3);
    if (how == 0) jittered(g, r, 0.25);
    else if (how == 1) {
        Item& m = *g.s.find("mesh");
        m.set("num_dims", "2").set("origin", join({g.o[0], std::fabs(g.o[1])})).set("length", join({g.l[0], g.l[1]})).set("num_elems", std::to_string(g.n[0] + 2) + "," + std::to_string(g.n[1] + 2));
        std::vector<Item> keep;
        for (auto& i : g.s.items) if (!(i.sec == "bc" && i.str("surface.type") == "z_plane")) keep.push_back(i);
        g.s.items = keep;
        for (auto* i : g.s.all("bc")) if (i->str("surface.type") == "y_plane") { double p = i->d("surface.plane_position"); i->set("surface.plane_position", strtod(snum(p - g.o[1] + std::fabs(g.o[1])).c_str(), nullptr)); }
    }
    std::vector<Item> keep;
    for (auto& i : g.s.items) if (!(i.sec == "bc" && r.chance(1, 8))) keep.push_back(i);
    g.s.items = keep;
    Item& m = *g.s.find("mat");
    m.set("normal_velocity", g.q(-1, 1.5));
    if (r.chance(1, 3)) {
        Item x = m;
        x.set("id", "1");
        x.set("normal_velocity", g.q(-1, 1)).set("curvature_velocity", r.chance(1, 2) ? 0.0 : g.q(0, 0.4));
        auto rg = g.s.all("region");
        for (auto* i : rg) if (r.chance(1, 2)) i->set("material_id", "1");
        g.s.items.push_back(x);
        std::stable_sort(g.s.items.begin(), g.s.items.end(), [](const Item& p, const Item& q) { return p.sec == "mat" && q.sec == "mat" && p.l("id") < q.l("id"); });
    }
    Item* o = g.s.find("out");
    if (!o) o = &g.s.add("out");
    o->kv.clear();
    o->set("timer_output_level", "thorough").set("output_file_format", "viz").set("graphics_iteration_step", std::to_string(r.chance(1, 2) ? 1 : r.range(1, 5))).set("gauss_pt_field_outputs", "level_set,volume").set("node_field_outputs", "vel,grad_level_set");
    g.s.find("dyn")->set("dt_start", 1e-3 * (1 + 99 * r.unit()));
    if (r.chance(1, 2)) g.s.find("dyn")->set("dt_max", 0.5);
    o->set("graphics_time_step", r.chance(1, 3) ? g.s.d("dyn", "dt_start") * (0.5 + 3 * r.unit()) : 1000.0);
    if (r.chance(1, 4)) g.s.find("dyn")->set("time_final", g.s.d("dyn", "dt_start") * (1 + 8 * r.unit()));
    g.s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return g.s.trace();
}
void exec_front(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s) || !s.find("out") || s.find("solver")->str("method") != "level_set") return;
    for (auto* b : s.all("bc")) if (b->v("velocity_bc_global_vars").size() != 3) return;
    std::vector<const mp::Snap*> d;
    mp::Result r = go(s, c, d);
    d = dumps(r);
    Front R;
    R.start(r, s, *d[0]);
    R.load(*d[0], true);
    R.cmp(*d[0], "output 0", "level_set", r.start["level_set"].v, 0);
    int compared = follow(R, d, false, [&](const mp::Snap& q, const std::string& at) {
        R.cmp(q, at, "level_set", R.phi, 1e-7, 1e-12);
        R.cmp(q, at, "grad_level_set", R.grad, 1e-7, 1e-10);
        c.op(R.D == 2 ? "2D level-set step compared" : "3D level-set step compared");
    });
    if (compared) c.nontrivial = true;
}
dst::Register heat({"C41", gen_heat, exec_heat, nullptr});
dst::Register front({"C42", gen_front, exec_front, nullptr});
}  // namespace
