// A generator of whole problems: every solver, several materials, boundary conditions and outputs.
#pragma once
#include "scen.hpp"

namespace scen {
enum Kind { kSgh, kSghRz, kThermal, kLevelSet, kContact, kFracture, kMulti, kChain, kKinds };
struct AnyOpt {
    int maxn = 3, cycles = 12;
    bool smooth_velocity = false;   // one velocity for all regions (nodal painting then has a single source)
    unsigned kinds = ~0u;
    bool state_out = true, viz_out = true;
};
inline const char* plane_name(int k) { static const char* p[] = {"x_plane", "y_plane", "z_plane"}; return p[k]; }
inline std::string flags(int axis) { return axis == 0 ? "1,0,0" : axis == 1 ? "0,1,0" : "0,0,1"; }
inline void bc_reflect(G& g, int solver, int axis, double pos) {
    g.s.add("bc").set("solver_id", (double)solver).set("surface.type", plane_name(axis)).set("surface.plane_position", pos).set("surface.tolerance", 1e-5).set("velocity_model", "reflected").set("velocity_bc_global_vars", flags(axis));
}
inline void bcs(G& g, int solver, bool velocity_only) {
    Rng& r = g.r;
    for (int k = 0; k < g.dims; k++)
        for (int side = 0; side < 2; side++) {
            double pos = g.o[k] + side * g.l[k];
            if (g.dims == 2 && k == 1 && pos == 0) { bc_reflect(g, solver, 1, 0.0); continue; }
            int w = (int)r.below(10);
            if (w < 4) continue;
            if (w < 7) { bc_reflect(g, solver, k, pos); continue; }
            Item& b = g.s.add("bc");
            b.set("solver_id", (double)solver).set("surface.type", plane_name(k)).set("surface.plane_position", pos).set("surface.tolerance", 1e-5);
            switch (r.below(velocity_only ? 4 : 5)) {
            case 0: b.set("velocity_model", "fixed"); break;
            case 1: b.set("velocity_model", "constant").set("velocity_bc_global_vars", join({g.q(-0.1, 0.1), g.q(-0.1, 0.1), g.dims == 3 ? g.q(-0.1, 0.1) : 0.0})); break;
            case 2: b.set("velocity_model", "time_varying").set("velocity_bc_global_vars", flags(k) + "," + join({g.q(-0.1, 0.1), g.q(0, 10), 0.0, 1.0})); break;
            case 3: b.set("velocity_model", "piston").set("velocity_bc_global_vars", flags(k) + "," + join({g.q(-0.1, 0.1), g.q(-1, 1), g.q(-1, 1), 0.0, 1.0})); break;
            default: b.set("stress_model", "constant").set("stress_bc_global_vars", join({g.q(-1, 0), g.q(-1, 0), g.q(-1, 0), g.q(-0.1, 0.1), g.q(-0.1, 0.1), g.q(-0.1, 0.1)}));
            }
        }
}
inline void thermal_bcs(G& g, int solver) {
    Rng& r = g.r;
    for (int k = 0; k < 3; k++)
        for (int side = 0; side < 2; side++) {
            if (r.chance(1, 3)) continue;
            Item& b = g.s.add("bc");
            b.set("solver_id", (double)solver).set("surface.type", plane_name(k)).set("surface.plane_position", g.o[k] + side * g.l[k]).set("surface.tolerance", 1e-5);
            switch (r.below(3)) {
            case 0: b.set("temperature_model", "constant").set("temperature_bc_global_vars", g.q(250, 1200)); break;
            case 1: b.set("temperature_model", "convection").set("temperature_bc_global_vars", join({g.q(250, 600), g.q(1, 150)})); break;
            default: b.set("temperature_model", "radiation");
            }
        }
}
inline void outputs(G& g, const AnyOpt& a, bool chain) {
    Rng& r = g.r;
    Item& o = g.s.add("out");
    std::string f = a.state_out && a.viz_out ? (r.chance(1, 2) ? "state" : r.chance(1, 2) ? "viz_and_state" : "viz") : a.state_out ? "state" : "viz";
    o.set("timer_output_level", "thorough").set("output_file_format", f);
    if (r.chance(2, 3)) o.set("graphics_iteration_step", (double)r.range(1, 6)).set("graphics_time_step", 1.0);
    else o.set("graphics_time_step", g.q(0.0002, 0.02));
    if (r.chance(2, 3)) {
        o.set("node_field_outputs", "coords,vel,mass").set("elem_field_outputs", "den,pres,stress,sie,sspd,mass").set("mat_pt_field_outputs", "den,pres,stress,sie,sspd,mass,volfrac,eroded");
        if (r.chance(1, 2)) o.set("gauss_pt_field_outputs", "volume");
    }
    (void)chain;
}
inline void regions(G& g, int nmat, const AnyOpt& a, bool thermal, bool multi, double vmax, double rho0, double sie0) {
    Rng& r = g.r;
    auto common = [&](Item& it, int mat, bool vel) {
        it.set("solver_id", "0").set("material_id", (double)mat);
        double rho = rho0 > 0 ? rho0 : g.q(0.5, 3);
        it.set("density.type", "uniform").set("density.value", rho);
        it.set("specific_internal_energy.type", "uniform").set("specific_internal_energy.value", sie0 >= 0 ? sie0 : r.chance(1, 3) ? 1e-10 : g.q(0.01, 5));
        if (vel) g.velocity(it, vmax);
        else it.set("velocity.type", "cartesian").set("velocity.u", 0.0).set("velocity.v", 0.0).set("velocity.w", 0.0);
        if (thermal) {
            it.set("temperature.type", "uniform").set("temperature.value", g.q(280, 1000));
            it.set("thermal_conductivity.type", "uniform").set("thermal_conductivity.value", g.q(1, 300)).set("specific_heat.type", "uniform").set("specific_heat.value", g.q(300, 900));
        }
    };
    Item* bg = &g.s.add("region");
    bg->set("volume.type", "global");
    bool v0 = r.chance(2, 3);
    common(*bg, 0, v0);
    std::vector<std::pair<std::string, std::string>> vel;
    for (auto& p : bg->kv) if (p.first.compare(0, 8, "velocity") == 0) vel.push_back(p);
    std::vector<std::pair<std::string, std::string>> tmp;
    for (auto& p : bg->kv) if (p.first.compare(0, 11, "temperature") == 0) tmp.push_back(p);
    if (multi) {
        double f = g.q(0.2, 0.8);
        bg->set("volume_fraction.type", "uniform").set("volume_fraction.value", f);
        Item& s2 = g.s.add("region");
        s2.set("volume.type", "global");
        common(s2, 1, true);
        for (auto& p : vel) s2.set(p.first, p.second);
        s2.set("volume_fraction.type", "uniform").set("volume_fraction.value", snum(1.0 - f));
    }
    int extra = (int)r.below(3);
    for (int k = 0; k < extra; k++) {
        Item& it = g.s.add("region");
        g.volume(it);
        common(it, (int)r.below(nmat), true);
        if (a.smooth_velocity) {
            for (size_t i = 0; i < it.kv.size();) if (it.kv[i].first.compare(0, 8, "velocity") == 0) it.kv.erase(it.kv.begin() + i); else i++;
            for (auto& p : vel) it.set(p.first, p.second);
            for (auto& p : tmp) it.set(p.first, p.second);
        }
        if (multi || r.chance(1, 3)) it.set("volume_fraction.type", "uniform").set("volume_fraction.value", 1.0);
    }
}
inline Scen any(Rng& r, const AnyOpt& a) {
    G g(r);
    int k;
    do { static const int W[] = {kSgh, kSgh, kSghRz, kSghRz, kThermal, kLevelSet, kContact, kFracture, kMulti, kChain}; k = W[r.below(10)]; } while (!(a.kinds >> k & 1));
    Item& d = g.dyn(a.cycles);
    (void)d;
    if (k == kSgh || k == kMulti || k == kChain || k == kThermal || k == kLevelSet) g.box3(k == kLevelSet ? a.maxn + 1 : a.maxn);
    else if (k == kSghRz) { if (r.chance(1, 3)) g.polar(a.maxn + 2); else g.box2(a.maxn + 2); }
    if (k == kContact || k == kFracture) {
        // two blocks of one file mesh, facing each other across a gap (contact) or joined at duplicated nodes (fracture)
        g.dims = 3;
        Item& m = g.s.add("mesh");
        m.set("source", "file").set("num_dims", "3").set("file_path", "m.vtk").set("_blocks", "2");
        int na = r.range(1, 2), nb = r.range(1, 2), nz = r.range(1, 2);
        double h = g.q(0.5, 1.2), gap = k == kFracture ? 0.0 : g.q(0.001, 0.05);
        m.set("_nx", (double)na).set("_ny", (double)nb).set("_nz", (double)nz).set("_h", h).set("_gap", gap);
        m.set("_shift", join({k == kContact && r.chance(1, 2) ? g.q(-0.3, 0.3) * h : 0.0, k == kContact && r.chance(1, 2) ? g.q(-0.3, 0.3) * h : 0.0}));
        g.o[0] = g.o[1] = g.o[2] = 0;
        g.l[0] = na * h; g.l[1] = nb * h; g.l[2] = 2 * nz * h + gap;
        Item& s = g.s.add("solver");
        s.set("method", "dynx_FE").set("id", "0");
        if (k == kContact) g.s.add("bc").set("solver_id", "0").set("surface.type", "global").set("stress_model", "global_contact").set("contact_bc_vars", join({(double)r.range(1, 10), (double)r.range(1, 10)}));
        else {
            g.s.add("bc").set("solver_id", "0").set("surface.type", "global").set("stress_model", "fracture").set("stress_bc_global_vars", join({g.q(1e-3, 3e-3), g.q(0.01, 0.05), 0.25, 1e-2, 5e-2, 1, g.q(1e-2, 2e-2), 2.0}));
            g.s.add("bc").set("solver_id", "0").set("surface.type", "z_plane").set("surface.plane_position", 0.0).set("velocity_model", "piston").set("velocity_bc_global_vars", "0,0,1," + join({0, 0, g.q(-0.08, -0.01), 0, 4}));
        }
        bool metal = r.chance(1, 2);
        if (metal) g.metal(0); else g.gas(0);
        double rho = metal ? g.s.find("mat")->d("_rho") : g.q(1, 4), sie = metal ? 1e-10 : g.q(0.001, 0.1), v = g.q(0.02, 0.4);
        for (int b = 0; b < 2; b++) {
            Item& it = g.s.add("region");
            it.set("volume.type", "box").set("volume.x1", -100.0).set("volume.x2", 100.0).set("volume.y1", -100.0).set("volume.y2", 100.0);
            it.set("volume.z1", b ? nz * h + gap / 2 : -100.0).set("volume.z2", b ? 100.0 : nz * h + gap / 2);
            it.set("solver_id", "0").set("material_id", "0").set("density.type", "uniform").set("density.value", rho).set("specific_internal_energy.type", "uniform").set("specific_internal_energy.value", sie);
            it.set("velocity.type", "cartesian").set("velocity.u", k == kContact ? g.q(-0.1, 0.1) : 0.0).set("velocity.v", 0.0).set("velocity.w", k == kContact ? (b ? -v : v) : 0.0);
        }
        outputs(g, a, false);
        return g.s;
    }
    static const char* M[] = {"dynx_FE", "dynx_FE_rz", "thrmex_FE", "level_set"};
    const char* meth = k == kSghRz ? M[1] : k == kThermal ? M[2] : k == kLevelSet ? M[3] : M[0];
    g.s.add("solver").set("method", k == kChain && r.chance(1, 2) ? M[2] : meth).set("id", "0");
    bool thermal = k == kThermal;
    if (k == kChain) {
        thermal = g.s.find("solver")->str("method") == M[2];
        g.s.find("solver")->set("time_end", g.q(0.001, 0.02));
        g.s.add("solver").set("method", M[0]).set("id", "1");
        // the first stage ends inside the cycle limit
    }
    if (k == kLevelSet) {
        for (int ax = 0; ax < 3; ax++) { bc_reflect(g, 0, ax, g.o[ax]); bc_reflect(g, 0, ax, g.o[ax] + g.l[ax]); }
        Item& m = g.s.add("mat");
        m.set("id", "0").set("level_set_type", "evolve_front").set("normal_velocity", g.q(-0.3, 0.3)).set("curvature_velocity", r.chance(1, 2) ? 0.0 : g.q(0, 0.2));
        int nr = r.range(1, 3);
        for (int q = 0; q < nr; q++) {
            Item& it = g.s.add("region");
            if (q == 0) it.set("volume.type", "global"); else g.volume(it);
            it.set("solver_id", "0").set("material_id", "0").set("level_set.type", "spherical").set("level_set.value", g.q(0.05, 0.3)).set("level_set.slope", 1.0);
            it.set("level_set.origin", join({g.o[0] + g.l[0] * r.unit(), g.o[1] + g.l[1] * r.unit(), g.o[2] + g.l[2] * r.unit()})).set("volume_fraction.type", "uniform").set("volume_fraction.value", 1.0);
        }
        Item& o = g.s.add("out");
        o.set("timer_output_level", "thorough").set("output_file_format", "viz").set("graphics_iteration_step", (double)r.range(1, 6)).set("graphics_time_step", 1.0);
        o.set("gauss_pt_field_outputs", "level_set,volume").set("node_field_outputs", "vel,grad_level_set");
        return g.s;
    }
    if (k == kThermal) thermal_bcs(g, 0);
    else if (k == kChain && thermal) { thermal_bcs(g, 0); bcs(g, 1, true); }
    else {
        bool polar = g.s.find("mesh")->str("type") == "polar";
        if (polar) { bc_reflect(g, 0, 1, 0.0); bc_reflect(g, 0, 0, 0.0); }
        else { bcs(g, 0, g.dims == 2); if (k == kChain) bcs(g, 1, true); }
    }
    int nmat = k == kMulti ? 2 : r.chance(1, 2) ? 2 : 1;
    bool metal = (k == kSgh || k == kSghRz) && r.chance(1, 4);
    double rho = -1, sie = -1;
    for (int m = 0; m < nmat; m++) {
        if (metal) { g.metal(m); rho = g.s.all("mat")[m]->d("_rho"); sie = 1e-10; }
        else g.gas(m);
        if (r.chance(1, 6)) { Item& x = *g.s.all("mat")[m]; x.set("erosion_model", "basic").set("erode_tension_val", g.q(0.001, 10)).set("erode_density_val", g.q(0.02, 1.2)); }
    }
    if (k == kMulti) g.s.add("multi").set("max_num_mats_per_element", (double)r.range(3, 5));
    regions(g, nmat, a, thermal, k == kMulti, metal ? 0.1 : 1.0, rho, sie);
    if (k == kMulti && r.chance(1, 2)) {
        Item& q = *g.s.find("multi");
        q.set("mat_equilibration_model", "tipton").set("mat_equilibration_global_vars", join({0.75, 0.5, 1.0}));
        // an eroded material that is squeezed out keeps its mass: its density grows without bound
        for (auto* m : g.s.all("mat")) m->del("erosion_model");
    }
    outputs(g, a, k == kChain);
    return g.s;
}
// the files of the simulated disk before the run
inline std::string vtk_blocks(const Item& m) {
    int nx = (int)m.l("_nx", 1), ny = (int)m.l("_ny", 1), nz = (int)m.l("_nz", 1);
    double h = m.d("_h", 1), gap = m.d("_gap", 0);
    auto sh = m.v("_shift"), at = m.v("_at");
    sh.resize(2);
    at.resize(3);
    std::string P, C;
    int np = 0, nc = 0;
    for (int b = 0; b < 2; b++) {
        int base = np;
        for (int k = 0; k <= nz; k++) for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) {
            double p[3] = {i * h + (b ? sh[0] : 0), j * h + (b ? sh[1] : 0), k * h + (b ? nz * h + gap : 0)};
            for (int q = 0; q < 3; q++) P += (at[(size_t)q] == 0 ? snum(p[q]) : num(strtod(snum(p[q]).c_str(), nullptr) + at[(size_t)q])) + (q < 2 ? " " : "\n");
            np++;
        }
        auto id = [&](int i, int j, int k) { return base + i + (nx + 1) * (j + (ny + 1) * k); };
        for (int k = 0; k < nz; k++) for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
            int q[8] = {id(i, j, k), id(i + 1, j, k), id(i + 1, j + 1, k), id(i, j + 1, k), id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1)};
            C += "8";
            for (int x : q) C += " " + std::to_string(x);
            C += "\n";
            nc++;
        }
    }
    std::string T;
    for (int i = 0; i < nc; i++) T += "12\n";
    return "# vtk DataFile Version 2.0\nblocks\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS " + std::to_string(np) + " double\n" + P + "\nCELLS " + std::to_string(nc) + " " + std::to_string(nc * 9) + "\n" + C + "\nCELL_TYPES " + std::to_string(nc) + "\n" + T;
}
inline std::map<std::string, std::string> files(const Scen& s) {
    std::map<std::string, std::string> f;
    if (auto* m = s.find("mesh")) if (m->str("source") == "file" && m->has("_blocks")) f[m->str("file_path", "m.vtk")] = vtk_blocks(*m);
    f["in.yaml"] = yaml(s);
    return f;
}
}  // namespace scen
