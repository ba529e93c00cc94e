// C35: the initial state is exactly what the region list says.
//
// The reference model below reads the same scenario and fills a mesh cell by cell.
#include "scen.hpp"
using namespace scen;

static const char* kScal[] = {"uniform", "radial", "spherical", "x_linear", "y_linear", "z_linear"};
static void scalar(G& g, Item& it, const std::string& f, double lo, double hi) {
    it.set(f + ".type", "uniform").set(f + ".value", g.q(lo, hi));
}
static std::string voxel_text(const Item& it, const int n[3], const double h[3]) {
    Rng r((uint64_t)it.l("_vseed", 1));
    int style = (int)it.l("_vstyle");
    std::string s = "# vtk DataFile Version 3.0\nvoxels\nASCII\nDATASET RECTILINEAR_GRID\n";
    s += "DIMENSIONS " + std::to_string(n[0] + 1) + " " + std::to_string(n[1] + 1) + " " + std::to_string(n[2] + 1) + "\n";
    auto put = [&](const std::vector<std::string>& w) {
        int per = style == 0 ? 1 : style == 1 ? 1000 : 1 + (int)r.below(7);
        std::string o;
        for (size_t i = 0; i < w.size(); i++) o += w[i] + ((int)(i + 1) % per == 0 || i + 1 == w.size() ? (style == 3 ? " \n" : "\n") : " ");
        return o;
    };
    static const char* N = "XYZ";
    for (int k = 0; k < 3; k++) {
        std::vector<std::string> w;
        for (int i = 0; i <= n[k]; i++) w.push_back(num(i * h[k]));
        s += std::string(1, N[k]) + "_COORDINATES " + std::to_string(n[k] + 1) + " float\n" + put(w);
    }
    s += "CELL_DATA " + std::to_string(n[0] * n[1] * n[2]) + "\nSCALARS in int 1\nLOOKUP_TABLE default\n";
    std::vector<std::string> w;
    std::string bits = it.str("_vox");
    for (int i = 0; i < n[0] * n[1] * n[2]; i++) w.push_back(std::string(1, bits[(size_t)i % bits.size()]));
    return s + put(w);
}
static dst::Trace gen_fill(Rng& r, int tier) {
    G g(r);
    int maxn = tier ? 6 : 4;
    int kind = (int)r.below(10);
    const char* meth = kind < 4 ? "dynx_FE" : kind < 7 ? "dynx_FE_rz" : kind < 9 ? "thrmex_FE" : "level_set";
    bool rz = kind >= 4 && kind < 7, thermal = kind == 7 || kind == 8, ls = kind == 9;
    g.dyn(1);
    if (rz) { if (r.chance(1, 4)) g.polar(maxn); else g.box2(maxn); } else g.box3(maxn);
    g.s.add("solver").set("method", meth).set("id", "0");
    int nmat = r.range(1, 3);
    for (int m = 0; m < nmat; m++) {
        if (ls) g.s.add("mat").set("id", (double)m).set("level_set_type", "evolve_front").set("normal_velocity", 0.1).set("curvature_velocity", 0.0);
        else g.gas(m);
    }
    int maxm = r.range(1, 4);
    if (maxm != 3 || r.chance(1, 2)) g.s.add("multi").set("max_num_mats_per_element", (double)maxm); else maxm = 3;
    int nreg = r.range(1, tier ? 8 : 6);
    bool sie = r.chance(2, 3);
    for (int k = 0; k < nreg; k++) {
        Item& it = g.s.add("region");
        bool vox = !rz && r.chance(1, 6);
        if (k == 0 && r.chance(4, 5)) it.set("volume.type", "global");
        else if (vox) {
            it.set("volume.type", "voxel_file").set("volume.file_path", "v" + std::to_string(k) + ".vtk").set("_vseed", (double)r.below(1000000)).set("_vstyle", (double)r.below(4));
            int n[3];
            std::vector<double> org, nn, hh, sc;
            for (int d = 0; d < 3; d++) {
                bool same = r.chance(1, 2);
                n[d] = same ? g.n[d] : r.range(1, 6);
                nn.push_back(n[d]);
                double h = r.chance(1, 2) ? 1.0 : g.q(0.1, 1), L = same ? g.l[d] : g.l[d] * (0.3 + r.unit());
                hh.push_back(strtod(snum(h).c_str(), nullptr));
                sc.push_back(strtod(snum(L / (n[d] * hh[d])).c_str(), nullptr));
                org.push_back(same ? g.o[d] : strtod(snum(g.o[d] + 0.4 * g.l[d] * (r.unit() - 0.3)).c_str(), nullptr));
            }
            static const char* S[] = {"volume.scale_x", "volume.scale_y", "volume.scale_z"};
            for (int d = 0; d < 3; d++) it.set(S[d], sc[d]);
            it.set("volume.origin", join(org)).set("_vn", join(nn)).set("_vh", join(hh));
            std::string bits;
            for (int i = 0; i < n[0] * n[1] * n[2]; i++) bits += r.chance(2, 3) ? '1' : '0';
            it.set("_vox", "b" + bits);
        } else g.volume(it);
        it.set("solver_id", "0").set("material_id", (double)r.below(nmat));
        if (ls) {
            it.set("level_set.type", "spherical").set("level_set.value", g.q(0.05, 0.5)).set("level_set.slope", r.chance(1, 2) ? 1.0 : g.q(0.5, 2));
            it.set("level_set.origin", join({g.o[0] + g.l[0] * r.unit(), g.o[1] + g.l[1] * r.unit(), g.o[2] + g.l[2] * r.unit()}));
        } else {
            scalar(g, it, "density", 0.1, 5);
            scalar(g, it, (r.chance(1, 8) ? !sie : sie) ? "specific_internal_energy" : "internal_energy", 0.1, 5);
            int v = (int)r.below(12);
            if (v == 0) it.set("velocity.type", "tg_vortex");
            else if (v == 1 && k) it.set("velocity.type", "none");
            else g.velocity(it, 2.0);
            if (thermal) { scalar(g, it, "temperature", 100, 900); scalar(g, it, "specific_heat", 100, 900); scalar(g, it, "thermal_conductivity", 1, 90); }
        }
        if (r.chance(1, 2)) {
            const char* t = kScal[r.below(rz ? 5 : 6)];
            it.set("volume_fraction.type", t);
            bool lin = t[1] == '_', un = t[0] == 'u';
            it.set("volume_fraction.value", un ? (r.chance(1, 3) ? 1.0 : g.q(-0.2, 1.2)) : lin ? g.q(-1, 1) : 0.0);
            if (!un) it.set("volume_fraction.slope", g.q(-1, 1.5));
            if (!un && !lin && r.chance(2, 3)) it.set("volume_fraction.origin", join({g.o[0] + g.l[0] * r.unit(), g.o[1] + g.l[1] * r.unit(), rz ? 0.0 : g.o[2] + g.l[2] * r.unit()}));
        }
    }
    g.s.add("out").set("timer_output_level", "thorough").set("output_file_format", "state").set("graphics_iteration_step", "1").set("graphics_time_step", 1.0);
    g.s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return g.s.trace();
}

struct Fill { size_t reg; double vf; };
static double field(const Item& g, const std::string& f, double def, const double* x, int) {
    if (!g.has(f + ".type")) return def;
    std::string t = g.str(f + ".type");
    double v = g.d(f + ".value", def), s = g.d(f + ".slope");
    auto o = g.v(f + ".origin");
    o.resize(3);
    double dx = x[0] - o[0], dy = x[1] - o[1], dz = x[2] - o[2];
    if (t == "radial") return s * std::sqrt(dx * dx + dy * dy - v);
    if (t == "spherical") return s * std::sqrt(dx * dx + dy * dy + dz * dz - v);
    if (t == "x_linear") return s * x[0] + v;
    if (t == "y_linear") return s * x[1] + v;
    if (t == "z_linear") return s * x[2] + v;
    return v;
}
static void cmp(const std::string& what, double got, double want, double rel, const std::string& where) {
    if (!close(got, want, rel, rel * 1e-3)) dst::fail(what + " differs from the region list", where + ": " + num(got) + " instead of " + num(want));
}
static void exec_fill(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s)) return;
    auto regs = s.all("region");
    auto mats = s.all("mat");
    for (size_t m = 0; m < mats.size(); m++) if (mats[m]->l("id") != (long)m) return;
    for (auto* g : regs) if (g->l("material_id") >= (long)mats.size()) return;
    std::map<std::string, std::string> f;
    for (auto* g : regs) if (g->has("_vox")) {
        auto n = g->v("_vn"), h = g->v("_vh");
        int in[3] = {(int)n[0], (int)n[1], (int)n[2]};
        Item q = *g;
        q.set("_vox", g->str("_vox").substr(1));
        f[g->str("volume.file_path")] = voxel_text(q, in, h.data());
    }
    f["in.yaml"] = yaml(s);
    mp::Options o;
    o.execute = false;
    o.max_iterations = 6000000;
    if (auto* x = s.find("sched")) { o.order = (int)x->l("order"); o.seed = (uint64_t)x->l("seed", 1); o.split = x->l("split") != 0; }
    mp::Result r = mp::run(f, "in.yaml", o);
    account(c, r);
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail);
    std::string meth = s.find("solver")->str("method");
    c.op(meth);
    int D = meth == "dynx_FE_rz" ? 2 : 3;
    // Geometry comes from the mesh the program built (decided by C32).
    size_t maxm = (size_t)s.l("multi", "max_num_mats_per_element", 3);
    if (r.how == mp::Result::aborted) {
        // allowed only if some element needs more materials than it has room for; the mesh is not available then
        if (r.what.find("exceeded max number of materials") == std::string::npos) dst::fail("setup stopped", mp::how_text(r));
        // an element can only get so many materials if that many distinct ones are added partially
        std::set<long> part;
        for (auto* g : regs) if (g->has("volume_fraction.type")) part.insert(g->l("material_id"));
        std::set<long> all;
        for (auto* g : regs) all.insert(g->l("material_id"));
        if (part.empty() || all.size() <= maxm) dst::fail("setup refused a region list that fits", r.what);
        c.observe("refused");
        c.nontrivial = true;
        return;
    }
    if (r.how == mp::Result::threw) {
        // an input without any state a solver needs is refused; that is decided elsewhere
        c.observe(mp::how_text(r));
        return;
    }
    if (r.how != mp::Result::done) dst::fail("setup stopped", mp::how_text(r));
    auto& M = r.mesh;
    auto& X = r.start["coords"];
    std::vector<std::vector<Fill>> el(M.elems);
    std::vector<std::array<double, 3>> cen(M.elems);
    for (size_t e = 0; e < M.elems; e++) {
        double x[3] = {0, 0, 0};
        for (size_t n : M.elem[e]) for (int d = 0; d < D; d++) x[d] += X(n, d);
        for (int d = 0; d < 3; d++) { x[d] /= (double)M.nodes_in_elem; cen[e][d] = x[d]; }
        for (size_t k = 0; k < regs.size(); k++) {
            const Item& g = *regs[k];
            std::string vt = g.str("volume.type");
            auto og = g.v("volume.origin");
            og.resize(3);
            bool in = false;
            auto edge = [&](double a, double b) { if (std::fabs(a - b) < 1e-9) throw 0; };
            try {
                if (vt == "global") in = true;
                else if (vt == "box") {
                    static const char* N[3][2] = {{"volume.x1", "volume.x2"}, {"volume.y1", "volume.y2"}, {"volume.z1", "volume.z2"}};
                    in = true;
                    for (int d = 0; d < 3; d++) { if (d < D) { edge(x[d], g.d(N[d][0])); edge(x[d], g.d(N[d][1])); } in = in && x[d] >= g.d(N[d][0]) && x[d] <= g.d(N[d][1]); }
                } else if (vt == "sphere" || vt == "cylinder") {
                    double q = 0;
                    for (int d = 0; d < (vt == "sphere" ? 3 : 2); d++) q += (x[d] - og[d]) * (x[d] - og[d]);
                    q = std::sqrt(q);
                    edge(q, g.d("volume.radius2"));
                    if (g.d("volume.radius1") > 0) edge(q, g.d("volume.radius1"));
                    in = q >= g.d("volume.radius1") && q <= g.d("volume.radius2");
                    if (vt == "cylinder") { edge(x[2], g.d("volume.z1")); edge(x[2], g.d("volume.z2")); in = in && x[2] >= g.d("volume.z1") && x[2] <= g.d("volume.z2"); }
                } else if (vt == "voxel_file") {
                    auto n = g.v("_vn"), h = g.v("_vh");
                    static const char* S[] = {"volume.scale_x", "volume.scale_y", "volume.scale_z"};
                    long ix[3];
                    in = true;
                    for (int d = 0; d < 3; d++) {
                        double q = (x[d] - og[d]) / (h[d] * g.d(S[d], 1.0));
                        if (std::fabs(q - std::round(q)) < 1e-4) throw 0;  // on a face between voxels
                        ix[d] = (long)std::floor(q);
                        in = in && ix[d] >= 0 && ix[d] < (long)n[d];
                    }
                    if (in) in = g.str("_vox")[1 + (size_t)(ix[0] + (long)n[0] * (ix[1] + (long)n[1] * ix[2]))] == '1';
                }
            } catch (int) { c.observe("on an edge"); return; }
            if (!in) continue;
            double vf = field(g, "volume_fraction", 1.0, x, D);
            vf = std::isnan(vf) ? 0.0 : std::min(1.0, std::max(0.0, vf));
            if (vf >= 1.0 - 1e-8) { el[e].assign(1, Fill{k, 1.0}); continue; }
            bool found = false;
            for (auto& q : el[e]) if (regs[q.reg]->l("material_id") == g.l("material_id")) { q = Fill{k, vf}; found = true; break; }
            if (found) continue;
            if (el[e].size() == maxm) dst::fail("too many materials in an element were accepted", "element " + std::to_string(e));
            el[e].push_back(Fill{k, vf});
        }
    }
    auto& vol = r.start["vol"];
    for (size_t m = 0; m < mats.size(); m++) {
        std::string at = "@" + std::to_string(m);
        size_t p = 0;
        double have = r.start["points"].rows > m ? r.start["points"](m) : 0;
        for (size_t e = 0; e < M.elems; e++)
            for (auto& q : el[e]) {
                const Item& g = *regs[q.reg];
                if (g.l("material_id") != (long)m) continue;
                std::string w = "material " + std::to_string(m) + " element " + std::to_string(e) + " (region " + std::to_string(q.reg) + ")";
                if (p >= (size_t)have) dst::fail("material is missing in an element", w);
                if (r.start["elem" + at].rows <= p || r.start["elem" + at](p) != (double)e) dst::fail("material is in other elements than the region list says", w);
                cmp("volume fraction", r.start["volfrac" + at](p), q.vf, 1e-12, w);
                if (meth != "level_set") {
                    double rho = g.d("density.value"), mass = rho * vol(e) * q.vf;
                    cmp("density", r.start["den" + at](p), rho, 0, w);
                    cmp("mass", r.start["mass" + at](p), mass, 1e-12, w);
                    double want = g.has("specific_internal_energy.type") ? g.d("specific_internal_energy.value") : mass > 0 ? g.d("internal_energy.value") / mass : NAN;
                    if (!std::isnan(want)) cmp("specific internal energy", r.start["sie" + at](p), want, 1e-12, w);
                }
                if (meth == "thrmex_FE") {
                    cmp("specific heat", r.start["specific_heat" + at](p), g.d("specific_heat.value"), 0, w);
                    cmp("thermal conductivity", r.start["conductivity" + at](p), g.d("thermal_conductivity.value"), 0, w);
                }
                p++;
            }
        if (p != (size_t)have) dst::fail("material has more points than the region list says", "material " + std::to_string(m) + ": " + num(have) + " instead of " + std::to_string(p));
    }
    if (meth == "level_set") {
        for (size_t e = 0; e < M.elems; e++) {
            double want = 1e32;
            for (auto& q : el[e]) {
                const Item& g = *regs[q.reg];
                auto og = g.v("level_set.origin");
                og.resize(3);
                double d2 = 0;
                for (int d = 0; d < 3; d++) d2 += (cen[e][d] - og[d]) * (cen[e][d] - og[d]);
                want = std::min(want, g.d("level_set.slope") * std::sqrt(d2) - g.d("level_set.value"));
            }
            if (!el[e].empty()) cmp("level set", r.start["level_set"](e), want, 1e-12, "element " + std::to_string(e));
        }
    } else {
        // a node takes its values from its elements in ascending order, the last one wins
        std::vector<std::vector<size_t>> en(M.nodes);
        for (size_t e = 0; e < M.elems; e++) for (size_t n : M.elem[e]) en[n].push_back(e);
        std::vector<double> mass(M.nodes, 0.0);
        for (size_t m = 0; m < mats.size(); m++) {
            std::string at = "@" + std::to_string(m);
            for (size_t p = 0; p < r.start["mass" + at].rows; p++) for (size_t n : M.elem[(size_t)r.start["elem" + at](p)]) mass[n] += r.start["mass" + at](p) / (double)M.nodes_in_elem;
        }
        for (size_t n = 0; n < M.nodes; n++) {
            double v[3] = {0, 0, 0}, T = 0;
            double x[3] = {X(n, 0), X(n, 1), D == 3 ? X(n, 2) : 0};
            for (size_t e : en[n])
                for (auto& q : el[e]) {
                    const Item& g = *regs[q.reg];
                    std::string vt = g.str("velocity.type");
                    double r2 = std::sqrt(x[0] * x[0] + x[1] * x[1]), r3 = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
                    if (vt == "static") v[0] = v[1] = v[2] = 0;
                    else if (vt == "cartesian") { v[0] = g.d("velocity.u"); v[1] = g.d("velocity.v"); v[2] = g.d("velocity.w"); }
                    else if (vt == "radial") { for (int d = 0; d < 2; d++) v[d] = r2 > 1e-14 ? g.d("velocity.speed") * x[d] / r2 : 0; v[2] = 0; }
                    else if (vt == "spherical") { for (int d = 0; d < 3; d++) v[d] = r3 > 1e-14 ? g.d("velocity.speed") * x[d] / r3 : 0; }
                    else if (vt == "tg_vortex") { v[0] = std::sin(M_PI * x[0]) * std::cos(M_PI * x[1]); v[1] = -std::cos(M_PI * x[0]) * std::sin(M_PI * x[1]); v[2] = 0; }
                    if (g.has("temperature.type")) T = g.d("temperature.value");
                }
            std::string w = "node " + std::to_string(n);
            for (int d = 0; d < D; d++) if (!close(r.start["vel"](n, d), v[d], 1e-9, 1e-9)) dst::fail("velocity differs from the region list", w + ": " + num(r.start["vel"](n, d)) + " instead of " + num(v[d]));
            if (meth == "thrmex_FE") cmp("temperature", r.start["temp"](n), T, 0, w);
            if (D == 3 && meth == "dynx_FE") cmp("node mass", r.start["node_mass"](n), mass[n], 1e-9, w);
        }
    }
    uint64_t h = 7;
    for (auto& kv : r.start.a) h = dst::fnv(kv.second.v.data(), kv.second.v.size() * 8, dst::fnv(kv.first, h));
    c.observe(std::to_string(h));
    c.nontrivial = true;
}
static dst::Register r35({"C35", gen_fill, exec_fill, nullptr});
