// The staggered-grid solvers, cycle by cycle: conservation (C36), time control (C38), boundary conditions (C39).
#include <algorithm>
#include "any.hpp"
#include "ref.hpp"
using namespace scen;

// A dump is complete when its time-series file is opened.
static std::vector<const mp::Snap*> dumps(const mp::Result& r, int solver = 0) {
    std::vector<const mp::Snap*> d;
    std::string nm = "vtk/Fierro.solver" + std::to_string(solver) + ".pvd";
    for (auto& s : r.snaps) if (s.at == nm) d.push_back(&s);
    return d;
}
static void viz_out(Scen& s, int step, double dt) {
    Item* o = s.find("out");
    if (!o) o = &s.add("out");
    o->kv.clear();
    o->set("timer_output_level", "thorough").set("output_file_format", "viz").set("graphics_iteration_step", std::to_string(step)).set("graphics_time_step", dt);
    o->set("node_field_outputs", "coords,vel");
}
static void drop(Scen& s, const std::string& sec) { for (size_t i = 0; i < s.items.size();) if (s.items[i].sec == sec) s.items.erase(s.items.begin() + i); else i++; }
static mp::Options options(const Scen& s) {
    mp::Options o;
    o.cycle_snaps = true;
    o.max_iterations = 6000000;
    if (auto* x = s.find("sched")) { o.order = (int)x->l("order"); o.seed = (uint64_t)x->l("seed", 1); o.split = x->l("split") != 0; }
    return o;
}
static void add_sched(Scen& s, Rng& r) { s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2))); }
static mp::Result go(const Scen& s, dst::Ctx& c) {
    mp::Result r = mp::run(files(s), "in.yaml", options(s));
    account(c, r);
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail);
    return r;
}
static uint64_t hash(const mp::Snap& s) {
    uint64_t h = 7;
    for (auto& kv : s.a) h = dst::fnv(kv.second.v.data(), kv.second.v.size() * 8, dst::fnv(kv.first, h));
    return h;
}
static bool finite(const mp::Snap& s) {
    for (auto& kv : s.a) for (double x : kv.second.v) if (!std::isfinite(x)) return false;
    return true;
}
static bool untangled(const mp::Result& r, const mp::Snap& s) {  // the scheme leaves its domain when elements turn inside out
    auto& v = s["vol"];
    auto& v0 = r.start["vol"];
    for (size_t e = 0; e < v.rows; e++) if (!(v(e) > 1e-3 * v0(e))) return false;
    auto &x = s["coords"], &x0 = r.start["coords"];
    if (x.cols == 2) for (size_t n = 0; n < x.rows; n++) if (x0(n, 1) > 1e-9 && !(x(n, 1) > 1e-3 * x0(n, 1))) return false;  // crossed the axis
    return true;
}
// ---------------------------------------------------------------- C36
static dst::Trace gen_cons(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = tier ? 4 : 3;
    a.cycles = tier ? 24 : 12;
    a.kinds = 1u << kSgh | 1u << kSghRz | 1u << kMulti;
    Scen s = any(r, a);
    // boundaries that do no work
    bool two = s.find("mesh")->l("num_dims") == 2, polar = s.find("mesh")->str("type") == "polar";
    std::vector<Item> keep;
    for (auto& i : s.items) if (i.sec == "bc" && (i.str("velocity_model") == "reflected" || i.str("velocity_model") == "fixed")) keep.push_back(i);
    (void)two; (void)polar;
    drop(s, "bc");
    if (r.chance(1, 3) && !two) keep.clear();
    for (auto& i : keep) s.items.push_back(i);
    viz_out(s, r.chance(1, 2) ? 1 : r.range(1, 4), r.chance(1, 3) ? s.d("dyn", "dt_start") * (0.5 + r.unit() * 0.6) : 1.0);
    add_sched(s, r);
    return s.trace();
}
static double total_energy(const mp::Snap& s, bool rz, double& ie, double& ke) {
    ie = ke = 0;
    for (size_t m = 0; m < s["points"].rows; m++) {
        std::string M = "@" + std::to_string(m);
        auto &a = s["mass" + M], &e = s["sie" + M];
        for (size_t k = 0; k < a.rows; k++) ie += a(k) * e(k);
    }
    auto &v = s["vel"], &nm = s["node_mass"], &x = s["coords"];
    for (size_t n = 0; n < v.rows; n++) {
        double q = 0;
        for (size_t d = 0; d < v.cols; d++) q += v(n, d) * v(n, d);
        ke += 0.5 * nm(n) * (rz ? x(n, 1) : 1) * q;
    }
    return ie + ke;
}
static void exec_cons(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s) || !s.find("out")) return;
    for (auto* b : s.all("bc")) if (b->str("velocity_model") != "reflected" && b->str("velocity_model") != "fixed") return;
    mp::Result r = go(s, c);
    if (r.how != mp::Result::done) dst::fail("a valid problem was not run to its end", mp::how_text(r));
    bool rz = s.find("solver")->str("method") == "dynx_FE_rz";
    int D = rz ? 2 : 3;
    auto d = dumps(r);
    if (d.empty()) dst::fail("no output was written");
    d.push_back(&r.end);
    const mp::Snap& s0 = *d[0];
    size_t nm = s0["points"].rows, N = s0["coords"].rows;
    double ie0, ke0, E0 = total_energy(s0, rz, ie0, ke0);
    double scale = std::fabs(ie0) + ke0;
    // momentum is kept in the directions no boundary condition touches
    bool keep[3] = {true, true, true};
    for (auto* b : s.all("bc")) {
        if (b->str("velocity_model") == "fixed") keep[0] = keep[1] = keep[2] = false;
        auto f = b->v("velocity_bc_global_vars");
        for (int k = 0; k < 3 && k < (int)f.size(); k++) if (f[(size_t)k] != 0) keep[k] = false;
    }
    bool thin = rz && s.find("mesh")->v("origin").size() > 1;
    (void)thin;
    double P0[3] = {0, 0, 0}, PS = 0, X0[3] = {0, 0, 0}, M0 = 0, mpt = 0;
    auto mom = [&](const mp::Snap& q, double* P, double* X) {
        for (size_t n = 0; n < N; n++) for (int k = 0; k < D; k++) { P[k] += q["node_mass"](n) * q["vel"](n, (size_t)k); if (X) X[k] += q["node_mass"](n) * q["coords"](n, (size_t)k); }
    };
    mom(s0, P0, X0);
    for (size_t n = 0; n < N; n++) { double v = 0; for (int k = 0; k < D; k++) v = std::max(v, std::fabs(s0["vel"](n, (size_t)k))); PS += s0["node_mass"](n) * v; M0 += s0["node_mass"](n) * (rz ? s0["coords"](n, 1) : 1); }
    for (size_t m = 0; m < nm; m++) for (double x : s0["mass@" + std::to_string(m)].v) mpt += x;
    if (!close(M0, mpt, 1e-10, 0)) dst::fail("nodes and material points do not have the same total mass", num(M0) + " and " + num(mpt));
    int checked = 0;
    for (size_t q = 0; q < d.size(); q++) {
        const mp::Snap& x = *d[q];
        if (!finite(x) || !untangled(r, x)) break;
        std::string at = "dump " + std::to_string(q);
        double ie, ke, E = total_energy(x, rz, ie, ke);
        scale = std::max(scale, std::fabs(ie) + ke);
        if (std::fabs(E - E0) > 1e-10 * scale) dst::fail("total energy changed", at + ": " + num(E0) + " became " + num(E));
        for (size_t m = 0; m < nm; m++) {
            std::string M = "@" + std::to_string(m);
            auto &ma = x["mass" + M], &m0 = s0["mass" + M];
            if (ma.rows != m0.rows) dst::fail("number of material points changed", at);
            double tm = 0;
            for (size_t k = 0; k < ma.rows; k++) {
                if (!same_bits(ma(k), m0(k))) dst::fail("mass of a material point changed", at + " material " + std::to_string(m) + " point " + std::to_string(k));
                tm += ma(k);
                if (x["eroded" + M](k) != 0) continue;
                double vf = x["volfrac" + M](k) * x["geo_volfrac" + M](k), V = x["vol"]((size_t)x["elem" + M](k));
                if (q && !close(x["den" + M](k) * vf * V, ma(k), 1e-9, 1e-18)) dst::fail("density times volume is not the mass", at + " material " + std::to_string(m) + " point " + std::to_string(k) + ": " + num(x["den" + M](k) * vf * V) + " and " + num(ma(k)));
            }
        }
        if (!rz) {
            for (size_t n = 0; n < N; n++) if (!same_bits(x["node_mass"](n), s0["node_mass"](n))) dst::fail("mass of a node changed", at + " node " + std::to_string(n));
            double P[3] = {0, 0, 0}, X[3] = {0, 0, 0};
            mom(x, P, X);
            double ps = PS;
            for (size_t n = 0; n < N; n++) { double v = 0; for (int k = 0; k < D; k++) v = std::max(v, std::fabs(x["vel"](n, (size_t)k))); ps = std::max(ps, x["node_mass"](n) * v * (double)N); }
            for (int k = 0; k < D; k++) if (keep[k] && std::fabs(P[k] - P0[k]) > 1e-10 * (ps + 1e-30)) dst::fail("momentum changed", at + " direction " + std::to_string(k) + ": " + num(P0[k]) + " became " + num(P[k]));
        } else {
            double M = 0;
            for (size_t n = 0; n < N; n++) M += x["node_mass"](n) * x["coords"](n, 1);
            if (!close(M, M0, 1e-9, 0)) dst::fail("total node mass changed", at + ": " + num(M0) + " became " + num(M));
        }
        for (size_t e = 0; e < r.mesh.elems; e++) {
            double V = rz ? ref::vol_rz(x["coords"], r.mesh.elem[e]) : ref::vol3(x["coords"], r.mesh.elem[e]), L = std::cbrt(std::fabs(V));
            (void)L;
            if (!close(V, x["vol"](e), 1e-8, 1e-14)) dst::fail("element volume is not the volume of its nodes", at + " element " + std::to_string(e) + ": " + num(V) + " and " + num(x["vol"](e)));
        }
        checked++;
    }
    c.op(rz ? "RZ" : nm > 1 ? "3D, several materials" : "3D");
    for (size_t m = 0; m < nm; m++) for (double e : r.end["eroded@" + std::to_string(m)].v) if (e != 0) { c.op("material point eroded"); break; }
    c.observe(std::to_string(hash(r.end)));
    if (checked > 1) c.nontrivial = true;
}
static dst::Register r36({"C36", gen_cons, exec_cons, nullptr});

// ---------------------------------------------------------------- times of the outputs
struct Series { std::vector<double> t; std::vector<std::string> file; };
static Series pvd(const mp::Result& r, int solver) {
    Series s;
    auto i = r.files.find("vtk/Fierro.solver" + std::to_string(solver) + ".pvd");
    if (i == r.files.end()) return s;
    const std::string& f = i->second;
    for (size_t p = 0; (p = f.find("timestep=\"", p)) != std::string::npos;) {
        p += 10;
        s.t.push_back(strtod(f.c_str() + p, nullptr));
        size_t q = f.find("file=\"", p) + 6;
        s.file.push_back(f.substr(q, f.find('"', q) - q));
    }
    return s;
}
// The step that took the nodes from a to b with the mean of both velocities; -1 if the nodes hardly move.
static double step_of(const mp::Snap& a, const mp::Snap& b) {
    auto &x = a["coords"], &y = b["coords"], &u = a["vel"], &v = b["vel"];
    double s = 0, w = 0;
    for (size_t k = 0; k < x.v.size(); k++) { double m = 0.5 * (u.v[k] + v.v[k]); s += (y.v[k] - x.v[k]) * m; w += m * m; }
    return w > 1e-6 * (double)x.rows ? s / w : -1;
}
// ---------------------------------------------------------------- C38
static dst::Trace gen_time(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = tier ? 3 : 2;
    a.cycles = 10000;
    int mode = (int)r.below(3);
    a.kinds = mode == 0 ? 1u << kSgh | 1u << kSghRz | 1u << kMulti : 1u << kSgh | 1u << kSghRz | 1u << kMulti | 1u << kThermal | 1u << kLevelSet | 1u << kChain;
    Scen s = any(r, a);
    G g(r);
    Item& d = *s.find("dyn");
    double dt0 = mode == 0 && r.chance(1, 2) ? g.q(1e-4, 2e-2) : g.q(2e-4, 2e-3);
    d.set("dt_start", dt0);
    if (r.chance(1, 3)) d.set("dt_max", g.q(1, 10) * dt0);
    if (r.chance(1, 4)) d.set("dt_min", g.q(0.1, 1) * dt0);
    if (mode == 0) {  // every cycle is written
        d.set("cycle_stop", (double)r.range(2, tier ? 20 : 10));
        if (r.chance(1, 3)) d.set("time_final", dt0 * g.q(1, 12));
        viz_out(s, 1, r.chance(1, 2) ? dt0 * g.q(0.3, 5) : 1.0);
    } else {          // outputs by time, run until the final time
        double tf = dt0 * g.q(2, tier ? 25 : 12);
        d.set("time_final", tf);
        auto sv = s.all("solver");
        if (sv.size() > 1) {
            double b = 0;
            sv[0]->set("time_end", b = tf * g.q(0.1, 0.6));
            if (r.chance(1, 3)) sv[1]->set("time_end", b + (tf - b) * g.q(0.3, 1));
        }
        viz_out(s, 1000000, r.chance(1, 6) ? 2 * tf : tf * (r.chance(1, 4) ? 1.0 / r.range(2, 5) : g.q(0.06, 1)));
        if (s.find("solver")->str("method") == "level_set") s.find("out")->set("node_field_outputs", "vel,grad_level_set").set("gauss_pt_field_outputs", "level_set,volume");
    }
    add_sched(s, r);
    return s.trace();
}
static double cfl(const mp::Result& r, const mp::Snap& x, size_t m, double c_, double lo, double hi) {
    std::string M = "@" + std::to_string(m);
    auto& X = x["coords"];
    double best = 1e300;
    for (size_t k = 0; k < x["sspd" + M].rows; k++) {
        auto& e = r.mesh.elem[(size_t)x["elem" + M](k)];
        double dm = 1e300;
        for (size_t a = 0; a < e.size(); a++) for (size_t b = a + 1; b < e.size(); b++) {
            double q = 0;
            for (size_t d = 0; d < X.cols; d++) q += (X(e[a], d) - X(e[b], d)) * (X(e[a], d) - X(e[b], d));
            dm = std::min(dm, std::sqrt(q));
        }
        double t = x["eroded" + M](k) != 0 ? 1e32 : c_ * dm / (x["sspd" + M](k) + 1e-16);
        best = std::min(best, std::max(std::min(t, hi), lo));
    }
    return best;
}
static void exec_time(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s) || !s.find("out")) return;
    mp::Result r = go(s, c);
    if (r.how != mp::Result::done) dst::fail("a valid problem was not run to its end", mp::how_text(r));
    double tf = s.d("dyn", "time_final", 1), ival = s.d("out", "graphics_time_step", 1), dmax = s.d("dyn", "dt_max", 1e-2), dmin = s.d("dyn", "dt_min", 1e-8), ds = s.d("dyn", "dt_start", 1e-5), cf = s.d("dyn", "dt_cfl", 0.4);
    long step = s.l("out", "graphics_iteration_step", 2000000), stop = s.l("dyn", "cycle_stop", 2000000);
    auto sv = s.all("solver");
    double begin = 0;
    for (size_t k = 0; k < sv.size(); k++) {
        double end = sv[k]->has("time_end") ? sv[k]->d("time_end") : tf;
        Series p = pvd(r, (int)k);
        auto d = dumps(r, (int)k);
        std::string who = "solver " + std::to_string(k);
        if (p.t.empty() || d.size() != p.t.size()) dst::fail("time series does not list every output", who + ": " + std::to_string(p.t.size()) + " entries, " + std::to_string(d.size()) + " outputs");
        auto same = [](double a, double b) { return std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 3e-12; };  // printed with six digits
        if (!same(p.t[0], begin)) dst::fail("first output is not at the start time", who + ": " + num(p.t[0]) + " instead of " + num(begin));
        for (size_t i = 1; i < p.t.size(); i++) if (p.t[i] < p.t[i - 1]) dst::fail("output times go backwards", who + ": " + num(p.t[i - 1]) + ", " + num(p.t[i]));
        if (p.t.back() > end * (1 + 2e-5) + 3e-12) dst::fail("the run went past its final time", who + ": " + num(p.t.back()) + " of " + num(end));
        if (step >= 1000000) {
            // exactly the requested times, then the end
            std::vector<double> want = {begin};
            bool edge = false;
            for (int q = 1; q < 1000; q++) {
                double w = begin + q * ival;
                if (std::fabs(w - end) < 1e-9 * end) { edge = true; break; }
                if (w > end) break;
                want.push_back(w);
            }
            want.push_back(end);
            size_t n = want.size();
            bool ok = p.t.size() == n || (edge && p.t.size() == n + 1);
            for (size_t i = 0; ok && i < n; i++) ok = same(p.t[i], want[i]);
            if (!ok) {
                std::string a, b;
                for (double x : want) a += " " + snum(x);
                for (double x : p.t) b += " " + snum(x);
                dst::fail("outputs are not written at the requested times", who + ": wanted" + a + ", got" + b);
            }
            c.ops["timed output"] += n;
        } else {
            std::string meth = sv[k]->str("method");
            bool reached = same(p.t.back(), end);
            if (!reached && (long)p.t.size() != stop && (long)p.t.size() != stop + 1) dst::fail("the run ended before its final time and cycle", who + ": " + num(p.t.back()) + " of " + num(end) + " after " + std::to_string(p.t.size()) + " outputs");
            // which cycle each dump follows: the first cycle is only written when it reaches an output time
            double time = begin, dt = ds;
            size_t nm = r.end["points"].rows;
            double dt1 = std::min(dmax, end - begin);
            for (size_t m = 0; m < nm; m++) dt1 = std::min(dt1, std::min(dt * 1.1, cfl(r, *d[0], m, cf, dmin, dmax)));
            bool first = dt1 >= ival || dt1 >= end - begin;
            if (first)
                for (size_t i = 1; i < d.size(); i++) {
                    if (!finite(*d[i]) || !untangled(r, *d[i])) break;
                    double want = dmax;
                    for (size_t m = 0; m < nm; m++) {
                        double w = std::min(dt * 1.1, cfl(r, *d[i - 1], m, cf, dmin, dmax));
                        w = std::min(w, std::max(1e-16, begin + (double)i * ival - time) + 1e-12);
                        w = std::min(w, end - time + 1e-12);
                        want = std::min(want, w);
                    }
                    double got = step_of(*d[i - 1], *d[i]);
                    if (got < 0) break;
                    if (std::fabs(got - want) > 1e-8 * want + 2e-12) dst::fail("time step differs from the stability and output limits", who + " cycle " + std::to_string(i) + ": " + num(got) + " instead of " + num(want));
                    time += got;
                    if (!same(p.t[i], time)) dst::fail("output time is not the sum of the steps", who + " output " + std::to_string(i) + ": " + num(p.t[i]) + " instead of " + num(time));
                    c.op("time step");
                }
        }
        if (k) {  // the state is handed over
            auto prev = dumps(r, (int)k - 1);
            for (const char* f : {"coords", "sie@0", "den@0", "mass@0", "sie@1", "node_mass", "vol"}) {
                auto &x = (*prev.back())[f], &y = (*d[0])[f];
                if (x.v.size() != y.v.size()) dst::fail("the next solver does not start from the state of the previous one", f);
                for (size_t i = 0; i < x.v.size(); i++) if (!same_bits(x.v[i], y.v[i])) dst::fail("the next solver does not start from the state of the previous one", std::string(f) + "[" + std::to_string(i) + "]");
            }
            c.op("state handed over");
        }
        begin = end;
    }
    c.op(sv[0]->str("method"));
    c.observe(std::to_string(hash(r.end)));
    if (dumps(r).size() > 1) c.nontrivial = true;
}
static dst::Register r38({"C38", gen_time, exec_time, nullptr});

// ---------------------------------------------------------------- C39
static dst::Trace gen_bc(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = tier ? 4 : 3;
    a.cycles = r.range(2, tier ? 14 : 8);
    a.kinds = 1u << kSgh | 1u << kSghRz | 1u << kMulti | 1u << kChain;
    Scen s;
    do s = any(r, a); while (s.find("solver")->str("method").compare(0, 4, "dynx") != 0);
    G g(r);
    Item& d = *s.find("dyn");
    double ds = d.d("dt_start"), tf = ds * a.cycles * 0.7;
    d.set("time_final", snum(tf));
    int dims = (int)s.find("mesh")->l("num_dims"), ns = (int)s.all("solver").size();
    if (ns > 1) s.all("solver")[0]->set("time_end", snum(tf * g.q(0.2, 0.5)));
    d.set("rk_num_stages", (double)r.range(1, 3));
    bool polar = s.find("mesh")->str("type") == "polar";
    auto o = s.find("mesh")->v("origin"), l = s.find("mesh")->v("length");
    drop(s, "bc");
    auto surf = [&](Item& b, int k, double pos) { b.set("solver_id", std::to_string(r.below((uint64_t)ns))).set("surface.type", plane_name(k)).set("surface.plane_position", pos).set("surface.tolerance", 1e-5); };
    auto dir = [&](int k) {  // unit, reversed, scaled and slanted directions
        double v[3] = {0, 0, 0};
        v[k] = r.chance(1, 2) ? 1 : r.chance(1, 2) ? -1 : g.q(0.3, 3);
        if (r.chance(1, 4)) for (int q = 0; q < dims; q++) v[q] = g.q(-1, 1);
        if (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] < 0.01) v[k] = 1;
        return join({v[0], v[1], v[2]});
    };
    auto window = [&](double& t0, double& t1) { t0 = r.chance(1, 2) ? 0 : tf * g.q(0, 0.6); t1 = r.chance(1, 2) ? 10 * tf : t0 + tf * g.q(0.1, 0.6); };
    int nb = r.range(1, 5);
    for (int q = 0; q < nb; q++) {
        int k = (int)r.below((uint64_t)dims);
        double pos = polar ? 0.0 : o[(size_t)k] + (r.chance(1, 2) ? l[(size_t)k] : 0);
        Item b;
        b.sec = "bc";
        surf(b, k, pos);
        double t0, t1, V = 0.15;
        window(t0, t1);
        switch (r.below(dims == 3 ? 7 : 5)) {
        case 0: b.set("velocity_model", "reflected").set("velocity_bc_global_vars", dir(k)); break;
        case 1: b.set("velocity_model", "fixed"); break;
        case 2: b.set("velocity_model", "constant").set("velocity_bc_global_vars", join({g.q(-V, V), g.q(-V, V), dims == 3 ? g.q(-V, V) : 0.0})); break;
        case 3: b.set("velocity_model", "time_varying").set("velocity_bc_global_vars", dir(k) + "," + join({g.q(-V, V), g.q(0, 2) / tf, t0, t1})); break;
        case 4: b.set("velocity_model", "piston").set("velocity_bc_global_vars", dir(k) + "," + join({g.q(-V, V), g.q(-V, V) / tf, g.q(-V, V) / tf / tf, t0, t1})); break;
        case 5: b.set("stress_model", "constant").set("stress_bc_global_vars", join({g.q(-1, 1), g.q(-1, 1), g.q(-1, 1), g.q(-1, 1), g.q(-1, 1), g.q(-1, 1)})); break;
        default: b.set("stress_model", "time_varying").set("stress_bc_global_vars", join({g.q(-1, 1), g.q(-1, 1), g.q(-1, 1), g.q(-1, 1), g.q(-1, 1), g.q(-1, 1), g.q(0, 2) / tf, t0, t1}));
        }
        s.items.push_back(b);
    }
    if (dims == 2) for (int k = polar ? 0 : 1; k < 2; k++) if (polar || o[1] == 0) {
        Item b;
        b.sec = "bc";
        surf(b, k, 0);
        s.items.push_back(b.set("velocity_model", "reflected").set("velocity_bc_global_vars", flags(k)));
    }
    viz_out(s, 1, ds * g.q(0.3, 0.99));
    add_sched(s, r);
    return s.trace();
}
// u -> A u + b
struct Affine {
    double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, b[3] = {0, 0, 0}, slack = 0;
    void along(const double* n, double v) {  // component along n becomes v
        double s[4] = {0, 0, 0, 0};
        for (int i = 0; i < 3; i++) { s[3] += n[i] * b[i]; for (int j = 0; j < 3; j++) s[j] += n[i] * A[i][j]; }
        for (int i = 0; i < 3; i++) { b[i] += n[i] * (v - s[3]); for (int j = 0; j < 3; j++) A[i][j] -= n[i] * s[j]; }
    }
};
// directions w with w.A = 0: there the velocity is prescribed
static std::vector<std::array<double, 3>> fixed_dirs(const Affine& f, int D) {
    double M[3][3], V[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { M[i][j] = 0; for (int k = 0; k < 3; k++) M[i][j] += f.A[i][k] * f.A[j][k]; }
    if (D == 2) { M[2][2] = 1; M[0][2] = M[2][0] = M[1][2] = M[2][1] = 0; }
    for (int sweep = 0; sweep < 60; sweep++) for (int p = 0; p < 2; p++) for (int q = p + 1; q < 3; q++) {
        if (std::fabs(M[p][q]) < 1e-300) continue;
        double th = 0.5 * std::atan2(2 * M[p][q], M[q][q] - M[p][p]), c = std::cos(th), s = std::sin(th);
        for (int k = 0; k < 3; k++) { double a = M[k][p], b = M[k][q]; M[k][p] = c * a - s * b; M[k][q] = s * a + c * b; }
        for (int k = 0; k < 3; k++) { double a = M[p][k], b = M[q][k]; M[p][k] = c * a - s * b; M[q][k] = s * a + c * b; }
        for (int k = 0; k < 3; k++) { double a = V[k][p], b = V[k][q]; V[k][p] = c * a - s * b; V[k][q] = s * a + c * b; }
    }
    std::vector<std::array<double, 3>> w;
    for (int k = 0; k < 3; k++) if (M[k][k] < 1e-20) w.push_back({V[0][k], V[1][k], V[2][k]});
    return w;
}
static void exec_bc(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s) || !s.find("out")) return;
    mp::Result r = go(s, c);
    if (r.how != mp::Result::done) dst::fail("a valid problem was not run to its end", mp::how_text(r));
    auto bc = s.all("bc");
    auto sv = s.all("solver");
    int D = (int)r.mesh.dims, checks = 0;
    size_t N = r.mesh.nodes;
    std::vector<std::vector<int>> sets(N);  // conditions of each node in the order they apply
    for (size_t b = 0; b < bc.size() && b < r.mesh.set_nodes.size(); b++) for (size_t n : r.mesh.set_nodes[b]) sets[n].push_back((int)b);
    bool rk1 = s.l("dyn", "rk_num_stages", 2) == 1, slip = false;
    for (size_t k = 0; k < sv.size(); k++) {
        Series p = pvd(r, (int)k);
        auto d = dumps(r, (int)k);
        if (d.size() != p.t.size()) dst::fail("time series does not list every output", std::to_string(p.t.size()) + " entries, " + std::to_string(d.size()) + " outputs");
        for (size_t q = 0; q < d.size(); q++) {
            const mp::Snap& x = *d[q];
            if (!finite(x) || !untangled(r, x)) break;
            double time = q ? p.t[q - 1] : p.t[0], te = 1e-5 * time + 1e-11;
            std::string at = "solver " + std::to_string(k) + " dump " + std::to_string(q);
            for (size_t n = 0; n < N; n++) {
                Affine f;
                bool known = true;
                for (int b : sets[n]) {
                    if (bc[(size_t)b]->l("solver_id") != (long)k) continue;
                    std::string m = bc[(size_t)b]->str("velocity_model");
                    auto v = bc[(size_t)b]->v("velocity_bc_global_vars");
                    v.resize(8);
                    double h[3] = {v[0], v[1], D == 3 ? v[2] : 0}, len = std::sqrt(h[0] * h[0] + h[1] * h[1] + h[2] * h[2]);
                    if (m == "fixed" || m == "constant") {
                        f = Affine();
                        for (int i = 0; i < D; i++) { for (int j = 0; j < 3; j++) f.A[i][j] = 0; f.b[i] = m == "fixed" ? 0 : v[(size_t)i]; }
                    } else if (m == "reflected" || m == "piston" || m == "time_varying") {
                        double val = 0;
                        for (double& e : h) e /= len;
                        if (m != "reflected") {
                            double t0 = v[m == "piston" ? 6 : 5], t1 = v[m == "piston" ? 7 : 6], dt = time - t0;
                            if (std::fabs(time - t0) <= te || std::fabs(time - t1) <= te) { if (t0 == 0 && time == 0) dt = 0; else known = false; }
                            if (!(time == 0 && t0 == 0) && (time < t0 || time > t1)) continue;
                            if (m == "piston") { val = v[3] + v[4] * dt + 0.5 * v[5] * dt * dt; f.slack += te * (std::fabs(v[4]) + std::fabs(v[5] * dt)); }
                            else { val = v[3] * std::exp(-v[4] * dt); f.slack += te * std::fabs(v[3] * v[4]); }
                        }
                        f.along(h, val);
                        if (std::fabs(h[0]) < 0.999 && std::fabs(h[1]) < 0.999 && std::fabs(h[2]) < 0.999) slip = true;
                    }
                }
                if (!known) continue;
                for (auto& w : fixed_dirs(f, D)) {
                    double got = 0, want = 0, big = 0;
                    for (int i = 0; i < D; i++) { got += w[(size_t)i] * x["vel"](n, (size_t)i); want += w[(size_t)i] * f.b[i]; big = std::max(big, std::fabs(x["vel"](n, (size_t)i))); }
                    if (std::fabs(got - want) > 1e-11 + 1e-10 * big + 2 * f.slack)
                        dst::fail("velocity of a boundary node differs from its boundary conditions", at + " node " + std::to_string(n) + " along (" + snum(w[0]) + "," + snum(w[1]) + "," + snum(w[2]) + "): " + num(got) + " instead of " + num(want));
                    checks++;
                }
            }
            if (D != 3 || !rk1 || q == 0) continue;
            // forces of the stress conditions on the boundary, at the positions at the start of the step
            const mp::Snap& y = *d[q - 1];
            std::vector<double> F(3 * N, 0.0);
            double big = 0;
            bool known = true;
            for (size_t b = 0; b < bc.size() && b < r.mesh.set_patches.size(); b++) {
                std::string m = bc[b]->str("stress_model");
                if (m.empty() || bc[b]->l("solver_id") != (long)k) continue;
                auto v = bc[b]->v("stress_bc_global_vars");
                v.resize(9);
                double f = 1;
                if (m == "time_varying") {
                    if (std::fabs(time - v[7]) <= te || std::fabs(time - v[8]) <= te) { if (!(time == 0 && v[7] == 0)) { known = false; continue; } }
                    else if (time < v[7] || time > v[8]) continue;
                    f = std::exp(-v[6] * (time - v[7]));
                    big += te * v[6];
                }
                double S[3][3] = {{v[0], v[5], v[4]}, {v[5], v[1], v[3]}, {v[4], v[3], v[2]}};
                for (auto& P : r.mesh.set_patches[b]) {
                    auto& X = y["coords"];
                    // the element behind the patch gives the outward side
                    std::set<size_t> ps(P.begin(), P.end());
                    double ctr[3] = {0, 0, 0}, pc[3] = {0, 0, 0};
                    for (auto& e : r.mesh.elem) {
                        size_t in = 0;
                        for (size_t nn : e) in += ps.count(nn);
                        if (in == ps.size()) for (size_t nn : e) for (size_t i = 0; i < 3; i++) ctr[i] += X(nn, i) / (double)e.size();
                    }
                    for (size_t nn : P) for (size_t i = 0; i < 3; i++) pc[i] += X(nn, i) / 4;
                    double a[3], g[3], A[3], out = 0;
                    // walk around the patch: the node sharing no element edge with P[0] is opposite; lists go around
                    for (size_t i = 0; i < 3; i++) { a[i] = X(P[2], i) - X(P[0], i); g[i] = X(P[3], i) - X(P[1], i); }
                    for (int i = 0; i < 3; i++) A[i] = 0.5 * (a[(i + 1) % 3] * g[(i + 2) % 3] - a[(i + 2) % 3] * g[(i + 1) % 3]);
                    for (int i = 0; i < 3; i++) out += A[i] * (pc[i] - ctr[i]);
                    if (out < 0) for (double& z : A) z = -z;
                    for (size_t nn : P) for (int i = 0; i < 3; i++) { double z = 0; for (int j = 0; j < 3; j++) z += f * S[i][j] * A[j] / 4; F[3 * nn + (size_t)i] += z; big = std::max(big, 1e-10 * std::fabs(z)); }
                }
            }
            if (!known) continue;
            // the forces between elements cancel in the sum over all nodes
            for (size_t i = 0; i < 3; i++) {
                double got = 0, want = 0, sum = 0;
                for (size_t n = 0; n < N; n++) { got += x["force"](n, i); want += F[3 * n + i]; sum += std::fabs(x["force"](n, i)); }
                if (std::fabs(got - want) > 1e-12 + (double)N * 2 * big + 1e-9 * sum)
                    dst::fail("force on the boundary is not the traction of the stress conditions", at + " direction " + std::to_string(i) + ": " + num(got) + " instead of " + num(want));
                if (want != 0) c.op("traction on the boundary"), checks++;
            }
        }
    }
    c.ops["prescribed velocity"] += (uint64_t)checks;
    if (slip) c.op("slanted direction");
    for (auto* b : bc) c.op("condition " + b->str("velocity_model") + b->str("stress_model") + (b->has("stress_model") ? " stress" : ""));
    c.observe(std::to_string(hash(r.end)));
    if (checks) c.nontrivial = true;
}
static dst::Register r39({"C39", gen_bc, exec_bc, nullptr});
