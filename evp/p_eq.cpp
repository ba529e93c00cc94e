// C54: the response that is reported is the one of the elasto-viscoplastic formulation.
#include "ref_large.hpp"
using namespace esc;

static dst::Trace gen_eq(Rng& r, int tier) {
    GenOpt g;
    g.maxn = tier ? 5 : 4; g.max_steps = tier ? 5 : 4; g.itmax = tier ? 12 : 6;
    Scen s = generate(r, g);
    Item* run = s.find("run");
    if (r.chance(1, 3)) { static const char* E[] = {"1e-3", "1e-4", "1e-5", "1e-7"}; run->set("err", E[r.below(4)]); if (r.chance(1, 2)) run->set("itmax", (double)r.range(8, 20)); }
    s.add("sched").set("ranks", std::to_string(r.chance(1, 2) ? 1 : r.range(2, 6))).set("seed", std::to_string(r.below(1u << 30))).set("order", std::to_string(r.below(6))).set("split", std::to_string(r.below(2))).set("shuffle", std::to_string(r.below(2)));
    return s.trace();
}
static bool near_(double a, double b, double rel, double abs) { return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + abs; }
static double maxabs(const std::vector<ref::M3>& v) { double m = 0; for (auto& x : v) for (double y : x) m = std::max(m, std::fabs(y)); return m; }
// component i of a symmetric field, in the order 11 22 33 12 23 13
static double field(const Fields& f, const std::string& n, size_t v, int i) {
    static const char* nm[] = {"_11", "_22", "_33", "_12", "_23", "_13"};
    return app_vtu() ? f.at(n, v, i) : f.at(n + nm[i], v, 0);
}
// The prediction decides whether a run is compared, never the report that is judged.
static bool calm(const ref::Model& M) {
    for (auto& m : M.steps) {
        for (auto& e : m.err) {
            for (double x : e) if (!std::isfinite(x)) return false;
            if (e[1] > 1e6 || e[2] > 1e3 || e[4] > 40) return false;
        }
        for (auto* g : {&m.E, &m.S, &m.EP, &m.V, &m.VP}) for (double x : *g) if (!std::isfinite(x)) return false;
        for (double x : {m.evm, m.evmp, m.dvm, m.dvmp, m.svm, m.svm1}) if (!std::isfinite(x)) return false;
        for (auto* f : {&m.strain, &m.stress, &m.plrate, &m.elstrain}) for (auto& v : *f) for (double x : v) if (!std::isfinite(x)) return false;
    }
    return true;
}
static void exec_eq(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    Prob p = problem(s);
    evp::Options o;
    o.ranks = fitting_ranks(p.n, (int)s.l("sched", "ranks", 1));
    o.seed = (uint64_t)s.l("sched", "seed"); o.order = (int)s.l("sched", "order"); o.split = s.l("sched", "split"); o.shuffle = s.l("sched", "shuffle");
    auto f = files(p);
    auto a = evp::run(f, args(p), o);
    oracle(a);
    account(c, a);
    c.observe(evp::how_text(a));
    if (a.how != evp::Result::done) dst::fail("a valid problem was not solved", evp::how_text(a));
    Report R = report_of(p, a, o.ranks);
    if (!R.ok) dst::fail("incomplete output: " + R.why);
    if (getenv("C54_DUMP")) { for (auto& e : a.files) if (e.first == getenv("C54_DUMP")) fputs(e.second.c_str(), stderr); quick_exit(0); }
    ref::Model M = app_is("EVPFFT") ? ref::run(p) : ref::run_large(p, app_is("LS-EVPFFT"));
    if (!calm(M)) { c.op("not settled"); return; }
    c.op(M.tainted ? "predicted in part" : "predicted");
    static const int pr[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}, pf[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {1, 2}, {0, 2}};
    const double tol = 1e-6;
    size_t row = 0;
    double sscale = 0, escale = 0;
    for (size_t k = 0; k < M.steps.size(); k++) {
        auto& m = M.steps[k];
        std::string at = "step " + std::to_string(k + 1);
        // iterations
        for (auto& e : m.err) {
            if (row >= R.err.rows.size()) dst::fail("fewer iterations than predicted", at);
            auto& r = R.err.rows[row++];
            if (r[0] != (double)k + 1 || r[1] != e[0]) dst::fail("another number of iterations than predicted", at + ": iteration " + num(e[0]) + " is step " + num(r[0]) + " iteration " + num(r[1]));
            static const char* nm[] = {"strain field error", "stress field error", "equivalent stress", "mean number of local iterations"};
            for (int q = 1; q < (M.loose ? 4 : 5); q++) if (!near_(r[q + 1], e[q], 1.01e-4 + tol, q == 1 ? (app_is("EVPFFT") ? 1e-22 : 1e-12) : q == 2 ? 1e-15 : 1e-10)) dst::fail(std::string("the reported ") + nm[q - 1] + " differs from the prediction", at + " iteration " + num(e[0]) + ": " + num(r[q + 1]) + " / " + num(e[q]));
        }
        // macroscopic state
        static const char* grp[] = {"strain", "stress", "plastic strain", "strain rate", "plastic strain rate"};
        const ref::M3* g[] = {&m.E, &m.S, &m.EP, &m.V, &m.VP};
        double ms = std::max(maxabs(m.stress), sscale); sscale = ms;
        double me = std::max(maxabs(m.strain), escale); escale = me;
        for (int q = 0; q < 5; q++) {
            double sc = q == 1 ? ms : q == 0 ? me : 0;
            for (double y : *g[q]) sc = std::max(sc, std::fabs(y));
            for (int i = 0; i < 6; i++) { double x = R.ss.rows[k][6 * q + i], y = (*g[q])[3 * pr[i][0] + pr[i][1]]; if (!near_(x, y, 5.1e-5 + tol, tol * sc + 1e-15)) dst::fail(std::string("the macroscopic ") + grp[q] + " differs from the prediction", at + " component " + std::to_string(i) + ": " + num(x) + " / " + num(y)); }
        }
        const double ev[6] = {m.evm, m.evmp, m.dvm, m.dvmp, m.svm, m.svm1};
        static const char* vn[6] = {"strain", "plastic strain", "strain rate", "plastic strain rate", "stress", "stress of phase 1"};
        for (int i = 0; i < 6; i++) {
            double ab = i >= 4 ? tol * ms : 1e-15 + tol * ev[i];
            if (!near_(R.vm.rows[k][i], ev[i], 5.1e-5 + tol, ab)) dst::fail(std::string("the equivalent ") + vn[i] + " in vm.out differs from the prediction", at + ": " + num(R.vm.rows[k][i]) + " / " + num(ev[i]));
            if (i < 5 && !near_(R.ss.rows[k][30 + i], ev[i], 5.1e-5 + tol, ab)) dst::fail(std::string("the equivalent ") + vn[i] + " in str_str.out differs from the prediction", at);
        }
        // fields
        auto F = R.steps.find((int)k + 1);
        if (F != R.steps.end()) {
            auto& fs = F->second;
            struct { const char* n; const std::vector<ref::M3>* v; } L[] = {{"strain", &m.strain}, {"stress", &m.stress}, {"pl-strain-rate", &m.plrate}, {"el-strain", &m.elstrain}};
            for (auto& l : L) {
                double sc = 0;
                for (size_t v = 0; v < p.cells(); v++) if (!p.ph[(size_t)p.phase[v] - 1].gas) for (double y : (*l.v)[v]) sc = std::max(sc, std::fabs(y));
                for (size_t v = 0; v < p.cells(); v++) {
                    auto& x = (*l.v)[v];
                    for (int i = 0; i < 6; i++) { double y = (x[3 * pf[i][0] + pf[i][1]] + x[3 * pf[i][1] + pf[i][0]]) / 2, z = field(fs, l.n, v, i); if (!near_(z, y, tol, 4 * tol * sc + 1e-15)) dst::fail(std::string("field ") + l.n + " differs from the prediction", at + " voxel " + std::to_string(v) + " component " + std::to_string(i) + ": " + num(z) + " / " + num(y)); }
                    double e = l.n[1] == 't' && l.n[3] == 'e' ? ref::vm_stress(x) : ref::vm_strain(x), z = fs.at(std::string("vm-") + l.n, v, 0);
                    if (!near_(z, e, 1e-5, 1e-5 * sc + 1e-15)) dst::fail(std::string("field vm-") + l.n + " differs from the prediction", at + " voxel " + std::to_string(v) + ": " + num(z) + " / " + num(e));
                }
            }
            if (app_vtu() && !near_(fs.time, (double)(k + 1) * (p.ictrl == 0 ? p.dt / ref::vm_strain({p.udot[0], p.udot[1], p.udot[2], p.udot[3], p.udot[4], p.udot[5], p.udot[6], p.udot[7], p.udot[8]}) : p.dt), 1e-9, 0)) dst::fail("the time of the output differs from the prediction", at);
            if (app_vtu() && fs.f.count("IPFColor")) for (size_t v = 0; v < p.cells(); v++) {
                if (p.ph[(size_t)p.phase[v] - 1].gas) continue;
                auto w = ref::ipf(m.ag[v]);
                for (int i = 0; i < 3; i++) if (!(std::fabs(fs.at("IPFColor", v, i) - w[i]) < (std::fabs(m.ag[v][8]) > 0.9998 ? 7 : 1.05))) dst::fail("the orientation colour of a voxel differs from the prediction", at + " voxel " + std::to_string(v) + " colour " + std::to_string(i) + ": " + num(fs.at("IPFColor", v, i)) + " / " + num(w[i]));
            }
            c.ops["field step"]++;
        }
        if ((int)k + 1 == p.nsteps && p.iwtex) {
            std::string tx = R.tex;
            size_t q = 0; int ln = 0;
            while (q < tx.size()) {
                size_t e = tx.find('\n', q);
                if (e == std::string::npos) break;
                auto w = dst::words(tx.substr(q, e - q));
                q = e + 1;
                if (ln++ < 4 || w.size() != 9) continue;
                size_t v = (size_t)(atoi(w[4].c_str()) - 1) + (size_t)p.n[0] * ((size_t)(atoi(w[5].c_str()) - 1) + (size_t)p.n[1] * (size_t)(atoi(w[6].c_str()) - 1));
                if (v >= p.cells() || p.ph[(size_t)p.phase[v] - 1].gas) continue;
                ref::M3 Q = ref::bunge(atof(w[0].c_str()), atof(w[1].c_str()), atof(w[2].c_str()));
                for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (!(std::fabs(Q[3 * i + j] - m.ag[v][3 * j + i]) <= (std::fabs(m.ag[v][8]) > 0.9998 ? 0.025 : 2e-4))) dst::fail("an orientation in tex.out differs from the prediction", "voxel " + std::to_string(v) + ": " + num(Q[3 * i + j]) + " / " + num(m.ag[v][3 * j + i]));
            }
            c.ops["texture"]++;
        }
    }
    if (!M.tainted && row != R.err.rows.size()) dst::fail("more iterations than predicted", std::to_string(R.err.rows.size()) + " / " + std::to_string(row));
    c.ops["voxel"] += (long)p.cells(); c.ops["step"] += (long)M.steps.size(); c.ops["iteration"] += (long)row;
    c.nontrivial = row > 1;
}
static dst::Register r54({"C54", gen_eq, exec_eq, nullptr});
