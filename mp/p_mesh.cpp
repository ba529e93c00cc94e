// C32: generated meshes are exactly the requested ones, and boundary sets hold exactly the faces on their surface.
#include "any.hpp"
using namespace scen;

static dst::Trace gen_mesh(Rng& r, int tier) {
    G g(r);
    int maxn = tier ? 9 : 5;
    int k = (int)r.below(4);
    g.dyn(1);
    if (k < 2) g.box3(maxn); else if (k == 2) g.box2(maxn + 3); else g.polar(maxn + 3);
    Item& m = *g.s.find("mesh");
    bool polar = k == 3;
    if (polar && r.chance(1, 3)) m.set("origin", join({g.q(0, 1), g.q(0, 1)}));
    if (k < 2 && r.chance(1, 4)) m.del("origin"), g.o[0] = g.o[1] = g.o[2] = 0;
    if (k < 2 && r.chance(1, 4)) m.set("polynomial_order", "1");
    g.s.add("solver").set("method", g.dims == 2 ? "dynx_FE_rz" : "dynx_FE").set("id", "0");
    int nb = r.range(0, 8);
    for (int b = 0; b < nb; b++) {
        Item& it = g.s.add("bc");
        it.set("solver_id", "0");
        int w = (int)r.below(8);
        if (polar ? w < 5 : w == 0) {
            auto o = m.v("origin");
            o.resize(3);
            it.set("surface.type", r.chance(1, 2) ? "cylinder" : "sphere").set("surface.radius", polar ? (r.chance(1, 2) ? m.d("inner_radius") : m.d("outer_radius")) : g.q(0.1, 2));
            if (o[0] != 0 || o[1] != 0 || r.chance(1, 3)) it.set("surface.origin", join(o));
        } else {
            int ax = (int)r.below(g.dims);
            double pos = r.chance(4, 5) ? g.o[ax] + (r.chance(1, 2) ? g.l[ax] : 0) : r.chance(1, 2) ? g.o[ax] + g.l[ax] * r.range(0, g.n[ax]) / g.n[ax] : g.q(-2, 2);
            it.set("surface.type", plane_name(ax)).set("surface.plane_position", pos);
        }
        if (r.chance(2, 3)) it.set("surface.tolerance", r.chance(3, 4) ? 1e-5 : g.q(0.01, 0.8));
        else if (!polar) it.set("surface.tolerance", 1e-4);
        switch (r.below(3)) {
        case 0: it.set("velocity_model", "fixed"); break;
        case 1: it.set("velocity_model", "reflected").set("velocity_bc_global_vars", flags((int)r.below(g.dims))); break;
        default: it.set("velocity_model", "constant").set("velocity_bc_global_vars", "0.1,0.2,0.3");
        }
    }
    g.gas(0);
    Item& it = g.s.add("region");
    it.set("volume.type", "global").set("solver_id", "0").set("material_id", "0").set("density.type", "uniform").set("density.value", 1.0).set("specific_internal_energy.type", "uniform").set("specific_internal_energy.value", 1.0);
    it.set("velocity.type", "static");
    g.s.add("out").set("timer_output_level", "thorough").set("output_file_format", "state").set("graphics_iteration_step", "1").set("graphics_time_step", 1.0);
    g.s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return g.s.trace();
}
static void exec_mesh(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s)) return;
    std::map<std::string, std::string> f;
    f["in.yaml"] = yaml(s);
    mp::Options o;
    o.execute = false;
    o.max_iterations = 6000000;
    if (auto* x = s.find("sched")) { o.order = (int)x->l("order"); o.seed = (uint64_t)x->l("seed", 1); o.split = x->l("split") != 0; }
    mp::Result r = mp::run(f, "in.yaml", o);
    account(c, r);
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail);
    if (r.how != mp::Result::done) dst::fail("a valid mesh was refused", mp::how_text(r));
    const Item& m = *s.find("mesh");
    bool polar = m.str("type") == "polar", two = m.l("num_dims") == 2;
    c.op(polar ? "polar" : two ? "box 2D" : "box 3D");
    int D = two ? 2 : 3;
    auto org = m.v("origin"), len = m.v("length"), ne = m.v("num_elems");
    org.resize(3); len.resize(3);
    size_t n[3] = {1, 1, 1};
    double r0 = m.d("inner_radius"), r1 = m.d("outer_radius"), a0 = m.d("starting_angle") * M_PI / 180, a1 = m.d("ending_angle") * M_PI / 180;
    if (polar) { n[0] = (size_t)m.l("num_radial_elems"); n[1] = (size_t)m.l("num_angular_elems"); }
    else for (int d = 0; d < D; d++) n[d] = (size_t)ne[d];
    size_t N = 1, E = 1;
    for (int d = 0; d < D; d++) { N *= n[d] + 1; E *= n[d]; }
    auto& M = r.mesh;
    if (M.dims != (size_t)D || M.nodes != N || M.elems != E || M.nodes_in_elem != (size_t)(1 << D) || M.corners != E << D) dst::fail("mesh size differs from the request", std::to_string(M.nodes) + " nodes, " + std::to_string(M.elems) + " elements");
    auto& X = r.start["coords"];
    std::vector<std::array<double, 3>> want(N);
    for (size_t k = 0; k <= (two ? 0 : n[2]); k++) for (size_t j = 0; j <= n[1]; j++) for (size_t i = 0; i <= n[0]; i++) {
        size_t g = i + (n[0] + 1) * (j + (n[1] + 1) * k);
        if (polar) {
            double R = r0 + (r1 - r0) * (double)i / (double)n[0], A = a0 + (a1 - a0) * (double)j / (double)n[1];
            want[g] = {org[0] + R * std::cos(A), org[1] + R * std::sin(A), 0};
        } else want[g] = {org[0] + len[0] * (double)i / (double)n[0], org[1] + len[1] * (double)j / (double)n[1], two ? 0 : org[2] + len[2] * (double)k / (double)n[2]};
        for (int d = 0; d < D; d++) if (!close(X(g, (size_t)d), want[g][(size_t)d], 1e-12, 1e-12)) dst::fail("node is not where the mesh was requested", "node " + std::to_string(g) + ": " + num(X(g, (size_t)d)) + " instead of " + num(want[g][(size_t)d]));
    }
    // elements: corners in the order of the mesh class (i fastest in 3D, counter-clockwise in 2D)
    std::map<std::vector<size_t>, int> faces;
    static const size_t Q2[4] = {0, 1, 3, 2};
    for (size_t e = 0; e < E; e++) {
        size_t i = e % n[0], j = e / n[0] % n[1], k = e / (n[0] * n[1]);
        std::vector<size_t> w(1u << D);
        for (size_t b = 0; b < w.size(); b++) {
            size_t g = (i + (b & 1)) + (n[0] + 1) * ((j + (b >> 1 & 1)) + (n[1] + 1) * (k + (b >> 2 & 1)));
            w[two ? Q2[b] : b] = g;
        }
        if (M.elem[e] != w) dst::fail("element has other nodes than requested", "element " + std::to_string(e));
        for (int d = 0; d < D; d++) for (size_t sd = 0; sd < 2; sd++) {
            std::vector<size_t> q;
            for (size_t b = 0; b < (1u << D); b++) if ((b >> d & 1) == sd) q.push_back((i + (b & 1)) + (n[0] + 1) * ((j + (b >> 1 & 1)) + (n[1] + 1) * (k + (b >> 2 & 1))));
            std::sort(q.begin(), q.end());
            faces[q]++;
        }
        // volume: exact for boxes; per radian of revolution around the x axis in RZ
        double v = 0;
        if (D == 3) { v = 1; for (int d = 0; d < 3; d++) v *= len[d] / (double)n[d]; }
        else {
            for (size_t a = 0; a < 4; a++) {
                auto &p = want[w[a]], &q = want[w[(a + 1) % 4]];
                v += (p[0] * q[1] - q[0] * p[1]) * (p[1] + q[1]) / 6;  // integral of y over the polygon
            }
        }
        double got = r.start["vol"](e);
        if (!close(got, v, 1e-9, 1e-12)) dst::fail("element volume is wrong", "element " + std::to_string(e) + ": " + num(got) + " instead of " + num(v));
    }
    auto bcs = s.all("bc");
    if (M.set_nodes.size() != bcs.size()) dst::fail("number of boundary sets differs", std::to_string(M.set_nodes.size()) + " instead of " + std::to_string(bcs.size()));
    for (size_t b = 0; b < bcs.size(); b++) {
        const Item& it = *bcs[b];
        std::string st = it.str("surface.type");
        double val = st[1] == '_' ? it.d("surface.plane_position") : it.d("surface.radius"), tol = it.d("surface.tolerance", 1e-7);
        auto og = it.v("surface.origin");
        og.resize(3);
        std::set<std::vector<size_t>> exp;
        std::set<size_t> nodes;
        bool edge = false;
        for (auto& fc : faces) {
            if (fc.second != 1) continue;
            bool in = true;
            for (size_t g : fc.first) {
                double d;
                auto& x = want[g];
                if (st[1] == '_') d = std::fabs(x[(size_t)(st[0] - 'x')] - val);
                else { double q = 0; for (size_t a = 0; a < (st == "sphere" && D == 3 ? 3u : 2u); a++) q += (x[a] - og[a]) * (x[a] - og[a]); d = std::fabs(std::sqrt(q) - val); }
                if (std::fabs(d - tol) < 1e-9 + 1e-6 * tol) edge = true;
                if (d > tol) in = false;
            }
            if (in) { exp.insert(fc.first); nodes.insert(fc.first.begin(), fc.first.end()); }
        }
        if (edge) continue;
        std::set<std::vector<size_t>> got;
        for (auto p : M.set_patches[b]) { std::sort(p.begin(), p.end()); if (!got.insert(p).second) dst::fail("boundary set has a face twice", st); }
        if (got != exp) dst::fail("boundary set differs from the faces on its surface", st + " " + num(val) + ": " + std::to_string(got.size()) + " instead of " + std::to_string(exp.size()) + " faces");
        std::set<size_t> gn(M.set_nodes[b].begin(), M.set_nodes[b].end());
        if (gn.size() != M.set_nodes[b].size()) dst::fail("boundary set has a node twice", st);
        if (gn != nodes) dst::fail("boundary set differs from the nodes of its faces", st + " " + num(val));
        if (!exp.empty()) c.op("non-empty boundary set");
    }
    c.observe(std::to_string(dst::fnv(X.v.data(), X.v.size() * 8)) + " " + std::to_string(bcs.size()));
    c.nontrivial = true;
}
static dst::Register r32({"C32", gen_mesh, exec_mesh, nullptr});
