// C37: the physics does not depend on the frame, the units, the numbering of the mesh or how materials are listed.
// Two runs of the same problem told in two ways must give the same states, mapped onto each other.
#include <algorithm>
#include "any.hpp"
using namespace scen;
namespace {
const char* const KINDS[] = {"perm", "mirror", "shift", "boost", "scale", "renumber", "twin"};
std::vector<double> vec(const Item& i, const std::string& k, size_t n) { auto v = i.v(k); v.resize(n, 0.0); return v; }
std::string bnum(const std::vector<double>& v) { std::string s; for (double x : v) s += (s.empty() ? "" : ",") + num(x); return s; }
const char* const LO[3] = {"volume.x1", "volume.y1", "volume.z1"};
const char* const HI[3] = {"volume.x2", "volume.y2", "volume.z2"};

struct Map {
    double R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    double L = 1, T = 1, M = 1, shift[3] = {0, 0, 0}, boost[3] = {0, 0, 0};
    std::vector<size_t> node, elem;  // index in the second run
    bool one_material = false;
    void turn(const std::vector<double>& a, double* o) const { for (int i = 0; i < 3; i++) { o[i] = 0; for (int k = 0; k < 3; k++) o[i] += R[i][k] * a[(size_t)k]; } }
    std::vector<double> point(const std::vector<double>& a) const { double o[3]; turn(a, o); return {o[0] * L + shift[0], o[1] * L + shift[1], o[2] * L + shift[2]}; }
    std::vector<double> dir(const std::vector<double>& a, double f = 1) const { double o[3]; turn(a, o); return {o[0] * f, o[1] * f, o[2] * f}; }
    std::vector<double> velocity(const std::vector<double>& a) const { auto o = dir(a, L / T); for (size_t k = 0; k < 3; k++) o[k] += boost[k]; return o; }
    bool moved() const { return shift[0] != 0 || shift[1] != 0 || shift[2] != 0; }
    bool boosted() const { return boost[0] != 0 || boost[1] != 0 || boost[2] != 0; }
    bool turned() const { return R[0][0] != 1 || R[1][1] != 1 || R[2][2] != 1; }
    bool scaled() const { return L != 1 || T != 1 || M != 1; }
    double P() const { return M / (L * T * T); }
};
// The problem told in the other frame; false if the problem has a part that cannot be told there.
bool retell(const Scen& a, const Map& m, int dims, bool renumber, Scen& b) {
    b = a;
    const Item* mesh = a.find("mesh");
    size_t D = (size_t)dims;
    if (m.scaled() && a.find("multi") && a.find("multi")->has("mat_equilibration_model")) return false;  // has absolute thresholds
    if (!renumber && !m.one_material) {
        if (mesh->str("source") == "file") {
            if (!mesh->has("_blocks") || m.turned() || m.scaled()) return false;
            b.find("mesh")->set("_at", bnum({m.shift[0], m.shift[1], m.shift[2]}));
        } else {
            if (mesh->str("type") != "box" && (m.moved() || m.turned() || m.boosted() || m.L != 1)) return false;
            if (mesh->str("type") == "box") {
                auto o = vec(*mesh, "origin", 3), l = vec(*mesh, "length", 3), n = vec(*mesh, "num_elems", 3);
                std::vector<double> e{o[0] + l[0], o[1] + l[1], o[2] + l[2]}, p = m.point(o), q = m.point(e), nn(3);
                std::vector<double> lo(3), ln(3);
                for (size_t k = 0; k < 3; k++) { lo[k] = std::min(p[k], q[k]); }
                auto dl = m.dir(l, m.L), dn = m.dir(n);
                for (size_t k = 0; k < 3; k++) { ln[k] = std::fabs(dl[k]); nn[k] = std::fabs(dn[k]); }
                lo.resize(D); ln.resize(D); nn.resize(D);
                b.find("mesh")->set("origin", bnum(lo)).set("length", bnum(ln)).set("num_elems", bnum(nn));
            }
        }
    }
    for (auto& i : b.items) {
        if (i.sec == "dyn") {
            if (m.scaled()) {
                for (const char* k : {"time_final", "dt_min", "dt_max", "dt_start"}) i.set(k, num(i.d(k) * m.T));
                i.set("small", num(1e-8 / m.T)).set("tiny", num(1e-12 * m.T));
            }
        } else if (i.sec == "out") {
            if (m.scaled()) i.set("graphics_time_step", num(i.d("graphics_time_step", 1.0) * m.T));
        } else if (i.sec == "solver") {
            if (i.has("time_end") && m.scaled()) i.set("time_end", num(i.d("time_end") * m.T));
        } else if (i.sec == "bc") {
            std::string sf = i.str("surface.type"), vm = i.str("velocity_model");
            bool plane = sf.size() == 7 && sf.compare(1, 6, "_plane") == 0;
            if (plane) {
                size_t k = (size_t)(sf[0] - 'x');
                std::vector<double> n(3, 0.0), p(3, 0.0);
                n[k] = 1;
                p[k] = i.d("surface.plane_position");
                auto nn = m.dir(n), pp = m.point(p);
                size_t kk = 0;
                for (size_t q = 0; q < 3; q++) if (nn[q] != 0) kk = q;
                i.set("surface.type", plane_name((int)kk)).set("surface.plane_position", num(pp[kk]));
                if (i.has("surface.tolerance")) i.set("surface.tolerance", num(i.d("surface.tolerance") * m.L));
            } else if (sf != "global") return false;
            if (m.boosted() && !vm.empty() && vm != "constant") return false;
            if (m.boosted() && !plane) return false;
            if (m.boosted() && plane) {  // the boundary must be the same nodes at all times: it is chosen once, at the start
            }
            if (vm == "constant") i.set("velocity_bc_global_vars", bnum(m.velocity(vec(i, "velocity_bc_global_vars", 3))));
            else if (vm == "reflected") {
                auto f = m.dir(vec(i, "velocity_bc_global_vars", 3));
                for (auto& x : f) x = std::fabs(x);
                i.set("velocity_bc_global_vars", bnum(f));
            } else if (vm == "time_varying" || vm == "piston") {
                auto v = i.v("velocity_bc_global_vars");
                if (v.size() < 7) return false;
                if (m.scaled() && vm == "piston") return false;
                auto f = m.dir({v[0], v[1], v[2]});
                for (size_t k = 0; k < 3; k++) v[k] = f[k];
                if (m.scaled()) { v[3] *= m.L / m.T; v[4] /= m.T; v[5] *= m.T; v[6] *= m.T; }
                i.set("velocity_bc_global_vars", bnum(v));
            } else if (!vm.empty() && vm != "fixed") return false;
            if (i.str("stress_model") == "constant") {
                if (m.turned()) return false;
                auto v = i.v("stress_bc_global_vars");
                for (auto& x : v) x *= m.P();
                i.set("stress_bc_global_vars", bnum(v));
            } else if (i.has("stress_model") && (m.turned() || m.scaled() || renumber || m.boosted())) return false;
            if (i.has("temperature_model") && m.scaled()) return false;
        } else if (i.sec == "mat") {
            if (m.scaled()) {
                if (i.has("level_set_type")) return false;
                if (i.str("eos_model") == "gamma_law_gas") { auto v = i.v("eos_global_vars"); v[1] *= m.L / m.T; i.set("eos_global_vars", bnum(v)); }
                else if (i.str("eos_model") == "linear_elastic_eos") {
                    auto v = i.v("eos_global_vars");
                    if (v.size() != 4) return false;
                    v[0] *= m.P(); v[1] *= m.P(); v[2] *= m.M / (m.L * m.L * m.L); v[3] *= m.L / m.T;
                    i.set("eos_global_vars", bnum(v));
                    auto w = i.v("strength_global_vars");
                    for (auto& x : w) x *= m.P();
                    i.set("strength_global_vars", bnum(w));
                } else return false;
                if (i.has("erosion_model")) i.set("erode_tension_val", num(i.d("erode_tension_val") * m.P())).set("erode_density_val", num(i.d("erode_density_val") * m.M / (m.L * m.L * m.L)));
            }
        } else if (i.sec == "region") {
            std::string vt = i.str("volume.type"), u = i.str("velocity.type");
            if (vt == "box") {
                std::vector<double> p(3), q(3);
                for (int k = 0; k < 3; k++) { p[(size_t)k] = i.d(LO[k]); q[(size_t)k] = i.d(HI[k]); }
                auto x = m.point(p), y = m.point(q);
                for (size_t k = 0; k < 3; k++) {
                    if (k >= D) { x[k] = p[k]; y[k] = q[k]; }
                    i.set(LO[k], num(std::min(x[k], y[k]))).set(HI[k], num(std::max(x[k], y[k])));
                }
            } else if (vt == "sphere" || vt == "cylinder") {
                if (vt == "cylinder" && m.turned()) return false;
                auto o = m.point(vec(i, "volume.origin", 3));
                if (D == 2) o[2] = 0;
                i.set("volume.origin", bnum(o)).set("volume.radius1", num(i.d("volume.radius1") * m.L)).set("volume.radius2", num(i.d("volume.radius2") * m.L));
                if (vt == "cylinder") i.set("volume.z1", num(i.d("volume.z1") * m.L + m.shift[2])).set("volume.z2", num(i.d("volume.z2") * m.L + m.shift[2]));
            } else if (vt != "global") return false;
            if (u == "cartesian" || u == "static") {
                auto w = u == "static" ? std::vector<double>(3, 0.0) : std::vector<double>{i.d("velocity.u"), i.d("velocity.v"), i.d("velocity.w")};
                if (u != "static" || m.boosted()) {
                    w = m.velocity(w);
                    if (D == 2) w[2] = 0;
                    i.set("velocity.type", "cartesian").set("velocity.u", num(w[0])).set("velocity.v", num(w[1])).set("velocity.w", num(w[2]));
                }
            } else if (u == "radial" || u == "spherical") {
                if (m.moved() || m.boosted() || (u == "radial" && m.turned())) return false;
                i.set("velocity.speed", num(i.d("velocity.speed") * m.L / m.T));
            } else if (!u.empty()) return false;
            if (m.scaled()) {
                if (i.has("temperature.type") || i.has("level_set.type")) return false;
                i.set("density.value", num(i.d("density.value") * m.M / (m.L * m.L * m.L))).set("specific_internal_energy.value", num(i.d("specific_internal_energy.value") * m.L * m.L / (m.T * m.T)));
            }
            if (i.has("level_set.origin")) i.set("level_set.origin", bnum(m.point(vec(i, "level_set.origin", 3))));
            if (m.one_material) i.set("material_id", "0");
        }
    }
    if (m.one_material) {
        auto mats = a.all("mat");
        if (mats.size() < 2 || a.find("multi")) return false;
        for (auto* x : mats) {
            Item p = *x, q = *mats[0];
            p.set("id", "0"); q.set("id", "0");
            if (p.kv != q.kv) return false;
        }
        for (auto* x : a.all("region")) if (x->d("volume_fraction.value", 1.0) != 1.0) return false;
        for (size_t k = b.items.size(); k-- > 0;) if (b.items[k].sec == "mat" && b.items[k].l("id") != 0) b.items.erase(b.items.begin() + (long)k);
    }
    return true;
}
// A file that holds the mesh of the first run with other numbers and other local axes.
std::string renumbered(const mp::Result& r, Rng& g, Map& m) {
    size_t N = r.mesh.nodes, E = r.mesh.elems, D = r.mesh.dims;
    m.node.resize(N); m.elem.resize(E);
    for (size_t k = 0; k < N; k++) m.node[k] = k;
    for (size_t k = 0; k < E; k++) m.elem[k] = k;
    for (size_t k = N; k > 1; k--) std::swap(m.node[k - 1], m.node[g.below(k)]);
    for (size_t k = E; k > 1; k--) std::swap(m.elem[k - 1], m.elem[g.below(k)]);
    std::vector<size_t> node_at(N), elem_at(E);
    for (size_t k = 0; k < N; k++) node_at[m.node[k]] = k;
    for (size_t k = 0; k < E; k++) elem_at[m.elem[k]] = k;
    std::string o = "# vtk DataFile Version 2.0\nrenumbered\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS " + std::to_string(N) + " double\n";
    auto& x = r.start["coords"];
    for (size_t k = 0; k < N; k++) { for (size_t d = 0; d < 3; d++) o += (d ? " " : "") + num(d < D ? x(node_at[k], d) : 0.0); o += "\n"; }
    size_t ne = D == 3 ? 8 : 4;
    o += "\nCELLS " + std::to_string(E) + " " + std::to_string(E * (ne + 1)) + "\n";
    for (size_t k = 0; k < E; k++) {
        auto& en = r.mesh.elem[elem_at[k]];
        o += std::to_string(ne);
        if (D == 2) { size_t s = g.below(4); for (size_t q = 0; q < 4; q++) o += " " + std::to_string(m.node[en[(q + s) % 4]]); }
        else {
            // corners (i,j,k) of the element, seen along other local axes of the same orientation
            int p[3] = {0, 1, 2}, f[3] = {0, 0, 0}, turns = (int)g.below(3);
            for (int q = 0; q < turns; q++) { int t = p[0]; p[0] = p[1]; p[1] = p[2]; p[2] = t; }
            if (g.chance(1, 2)) { std::swap(p[0], p[1]); f[2] = 1; }
            int two = (int)g.below(4);
            if (two) { f[(two) % 3] ^= 1; f[(two + 1) % 3] ^= 1; }
            static const int C[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
            for (auto& c : C) { int w[3]; for (int q = 0; q < 3; q++) w[p[q]] = c[q] ^ f[q]; o += " " + std::to_string(m.node[en[(size_t)(w[0] + 2 * w[1] + 4 * w[2])]]); }
        }
        o += "\n";
    }
    o += "\nCELL_TYPES " + std::to_string(E) + "\n";
    for (size_t k = 0; k < E; k++) o += D == 3 ? "12\n" : "9\n";
    return o;
}
double big(const mp::Snap& s, const std::string& nm, size_t mats) {
    double b = 0;
    auto one = [&](const mp::Arr& a) { for (double x : a.v) if (std::isfinite(x) && std::fabs(x) < 1e100) b = std::max(b, std::fabs(x)); };
    one(s[nm]);
    for (size_t m = 0; m < mats; m++) one(s[nm + "@" + std::to_string(m)]);
    return b;
}
struct Pair {
    const mp::Result &ra, &rb;
    const Map& m;
    double tol;
    bool moving;
    void compare(const mp::Snap& a, const mp::Snap& b, const std::string& at, double time) const {
        size_t ma = a["points"].rows, mb = b["points"].rows;
        double vs = big(a, "vel", 0) + big(a, "sspd", ma), xs = big(a, "coords", 0), vb = 0, sb = 0, vmin = 1e300;
        for (int k = 0; k < 3; k++) { vb = std::max(vb, std::fabs(m.boost[k])); sb = std::max(sb, std::fabs(m.shift[k])); }
        vs += vb * m.T / m.L;
        xs += sb / m.L;
        for (double v : a["vol"].v) vmin = std::min(vmin, std::fabs(v));
        double h = std::cbrt(vmin), ps = big(a, "pres", ma) + big(a, "stress", ma);
        auto bad = [&](const std::string& f, size_t i, size_t c, double x, double y) { dst::fail("the same problem told differently has another result: " + f, at + " " + f + "[" + std::to_string(i) + "," + std::to_string(c) + "]: " + num(x) + " expected, " + num(y) + " found"); };
        auto check = [&](const std::string& f, size_t i, size_t c, double x, double y, double scale) { if (!(std::fabs(x - y) <= tol * (scale + std::fabs(x)))) { if (std::isnan(x) && std::isnan(y)) return; bad(f, i, c, x, y); } };
        // nodes
        size_t N = ra.mesh.nodes, E = ra.mesh.elems, D = ra.mesh.dims;
        auto nodes = [&](const char* f, int kind, double factor, double scale) {  // kind 0 scalar, 1 vector, 2 point, 3 velocity
            auto &x = a[f], &y = b[f];
            if (x.empty() && y.empty()) return;
            if (x.v.size() != y.v.size()) dst::fail("the same problem told differently has another size", at + " " + f);
            for (size_t n = 0; n < N; n++) {
                size_t k = m.node.empty() ? n : m.node[n];
                if (kind == 0) { check(f, n, 0, x(n) * factor, y(k), scale * factor); continue; }
                std::vector<double> p(3, 0.0);
                for (size_t d = 0; d < D; d++) p[d] = x(n, d);
                auto w = kind == 2 ? m.point(p) : kind == 3 ? m.velocity(p) : m.dir(p, factor);
                if (kind == 2) for (size_t d = 0; d < 3; d++) w[d] += m.boost[d] * time;
                for (size_t d = 0; d < D; d++) check(f, n, d, w[d], y(k, d), scale * factor);
            }
        };
        if (m.boosted()) {  // the time is written with few digits: the frames' distance gives it exactly
            auto &x = a["coords"], &y = b["coords"];
            double w = 0, z = 0;
            for (size_t d = 0; d < D; d++) { w += m.boost[d] * m.boost[d]; z += m.boost[d] * (y(0, d) - x(0, d)); }
            if (std::fabs(z / w - time) > 1e-4 * std::fabs(time) + 1e-6) dst::fail("the same problem told differently has another result: coords", at + ": frames are " + num(z / w) + " instead of " + num(time) + " apart");
            time = z / w;
        }
        nodes("coords", 2, m.L, xs);
        if (moving) nodes("vel", 3, m.L / m.T, vs);
        nodes("node_mass", 0, D == 2 ? m.M / m.L : m.M, 0);  // per radius in the axisymmetric solver
        nodes("temp", 0, 1, big(a, "temp", 0));
        nodes("grad_level_set", 1, 1, big(a, "grad_level_set", 0));
        // elements
        auto elems = [&](const char* f, double factor, double scale) {
            auto &x = a[f], &y = b[f];
            if (x.v.size() != y.v.size()) dst::fail("the same problem told differently has another size", at + " " + f);
            for (size_t e = 0; e < x.v.size() && e < E; e++) check(f, e, 0, x(e) * factor, y(m.elem.empty() ? e : m.elem[e]), scale * factor);
        };
        elems("vol", m.L * m.L * m.L, big(a, "vol", 0));
        if (!a["level_set"].empty()) elems("level_set", m.L, xs);
        // material points
        for (size_t q = 0; q < ma; q++) {
            std::string A = "@" + std::to_string(q);
            std::map<size_t, size_t> where;
            std::string B = A;
            if (m.one_material) B = "@0";
            else if (mb != ma || a["elem" + A].rows != b["elem" + B].rows) dst::fail("the same problem told differently has other materials", at);
            for (size_t k = 0; k < b["elem" + B].rows; k++) where[(size_t)b["elem" + B](k)] = k;
            auto points = [&](const char* f, double factor, double scale, bool tensor = false) {
                auto &x = a[f + A], &y = b[f + B];
                if (x.empty()) return;
                for (size_t k = 0; k < a["elem" + A].rows; k++) {
                    size_t e = (size_t)a["elem" + A](k);
                    auto w = where.find(m.elem.empty() ? e : m.elem[e]);
                    if (w == where.end()) dst::fail("the same problem told differently has other materials", at + " element " + std::to_string(e));
                    if (factor != 1 && !a["eroded" + A].empty() && a["eroded" + A](k) != 0) continue;  // an emptied point has fixed values
                    if (!tensor) { check(std::string(f) + A, k, 0, x(k) * factor, y(w->second), scale * factor); continue; }
                    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) {
                        double t = 0;
                        for (size_t c = 0; c < 3; c++) for (size_t d = 0; d < 3; d++) t += m.R[i][c] * m.R[j][d] * x(k, 3 * c + d);
                        check(std::string(f) + A, k, 3 * i + j, t * factor, y(w->second, 3 * i + j), scale * factor);
                    }
                }
            };
            double l3 = m.L * m.L * m.L;
            points("mass", m.M, big(a, "mass", ma));
            points("eroded", 1, 1);
            points("volfrac", 1, 1);
            points("geo_volfrac", 1, 1);
            if (!moving) continue;
            points("den", m.M / l3, big(a, "den", ma));
            points("sie", m.L * m.L / (m.T * m.T), big(a, "sie", ma) + vs * vs);
            points("pres", m.P(), ps + big(a, "den", ma) * vs * vs);
            points("sspd", m.L / m.T, vs);
            points("stress", m.P(), ps + big(a, "den", ma) * vs * vs, true);
        }
        (void)h;
    }
};
bool sane(const mp::Result& r, const mp::Snap& s) {
    for (const char* f : {"coords", "vel", "vol", "temp"}) for (double x : s[f].v) if (!std::isfinite(x)) return false;
    auto &v = s["vol"], &v0 = r.start["vol"];
    for (size_t e = 0; e < v.rows; e++) if (!(v(e) > 0.05 * v0(e))) return false;
    if (r.mesh.dims == 2) { auto &x = s["coords"], &x0 = r.start["coords"]; for (size_t n = 0; n < x.rows; n++) if (x0(n, 1) > 1e-9 && !(x(n, 1) > 0.05 * x0(n, 1))) return false; }
    return true;
}
dst::Trace gen_sym(Rng& r, int tier) {
    G g(r);
    AnyOpt a;
    a.maxn = tier ? 4 : 3;
    a.cycles = tier ? 16 : 8;
    a.smooth_velocity = true;
    int kind = (int)r.below(7);
    std::string k = KINDS[kind];
    a.kinds = 1u << kSgh | 1u << kSghRz | 1u << kMulti;
    if (k == "perm") a.kinds = 1u << kSgh | 1u << kMulti | 1u << kThermal | 1u << kLevelSet;
    else if (k == "mirror" || k == "renumber") a.kinds |= 1u << kThermal | 1u << kLevelSet;
    else if (k == "shift") a.kinds |= 1u << kThermal | 1u << kLevelSet | 1u << kContact;
    else if (k == "twin") a.kinds = 1u << kSgh | 1u << kSghRz;
    else if (k == "boost") a.kinds = 1u << kSgh | 1u << kMulti;
    Scen s = any(r, a);
    bool two = s.find("mesh")->l("num_dims") == 2, polar = s.find("mesh")->str("type") == "polar";
    if (polar && (k == "perm" || k == "mirror" || k == "shift" || k == "boost" || k == "scale")) k = r.chance(1, 2) ? "renumber" : "scale";
    Item* first = nullptr;
    for (auto& i : s.items) {
        if (i.sec == "region") {
            if (i.str("volume.type") == "cylinder" && (k == "perm" || k == "mirror")) { i.set("volume.type", "sphere"); i.del("volume.z1"); i.del("volume.z2"); }
            std::string u = i.str("velocity.type");
            bool ok = u == "cartesian" || u == "static" || u.empty() || (k == "renumber" || k == "scale" || k == "twin") || (u == "spherical" && (k == "perm" || k == "mirror"));
            if (!ok) {
                for (const char* q : {"velocity.speed"}) i.del(q);
                i.set("velocity.type", "cartesian").set("velocity.u", 0.3).set("velocity.v", -0.2).set("velocity.w", two ? 0.0 : 0.1);
            }
            if (!first) first = &i;
        }
    }
    auto drop_bc = [&](auto f) { for (size_t i = 0; i < s.items.size();) if (s.items[i].sec == "bc" && f(s.items[i])) s.items.erase(s.items.begin() + (long)i); else i++; };
    if (k == "perm" || k == "mirror") drop_bc([](Item& i) { return i.str("stress_model") == "constant"; });
    if (k == "boost") drop_bc([&](Item& i) { return i.has("stress_model") || i.str("velocity_model") != "constant"; });
    if (k == "scale") drop_bc([](Item& i) { return i.str("velocity_model") == "piston"; });
    if (k == "scale" && s.find("multi")) s.find("multi")->del("mat_equilibration_model").del("mat_equilibration_global_vars");
    if (k == "twin") {
        auto mats = s.all("mat");
        if (mats.size() == 1) { Item c = *mats[0]; c.set("id", "1"); s.items.push_back(c); }
        else { std::string id = mats[1]->str("id"); *mats[1] = *mats[0]; mats[1]->set("id", id); }
        int n = 0;
        for (auto* i : s.all("region")) { i->set("material_id", std::to_string(n++ % 2)); if (i->has("volume_fraction.value")) i->set("volume_fraction.value", 1.0); }
    }
    Item* o = s.find("out");
    bool ls = s.find("solver")->str("method") == "level_set";
    o->kv.clear();
    o->set("timer_output_level", "thorough").set("output_file_format", "viz").set("graphics_iteration_step", (double)r.range(1, 4)).set("graphics_time_step", 1000.0);
    o->set("node_field_outputs", ls ? "grad_level_set" : "coords,vel");
    Item& t = s.add("trans");
    t.set("kind", k);
    if (k == "mirror") t.set("axis", std::to_string(two ? 0 : r.range(0, 2)));
    if (k == "perm") t.set("axis", std::to_string(r.range(1, 2)));
    if (k == "shift") t.set("by", join({g.q(-3, 3), two ? 0.0 : g.q(-3, 3), two ? 0.0 : g.q(-3, 3)}));
    if (k == "boost") t.set("by", join({g.q(-1, 1), two ? 0.0 : g.q(-1, 1), two ? 0.0 : g.q(-1, 1)}));
    if (k == "scale") t.set("by", join({polar ? 1.0 : std::ldexp(1, r.range(-3, 3)), std::ldexp(1, r.range(-3, 3)), std::ldexp(1, r.range(-3, 3))}));
    if (k == "renumber") t.set("seed", std::to_string(r.below(1u << 30)));
    s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return s.trace();
}
void exec_sym(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    const Item* tr = s.find("trans");
    if (!complete(s) || !s.find("out") || !tr) return;
    std::string k = tr->str("kind"), method = s.find("solver")->str("method");
    if (s.all("solver").size() != 1) return;
    if (method == "level_set" && !s.find("mat")->has("level_set_type")) return;
    int dims = s.find("mesh")->l("num_dims") == 2 ? 2 : 3;
    Map m;
    auto by = vec(*tr, "by", 3);
    if (k == "perm") {
        if (dims == 2) return;
        int p = (int)tr->l("axis", 1);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m.R[i][j] = (j + p) % 3 == i;
    } else if (k == "mirror") {
        int ax = (int)tr->l("axis");
        if (ax < 0 || ax > 2 || (dims == 2 && ax != 0)) return;
        m.R[ax][ax] = -1;
    } else if (k == "shift") { for (int i = 0; i < 3; i++) m.shift[i] = by[(size_t)i]; if (dims == 2) m.shift[1] = m.shift[2] = 0; }
    else if (k == "boost") { for (int i = 0; i < 3; i++) m.boost[i] = by[(size_t)i]; if (dims == 2) m.boost[1] = m.boost[2] = 0; }
    else if (k == "scale") { if (!(by[0] > 0) || !(by[1] > 0) || !(by[2] > 0)) return; m.L = by[0]; m.T = by[1]; m.M = by[2]; }
    else if (k == "twin") m.one_material = true;
    else if (k != "renumber") return;
    if (k == "boost" && method != "dynx_FE") return;  // area weighting in the axisymmetric solver gives up this symmetry
    bool box = s.find("mesh")->str("type") == "box";
    auto n = vec(*s.find("mesh"), "num_elems", 3);
    if (box && (k == "perm" || k == "mirror")) {
        auto nn = m.dir(n);
        size_t e[3] = {(size_t)n[0], (size_t)n[1], dims == 3 ? (size_t)n[2] : 1}, f[3];
        for (int i = 0; i < 3; i++) f[i] = std::max((size_t)1, (size_t)std::fabs(nn[(size_t)i]));
        auto index = [&](const size_t* ne, bool node, std::vector<size_t>& out) {
            size_t a[3], b[3];
            for (int i = 0; i < 3; i++) { a[i] = ne[i] + node; b[i] = f[i] + node; }
            if (dims == 2) a[2] = b[2] = 1;
            for (size_t kk = 0; kk < a[2]; kk++) for (size_t j = 0; j < a[1]; j++) for (size_t i = 0; i < a[0]; i++) {
                double p[3] = {(double)i, (double)j, (double)kk}, w[3] = {0, 0, 0};
                for (int q = 0; q < 3; q++) for (int u = 0; u < 3; u++) w[q] += m.R[q][u] * p[u];
                for (int q = 0; q < 3; q++) if (m.R[q][q] == -1) w[q] += (double)a[q] - 1;
                out.push_back((size_t)w[0] + b[0] * ((size_t)w[1] + b[1] * (size_t)w[2]));
            }
        };
        index(e, true, m.node);
        index(e, false, m.elem);
    }
    Scen b;
    if (!retell(s, m, dims, k == "renumber", b)) return;
    mp::Options o;
    o.cycle_snaps = true;
    o.max_iterations = 6000000;
    mp::Result ra = mp::run(files(s), "in.yaml", o);
    account(c, ra);
    if (ra.how == mp::Result::oracle) dst::fail(ra.what, ra.detail);
    auto f = files(b);
    if (k == "renumber") {
        if (ra.how != mp::Result::done || s.find("mesh")->str("source") == "file") return;
        Rng g((uint64_t)tr->l("seed", 1));
        auto& q = *b.find("mesh");
        q.kv.clear();
        q.set("source", "file").set("num_dims", std::to_string(dims)).set("file_path", "r.vtk");
        f = files(b);
        f["r.vtk"] = renumbered(ra, g, m);
    }
    if (auto* x = s.find("sched")) { o.order = (int)x->l("order"); o.seed = (uint64_t)x->l("seed", 1); o.split = x->l("split") != 0; }
    mp::Result rb = mp::run(f, "in.yaml", o);
    account(c, rb);
    if (rb.how == mp::Result::oracle) dst::fail(rb.what, rb.detail);
    if (ra.how != mp::Result::done || rb.how != mp::Result::done) dst::fail("a valid problem was not run to its end", mp::how_text(ra) + " / " + mp::how_text(rb));
    auto dumps = [](const mp::Result& r) { std::vector<const mp::Snap*> d; for (auto& x : r.snaps) if (x.at == "vtk/Fierro.solver0.pvd") d.push_back(&x); return d; };
    auto da = dumps(ra), db = dumps(rb);
    Pair p{ra, rb, m, 1e-6, method != "thrmex_FE" && method != "level_set"};
    std::vector<double> times;
    { auto& x = ra.files["vtk/Fierro.solver0.pvd"]; for (size_t q = 0; (q = x.find("timestep=\"", q)) != std::string::npos;) { q += 10; times.push_back(strtod(x.c_str() + q, nullptr)); } }
    int checked = 0;
    for (size_t q = 0; q < da.size(); q++) {
        if (!sane(ra, *da[q])) break;
        if (q >= db.size()) dst::fail("the same problem told differently has fewer outputs", std::to_string(da.size()) + " and " + std::to_string(db.size()));
        p.compare(*da[q], *db[q], "output " + std::to_string(q), q < times.size() ? times[q] : 0);
        checked++;
    }
    c.op(k);
    c.op(method);
    uint64_t h = 7;
    for (auto& kv : ra.end.a) h = dst::fnv(kv.second.v.data(), kv.second.v.size() * 8, h);
    c.observe(std::to_string(h));
    if (checked > 1) c.nontrivial = true;
}
}  // namespace
static dst::Register r37({"C37", gen_sym, exec_sym, nullptr});
