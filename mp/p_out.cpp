// C34: what is on the disk is exactly the state at the time of each output, whatever the disk does.
#include <algorithm>
#include "any.hpp"
using namespace scen;

namespace {
using dst::words;
std::vector<std::string> lines(const std::string& f) {
    std::vector<std::string> l;
    for (size_t a = 0; a < f.size();) { size_t b = f.find('\n', a); if (b == std::string::npos) b = f.size(); l.push_back(f.substr(a, b - a)); a = b + 1; }
    return l;
}
std::vector<double> numbers(const std::string& s, bool& ok) {
    std::vector<double> v;
    const char* p = s.c_str();
    for (;;) {
        while (*p == ' ' || *p == '\n' || *p == '\t') p++;
        if (!*p) return v;
        char* e;
        v.push_back(strtod(p, &e));
        if (e == p) { ok = false; return v; }
        p = e;
    }
}
std::string attr(const std::string& tag, const std::string& k) {
    size_t p = tag.find(k + "=");
    if (p == std::string::npos) return "";
    size_t a = tag.find('"', p), b = a == std::string::npos ? a : tag.find('"', a + 1);
    return b == std::string::npos ? "" : tag.substr(a + 1, b - a - 1);
}
// elements of an XML file: start tags with the text that follows, end tags as /name
struct Tag { std::string name, tag, text; };
bool xml(const std::string& f, std::vector<Tag>& t) {
    std::vector<std::string> open;
    for (size_t p = 0; (p = f.find('<', p)) != std::string::npos;) {
        if (f.compare(p, 4, "<!--") == 0) { p = f.find("-->", p); if (p == std::string::npos) return false; continue; }
        size_t e = f.find('>', p);
        if (e == std::string::npos) return false;
        std::string g = f.substr(p + 1, e - p - 1);
        if (g[0] == '?') { p = e; continue; }
        size_t n = f.find('<', e);
        Tag x;
        x.tag = g;
        x.text = n == std::string::npos ? "" : f.substr(e + 1, n - e - 1);
        x.name = g.substr(0, g.find_first_of(" \n/", 1));
        t.push_back(x);
        if (g[0] == '/') { if (open.empty() || "/" + open.back() != x.name) return false; open.pop_back(); }
        else if (g.back() != '/') open.push_back(x.name);
        p = e;
    }
    return open.empty() && !t.empty();
}
bool same(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol * std::fabs(b) + 1e-300;
}
std::vector<std::string> split(const std::string& s) { std::vector<std::string> v; for (size_t a = 0; a < s.size();) { size_t b = s.find(',', a); if (b == std::string::npos) b = s.size(); v.push_back(s.substr(a, b - a)); a = b + 1; } return v; }

struct Check {
    const mp::Result& r;
    const Scen& s;
    std::string at;
    std::set<std::string> node, elem, mat, gauss;
    bool two;
    Check(const mp::Result& r, const Scen& s) : r(r), s(s) {
        auto get = [&](const char* k) { auto v = split(s.find("out")->str(k)); return std::set<std::string>(v.begin(), v.end()); };
        node = get("node_field_outputs"); elem = get("elem_field_outputs"); mat = get("mat_pt_field_outputs"); gauss = get("gauss_pt_field_outputs");
        if (elem.count("sie")) elem.insert("mass");
        two = r.mesh.dims == 2;
    }
    [[noreturn]] void bad(const std::string& key, const std::string& d) { dst::fail(key, at + ": " + d); }
    void wrong(const std::string& d) { bad("an output file does not hold the state of its time", d); }
    void torn(const std::string& d) { bad("an output file is incomplete or malformed", d); }
    void array(const std::string& nm, const std::vector<double>& got, const std::vector<double>& want, double tol) {
        if (got.size() != want.size()) torn(nm + " has " + std::to_string(got.size()) + " values instead of " + std::to_string(want.size()));
        for (size_t i = 0; i < got.size(); i++) if (!same(got[i], want[i], tol)) wrong(nm + " value " + std::to_string(i) + ": " + num(got[i]) + " instead of " + num(want[i]));
    }
    size_t mats(const mp::Snap& q) { return q["points"].rows; }
    std::vector<double> vec3(const mp::Arr& a) { std::vector<double> v; for (size_t n = 0; n < a.rows; n++) for (size_t k = 0; k < 3; k++) v.push_back(k < a.cols ? a(n, k) : 0.0); return v; }
    static const char* key(const std::string& f) { return f.c_str(); }
    // the average over the materials of an element
    std::vector<double> average(const mp::Snap& q, const std::string& f, size_t cols) {
        size_t E = r.mesh.elems;
        std::vector<double> v(E * cols, 0.0), M(E, 0.0);
        for (size_t m = 0; m < mats(q); m++) {
            std::string T = "@" + std::to_string(m);
            auto &el = q["elem" + T], &x = q[f + T], &vf = q["volfrac" + T], &gf = q["geo_volfrac" + T], &ms = q["mass" + T];
            for (size_t k = 0; k < el.rows; k++) {
                size_t e = (size_t)el(k);
                if (f == "sie") { v[e] += ms(k) * x(k); M[e] += ms(k); }
                else if (f == "mass") v[e] += ms(k);
                else for (size_t c = 0; c < cols; c++) v[e * cols + c] += x(k, c) * vf(k) * gf(k);
            }
        }
        if (f == "sie") for (size_t e = 0; e < E; e++) v[e] /= M[e] + 1e-20;
        return v;
    }
    void accel(const std::string& nm, const std::vector<double>& got, const mp::Snap& q, double tol) {
        auto d = vec3(q["vel"]), o = vec3(q["vel_n0"]);
        if (got.size() != d.size()) torn(nm + " has " + std::to_string(got.size()) + " values instead of " + std::to_string(d.size()));
        double dt = 0, big = 0, scale = 0;
        size_t at_big = 0;
        for (size_t i = 0; i < d.size(); i++) {
            if (!std::isfinite(d[i]) || !std::isfinite(o[i]) || std::fabs(o[i]) > 1e50) return;  // the solver keeps no velocity of the previous step
            scale = std::max(scale, std::fabs(d[i]) + std::fabs(o[i]));
            if (std::fabs(d[i] - o[i]) > big) big = std::fabs(d[i] - o[i]), at_big = i;
        }
        if (big <= 1e-9 * scale) return;
        dt = (d[at_big] - o[at_big]) / got[at_big];
        if (!std::isfinite(dt) || !(dt > 0)) wrong(nm + " value " + std::to_string(at_big) + ": " + num(got[at_big]) + " for a velocity that changed by " + num(d[at_big] - o[at_big]));
        for (size_t i = 0; i < d.size(); i++) if (!(std::fabs(got[i] * dt - (d[i] - o[i])) <= (tol + 1e-12) * (std::fabs(d[i]) + std::fabs(o[i]) + scale))) wrong(nm + " value " + std::to_string(i) + ": " + num(got[i]) + " is not the change of the velocity over one time step");
    }
    void vtu(const std::string& f, const mp::Snap& q, int m) {
        std::vector<Tag> t;
        if (!xml(f, t)) torn("not a complete XML file");
        std::string sec;
        size_t np = 0, nc = 0;
        std::map<std::string, std::vector<double>> cells, pd, cd;
        std::map<std::string, std::string> comps;
        std::vector<double> pts;
        bool ok = true;
        for (auto& x : t) {
            if (x.name == "Piece") { np = (size_t)atol(attr(x.tag, "NumberOfPoints").c_str()); nc = (size_t)atol(attr(x.tag, "NumberOfCells").c_str()); }
            else if (x.name == "Points" || x.name == "Cells" || x.name == "PointData" || x.name == "CellData") sec = x.name;
            else if (x.name == "DataArray") {
                auto v = numbers(x.text, ok);
                std::string nm = attr(x.tag, "Name");
                if (sec != "Cells") comps[sec + nm] = attr(x.tag, "NumberOfComponents");
                if (sec == "Points") pts = v;
                else {
                    auto& M = sec == "Cells" ? cells : sec == "PointData" ? pd : cd;
                    if (!M.insert({nm, v}).second) torn("field " + nm + " twice");
                }
            }
        }
        if (!ok) torn("not a number");
        size_t nn = r.mesh.nodes_in_elem;
        auto& X = q["coords"];
        std::string T = "@" + std::to_string(m);
        std::vector<size_t> el;
        if (m < 0) for (size_t e = 0; e < r.mesh.elems; e++) el.push_back(e);
        else for (double e : q["elem" + T].v) el.push_back((size_t)e);
        std::set<size_t> used;
        for (size_t e : el) for (size_t n : r.mesh.elem[e]) used.insert(n);
        size_t wantp = m < 0 ? r.mesh.nodes : used.size();
        if (np != wantp || nc != el.size()) wrong(std::to_string(np) + " points and " + std::to_string(nc) + " cells instead of " + std::to_string(wantp) + " and " + std::to_string(el.size()));
        if (pts.size() != 3 * np) torn("the points have " + std::to_string(pts.size()) + " values");
        if (m < 0) array("points", pts, vec3(X), 1e-15);
        auto &cn = cells["connectivity"], &of = cells["offsets"], &ty = cells["types"];
        if (cn.size() != nc * nn || of.size() != nc || ty.size() != nc) torn("cells");
        for (size_t k = 0; k < nc; k++) {
            if (of[k] != (double)((k + 1) * nn)) wrong("offset of cell " + std::to_string(k));
            if (ty[k] != (two ? 9 : 11)) wrong("type of cell " + std::to_string(k));
            for (size_t a = 0; a < nn; a++) {
                size_t n = (size_t)cn[k * nn + a];
                if (n >= np) wrong("cell " + std::to_string(k) + " has no node " + std::to_string(n));
                for (size_t c = 0; c < 3; c++) {
                    double x = c < X.cols ? X(r.mesh.elem[el[k]][a], c) : 0.0;
                    if (!same(pts[3 * n + c], x, 1e-15)) wrong("node " + std::to_string(a) + " of cell " + std::to_string(k) + " is not the one of its element");
                }
            }
        }
        std::set<std::string> wn, wc;
        auto field = [&](std::map<std::string, std::vector<double>>& M, std::set<std::string>& W, const std::string& nm, const std::string& sc, const char* nc_, const std::vector<double>& want, double tol = 1e-15) {
            W.insert(nm);
            if (!M.count(nm)) bad("a requested field is missing", nm);
            if (comps[sc + nm] != nc_) wrong(nm + " has '" + comps[sc + nm] + "' components");
            array(nm, M[nm], want, tol);
        };
        if (m < 0) {
            if (node.count("mass")) field(pd, wn, "node_mass", "PointData", "", q["node_mass"].v);
            if (node.count("temp")) field(pd, wn, "node_temp", "PointData", "", q["temp"].v);
            if (node.count("coords")) field(pd, wn, "node_coords", "PointData", "3", vec3(X));
            if (node.count("vel")) {
                field(pd, wn, "node_vel", "PointData", "3", vec3(q["vel"]));
                wn.insert("node_accel");
                if (!pd.count("node_accel")) bad("a requested field is missing", "node_accel");
                accel("node_accel", pd["node_accel"], q, 0);
            }
            if (node.count("grad_level_set")) field(pd, wn, "node_grad_lvlset", "PointData", "3", vec3(q["grad_level_set"]));
            for (auto& e : elem) field(cd, wc, e, "CellData", e == "stress" ? "9" : "", average(q, e, e == "stress" ? 9 : 1), 1e-13);
            if (gauss.count("volume")) field(cd, wc, "vol", "CellData", "", q["vol"].v);
            if (gauss.count("level_set")) field(cd, wc, "level_set", "CellData", "", q["level_set"].v);
            if (gauss.count("vel_grad")) {
                field(cd, wc, "vel_grad", "CellData", "9", q["vel_grad"].v);  // 3 by 3 also in the axisymmetric solver
            }
        } else {
            for (auto& e : mat) {
                if (e == "volfrac") { field(cd, wc, "mat_volfrac", "CellData", "", q["volfrac" + T].v); field(cd, wc, "mat_geo_volfrac", "CellData", "", q["geo_volfrac" + T].v); continue; }
                field(cd, wc, "mat_" + e, "CellData", e == "stress" ? "9" : "", q[e + T].v);
            }
        }
        for (auto& p : pd) if (!wn.count(p.first)) bad("a field that was not requested", p.first);
        for (auto& p : cd) if (!wc.count(p.first)) bad("a field that was not requested", p.first);
    }
    static int id_of(const std::string& nm) { size_t p = nm.rfind('.'); return atoi(nm.substr(p - 5, 5).c_str()); }
    void vtm(const std::string& f, const mp::Snap& q, const std::string& nm) {
        std::vector<Tag> t;
        if (!xml(f, t)) torn("not a complete XML file");
        std::set<std::string> got, want;
        for (auto& x : t) if (x.name == "DataSet") if (!got.insert(attr(x.tag, "file")).second) wrong(attr(x.tag, "file") + " twice");
        char id[16];
        snprintf(id, sizeof id, ".%05d.vtu", id_of(nm));
        std::string base = nm.substr(9, nm.find('.', 16) - 9);  // Fierro.solverK
        if (!node.empty() && !(node.size() == 1 && node.count("force"))) want.insert(base + ".fields" + id);
        if (!elem.empty() || !gauss.empty()) want.insert(base + ".fields" + id);
        if (!mat.empty()) for (size_t m = 0; m < mats(q); m++) if (q["elem@" + std::to_string(m)].rows) want.insert(base + ".mat" + std::to_string(m) + id);
        for (auto& w : want) if (!got.count(w)) bad("an output is missing from the list of its time", w);
        for (auto& g : got) if (!want.count(g)) bad("the list of an output time names a file that was not written", g);
    }
    void pvd(const std::string& f, int last, int solver) {
        std::vector<Tag> t;
        if (!xml(f, t)) torn("not a complete XML file");
        int k = 0;
        double tp = -1;
        for (auto& x : t) if (x.name == "DataSet") {
            char w[80];
            snprintf(w, sizeof w, "data/Fierro.solver%d.%05d.vtm", solver, k);
            if (attr(x.tag, "file") != w) wrong("entry " + std::to_string(k) + " is " + attr(x.tag, "file"));
            if (!r.files.count(std::string("vtk/") + w)) wrong(std::string(w) + " does not exist");
            double tv = strtod(attr(x.tag, "timestep").c_str(), nullptr);
            if (!(tv >= tp)) wrong("the times do not increase");
            tp = tv;
            k++;
        }
        if (k != last + 1) wrong(std::to_string(k) + " entries instead of " + std::to_string(last + 1));
    }
    void table(const std::string& f, const mp::Snap& q, bool points) {
        auto l = lines(f);
        std::vector<std::vector<double>> want;
        auto& X = q["coords"];
        auto rad = [](std::vector<double>& w) { double a = sqrt(w[0] * w[0] + w[1] * w[1]), b = sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); w.push_back(a); w.push_back(b); };
        if (points)
            for (size_t m = 0; m < mats(q); m++) {
                std::string T = "@" + std::to_string(m);
                for (size_t k = 0; k < q["elem" + T].rows; k++) {
                    size_t e = (size_t)q["elem" + T](k);
                    std::vector<double> w(3, 0.0);
                    for (size_t n : r.mesh.elem[e]) for (size_t c = 0; c < X.cols; c++) w[c] += X(n, c);
                    for (auto& x : w) x /= (double)r.mesh.nodes_in_elem;
                    rad(w);
                    for (const char* c : {"den", "pres", "sie", "sspd"}) w.push_back(q[c + T](k));
                    w.push_back(q["vol"](e));
                    w.push_back(q["mass" + T](k));
                    want.push_back(w);
                }
            }
        else
            for (size_t n = 0; n < X.rows; n++) {
                std::vector<double> w(3, 0.0), v(3, 0.0);
                for (size_t c = 0; c < X.cols; c++) { w[c] = X(n, c); v[c] = q["vel"](n, c); }
                rad(w);
                for (double x : v) w.push_back(x);
                w.push_back(sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]));
                double u0 = w[0] / w[3], u1 = w[1] / w[3], d = v[0] * u0 + v[1] * u1, e0 = v[0] - u0 * d, e1 = v[1] - u1 * d;
                w.push_back(sqrt(e0 * e0 + e1 * e1));
                want.push_back(w);
            }
        if (l.size() != want.size() + 2 || l[0][0] != '#' || l[1][0] != '#' || f.back() != '\n') torn(std::to_string(l.size()) + " lines instead of " + std::to_string(want.size() + 2));
        for (size_t k = 0; k < want.size(); k++) {
            bool ok = true;
            auto v = numbers(l[k + 2], ok);
            if (!ok || v.size() != want[k].size()) torn("line " + std::to_string(k + 3));
            for (size_t c = 0; c < v.size(); c++) {
                bool last = !points && c + 1 == v.size();
                double slack = last ? 1e-11 * (1 + std::fabs(want[k][c - 1])) : c < 3 && points ? 1e-14 * (1 + std::fabs(want[k][4])) : 0;
                if (last && (std::isnan(v[c]) || std::isnan(want[k][c]))) continue;  // on the axis
                if (!same(v[c], want[k][c], 1e-12) && !(std::fabs(v[c] - want[k][c]) <= slack)) wrong("line " + std::to_string(k + 3) + " column " + std::to_string(c + 1) + ": " + num(v[c]) + " instead of " + num(want[k][c]));
            }
        }
    }
    // EnSight: geometry, fields and the case file
    void ens_values(const std::string& f, const std::vector<std::string>& head, const std::vector<double>& want, const std::vector<bool>& known, bool acc, const mp::Snap& q) {
        auto l = lines(f);
        if (l.size() != head.size() + want.size() || f.empty() || f.back() != '\n') torn(std::to_string(l.size()) + " lines instead of " + std::to_string(head.size() + want.size()));
        for (size_t k = 0; k < head.size(); k++) { auto a = words(l[k]), b = words(head[k]); if (a != b) torn("line " + std::to_string(k + 1) + " is '" + l[k] + "'"); }
        std::vector<double> v;
        bool ok = true;
        for (size_t k = 0; k < want.size(); k++) { auto w = numbers(l[head.size() + k], ok); if (!ok || w.size() != 1) torn("line " + std::to_string(head.size() + k + 1)); v.push_back(w[0]); }
        if (acc) {
            size_t N = r.mesh.nodes;
            std::vector<double> o(v.size());
            for (size_t n = 0; n < N; n++) for (size_t c = 0; c < 3; c++) o[3 * n + c] = v[c * N + n];
            accel("accel", o, q, 1e-5);
        } else for (size_t k = 0; k < want.size(); k++) if (known.empty() || known[k]) if (!same(v[k], want[k], 6e-6)) wrong("value " + std::to_string(k) + ": " + num(v[k]) + " instead of " + num(want[k]));
    }
    void ensight(const std::string& f, const mp::Snap& q, const std::string& nm) {
        std::string ext = nm.substr(nm.rfind('.') + 1), type = two ? "quad4" : "hexa8";
        size_t E = r.mesh.elems, N = r.mesh.nodes;
        auto nodes = [&](const mp::Arr& a) { std::vector<double> v; for (size_t c = 0; c < 3; c++) for (size_t n = 0; n < N; n++) v.push_back(c < a.cols ? a(n, c) : 0.0); return v; };
        if (ext == "case") {
            int n = 0;
            for (auto& w : r.files) if (w.first.size() > 4 && w.first.compare(w.first.size() - 4, 4, ".geo") == 0) n++;
            auto l = lines(f);
            size_t k = 0;
            while (k < l.size() && l[k].compare(0, 15, "number of steps") != 0) k++;
            if (k >= l.size()) torn("no number of steps");
            int steps = atoi(l[k].c_str() + 16);
            if (steps != n) wrong(std::to_string(steps) + " steps instead of " + std::to_string(n));
            if (l.size() != k + 4 + (size_t)n) torn(std::to_string(l.size()) + " lines");
            return;
        }
        if (ext == "geo") {
            auto l = lines(f);
            std::vector<double> x = nodes(q["coords"]);
            if (l.size() != 9 + 3 * N + 2 + E) torn(std::to_string(l.size()) + " lines");
            if (words(l[8]) != std::vector<std::string>{std::to_string(N)} || words(l[9 + 3 * N]) != std::vector<std::string>{type} || words(l[10 + 3 * N]) != std::vector<std::string>{std::to_string(E)}) torn("counts");
            for (size_t k = 0; k < 3 * N; k++) if (!same(strtod(l[9 + k].c_str(), nullptr), x[k], 6e-6)) wrong("coordinate " + std::to_string(k) + ": " + l[9 + k] + " instead of " + num(x[k]));
            for (size_t e = 0; e < E; e++) {
                auto w = words([&] { std::string t = l[11 + 3 * N + e]; for (char& c : t) if (c == '\t') c = ' '; return t; }());
                std::vector<std::string> want;
                static const int A[] = {0, 1, 3, 2, 4, 5, 7, 6};
                for (size_t a = 0; a < r.mesh.nodes_in_elem; a++) want.push_back(std::to_string(r.mesh.elem[e][two ? a : (size_t)A[a]] + 1));
                if (w != want) wrong("nodes of element " + std::to_string(e) + ": " + l[11 + 3 * N + e] + " instead of " + [&] { std::string o; for (auto& t : want) o += t + " "; return o; }());
            }
            return;
        }
        if (ext == "pos" || ext == "vel" || ext == "accel") { ens_values(f, {"Per_node vector values", "part", "1", "block"}, nodes(ext == "vel" ? q["vel"] : q["coords"]), {}, ext == "accel", q); return; }
        std::vector<double> v(E, 0.0);
        std::vector<bool> known(E, false);
        std::vector<int> times(E, 0);
        for (size_t m = 0; m < mats(q); m++) {
            std::string T = "@" + std::to_string(m);
            for (size_t k = 0; k < q["elem" + T].rows; k++) {
                size_t e = (size_t)q["elem" + T](k);
                known[e] = ++times[e] == 1;
                if (ext == "mat_id") v[e] = (double)m;
                else if (ext == "vol") v[e] = q["vol"](e);
                else if (!q[ext + T].empty()) v[e] = q[ext + T](k);
                else known[e] = false;
            }
        }
        ens_values(f, {"Per_elem scalar values", "part", "1", type}, v, known, false, q);
    }
};
}  // namespace

static dst::Trace gen_out(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = tier ? 4 : 3;
    a.cycles = tier ? 20 : 8;
    int w = (int)r.below(8);
    a.kinds = w < 5 ? 1u << kSgh | 1u << kSghRz | 1u << kMulti : 1u << kThermal | 1u << kLevelSet | 1u << kChain;
    Scen s = any(r, a);
    std::string method = s.find("solver")->str("method");
    bool level = method == "level_set", thermal = method == "thrmex_FE", chain = s.all("solver").size() > 1;
    Item& o = *s.find("out");
    static const char* F[] = {"viz", "viz", "viz", "viz_and_state", "state", "ensight"};
    o.set("output_file_format", F[level ? r.below(2) : r.below(thermal || chain ? 5 : 6)]);
    o.set("graphics_iteration_step", std::to_string(r.range(1, 5)));
    auto some = [&](const char* k, std::vector<const char*> all, bool always = false) {
        std::string v;
        for (auto* x : all) if (r.chance(2, 3)) v += std::string(v.empty() ? "" : ",") + x;
        for (size_t i = 0; i < o.kv.size();) if (o.kv[i].first == k) o.kv.erase(o.kv.begin() + i); else i++;
        if (v.empty() && always) v = all[0];
        if (!v.empty()) o.set(k, v);
    };
    if (level) { some("gauss_pt_field_outputs", {"level_set", "volume"}); some("node_field_outputs", {"vel", "coords", "grad_level_set"}); }
    else {
        some("node_field_outputs", thermal && !chain ? std::vector<const char*>{"coords", "vel", "mass", "temp"} : method == "dynx_FE_rz" ? std::vector<const char*>{"mass", "vel", "coords"} : std::vector<const char*>{"mass", "vel", "coords", "force"});
        some("elem_field_outputs", {"stress", "sie", "pres", "den", "mass", "sspd"});
        some("mat_pt_field_outputs", {"den", "pres", "stress", "sie", "sspd", "mass", "volfrac", "eroded"});
        some("gauss_pt_field_outputs", thermal ? std::vector<const char*>{"volume"} : std::vector<const char*>{"volume", "vel_grad"});
    }
    if (r.chance(1, 4) && !level) {  // a material without elements
        G g(r);
        g.dims = (int)s.find("mesh")->l("num_dims", 3);
        int nm = (int)s.all("mat").size();
        for (auto* x : s.all("region")) if (x->l("material_id") == nm - 1) x->set("material_id", std::to_string(nm));
        g.gas(nm);
        Item m = g.s.items.back();
        size_t at = 0;
        for (size_t i = 0; i < s.items.size(); i++) if (s.items[i].sec == "mat") at = i + 1;
        s.items.insert(s.items.begin() + (long)at, m);
    }
    if (r.chance(1, 3)) s.add("old").set("n", std::to_string(r.range(1, 3)));
    int q = (int)r.below(5);
    if (q < 2) {
        static const char* K[] = {"open_err", "write_err", "write_short", "close_err", "crash", "crash", "mkdir_err", "crash"};
        static const char* P[] = {"", "", ".vtu", ".vtm", ".pvd", ".txt", ".geo", ".case"};
        std::string k = K[r.below(8)];
        s.add("io").set("kind", k).set("nth", std::to_string(k == "mkdir_err" ? r.range(1, 2) : r.range(1, r.chance(1, 2) ? 6 : 60))).set("arg", std::to_string(r.range(1, 200))).set("path", k == "mkdir_err" ? "" : P[r.below(8)]);
    } else if (q == 2) s.add("full").set("bytes", std::to_string(r.range(0, r.chance(1, 2) ? 5000 : 120000)));
    s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return s.trace();
}
static void exec_out(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s) || !s.find("out")) return;
    std::string fmt = s.find("out")->str("output_file_format");
    mp::Options o;
    o.cycle_snaps = true;
    o.max_iterations = 6000000;
    if (auto* x = s.find("sched")) { o.order = (int)x->l("order"); o.seed = (uint64_t)x->l("seed", 1); o.split = x->l("split") != 0; }
    bool crash = false;
    if (auto* x = s.find("io")) {
        dst::IoFault q;
        q.kind = x->str("kind"); q.nth = x->l("nth", 1); q.path = x->str("path");
        q.arg = q.kind == "open_err" ? EMFILE : q.kind == "write_err" ? ENOSPC : q.kind == "close_err" ? EIO : q.kind == "mkdir_err" ? EACCES : x->l("arg", 1);
        if (q.path.empty() && q.kind == "open_err") q.nth++;  // not the input file
        if (q.path.empty() && q.kind == "crash") q.nth += 6;
        if (q.path.empty() && q.kind == "close_err") q.nth++;
        crash = q.kind == "crash";
        o.faults.push_back(q);
    }
    if (auto* x = s.find("full")) o.capacity = x->l("bytes");
    auto f = files(s);
    std::set<std::string> stale;
    if (auto* x = s.find("old"))
        for (long k = 0; k < x->l("n", 1); k++) {
            char b[100];
            snprintf(b, sizeof b, "vtk/data/Fierro.solver0.%05ld.vtm", 900 + k);
            f[b] = "old\n"; stale.insert(b);
            f["vtk/Fierro.solver0.pvd"] = "old\n";
            snprintf(b, sizeof b, "vtk/data/Fierro.solver0.mat%ld.%05d.vtu", k, 0);
            f[b] = "old\n";
            f["state/keep.txt"] = "kept\n";
        }
    mp::Result r = mp::run(f, "in.yaml", o);
    account(c, r);
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail);
    bool faulty = !r.fired.empty() || s.find("full");
    for (auto& k : r.fired) if (k != "write_short") faulty = true;
    if (r.how != mp::Result::done && !faulty) dst::fail("a valid problem was not run to its end", mp::how_text(r));
    if (r.how == mp::Result::exited && r.code == 0) dst::fail("a run that could not write its outputs ended with a success status");
    bool stopped = r.how != mp::Result::done;
    // the last opening of each file, and the file that may be incomplete
    std::map<std::string, const mp::Snap*> last;
    std::string open_at;
    std::vector<const mp::Snap*> seq;
    bool frozen = false;
    for (auto& q : r.snaps) { if (q.frozen) { frozen = true; break; } last[q.at] = &q; seq.push_back(&q); }
    if (!seq.empty() && (stopped || crash)) open_at = seq.back()->at;
    if (!frozen && !stopped) open_at = "";
    if (crash && !frozen) for (auto& k : r.fired) if (k == "crash" && !seq.empty()) open_at = seq.back()->at;
    // (a file of an earlier output must not be touched any more)
    if (open_at.size() > 4 && (open_at.compare(open_at.size() - 4, 4, ".vtm") == 0 || open_at.compare(open_at.size() - 4, 4, ".vtu") == 0)) {
        int now = 0;
        for (auto* q : seq) if (q->at.compare(0, 24, open_at, 0, 24) == 0 && q->at.find(".fields.") != std::string::npos) now = std::max(now, Check::id_of(q->at));
        if (Check::id_of(open_at) < now) open_at = "";
    }
    Check k(r, s);
    std::map<int, int> dumps_of;
    for (auto& p : last) if (p.first.size() > 4 && p.first.compare(p.first.size() - 4, 4, ".vtm") == 0 && p.first != open_at) { int sv = atoi(p.first.c_str() + 22); dumps_of[sv] = std::max(dumps_of[sv], Check::id_of(p.first)); }
    int checked = 0;
    for (auto& p : last) {
        const std::string& nm = p.first;
        if (nm == open_at) continue;
        k.at = nm;
        auto i = r.files.find(nm);
        if (i == r.files.end()) {
            if (crash) dst::fail("an output that was complete before a crash is lost", nm);
            dst::fail("an output file was not written", nm);
        }
        const std::string& x = i->second;
        std::string ext = nm.substr(nm.rfind('.') + 1);
        if (nm.compare(0, 8, "ensight/") == 0) { if (ext == "case" && !open_at.empty()) continue; k.ensight(x, *p.second, nm); }
        else if (ext == "vtu") { size_t m = nm.find(".mat"); k.vtu(x, *p.second, m == std::string::npos ? -1 : atoi(nm.c_str() + m + 4)); }
        else if (ext == "vtm") k.vtm(x, *p.second, nm);
        else if (ext == "pvd") { if (open_at.empty()) { int sv = atoi(nm.c_str() + 17); k.pvd(x, dumps_of[sv], sv); } }
        else if (nm.compare(0, 18, "state/mat_pt_state") == 0) k.table(x, *p.second, true);
        else if (nm.compare(0, 16, "state/node_state") == 0) k.table(x, *p.second, false);
        else dst::fail("an unexpected file was written", nm);
        checked++;
    }
    if (open_at.empty() && !stopped && fmt.compare(0, 3, "viz") == 0) {
        for (auto& p : r.files) if (p.first.compare(0, 4, "vtk/") == 0 && !last.count(p.first)) dst::fail("an output of an earlier run is left among the new ones", p.first);
    }
    if (s.find("old") && r.files["state/keep.txt"] != "kept\n") dst::fail("a file that is not an output was removed");
    c.op(fmt);
    c.op(s.find("solver")->str("method"));
    if (stopped) c.op("stopped with an error");
    if (crash && frozen) c.op("crashed");
    c.observe(std::to_string(checked) + (stopped ? "stopped" : "done") + open_at);
    for (auto& p : r.files) if (p.first != "in.yaml") c.observe(std::to_string(dst::fnv(p.second.data(), p.second.size())));
    if (checked > 0) c.nontrivial = true;
}
static dst::Register r34({"C34", gen_out, exec_out, nullptr});
