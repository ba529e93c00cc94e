// A simulated problem as trace lines, and the input file the program reads.
//
// Each line is "section key=value ..."; keys with dots nest, values are free of blanks.
#pragma once
#include <cmath>
#include <cstring>
#include <set>
#include <string>
#include <utility>
#include <vector>
#include "mp_sut.hpp"

namespace scen {
using dst::Rng;
using dst::Trace;
inline std::string num(double x) { char t[40]; snprintf(t, sizeof t, "%.17g", x); return t; }
inline std::string snum(double x) { char t[40]; snprintf(t, sizeof t, "%.6g", x); return t; }  // short, still exactly what is read back
struct Item {
    std::string sec;
    std::vector<std::pair<std::string, std::string>> kv;
    bool has(const std::string& k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
    std::string str(const std::string& k, const std::string& d = "") const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
    double d(const std::string& k, double def = 0) const { return has(k) ? strtod(str(k).c_str(), nullptr) : def; }
    long l(const std::string& k, long def = 0) const { return has(k) ? strtol(str(k).c_str(), nullptr, 10) : def; }
    std::vector<double> v(const std::string& k) const {
        std::vector<double> r;
        std::string s = str(k);
        for (size_t p = 0; p < s.size();) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); r.push_back(strtod(s.substr(p, q - p).c_str(), nullptr)); p = q + 1; }
        return r;
    }
    Item& set(const std::string& k, const std::string& val) { for (auto& p : kv) if (p.first == k) { p.second = val; return *this; } kv.push_back({k, val}); return *this; }
    Item& set(const std::string& k, double x) { return set(k, snum(x)); }
    Item& del(const std::string& k) { for (size_t i = 0; i < kv.size(); i++) if (kv[i].first == k) { kv.erase(kv.begin() + i); break; } return *this; }
};
inline std::string join(const std::vector<double>& v) { std::string s; for (double x : v) s += (s.empty() ? "" : ",") + snum(x); return s; }
struct Scen {
    std::vector<Item> items;
    Item& add(const std::string& sec) { items.push_back({sec, {}}); return items.back(); }
    const Item* find(const std::string& sec) const { for (auto& i : items) if (i.sec == sec) return &i; return nullptr; }
    Item* find(const std::string& sec) { for (auto& i : items) if (i.sec == sec) return &i; return nullptr; }
    std::vector<const Item*> all(const std::string& sec) const { std::vector<const Item*> r; for (auto& i : items) if (i.sec == sec) r.push_back(&i); return r; }
    std::vector<Item*> all(const std::string& sec) { std::vector<Item*> r; for (auto& i : items) if (i.sec == sec) r.push_back(&i); return r; }
    long l(const std::string& sec, const std::string& k, long d = 0) const { auto* i = find(sec); return i ? i->l(k, d) : d; }
    double d(const std::string& sec, const std::string& k, double df = 0) const { auto* i = find(sec); return i ? i->d(k, df) : df; }
    Trace trace() const { Trace t; for (auto& i : items) { std::string s = i.sec; for (auto& p : i.kv) s += " " + p.first + "=" + p.second; t.push_back(s); } return t; }
};
inline Scen parse(const Trace& t) {
    Scen s;
    for (auto& line : t) {
        auto w = dst::words(line);
        if (w.empty()) continue;
        Item& i = s.add(w[0]);
        for (size_t k = 1; k < w.size(); k++) { size_t e = w[k].find('='); if (e != std::string::npos) i.kv.push_back({w[k].substr(0, e), w[k].substr(e + 1)}); }
    }
    return s;
}
// ---- the input file
inline void yaml_map(std::string& o, const Item& it, const std::string& ind, const std::string& prefix = "") {
    std::set<std::string> done;
    for (auto& p : it.kv) {
        if (p.first.compare(0, prefix.size(), prefix) != 0) continue;
        std::string k = p.first.substr(prefix.size());
        if (k.empty() || k[0] == '_') continue;
        size_t dot = k.find('.');
        if (dot != std::string::npos) {
            std::string h = k.substr(0, dot);
            if (!done.insert(h).second) continue;
            o += ind + h + ":\n";
            yaml_map(o, it, ind + "    ", prefix + h + ".");
            continue;
        }
        bool list = k.size() > 5 && (k.rfind("_vars") == k.size() - 5 || (k.size() > 8 && k.rfind("_outputs") == k.size() - 8)) || k == "fields";
        if (list) {
            o += ind + k + ":\n";
            std::string s = p.second;
            for (size_t a = 0; a < s.size();) { size_t q = s.find(',', a); if (q == std::string::npos) q = s.size(); o += ind + "    - " + s.substr(a, q - a) + "\n"; a = q + 1; }
        } else if (p.second.find(',') != std::string::npos) {
            std::string s = "[";
            for (char c : p.second) { s += c; if (c == ',') s += ' '; }
            o += ind + k + ": " + s + "]\n";
        } else o += ind + k + ": " + p.second + "\n";
    }
}
inline std::string yaml(const Scen& s) {
    std::string o;
    auto one = [&](const char* sec, const char* name) { if (auto* i = s.find(sec)) { o += std::string(name) + ":\n"; yaml_map(o, *i, "    "); o += "\n"; } };
    auto many = [&](const char* sec, const char* name, const char* item) {
        auto v = s.all(sec);
        if (v.empty()) return;
        o += std::string(name) + ":\n";
        for (auto* i : v) { o += std::string("    - ") + item + ":\n"; yaml_map(o, *i, "        "); o += "\n"; }
    };
    one("dyn", "dynamic_options");
    one("mesh", "mesh_options");
    one("out", "output_options");
    one("multi", "multimaterial_options");
    many("solver", "solver_options", "solver");
    many("bc", "boundary_conditions", "boundary_condition");
    many("mat", "materials", "material");
    many("region", "regions", "region");
    return o;
}
inline bool complete(const Scen& s) { return s.find("dyn") && s.find("mesh") && s.find("solver") && s.find("mat") && s.find("region"); }

// ---- generators
struct G {
    Rng& r;
    Scen s;
    explicit G(Rng& r) : r(r) {}
    double q(double a, double b) { return strtod(snum(a + (b - a) * r.unit()).c_str(), nullptr); }  // a number that survives its short text
    double pick(std::initializer_list<double> l) { return *(l.begin() + r.below(l.size())); }
    int dims = 3;
    double o[3] = {0, 0, 0}, l[3] = {1, 1, 1};
    int n[3] = {1, 1, 1};
    Item& dyn(int cycles, double tfinal = 1.0) {
        Item& d = s.add("dyn");
        d.set("time_final", tfinal).set("dt_min", 1e-9).set("dt_max", 1e-2).set("dt_start", r.chance(1, 2) ? 1e-5 : q(1e-5, 1e-3)).set("cycle_stop", (double)cycles);
        if (r.chance(1, 4)) d.set("dt_cfl", q(0.1, 0.6));
        if (r.chance(1, 4)) d.set("rk_num_stages", (double)r.range(1, 4));
        return d;
    }
    Item& box3(int maxn, bool shift = true) {
        dims = 3;
        for (int k = 0; k < 3; k++) { n[k] = r.range(1, maxn); l[k] = r.chance(1, 3) ? 1.0 : q(0.4, 2.5); o[k] = shift && r.chance(1, 3) ? q(-2, 2) : 0.0; }
        Item& m = s.add("mesh");
        m.set("source", "generate").set("num_dims", "3").set("type", "box").set("origin", join({o[0], o[1], o[2]})).set("length", join({l[0], l[1], l[2]}));
        m.set("num_elems", std::to_string(n[0]) + "," + std::to_string(n[1]) + "," + std::to_string(n[2]));
        return m;
    }
    Item& box2(int maxn) {
        dims = 2;
        for (int k = 0; k < 2; k++) { n[k] = r.range(1, maxn); l[k] = r.chance(1, 3) ? 1.0 : q(0.4, 2.5); }
        o[0] = r.chance(1, 3) ? q(-2, 2) : 0.0;
        o[1] = r.chance(1, 2) ? q(0.1, 2) : 0.0;  // the radial coordinate
        Item& m = s.add("mesh");
        m.set("source", "generate").set("num_dims", "2").set("type", "box").set("origin", join({o[0], o[1]})).set("length", join({l[0], l[1]}));
        m.set("num_elems", std::to_string(n[0]) + "," + std::to_string(n[1]));
        return m;
    }
    Item& polar(int maxn) {
        dims = 2;
        n[0] = r.range(1, maxn); n[1] = r.range(1, maxn);
        double r0 = q(0.05, 0.5), r1 = r0 + q(0.3, 2), a0 = r.chance(1, 2) ? 0 : q(0, 40), a1 = r.chance(1, 2) ? 90 : a0 + q(20, 49);
        Item& m = s.add("mesh");
        m.set("source", "generate").set("num_dims", "2").set("type", "polar").set("origin", "0.0,0.0").set("inner_radius", r0).set("outer_radius", r1);
        m.set("starting_angle", a0).set("ending_angle", a1).set("num_radial_elems", (double)n[0]).set("num_angular_elems", (double)n[1]);
        o[0] = 0; o[1] = 0; l[0] = l[1] = r1;
        return m;
    }
    Item& gas(int id, const char* diss = nullptr) {
        Item& m = s.add("mat");
        m.set("id", (double)id).set("eos_model_type", "decoupled").set("eos_model", "gamma_law_gas");
        m.set("eos_global_vars", join({r.chance(1, 2) ? 1.66667 : q(1.2, 1.9), 1e-14, 1.0}));
        std::string ds = diss ? diss : dims == 2 ? "MARS_rz" : "MARS";
        if (!diss && r.chance(1, 4)) ds = dims == 2 ? "directional_MARS_rz" : "directional_MARS";
        m.set("dissipation_model", ds);
        m.set("dissipation_global_vars", r.chance(1, 2) ? "1.0,1.0,1.333,1.333,0.0,1.0" : join({q(0, 1.2), q(0, 1.2), q(0, 1.5), q(0, 1.5), q(0, 0.3), q(0, 1)}));
        return m;
    }
    Item& metal(int id) {
        Item& m = s.add("mat");
        double K = q(1, 2), Gm = q(0.2, 0.8), rho = q(2, 9);
        m.set("id", (double)id).set("eos_model_type", "decoupled").set("eos_model", "linear_elastic_eos").set("eos_global_vars", join({K, Gm, rho, 0.001}));
        m.set("strength_model_type", "increment_based").set("strength_model", dims == 2 ? "hypo_plasticity_strength_rz" : "hypo_plasticity_strength").set("strength_global_vars", join({Gm, q(0.001, 0.05)}));
        m.set("dissipation_model", dims == 2 ? "MARS_rz" : "MARS").set("dissipation_global_vars", "1.0,1.333,1.0,1.333,0.05,1.0");
        m.set("_rho", rho);
        return m;
    }
    void volume(Item& g) {
        switch (r.below(dims == 3 ? 4 : 3)) {
        case 0: g.set("volume.type", "global"); break;
        case 1: {
            g.set("volume.type", "box");
            static const char* N[3][2] = {{"x1", "x2"}, {"y1", "y2"}, {"z1", "z2"}};
            for (int k = 0; k < 3; k++) {
                double a = k < dims ? o[k] + l[k] * r.unit() * 0.8 - 0.1 * l[k] : -1, b = k < dims ? a + l[k] * (0.15 + 0.7 * r.unit()) : 1;
                g.set(std::string("volume.") + N[k][0], a).set(std::string("volume.") + N[k][1], b);
            }
            break;
        }
        case 2: {
            g.set("volume.type", "sphere");
            g.set("volume.radius1", r.chance(2, 3) ? 0.0 : q(0.1, 0.4)).set("volume.radius2", q(0.4, 1.6));
            g.set("volume.origin", join({o[0] + l[0] * r.unit(), o[1] + l[1] * r.unit(), dims == 3 ? o[2] + l[2] * r.unit() : 0.0}));
            break;
        }
        default:
            g.set("volume.type", "cylinder");
            g.set("volume.radius1", r.chance(2, 3) ? 0.0 : q(0.1, 0.4)).set("volume.radius2", q(0.4, 1.6)).set("volume.z1", o[2] - 0.1).set("volume.z2", o[2] + l[2] * (0.3 + 0.9 * r.unit()));
            g.set("volume.origin", join({o[0] + l[0] * r.unit(), o[1] + l[1] * r.unit(), 0.0}));
        }
    }
    void velocity(Item& g, double vmax) {
        switch (r.below(6)) {
        case 0: g.set("velocity.type", "static"); break;
        case 1: g.set("velocity.type", "radial").set("velocity.speed", q(-vmax, vmax)); break;
        case 2: if (dims == 3) { g.set("velocity.type", "spherical").set("velocity.speed", q(-vmax, vmax)); break; }  // fallthrough
        default: g.set("velocity.type", "cartesian").set("velocity.u", q(-vmax, vmax)).set("velocity.v", q(-vmax, vmax)).set("velocity.w", dims == 3 ? q(-vmax, vmax) : 0.0);
        }
    }
};
// ---- comparing states
inline bool same_bits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0 || (a == 0 && b == 0) || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double rel, double abs_) { return same_bits(a, b) || (std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b))); }
// "" when equal, else where the first difference is
inline std::string diff(const mp::Snap& a, const mp::Snap& b, double rel, const std::set<std::string>& skip = {}) {
    for (auto& kv : a.a) {
        if (skip.count(kv.first)) continue;
        auto i = b.a.find(kv.first);
        if (i == b.a.end()) return kv.first + " only in the first";
        auto &x = kv.second, &y = i->second;
        if (x.rows != y.rows || x.cols != y.cols || x.v.size() != y.v.size()) return kv.first + " differs in size: " + std::to_string(x.v.size()) + " and " + std::to_string(y.v.size());
        double big = 0;
        if (rel > 0) for (double t : x.v) if (std::isfinite(t)) big = std::max(big, std::fabs(t));
        for (size_t k = 0; k < x.v.size(); k++)
            if (rel > 0 ? !close(x.v[k], y.v[k], rel, rel * big) : !same_bits(x.v[k], y.v[k]))
                return kv.first + "[" + std::to_string(k / x.cols) + "," + std::to_string(k % x.cols) + "]: " + num(x.v[k]) + " and " + num(y.v[k]);
    }
    for (auto& kv : b.a) if (!skip.count(kv.first) && !a.a.count(kv.first)) return kv.first + " only in the second";
    return "";
}
inline std::string head(const std::string& d) { size_t p = d.find_first_of("[ @"); return d.substr(0, p); }
inline void account(dst::Ctx& c, const mp::Result& r) {
    c.steps += r.steps;
    c.op("kernel"); c.ops["kernel"] += r.kernels ? r.kernels - 1 : 0;
    c.ops["kernel iteration"] += r.iterations;
    if (r.permuted) c.faults["kernel order permuted"] += r.permuted;
    for (auto& f : r.fired) c.faults[f]++;
    c.state(r.order_hash);
}
}  // namespace scen
