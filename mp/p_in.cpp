// C40: the input file. Order of keywords means nothing; a mistake is refused before anything is
// computed or written; no file content makes the program leave its memory.
#include <algorithm>
#include "any.hpp"
using namespace scen;
namespace {
struct Field { const char *sec, *key; };
// keys with a fixed list of options
const Field kOption[] = {
    {"mesh", "source"}, {"mesh", "type"}, {"out", "output_file_format"}, {"out", "timer_output_level"}, {"out", "node_field_outputs"}, {"out", "elem_field_outputs"}, {"out", "gauss_pt_field_outputs"}, {"out", "mat_pt_field_outputs"},
    {"multi", "mat_equilibration_model"}, {"solver", "method"}, {"bc", "surface.type"}, {"bc", "velocity_model"}, {"bc", "stress_model"}, {"bc", "temperature_model"},
    {"mat", "eos_model_type"}, {"mat", "eos_model"}, {"mat", "strength_model_type"}, {"mat", "strength_model"}, {"mat", "dissipation_model"}, {"mat", "erosion_model"}, {"mat", "level_set_type"},
    {"region", "volume.type"}, {"region", "density.type"}, {"region", "specific_internal_energy.type"}, {"region", "velocity.type"}, {"region", "volume_fraction.type"}, {"region", "temperature.type"}, {"region", "level_set.type"}, {"region", "specific_heat.type"}, {"region", "thermal_conductivity.type"}};
const Field kRequired[] = {
    {"dyn", "time_final"}, {"dyn", "cycle_stop"}, {"mesh", "source"}, {"mesh", "num_dims"}, {"solver", "method"}, {"solver", "id"}, {"bc", "solver_id"}, {"bc", "surface."}, {"mat", "id"}, {"mat", "strength_model"},
    {"region", "material_id"}, {"region", "volume."}, {"region", "volume.type"}, {"region", "density.type"}, {"region", "specific_internal_energy.type"}, {"region", "velocity.type"}, {"region", "volume_fraction.type"}, {"region", "temperature.type"}, {"region", "level_set.type"}};
const Field kId[] = {{"solver", "id"}, {"mat", "id"}, {"bc", "solver_id"}, {"region", "solver_id"}, {"region", "material_id"}};
const Field kVector[] = {{"mesh", "origin"}, {"mesh", "length"}, {"mesh", "num_elems"}, {"region", "volume.origin"}, {"bc", "surface.origin"}};
const Field kWordIn[] = {{"dyn", ""}, {"mesh", ""}, {"out", ""}, {"multi", ""}, {"solver", ""}, {"bc", ""}, {"bc", "surface."}, {"mat", ""}, {"region", ""}, {"region", "volume."}, {"region", "density."}, {"region", "specific_internal_energy."}, {"region", "velocity."}, {"region", "volume_fraction."}, {"region", "temperature."}, {"region", "level_set."}};
const Field kVars[] = {{"mat", "eos_global_vars"}, {"mat", "strength_global_vars"}, {"mat", "dissipation_global_vars"}, {"bc", "velocity_bc_global_vars"}, {"bc", "stress_bc_global_vars"}, {"bc", "temperature_bc_global_vars"}, {"multi", "mat_equilibration_global_vars"}};
const char* kNode[] = {"coords", "vel", "temp", "mass", "force", "grad_level_set"};
const char* kGauss[] = {"volume", "level_set", "vel_grad"};
const char* kMat[] = {"den", "pres", "stress", "sie", "sspd", "mass", "volfrac", "eroded"};
const char* kElem[] = {"den", "pres", "stress", "sie", "sspd", "mass"};
const char* kNonsense[] = {"xyzzy", "Box", "desnity", "uniform2", "velocityy"};

bool has_prefix(const Item& i, const std::string& p) { for (auto& kv : i.kv) if (kv.first == p || (p.back() == '.' && kv.first.compare(0, p.size(), p) == 0)) return true; return false; }
// the text of the file with the words of every block, the blocks and the lists with ids in another order
std::string reordered(Scen s, uint64_t seed) {
    Rng r(seed);
    auto shuffle = [&](auto& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); };
    for (auto& i : s.items) shuffle(i.kv);
    auto one = [&](const char* sec, const char* name) { std::string o; if (auto* i = s.find(sec)) { o += std::string(name) + ":\n"; yaml_map(o, *i, "    "); o += "\n"; } return o; };
    auto many = [&](const char* sec, const char* name, const char* item, bool free) {
        std::string o;
        auto v = s.all(sec);
        if (v.empty()) return o;
        if (free) shuffle(v);
        o += std::string(name) + ":\n";
        for (auto* i : v) { o += std::string("    - ") + item + ":\n"; yaml_map(o, *i, "        "); o += "\n"; }
        return o;
    };
    std::vector<std::string> b = {one("dyn", "dynamic_options"), one("mesh", "mesh_options"), one("out", "output_options"), one("multi", "multimaterial_options"), many("solver", "solver_options", "solver", true), many("bc", "boundary_conditions", "boundary_condition", false), many("mat", "materials", "material", true), many("region", "regions", "region", false)};
    shuffle(b);
    std::string o;
    for (auto& t : b) o += t;
    return o;
}
// edits of the raw text
std::string damaged(const std::string& text, const Item& q) {
    std::string t = text;
    std::string how = q.str("how");
    Rng r((uint64_t)q.l("seed", 1));
    std::vector<std::string> l;
    for (size_t a = 0; a < t.size();) { size_t e = t.find('\n', a); if (e == std::string::npos) e = t.size(); l.push_back(t.substr(a, e - a)); a = e + 1; }
    size_t k = r.below(std::max<size_t>(1, l.size()));
    if (how == "cut") return t.substr(0, r.below(t.size() + 1));
    if (how == "byte") { if (!t.empty()) t[r.below(t.size())] = " :-[]{},\"'#\n|>0x~\t"[r.below(18)]; return t; }
    if (how == "line_lost" && k < l.size()) l.erase(l.begin() + (long)k);
    if (how == "line_twice" && k < l.size()) l.insert(l.begin() + (long)k, l[k]);
    if (how == "lines_swapped" && l.size() > 1) std::swap(l[k], l[r.below(l.size())]);
    if (how == "indent" && k < l.size()) l[k] = (r.chance(1, 2) ? "  " : "") + (l[k].size() > 2 && !r.chance(1, 2) ? l[k].substr(1) : l[k]);
    if (how == "value" && k < l.size()) { size_t c = l[k].find(": "); if (c != std::string::npos) { static const char* V[] = {"", "-1", "0", "99999999", "1e308", "nan", "abc", "[1]", "[]", "1,2", "-0.5"}; l[k] = l[k].substr(0, c + 2) + V[r.below(11)]; } }
    t.clear();
    for (auto& x : l) t += x + "\n";
    return t;
}
dst::Trace gen(Rng& r, int tier) {
    AnyOpt a;
    a.maxn = 2;
    a.cycles = tier ? 4 : 3;
    a.kinds = 1u << kSgh | 1u << kSghRz | 1u << kThermal | 1u << kLevelSet | 1u << kMulti | 1u << kContact | 1u << kChain;
    Scen s = any(r, a);
    int w = (int)r.below(10);
    if (w < 2) { s.add("order").set("seed", std::to_string(1 + r.below(1000000000))); return s.trace(); }
    if (w == 2) {
        static const char* H[] = {"cut", "byte", "line_lost", "line_twice", "lines_swapped", "indent", "value"};
        s.add("damage").set("how", H[r.below(7)]).set("seed", std::to_string(1 + r.below(1000000000)));
        return s.trace();
    }
    // one mistake somewhere
    for (int tries = 0; tries < 60; tries++) {
        int kind = (int)r.below(10);
        auto place = [&](const Field* f, size_t n, bool prefix, Field& out, size_t& nth) {
            out = f[r.below(n)];
            auto v = s.all(out.sec);
            if (v.empty()) return false;
            nth = r.below(v.size());
            return prefix ? (out.key[0] == 0 || has_prefix(*v[nth], out.key)) : has_prefix(*v[nth], out.key);
        };
        Field f; size_t nth = 0; std::string val;
        const char* name = "";
        switch (kind) {
        case 0: if (!place(kWordIn, sizeof kWordIn / sizeof *kWordIn, true, f, nth)) continue; name = "word"; val = kNonsense[r.below(5)]; break;
        case 1: if (!place(kRequired, sizeof kRequired / sizeof *kRequired, false, f, nth)) continue; name = "missing"; break;
        case 2: if (!place(kOption, sizeof kOption / sizeof *kOption, false, f, nth)) continue; name = "option"; val = kNonsense[r.below(5)]; break;
        case 3: {
            if (!place(kId, sizeof kId / sizeof *kId, false, f, nth)) continue;
            name = "id";
            std::string of = std::string(f.key) == "id" ? f.sec : std::string(f.key) == "material_id" ? "mat" : "solver";
            size_t n = s.all(of).size();
            static const long far[] = {1, 2, 7, 1000, 100000};
            val = r.chance(1, 3) ? "-1" : std::string(f.key) == "id" && n > 1 && r.chance(1, 2) ? "" : std::to_string((long)n - 1 + far[r.below(5)]);
            if (val.empty()) { size_t o = (nth + 1) % n; val = s.all(of)[o]->str("id"); }
            break;
        }
        case 4: if (!place(kVector, sizeof kVector / sizeof *kVector, false, f, nth)) continue; name = "components"; val = r.chance(1, 4) ? "[]" : "1"; break;
        case 5: if (!place(kVars, sizeof kVars / sizeof *kVars, false, f, nth)) continue; name = "vars"; val = "1"; break;
        case 6: {
            const Item* m = s.find("mesh");
            bool rz = m->l("num_dims") == 2;
            f = {"mat", "dissipation_model"};
            if (!place(&f, 1, false, f, nth)) continue;
            name = "option"; val = rz ? (r.chance(1, 2) ? "MARS" : "directional_MARS") : (r.chance(1, 2) ? "MARS_rz" : "directional_MARS_rz");
            break;
        }
        case 7: { static const char* B[] = {"dyn", "mesh", "solver", "mat", "region", "path"}; name = "block"; f = {B[r.below(6)], ""}; break; }
        case 8: name = "fill"; f = {"region", r.chance(1, 2) ? "density." : "specific_internal_energy."}; if (!s.find("region") || !has_prefix(*s.find("region"), f.key)) continue; break;
        default: {
            static const char* K[] = {"node_field_outputs", "gauss_pt_field_outputs", "mat_pt_field_outputs", "elem_field_outputs"};
            int q = (int)r.below(4);
            f = {"out", K[q]};
            if (!s.find("out")) continue;
            name = "field";
            val = q == 0 ? kNode[r.below(6)] : q == 1 ? kGauss[r.below(3)] : q == 2 ? kMat[r.below(8)] : kElem[r.below(6)];
        }
        }
        s.add("mistake").set("kind", name).set("in", f.sec).set("nth", (double)nth).set("key", f.key[0] ? f.key : ".").set("with", val.empty() ? "." : val);
        break;
    }
    return s.trace();
}
void exec(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s)) return;
    mp::Options o;
    o.max_iterations = 8000000;
    auto f = files(s);
    const Item *ord = s.find("order"), *dmg = s.find("damage"), *mis = s.find("mistake");
    if (dmg) {
        f["in.yaml"] = damaged(f["in.yaml"], *dmg);
        o.max_steps = 300000000;
        o.execute = false;
        mp::Result r = mp::run(f, "in.yaml", o);
        account(c, r);
        // a damaged file may ask for anything, even for more memory or time than there is
        if (r.how == mp::Result::oracle && r.what.find("time") == std::string::npos && r.what.find("end") == std::string::npos) dst::fail(r.what, r.detail);
        c.op(r.how == mp::Result::done ? "damaged file understood" : "damaged file refused");
        c.observe(std::to_string((int)r.how) + r.what.substr(0, 60));
        c.nontrivial = true;
        return;
    }
    if (ord) {
        mp::Result a = mp::run(f, "in.yaml", o);
        account(c, a);
        if (a.how == mp::Result::oracle) dst::fail(a.what, a.detail);
        if (a.how != mp::Result::done) dst::fail("a valid problem was refused", mp::how_text(a));
        f["in.yaml"] = reordered(s, (uint64_t)ord->l("seed", 1));
        mp::Result b = mp::run(f, "in.yaml", o);
        account(c, b);
        if (b.how == mp::Result::oracle) dst::fail(b.what, b.detail);
        if (b.how != mp::Result::done) dst::fail("a valid problem was refused in another order of its words", mp::how_text(b));
        std::string d = diff(a.end, b.end, 0);
        if (!d.empty()) dst::fail("the order of the words changes the result: " + head(d), d);
        c.op("file reordered");
        c.observe(std::to_string(dst::fnv(f["in.yaml"], 1)));
        c.nontrivial = true;
        return;
    }
    if (!mis) return;
    std::string kind = mis->str("kind"), key = mis->str("key"), with = mis->str("with"), sec = mis->str("in");
    if (key == ".") key.clear();
    if (with == ".") with.clear();
    auto v = s.all(sec);
    size_t nth = (size_t)mis->l("nth");
    if (kind == "block") {
        if (sec == "path") s.find("mesh")->set("file_path", "elsewhere.vtk");
        else s.items.erase(std::remove_if(s.items.begin(), s.items.end(), [&](const Item& i) { return i.sec == sec; }), s.items.end());
    }
    if (kind == "fill") {  // a field the solvers need and no region sets
        bool needed = false;
        for (auto* i : s.all("solver")) needed = needed || i->str("method") != "level_set";
        if (!needed) return;
        for (auto* i : s.all("region")) {
            auto& kv = i->kv;
            kv.erase(std::remove_if(kv.begin(), kv.end(), [&](auto& q) { return q.first.compare(0, key.size(), key) == 0; }), kv.end());
            if (has_prefix(*i, "internal_energy.")) return;
        }
    }
    if (kind != "block" && nth >= v.size()) return;
    Item none, &it = kind == "block" ? none : *v[nth];
    if (kind == "block" || kind == "fill") {}
    else if (kind == "word") { if (!key.empty() && !has_prefix(it, key)) return; it.kv.insert(it.kv.begin() + (long)(it.kv.size() / 2), {key + with, "1"}); }
    else if (kind == "missing") {
        if (!has_prefix(it, key)) return;
        if (key.back() != '.' && key.find('.') != std::string::npos) {  // the block must not vanish with its only word
            std::string p = key.substr(0, key.find('.') + 1);
            size_t n = 0;
            for (auto& kv : it.kv) n += kv.first.compare(0, p.size(), p) == 0;
            if (n < 2) return;
        }
        for (size_t k = it.kv.size(); k-- > 0;) if (it.kv[k].first == key || (key.back() == '.' && it.kv[k].first.compare(0, key.size(), key) == 0)) it.kv.erase(it.kv.begin() + (long)k);
    } else if (kind == "id") {
        if (!it.has(key)) return;
        std::string of = key == "id" ? sec : key == "material_id" ? "mat" : "solver";
        long n = (long)s.all(of).size(), x = strtol(with.c_str(), nullptr, 10);
        bool dup = false;
        if (key == "id") for (auto* i : s.all(sec)) dup = dup || (i != &it && i->l("id") == x);
        if (x >= 0 && x < n && !dup) return;  // lines were removed: no mistake any more
        it.set(key, with);
    } else if (kind == "field") {
        std::string w = it.str(key);
        it.set(key, w.empty() ? with : w + "," + with);
    } else { if (!it.has(key)) return; it.set(key, with); }
    f["in.yaml"] = yaml(s);
    mp::Result r = mp::run(f, "in.yaml", o);
    account(c, r);
    std::string what = kind + (kind == "field" ? " " + with : " in " + sec + (key.empty() ? "" : " " + key));
    if (r.how == mp::Result::oracle) dst::fail(r.what, what + ": " + r.detail);
    c.op("mistake: " + kind);
    c.observe(what + with);
    c.nontrivial = true;
    if (kind == "field" || kind == "vars") return;  // refused or harmless
    if (r.how == mp::Result::done) dst::fail("a mistake was not refused: " + what, it.sec + " " + std::to_string(nth) + " with " + with);
    if (r.how == mp::Result::exited && r.code == 0) dst::fail("a mistake ended the program as if all was well: " + what, mp::how_text(r));
    for (auto& q : r.files) if (!f.count(q.first)) dst::fail("a mistake was refused only after output had been written: " + what, q.first);
}
dst::Register reg({"C40", gen, exec, nullptr});
}  // namespace
