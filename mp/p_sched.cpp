// C30: results do not depend on the order in which the device runs the iterations of a kernel.
// C31: results do not depend on whether host and device share memory.
#include "any.hpp"
using namespace scen;

static AnyOpt sched_opt(int tier) { AnyOpt a; a.maxn = tier ? 4 : 3; a.cycles = tier ? 20 : 10; return a; }
static dst::Trace gen_sched(Rng& r, int tier) {
    Scen s = any(r, sched_opt(tier));
    Item& i = s.add("sched");
    i.set("order", std::to_string(r.range(1, 5))).set("seed", std::to_string(r.below(1u << 30))).set("split", std::to_string(r.below(2)));
    return s.trace();
}
static dst::Trace gen_split(Rng& r, int tier) {
    Scen s = any(r, sched_opt(tier));
    s.add("sched").set("order", std::to_string(r.range(0, 5))).set("seed", std::to_string(r.below(1u << 30)));
    return s.trace();
}
// lines of the program's output that do not report wall-clock time or sums over the whole mesh
static std::string stable(const std::string& out) {
    std::string r;
    for (size_t p = 0; p < out.size();) {
        size_t q = out.find('\n', p);
        if (q == std::string::npos) q = out.size();
        std::string l = out.substr(p, q - p);
        p = q + 1;
        std::string t;
        for (char c : l) t += (char)tolower((unsigned char)c);
        if (t.find("time") != std::string::npos && t.find("cycle") == std::string::npos) continue;
        if (t.find("energy") != std::string::npos || t.find("ke =") != std::string::npos || t.find("ie =") != std::string::npos || t.find("mass") != std::string::npos) continue;
        if (t.find("seconds") != std::string::npos || t.find(" s\n") != std::string::npos) continue;
        r += l + "\n";
    }
    return r;
}
// Two runs of the same problem must tell the same story.
static void same_story(const char* what, const mp::Result& a, const mp::Result& b, double rel) {
    std::string w = what;
    if (a.how != b.how || a.what != b.what || a.code != b.code) dst::fail(w + ": outcome differs", mp::how_text(a) + " / " + mp::how_text(b));
    if (a.snaps.size() != b.snaps.size()) dst::fail(w + ": number of outputs differs", std::to_string(a.snaps.size()) + " / " + std::to_string(b.snaps.size()));
    std::string d = diff(a.start, b.start, rel);
    if (!d.empty()) dst::fail(w + ": initial state differs: " + head(d), d);
    for (size_t k = 0; k < a.snaps.size(); k++) {
        if (a.snaps[k].at != b.snaps[k].at && rel == 0) dst::fail(w + ": different output files", a.snaps[k].at + " / " + b.snaps[k].at);
        d = diff(a.snaps[k], b.snaps[k], rel);
        if (!d.empty()) dst::fail(w + ": state differs: " + head(d), a.snaps[k].at + " " + d);
    }
    d = diff(a.end, b.end, rel);
    if (!d.empty()) dst::fail(w + ": final state differs: " + head(d), d);
    if (rel == 0) {
        for (auto& kv : a.files) {
            auto i = b.files.find(kv.first);
            if (i == b.files.end()) dst::fail(w + ": file missing", kv.first);
            if (i->second != kv.second) dst::fail(w + ": file content differs: " + kv.first.substr(kv.first.rfind('.') == std::string::npos ? 0 : kv.first.rfind('.')), kv.first);
        }
        if (b.files.size() != a.files.size()) dst::fail(w + ": extra files", "");
    }
}
static void oracle(const mp::Result& r) {
    if (r.how == mp::Result::oracle) dst::fail(r.what, r.detail);
}
static uint64_t snap_hash(const mp::Snap& s) {
    uint64_t h = 7;
    for (auto& kv : s.a) h = dst::fnv(kv.second.v.data(), kv.second.v.size() * 8, dst::fnv(kv.first, h));
    return h;
}
static mp::Options base() { mp::Options o; o.cycle_snaps = true; o.max_iterations = 6000000; return o; }
static void exec_sched(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s)) return;
    const Item* x = s.find("sched");
    if (!x) return;
    auto f = files(s);
    mp::Options o = base();
    mp::Result a = mp::run(f, "in.yaml", o);
    account(c, a);
    oracle(a);
    o.order = (int)x->l("order", 5);
    o.seed = (uint64_t)x->l("seed", 1);
    o.split = x->l("split") != 0;
    mp::Result b = mp::run(f, "in.yaml", o);
    account(c, b);
    oracle(b);
    c.op(s.find("solver")->str("method"));
    c.observe(mp::how_text(a) + " " + std::to_string(snap_hash(a.end)) + " " + std::to_string(b.order_hash));
    // Atomic accumulation may round differently in a different order; everything else is exact.
    same_story("order of iterations", a, b, a.atomics || b.atomics ? 1e-7 : 0);
    if (b.permuted && a.ran) c.nontrivial = true;
}
static void exec_split(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    if (!complete(s)) return;
    const Item* x = s.find("sched");
    if (!x) return;
    auto f = files(s);
    mp::Options o = base();
    o.order = (int)x->l("order", 0);
    o.seed = (uint64_t)x->l("seed", 1);
    mp::Result a = mp::run(f, "in.yaml", o);
    account(c, a);
    oracle(a);
    o.split = true;
    mp::Result b = mp::run(f, "in.yaml", o);
    account(c, b);
    oracle(b);
    c.op(s.find("solver")->str("method"));
    c.faults["stale host or device copies (separate memories)"] += b.to_host + b.to_device;
    c.observe(mp::how_text(a) + " " + std::to_string(snap_hash(a.end)));
    same_story("separate device memory", a, b, 0);
    if (a.ran) c.nontrivial = true;
}
static dst::Register r30({"C30", gen_sched, exec_sched, nullptr});
static dst::Register r31({"C31", gen_split, exec_split, nullptr});
