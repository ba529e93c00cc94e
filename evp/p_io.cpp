// C52: the material and the microstructure of the input are the ones that are simulated; damaged input is refused.
// C53: a run that ends successfully has stored everything it reports, whatever the disk does.
#include <cerrno>
#include "esc.hpp"
using namespace esc;

static evp::Options options(const Scen& s, const Prob& p) {
    evp::Options o;
    o.ranks = fitting_ranks(p.n, (int)s.l("sched", "ranks", 1));
    o.seed = (uint64_t)s.l("sched", "seed"); o.shuffle = s.l("sched", "shuffle"); o.order = (int)s.l("sched", "order");
    return o;
}
static std::map<std::string, std::string> outputs(const std::map<std::string, std::string>& in, const std::map<std::string, std::string>& all) {
    std::map<std::string, std::string> o;
    for (auto& f : all) if (!in.count(f.first)) o.insert(f);
    return o;
}
static std::string kind_of(const std::string& f) {
    size_t d = f.rfind('.');
    std::string e = d == std::string::npos ? "" : f.substr(d);
    return e == ".out" || e == ".txt" ? f : "*" + e;
}
static bool prefix_of(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }

// ------------------------------------------------------------------ C53
static dst::Trace gen_store(Rng& r, int) {
    GenOpt g;
    g.maxn = 3; g.max_steps = 3; g.itmax = 2;
    Scen s = generate(r, g);
    s.add("sched").set("ranks", std::to_string(r.range(1, 4))).set("seed", std::to_string(r.below(1u << 30))).set("shuffle", std::to_string(r.below(2))).set("order", "0");
    int q = (int)r.below(8);
    if (q < 5) {
        static const char* K[] = {"open_err", "write_err", "write_err", "write_short", "write_eintr", "close_err", "mkdir_err", "crash"};
        static const char* P[] = {"", "vm.out", "str_str.out", "err.out", "conv.out", "tex.out", ".vtu", ".pvtu", ".h5", ".xdmf"};
        std::string k = K[r.below(8)], path = P[r.below(10)];
        long nth = k == "mkdir_err" ? r.range(1, 3) : k == "crash" ? r.range(1, 120) : path.empty() ? r.range(1, r.chance(1, 2) ? 8 : 60) : r.range(1, r.chance(1, 2) ? 2 : 8);
        s.add("io").set("kind", k).set("nth", std::to_string(nth)).set("arg", std::to_string(r.range(1, 100))).set("path", k == "mkdir_err" || k == "crash" ? "" : path);
    } else if (q < 7) s.add("full").set("bytes", std::to_string(r.range(0, r.chance(1, 2) ? 4000 : 60000)));
    else s.add("kill").set("rank", std::to_string(r.below(4))).set("at", std::to_string(r.range(1, 400)));
    return s.trace();
}
static int step_of(const std::string& f) { size_t a = f.find("MicroState_"); return a == std::string::npos ? -1 : atoi(f.c_str() + a + 11); }
static void exec_store(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    Prob p = problem(s);
    evp::Options o = options(s, p);
    auto in = files(p);
    auto a = evp::run(in, args(p), o);
    oracle(a);
    account(c, a);
    c.observe(evp::how_text(a));
    if (a.how != evp::Result::done) { if (a.how == evp::Result::exited && a.code == 0) dst::fail("a refused problem ended with a success status"); return; }
    Report ra = report_of(p, a, o.ranks);
    if (!ra.ok) dst::fail("incomplete output: " + ra.why, "no fault");
    evp::Options b = o;
    if (auto* x = s.find("io")) {
        dst::IoFault q;
        q.kind = x->str("kind"); q.nth = x->l("nth", 1); q.path = x->str("path");
        q.arg = q.kind == "open_err" ? EMFILE : q.kind == "write_err" ? (x->l("arg") % 2 ? ENOSPC : EIO) : q.kind == "close_err" ? EIO : q.kind == "mkdir_err" ? EACCES : x->l("arg", 1);
        b.faults.push_back(q);
    }
    if (auto* x = s.find("full")) b.capacity = x->l("bytes");
    if (auto* x = s.find("kill")) { b.crash_rank = (int)(x->l("rank") % b.ranks); b.crash_at = (uint64_t)x->l("at"); }
    auto r = evp::run(in, args(p), b);
    oracle(r);
    account(c, r);
    bool harmless = !s.find("full") && !s.find("kill");
    for (auto& k : r.fired) if (k != "write_short") harmless = false;
    auto A = outputs(in, a.files), B = outputs(in, r.files);
    c.observe(evp::how_text(r));
    c.op(r.how == evp::Result::done ? "finished" : r.how == evp::Result::killed ? "killed" : "ended with an error");
    for (auto& f : in) if (r.files.find(f.first) == r.files.end() || r.files[f.first] != f.second) dst::fail("an input file was changed", f.first);
    if (r.how == evp::Result::exited && r.code == 0) dst::fail("a run that could not store its results ended with a success status", r.fired.empty() ? "" : r.fired[0]);
    if (harmless && r.how != evp::Result::done) dst::fail("a run without a lasting disk error did not finish", evp::how_text(r));
    if (r.how == evp::Result::done && !r.frozen) {
        for (auto& f : A) {
            auto i = B.find(f.first);
            if (i == B.end()) dst::fail("a run ended with success although a result was not stored: " + kind_of(f.first), f.first);
            if (i->second != f.second) dst::fail("a run ended with success although a result is not stored completely: " + kind_of(f.first), f.first + " " + std::to_string(i->second.size()) + " of " + std::to_string(f.second.size()) + " bytes");
        }
        for (auto& f : B) if (!A.count(f.first)) dst::fail("an unexpected file was written", f.first);
    } else {
        // what was complete before the end is still complete and correct
        int last = -1;
        for (auto& f : B) last = std::max(last, step_of(f.first));
        for (auto& f : B) {
            auto i = A.find(f.first);
            if (i == A.end()) dst::fail("an unexpected file was written", f.first);
            bool h5 = f.first.size() > 3 && f.first.compare(f.first.size() - 3, 3, ".h5") == 0;
            if (!h5 && !prefix_of(f.second, i->second)) dst::fail("a run that was interrupted left wrong results: " + kind_of(f.first), f.first);
            int k = step_of(f.first);
            if (k >= 0 && k < last && f.second != i->second) dst::fail("results of an output step that was complete are lost: " + kind_of(f.first), f.first);
        }
        if (app_vtu() && last > 0 && p.iwfields) for (auto& f : A) { int k = step_of(f.first); if (k >= 0 && k < last && !B.count(f.first)) dst::fail("results of an output step that was complete are lost: " + kind_of(f.first), f.first); }
    }
    c.nontrivial = !r.fired.empty() || r.crashed || s.find("full");
}
static dst::Register r53({"C53", gen_store, exec_store, nullptr});

// ------------------------------------------------------------------ C52
static dst::Trace gen_input(Rng& r, int) {
    GenOpt g;
    g.maxn = 3; g.max_steps = 2; g.itmax = 2;
    Scen s = generate(r, g);
    s.add("sched").set("ranks", std::to_string(r.range(1, 4))).set("seed", std::to_string(r.below(1u << 30))).set("shuffle", std::to_string(r.below(2))).set("order", "0");
    static const char* K[] = {"cut", "cut", "missing", "word", "word", "word", "phase", "size", "mode", "set", "dims", "io", "none"};
    static const char* F[] = {"in.txt", "micro.txt", "plastic1.txt", "elastic1.txt", "plastic2.txt", "elastic2.txt"};
    static const char* IO[] = {"read_err", "read_short", "read_eof", "read_eintr", "open_err"};
    s.add("damage").set("kind", K[r.below(13)]).set("file", F[r.below(r.chance(1, 3) ? 6 : 4)]).set("pos", std::to_string(r.below(10000))).set("io", IO[r.below(5)]).set("nth", std::to_string(r.range(1, 3)));
    return s.trace();
}
static bool sp(char c) { return c == ' ' || c == '\n' || c == '\t'; }
struct HDim { size_t at, len; std::string name; };
// apply one damage; false if it does not apply to this problem
static bool damage(Prob& p, std::map<std::string, std::string>& f, const Item& d, evp::Options& o) {
    std::string k = d.str("kind"), fn = d.str("file");
    if (!f.count(fn)) fn = "in.txt";
    uint64_t pos = (uint64_t)d.l("pos");
    bool h5 = p.mtype == 1;
    if (k == "none") return false;
    if (k == "io") {
        dst::IoFault q;
        q.kind = d.str("io"); q.nth = d.l("nth", 1); q.path = fn;
        q.arg = q.kind == "open_err" ? EMFILE : q.kind == "read_err" ? EIO : (long)(pos % 60) + 1;
        o.faults.push_back(q);
        return true;
    }
    if (k == "cut") {
        std::string& t = f[fn];
        size_t n = t.size() * pos / 10000;
        if (!(h5 && fn == "micro.txt")) { while (n > 0 && !sp(t[n - 1])) n--; }
        if (n >= t.size()) return false;
        t.resize(n);
        return true;
    }
    if (k == "missing") { f.erase(fn); return true; }
    if (k == "word") {
        if (h5 && fn == "micro.txt") return false;
        std::string& t = f[fn];
        std::vector<std::pair<size_t, size_t>> w;
        for (size_t i = 0; i < t.size();) { if (sp(t[i])) { i++; continue; } size_t e = i; while (e < t.size() && !sp(t[e])) e++; w.push_back({i, e}); i = e; }
        if (w.empty()) return false;
        auto x = w[(size_t)pos % w.size()];
        t.replace(x.first, x.second - x.first, "?");
        return true;
    }
    if (k == "phase") {
        size_t c = (size_t)pos % p.cells();
        if (p.frame(c)) return false;
        static const int bad[] = {0, -1, 1, 99, 1000000};
        int b = bad[(pos / 7) % 5];
        p.phase[c] = b == 1 ? (int)p.ph.size() + 1 : b;
        f["micro.txt"] = micro_text(p);
        return true;
    }
    if (k == "size") {
        size_t at = 0, n = 0;
        std::string& t = f["in.txt"];
        size_t want = pos % 3 == 2 ? 3 : pos % 3;    // NPHMX, NMODMX, NSYSMX
        while (n < want) { while (at < t.size() && !sp(t[at])) at++; while (at < t.size() && sp(t[at])) at++; n++; }
        size_t e = at;
        while (e < t.size() && !sp(t[e])) e++;
        int v = atoi(t.substr(at, e - at).c_str());
        if (v < 2) return false;
        t.replace(at, e - at, std::to_string(v - 1));
        return true;
    }
    if (k == "mode") {
        if (p.ph[0].gas || p.ph[0].used.empty()) return false;
        p.ph[0].used[(size_t)pos % p.ph[0].used.size()] = pos % 2 ? 9 : 77;
        f["plastic1.txt"] = plastic_text(p.ph[0]);
        return true;
    }
    if (k == "set" || k == "dims") {
        if (!h5) return false;
        std::string& t = f["micro.txt"];
        static const char* N[] = {"/C/Euler\n", "/C/Feature\n", "/C/Phase\n"};
        size_t at = t.find(N[pos % 3]);
        if (at == std::string::npos) return false;
        if (k == "set") { t.replace(at, 4, "/D/X"); return true; }
        size_t a = t.find('\n', at) + 1, e = t.find('\n', a);
        auto w = dst::words(t.substr(a, e - a));
        switch (pos / 3 % 3) {
        case 0: std::swap(w[2], w[4]); if (w[2] == w[4]) return false; break;                  // another extent of the same size
        case 1: { std::string n = std::to_string(atol(w[2].c_str()) * atol(w[3].c_str())); w.erase(w.begin() + 2, w.begin() + 4); w.insert(w.begin() + 2, n); w[1] = std::to_string(w.size() - 2); break; }
        default: w[2] = std::to_string(atol(w[2].c_str()) * atol(w[3].c_str())); w[3] = "1"; if (p.n[1] == 1) return false;
        }
        std::string l;
        for (size_t i = 0; i < w.size(); i++) l += (i ? " " : "") + w[i];
        t.replace(a, e - a, l);
        return true;
    }
    return false;
}
static void rotation(double p1, double P, double p2, double* R) {
    p1 *= M_PI / 180; P *= M_PI / 180; p2 *= M_PI / 180;
    double c1 = cos(p1), s1 = sin(p1), c2 = cos(p2), s2 = sin(p2), C = cos(P), S = sin(P);
    double g[9] = {c1 * c2 - s1 * s2 * C, s1 * c2 + c1 * s2 * C, s2 * S, -c1 * s2 - s1 * c2 * C, -s1 * s2 + c1 * c2 * C, c2 * S, s1 * S, -c1 * S, C};
    memcpy(R, g, sizeof g);
}
static void exec_input(const dst::Trace& t, dst::Ctx& c) {
    Scen s = parse(t);
    Prob p = problem(s);
    evp::Options o = options(s, p);
    auto in = files(p);
    auto a = evp::run(in, args(p), o);
    oracle(a);
    account(c, a);
    c.observe(evp::how_text(a));
    if (a.how != evp::Result::done) return;
    Report ra = report_of(p, a, o.ranks);
    if (!ra.ok) dst::fail("incomplete output: " + ra.why, "valid input");
    // fidelity: every output shows the phases and grains that were read
    for (auto& st : ra.steps) for (size_t v = 0; v < p.cells(); v++) {
        if (p.frame(v)) continue;
        if (!st.second.f.count("phase_id") || (app_vtu() && !st.second.f.count("grain_id"))) dst::fail("the phases or grains are missing in the output", "step " + std::to_string(st.first));
        if (st.second.at("phase_id", v, 0) != p.phase[v]) dst::fail("a voxel is shown with another phase than in the input", "step " + std::to_string(st.first) + " voxel " + std::to_string(v));
        if (app_vtu() && st.second.at("grain_id", v, 0) != p.grain[v]) dst::fail("a voxel is shown with another grain than in the input", "step " + std::to_string(st.first) + " voxel " + std::to_string(v));
    }
    if (p.iwtex) {
        std::map<std::array<int, 3>, std::vector<std::string>> rows;
        size_t at = 0; int ln = 0;
        while (at < ra.tex.size()) {
            size_t e = ra.tex.find('\n', at);
            if (e == std::string::npos) dst::fail("the last line of tex.out is cut");
            if (ln++ >= 4) { auto w = dst::words(ra.tex.substr(at, e - at)); if (w.size() != 9) dst::fail("a line of tex.out has not nine values", ra.tex.substr(at, e - at)); rows[{atoi(w[4].c_str()), atoi(w[5].c_str()), atoi(w[6].c_str())}] = w; }
            at = e + 1;
        }
        for (size_t v = 0; v < p.cells(); v++) {
            int i = (int)(v % (size_t)p.n[0]), j = (int)(v / (size_t)p.n[0] % (size_t)p.n[1]), k = (int)(v / ((size_t)p.n[0] * p.n[1]));
            auto w = rows.find({i + 1, j + 1, k + 1});
            if (p.frame(v)) continue;
            if (w == rows.end()) dst::fail("a voxel is missing in tex.out", std::to_string(v));
            if (atoi(w->second[7].c_str()) != p.grain[v] || atoi(w->second[8].c_str()) != p.phase[v]) dst::fail("tex.out has another grain or phase than the input", "voxel " + std::to_string(v));
            if (p.ph[(size_t)p.phase[v] - 1].gas || p.iupdate) continue;
            double R[9], Q[9];
            rotation(p.eul[v][0], p.eul[v][1], p.eul[v][2], R);
            rotation(atof(w->second[0].c_str()), atof(w->second[1].c_str()), atof(w->second[2].c_str()), Q);
            for (int q = 0; q < 9; q++) if (std::fabs(R[q] - Q[q]) > (std::fabs(R[8]) > 0.9998 ? 0.025 : 2e-3)) dst::fail("tex.out has another orientation than the input although orientations are not updated", "voxel " + std::to_string(v));
        }
        c.op("texture");
    }
    const Item* d = s.find("damage");
    if (!d) return;
    Prob q = p;
    auto bad = in;
    evp::Options ob = o;
    if (!damage(q, bad, *d, ob)) return;
    auto r = evp::run(bad, args(p), ob);
    oracle(r);
    account(c, r);
    c.nontrivial = true;
    std::string kind = d->str("kind") == "io" ? d->str("io") : d->str("kind");
    c.faults["input: " + kind]++;
    c.observe(evp::how_text(r));
    if (r.how == evp::Result::exited && r.code == 0) dst::fail("damaged input (" + kind + ") ended the program with a success status");
    bool lasting = true;
    if (kind == "read_short" || r.fired.empty()) lasting = d->str("kind") != "io";
    if (!lasting && r.how != evp::Result::done) dst::fail("input that can be read was refused", kind + ": " + evp::how_text(r));
    if (r.how != evp::Result::done) { c.op("refused"); return; }
    auto A = outputs(in, a.files), B = outputs(in, r.files);
    for (auto& f : A) if (!B.count(f.first) || B[f.first] != f.second) dst::fail("damaged input (" + kind + ") was taken for something else", d->str("file") + ": " + f.first + " differs");
    c.op("without effect");
}
static dst::Register r52({"C52", gen_input, exec_input, nullptr});
