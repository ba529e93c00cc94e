// C20: the Xdmf uniform-grid description; C21: the command line of the micromechanics programs.
#include "dst.hpp"
#include "micro_sut.hpp"
#include <cstring>
#include "xml.hpp"
#include <csetjmp>
#include <getopt.h>
#include <iostream>
#include <sstream>
#include <stdexcept>
using namespace dst;
namespace {
std::string word(Rng& r, bool special) {
    static const std::string plain = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_-.", odd = "&<>\"' =:;%#[](){}";
    std::string s;
    int n = r.range(1, 14);
    for (int i = 0; i < n; i++) s += special && r.chance(1, 5) ? odd[r.below(odd.size())] : plain[r.below(plain.size())];
    return s;
}
Trace gen20(Rng& r, int) {
    Trace t;
    static const std::vector<std::pair<const char*, std::vector<int>>> K = {{"open_err", {EACCES, ENOSPC, EMFILE}}, {"write_err", {EIO, ENOSPC}}, {"write_short", {0, 1, 5}}, {"close_err", {EIO, ENOSPC}}};
    if (r.chance(2, 5)) {
        int n = r.range(1, 2);
        for (int i = 0; i < n; i++) {
            auto& k = r.pick(K);
            t.push_back(std::string("io ") + k.first + " " + std::to_string(r.range(1, 4)) + " " + std::to_string(r.pick(k.second)));
        }
    }
    if (r.chance(1, 6)) t.push_back("capacity " + std::to_string(r.below(3000)));
    int nf = r.range(1, 4);
    bool have = false;
    for (int f = 0; f < nf; f++) {
        if (!have || r.chance(1, 2)) {
            t.push_back("new " + std::to_string(r.range(1, 300)) + " " + std::to_string(r.range(1, 40)) + " " + std::to_string(r.chance(1, 9) ? 2000000 : r.range(1, 40)));
            have = true;
        }
        t.push_back("open " + enc(r.chance(1, 8) ? "missing/x.xdmf" : "f" + std::to_string(r.below(2)) + ".xdmf"));
        bool sp = r.chance(1, 3);
        if (r.chance(1, 12)) { t.push_back(r.chance(1, 2) ? "destroy" : "close"); have = t.back() != "destroy"; continue; }
        t.push_back("head " + enc(word(r, sp)));
        int na = r.chance(1, 8) ? r.range(20, 60) : r.range(0, 6);
        for (int i = 0; i < na; i++) {
            static const std::vector<std::string> ty = {"Scalar", "Vector", "Tensor"};
            t.push_back("attr " + enc(word(r, sp)) + " " + r.pick(ty) + " " + "ifd"[r.below(3)] + " " + enc(word(r, sp) + ".h5:/" + word(r, sp) + "/" + word(r, sp)));
        }
        if (r.chance(1, 12)) { t.push_back("destroy"); have = false; continue; }
        if (r.chance(1, 12)) continue;  // the next open takes over
        t.push_back("foot");
        t.push_back("close");
        if (r.chance(1, 4)) t.push_back("close");
    }
    return t;
}
struct Want { std::string path, grid; bool head = false, foot = false; int n[3]; std::vector<std::array<std::string, 4>> at; };
void judge(const Want& w, const std::string& text) {
    Xml x;
    XmlReader rd(text);
    if (!rd.doc(x)) fail("not-well-formed", rd.err + ": " + text.substr(0, 300));
    auto need = [&](bool ok, const char* what) { if (!ok) fail(std::string("wrong-description-") + what, text.substr(0, 1500)); };
    need(x.name == "Xdmf" && x.kids.size() == 1 && x.kids[0].name == "Domain", "root");
    const Xml& d = x.kids[0];
    need(d.kids.size() == 1 && d.kids[0].name == "Grid", "grid");
    const Xml& g = d.kids[0];
    need(g.a("Name") == w.grid && g.a("GridType") == "Uniform", "grid-name");
    const Xml* tp = g.kid("Topology");
    need(tp && g.count("Topology") == 1 && tp->a("TopologyType") == "3DCoRectMesh", "topology");
    std::vector<std::string> pts, cells;
    for (int i = 0; i < 3; i++) { pts.push_back(std::to_string(w.n[i] + 1)); cells.push_back(std::to_string(w.n[i])); }
    need(toks(tp->a("Dimensions")) == pts, "points");
    const Xml* ge = g.kid("Geometry");
    need(ge && g.count("Geometry") == 1 && ge->kids.size() == 2, "geometry");
    need(toks(ge->kids[0].text) == std::vector<std::string>({"0", "0", "0"}) && toks(ge->kids[1].text) == std::vector<std::string>({"1", "1", "1"}), "origin-or-spacing");
    need(g.count("Attribute") == w.at.size() && g.kids.size() == w.at.size() + 2, "attribute-count");
    for (size_t i = 0; i < w.at.size(); i++) {
        const Xml* a = g.kid("Attribute", i);
        need(a->a("Name") == w.at[i][0] && a->a("AttributeType") == w.at[i][1] && a->a("Center") == "Cell", "attribute");
        need(a->kids.size() == 1 && a->kids[0].name == "DataItem" && a->kids[0].a("Format") == "HDF", "data-item");
        const Xml& di = a->kids[0];
        need(toks(di.a("Dimensions")) == cells, "cells");
        std::string nt = w.at[i][2] == "i" ? "Int" : "Float", pr = w.at[i][2] == "d" ? "8" : "4";
        need(di.a("NumberType") == nt && di.a("Precision") == pr, "number-type");
        need(trim(di.text) == trim(w.at[i][3]), "location");
    }
}
void exec20(const Trace& t, Ctx& c) {
    std::vector<IoFault> io;
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() == 4 && a[0] == "io") io.push_back({a[1], to_l(a[2]), to_l(a[3])});
        if (a.size() == 2 && a[0] == "capacity") disk().capacity = to_l(a[1]);
    }
    disk_arm(io);
    steps_begin(4000000);
    sut::Writer* w = nullptr;
    bool isopen = false, dead = false;
    int n[3] = {1, 1, 1};
    Want want;
    size_t fired0 = 0;
    // what = the call; returns true if it reported a failure
    auto call = [&](const std::string& what, std::function<void()> f) {
        c.op(what);
        bool threw = false;
        try { Track tr; f(); } catch (std::runtime_error&) { threw = true; }
        if (threw && disk_fired().size() == fired0 && !(what == "open" && want.path.find("missing") != std::string::npos)) fail("failed-without-fault", what);
        c.observe(what + (threw ? " threw" : " ok"));
        return threw;
    };
    for (auto& l : t) {
        auto a = words(l);
        if (a.empty()) continue;
        if (a[0] == "new" && a.size() == 4) {
            if (w) { Track tr; sut::destroy(w); }
            isopen = false; dead = false;
            for (int i = 0; i < 3; i++) n[i] = (int)to_l(a[1 + i]);
            Track tr;
            w = sut::make(n[0], n[1], n[2]);
        }
        if (!w) continue;
        if (a[0] == "open" && a.size() == 2) {
            std::string p = std::string(kRoot) + dec(a[1]);
            if (!isopen) fired0 = disk_fired().size();  // otherwise the file taken over may still fail here
            want = Want(); want.path = p;
            for (int i = 0; i < 3; i++) want.n[i] = n[i];
            bool threw = call("open", [&] { sut::open(w, p.c_str()); });
            isopen = !threw; dead = threw;
            if (!threw && dec(a[1]).find("missing") == 0) fail("open-failure-not-reported", p);
            if (!threw) { fired0 = disk_fired().size(); }
        } else if (a[0] == "head" && isopen && !want.head && a.size() == 2) {
            want.head = true; want.grid = dec(a[1]);
            std::string s = want.grid;
            dead |= call("header", [&] { sut::header(w, s.c_str()); });
        } else if (a[0] == "attr" && isopen && want.head && !want.foot && a.size() == 5) {
            std::string nm = dec(a[1]), loc = dec(a[4]);
            want.at.push_back({nm, a[2], a[3], loc});
            dead |= call("attribute", [&] { sut::attribute(w, nm.c_str(), a[2].c_str(), a[3][0], loc.c_str()); });
        } else if (a[0] == "foot" && isopen && want.head && !want.foot) {
            want.foot = true;
            dead |= call("footer", [&] { sut::footer(w); });
        } else if (a[0] == "close") {
            bool threw = call("close", [&] { sut::close(w); });
            if (disk_open_handles()) fail("file-still-open", want.path);
            if (!isopen && threw) fail("second-close-failed", "");
            if (isopen && !threw && !dead && want.foot) {
                auto fi = disk_fired();
                bool cl = false;
                for (size_t i = fired0; i < fi.size(); i++) cl |= fi[i] == "close_err";
                if (cl) fail("close-failure-not-reported", want.path);
                judge(want, disk().files[want.path]);
                c.nontrivial = true;
                c.observe(disk().files[want.path]);
            }
            if (isopen) c.state(fnv(std::to_string(want.at.size()) + (threw ? "t" : "o") + (dead ? "d" : "-") + std::to_string(disk_fired().size() - fired0)));
            isopen = false;
        } else if (a[0] == "destroy") {
            { Track tr; sut::destroy(w); }
            w = nullptr; isopen = false;
            c.op("destroy");
            if (disk_open_handles()) fail("file-still-open", "after destruction");
        }
    }
    if (w) { Track tr; sut::destroy(w); }
    if (disk_open_handles()) fail("file-still-open", "at the end");
    for (auto& k : disk_fired()) c.faults[k]++;
    c.steps = steps_end();
}
Register r20({"C20", gen20, exec20, nullptr});

// ------------------------------------------------------------------ C21
jmp_buf g_exit;
bool g_catch = false;
int g_code = 0;
struct Opt { char s; const char* l; };
const Opt OPTS[] = {{'f', "infile"}, {'m', "micro-filetype"}, {'e', "euler-angles"}, {'g', "feature-ids"}, {'p', "phase-ids"}, {'u', "euler-unit"}};
const char* SHORTEST[] = {"i", "m", "euler-a", "fe", "p", "euler-u"};  // unique abbreviations
std::string value(Rng& r, char o, bool& ok) {
    ok = true;
    static const std::vector<std::string> num = {"0", "1", "2", "1", "0"}, badn = {"abc", "", "1x", "0.5", "one", "--", "0 1", "99999999999999999999", "2147483648", "4294967297", "-4294967295"};
    if (o == 'm') {
        if (r.chance(1, 10)) { ok = false; static const std::vector<std::string> b = {"3", "-1", "7", "11", "257", "-2147483648"}; return r.chance(1, 2) ? r.pick(badn) : r.pick(b); }
        return r.pick(num);
    }
    if (o == 'u') {
        if (r.chance(1, 12)) { ok = false; return r.pick(badn); }
        return std::to_string(r.below(2));
    }
    std::string s;
    static const std::string ch = "abcXYZ0123456789/._-= :&\xc3\xa9";
    int n = r.chance(1, 30) ? 0 : r.chance(1, 30) ? 3000 : r.range(1, 20);
    for (int i = 0; i < n; i++) s += ch[r.below(ch.size())];
    return s;
}
// line: "arg <enc>" per word; the expectation is computed from "opt" lines: opt letter form value
Trace gen21(Rng& r, int) {
    Trace t;
    int parses = r.range(1, 3);
    for (int k = 0; k < parses; k++) {
        t.push_back("begin");
        std::vector<int> use;
        bool h5 = r.chance(1, 2);
        if (!r.chance(1, 15)) use.push_back(0);
        if (h5 || r.chance(1, 2)) use.push_back(1);
        for (int i = 2; i < 6; i++) if (h5 ? !r.chance(1, 20) : r.chance(1, 3)) use.push_back(i);
        if (r.chance(1, 4) && !use.empty()) use.push_back((int)r.pick(use));
        for (size_t i = use.size(); i > 1; i--) std::swap(use[i - 1], use[r.below(i)]);
        for (int o : use) {
            bool ok;
            std::string v = value(r, OPTS[o].s, ok);
            if (o == 1 && h5 && ok && !r.chance(1, 6)) v = "1";
            if (o == 5 && r.chance(1, 25)) v = r.chance(1, 2) ? "-1" : "2";
            t.push_back("opt " + std::to_string(o) + " " + std::to_string(r.below(6)) + " " + enc(v));
        }
        int bad = (int)r.below(16);
        if (bad == 0) t.push_back("junk -z");
        if (bad == 1) t.push_back("junk --bogus");
        if (bad == 2) t.push_back("junk --euler=1");
        if (bad == 3) t.push_back("junk --help");
        if (bad == 4) t.push_back("junk -h");
        if (bad == 5) t.push_back("last " + std::string(r.chance(1, 2) ? "-f" : "--phase-ids"));
    }
    return t;
}
void exec21(const Trace& t, Ctx& c) {
    struct Case { std::vector<std::string> args; sut::Args want; bool stop = false; };
    std::vector<Case> cs;
    auto whole = [](const std::string& s, int& v) {
        if (s.empty() || isspace((unsigned char)s[0])) { return false; }
        char* e; errno = 0;
        long x = strtol(s.c_str(), &e, 10);
        if (*e || errno || x > 2147483647l || x < -2147483648l) return false;
        v = (int)x;
        return true;
    };
    for (auto& l : t) {
        auto a = words(l);
        if (a.empty()) continue;
        if (a[0] == "begin") { cs.emplace_back(); cs.back().args.push_back("evpfft"); cs.back().want.u = -1; continue; }
        if (cs.empty()) continue;
        Case& k = cs.back();
        if (a[0] == "opt" && a.size() == 4) {
            int o = (int)to_l(a[1]) % 6;
            std::string v = dec(a[3]);
            std::string sh = std::string("-") + OPTS[o].s, lo = std::string("--") + OPTS[o].l, ab = std::string("--") + SHORTEST[o];
            switch (to_l(a[2])) {
            case 0: k.args.push_back(sh); k.args.push_back(v); break;
            case 1: if (v.empty()) { k.args.push_back(sh); k.args.push_back(v); } else k.args.push_back(sh + v); break;
            case 2: k.args.push_back(lo); k.args.push_back(v); break;
            case 3: k.args.push_back(lo + "=" + v); break;
            case 4: k.args.push_back(ab + "=" + v); break;
            default: k.args.push_back(ab); k.args.push_back(v);
            }
            switch (OPTS[o].s) {
            case 'f': k.want.f = v; break;
            case 'e': k.want.e = v; break;
            case 'g': k.want.g = v; break;
            case 'p': k.want.p = v; break;
            case 'm': if (!whole(v, k.want.m)) k.stop = true; break;
            case 'u': if (!whole(v, k.want.u)) k.stop = true; break;
            }
        } else if (a[0] == "junk" && a.size() == 2) { k.args.insert(k.args.begin() + 1 + (k.args.size() > 2 ? 0 : 0), a[1]); k.stop = true; }
        else if (a[0] == "last" && a.size() == 2) { k.args.push_back(a[1]); k.stop = true; }
    }
    steps_begin(4000000);
    for (Case& k : cs) {
        const sut::Args& w = k.want;
        if (w.f.empty() || w.m < 0 || w.m > 2) k.stop = true;
        if (w.m == 1 && (w.e.empty() || w.g.empty() || w.p.empty() || (w.u != 0 && w.u != 1))) k.stop = true;
        std::vector<std::vector<char>> store;
        std::vector<char*> argv;
        for (auto& s : k.args) { store.emplace_back(s.begin(), s.end()); store.back().push_back(0); }
        for (auto& s : store) argv.push_back(s.data());
        argv.push_back(nullptr);
        optind = 0; opterr = 0;  // a fresh process
        static std::ostringstream* out = new std::ostringstream;
        out->str("");
        static sut::Args* got = new sut::Args;
        *got = sut::Args();
        static bool stopped;
        stopped = false;
        std::streambuf* old = std::cout.rdbuf(out->rdbuf());
        g_catch = true;
        if (setjmp(g_exit) == 0) { alloc_track(true); sut::parse((int)k.args.size(), argv.data(), *got); }
        else stopped = true;
        alloc_track(false);
        g_catch = false;
        std::cout.rdbuf(old);
        std::string line;
        for (auto& s : k.args) line += s.substr(0, 60) + " ";
        c.op(k.stop ? "reject" : "accept");
        if (k.stop) {
            if (!stopped) fail("accepted-bad-command-line", line);
            if (g_code == 0) fail("stopped-with-success", line);
            if (out->str().find("--infile") == std::string::npos) fail("no-usage-shown", line);
        } else {
            if (stopped) fail("rejected-good-command-line", line);
            auto eq = [&](bool ok, const char* what) { if (!ok) fail(std::string("wrong-option-") + what, line); };
            eq(got->f == w.f, "input-file"); eq(got->m == w.m, "file-type"); eq(got->e == w.e, "euler-angles");
            eq(got->g == w.g, "feature-ids"); eq(got->p == w.p, "phase-ids"); eq(got->u == w.u, "unit");
        }
        c.nontrivial = true;
        c.observe(line + (stopped ? "stop" : "go"));
        c.state(fnv(std::to_string(k.args.size()) + (stopped ? "s" : "g") + std::to_string(w.m) + std::to_string(w.u)));
    }
    c.steps = steps_end();
}
Register r21({"C21", gen21, exec21, nullptr});
}  // namespace
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code) {
    if (g_catch) { g_code = code; longjmp(g_exit, 1); }
    __real_exit(code);
}
int main(int argc, char** argv) { return dst::main_(argc, argv); }
