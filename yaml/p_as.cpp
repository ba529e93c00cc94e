// C13: reading a value of a document as a number, flag or text
#include "as_sut.hpp"
#include "ytree.hpp"
#include <cerrno>
#include <cmath>
using namespace dst;
namespace {
std::string num_text(Rng& r, char t, bool& whole) {
    whole = true;
    char b[64];
    if (t == 'd' || t == 'f') {
        double lim = t == 'f' ? 30 : 300;
        double v = (r.unit() - 0.5) * pow(10, (double)r.range((int)-lim / 2, (int)lim / 2));
        static const char* f[] = {"%.17g", "%g", "%.3f", "%e", "%.9g"};
        int k = (int)r.below(5);
        if (k == 2) v = (r.unit() - 0.5) * 1e6;
        snprintf(b, sizeof b, f[k], v);
        return b;
    }
    long v = t == 'i' ? r.range(-2147483647, 2147483647) : (long)(r.next() >> 1);
    if (t == 'l' && r.chance(1, 2)) v = -v;
    if (r.chance(1, 2)) v = t == 'u' ? (long)r.below(1000) : r.range(-1000, 1000);
    return std::to_string(v);
}
Trace gen(Rng& r, int) {
    Trace t;
    int n = r.range(1, 8);
    for (int i = 0; i < n; i++) {
        static const std::string ts = "iludfbs";
        char ty = ts[r.below(ts.size())];
        std::string text, kind = "full", num;
        bool w;
        if (ty == 'b') {
            static const std::vector<std::string> v = {"true", "True", "TRUE", "yes", "YES", "1", "false", "no", "0", "on", "2", "tru", "truex", "", "yess", "y", "t", "1.0"};
            text = r.pick(v);
        } else if (ty == 's') { Dom d; d.block = false; text = gen_scalar(r, d); }
        else {
            num = num_text(r, ty, w);
            int k = (int)r.below(6);
            static const std::vector<std::string> tail = {" m", "_", " 5", "kg", "; x", "/2", "%"};
            static const std::vector<std::string> bad = {"abc", "x1", "_5", "#3", "--4", "", "/", "e5", "true", "~"};
            if (k == 0) { text = num + r.pick(tail); kind = "lead"; }
            else if (k == 1) { text = r.pick(bad); kind = "none"; }
            else if (k == 2) { text = "  " + num; }
            else text = num;
        }
        static const std::vector<std::string> holders = {"scalar", "scalar", "scalar", "none", "map", "seq"};
        std::string h = r.pick(holders);
        std::string d = ty == 'b' ? std::to_string(r.below(2)) : ty == 's' ? gen_word(r, Dom()) : num_text(r, ty, w);
        t.push_back(std::string("as ") + ty + " " + h + " " + kind + " " + enc(text) + " " + (r.chance(1, 2) ? enc(d) : "-") + " " + (r.chance(1, 4) ? std::to_string(r.range(1, 6)) : "0"));
    }
    return t;
}
void exec(const Trace& t, Ctx& c) {
    steps_begin(2000000);
    for (auto& l : t) {
        auto a = words(l);
        if (a.size() < 7 || a[0] != "as") continue;
        char ty = a[1][0];
        std::string text = dec(a[4]), dflt = a[5] == "-" ? "" : dec(a[5]), kind = a[3];
        bool has = a[5] != "-";
        c.op(std::string("as_") + ty);
        long live0 = alloc_live();
        std::unique_ptr<Yaml::Node> n;
        {
            Track tr;
            n.reset(new Yaml::Node);
            if (a[2] == "scalar") *n = text;
            else if (a[2] == "map") (*n)["k"] = text;
            else if (a[2] == "seq") n->PushBack() = text;
        }
        M before = snap(*n);
        if (a[2] != "scalar") { text = ""; kind = "none"; }
        auto num = [&](const std::string& s) {
            char b[64];
            switch (ty) {
            case 'i': return std::to_string((int)strtol(s.c_str(), nullptr, 10));
            case 'l': return std::to_string(strtol(s.c_str(), nullptr, 10));
            case 'u': return std::to_string(strtoul(s.c_str(), nullptr, 10));
            case 'd': snprintf(b, sizeof b, "%.17g", strtod(s.c_str(), nullptr)); return std::string(b);
            default: snprintf(b, sizeof b, "%.9g", (double)strtof(s.c_str(), nullptr)); return std::string(b);
            }
        };
        std::string want;
        if (ty == 's') want = text.empty() && has ? dflt : text;
        else if (ty == 'b') {
            std::string low = text;
            for (auto& ch : low) ch = (char)tolower(ch);
            want = low.empty() && has ? dflt : (low == "true" || low == "yes" || low == "1") ? "1" : "0";
        } else want = kind == "none" ? (has ? num(dflt) : "0") : num(text);
        std::string got;
        bool threw = false;
        long nth = to_l(a[6]);
        alloc_arm(nth);
        try { Track tr; got = sut::as(*n, ty, has ? &dflt : nullptr); } catch (std::bad_alloc&) { threw = true; }
        bool fired = nth && alloc_fired();
        alloc_arm(0);
        if (fired) c.faults["alloc_failure"]++;
        if (threw && !fired) fail("conversion-threw", l);
        if (!threw && got != want) fail(std::string("wrong-value-") + ty, "text '" + text + "' read as " + got + " expected " + want + (fired ? " (after an allocation failure)" : ""));
        if (!equal(before, snap(*n))) fail("conversion-changed-document", l);
        { Track tr; n.reset(); std::string().swap(got); }
        if (alloc_live() != live0) fail("leak", l);
        c.nontrivial = true;
        c.observe(threw ? "threw" : want);
        c.state(fnv(std::string(1, ty) + a[2] + kind + (has ? "d" : "-") + (threw ? "t" : "")));
    }
    c.steps = steps_end();
}
Register r13({"C13", gen, exec, nullptr});
}  // namespace
